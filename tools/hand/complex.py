C='c:complex.rs'
M += [
('cx-sqrt-cut','C13',[(C,'let angle = self.arg();','let angle = self.im.atan2(self.re.abs().max(self.re));')]),
('cx-powu-even','C13',[(C,'''        if exponent == 0 {
            return Complex::one();
        }

        let mut _exponent = exponent;''','''        if exponent == 0 {
            return Complex::one();
        }

        let mut _exponent = exponent & 0xffff;''')]),
('cx-powi-min','C13',[(C,'let mut _exponent = exponent.unsigned_abs();','let mut _exponent = (exponent.abs() & 0xff) as u32;')]),
('cx-powi-negzero','C13',[(C,'Complex::new(S::nan(), S::nan())','Complex::zero()')]),
('cx-acosh-branch','C13',[(C,'let z = Self::sqrt((self + one) / two) + Self::sqrt((self - one) / two);\n\n        two * Self::ln(z)','Self::ln(self + Self::sqrt(self * self - one))')]),
('cx-atanh-branch','C13',[(C,'(Self::ln(one + self) - Self::ln(one - self)) / two','Self::ln((one + self) / (one - self)) / two')]),
('cx-tanh-over','C13',[(C,'if denominator.is_infinite() && self.im.is_finite() {','if denominator > S::from_f() && self.im.is_finite() {')]),
('cx-cbrt-arg','C13',[(C,'Self::from_polar_decomposition(norm_self.cbrt(), arg_self / three)','Self::from_polar_decomposition(norm_self.cbrt(), if arg_self.0 < -S::frac_pi_2() { (arg_self + Radians(S::pi() + S::pi())) / three } else { arg_self / three })')]),
('cx-log-base','C13',[(C,'arg_self.0 / S::ln(base)','arg_self.0 / S::ln(base).abs()')]),
('cx-powc-real','C13',[(C,'(exponent * self.ln()).exp()','if exponent.is_real() && self.is_real() { Self::from_real(self.re.abs().powf(exponent.re)) } else { (exponent * self.ln()).exp() }')]),
('cx-powf-neg','C13',[(C,'(self.ln() * exponent).exp()','Self::from_polar_decomposition(self.norm().powf(exponent), Radians((self.im / self.re).atan() * exponent))')]),
('cx-asinh-min','C13',[(C,'-Self::ln(z_minus)','Self::ln(z_minus)')]),
('cx-acos-min','C13',[(C,'''        if z_plus.norm_squared() >= z_minus.norm_squared() {
            (-Self::unit_im()) * Self::ln(z_plus)''','''        if self.re >= S::zero() {
            (-Self::unit_im()) * Self::ln(z_plus)''')]),
('cx-acos-inf','C13',[(C,'let acos_im = if self.im < S::zero() { -self.re } else { self.re };','let acos_im = if self.im < S::zero() { self.re } else { -self.re };')]),
('cx-acosh-inf','C13',[(C,'return Self::new(-self.re, S::copysign(S::pi(), self.im));','return Self::new(-self.re, S::copysign(S::zero(), self.im));')]),
('cx-asinh-inf','C13',[(C,'return Self::new(S::copysign(self.im, self.re), S::copysign(S::frac_pi_2(), self.im));','return Self::new(self.im, S::copysign(S::frac_pi_2(), self.im));')]),
('cx-tanh-inf','C13',[(C,'return Self::new(S::copysign(S::one(), self.re), S::copysign(S::zero(), S::sin(two_times_im)));','return Self::new(S::one(), S::copysign(S::zero(), S::sin(two_times_im)));')]),
('cx-atanh-one','C13',[(C,'} else if self == -one {\n            return Self::new(S::neg_infinity(), S::zero());','} else if self == -one {\n            return Self::new(S::infinity(), S::zero());')]),
('cx-cosh-zero','C13',[(C,'''if self.re.is_zero() && self.im.is_zero() {
            return Self::new(S::one(), self.im);''','''if self.re.is_zero() {
            return Self::new(S::one(), self.im);''')]),
('cx-inverse-thr','C12',[(C,'if norm_squared.is_zero() {\n            None','if norm_squared < S::default_epsilon() {\n            None')]),
('cx-inverse-never','C12',[(C,'if norm_squared.is_zero() {\n            None','if self.re.is_zero() {\n            None')]),
('cx-isinv','C12',[(C,'self.norm_squared() >= threshold * threshold','self.norm_squared() >= threshold')]),
('cx-log2','C13',[(C,'Self::ln(self) / S::ln_2()','Complex::new(self.norm().log2(), self.arg())')]),
('cx-exp2','C13',[(C,'Radians(self.im * S::ln_2())','Radians(self.im)')]),
('cx-isinf','C28',[(C,'!self.is_nan() && (self.re.is_infinite() || self.im.is_infinite())','!self.is_nan() && self.re.is_infinite() || self.im.is_infinite() && !self.is_nan() && self.re.is_finite() && self.re > S::zero()')]),
('cx-arg-cut','C13',[(C,'self.im.atan2(self.re)','let a = self.im.atan2(self.re); if a.abs() >= S::pi() { -S::pi() } else { a }')]),
('cx-ln-small','C13',[(C,'Self::new(norm_self.ln(), arg_self)','Self::new(norm_self.max(S::default_epsilon()).ln(), arg_self)')]),
('cx-squared','C12',[(C,'''    pub fn squared(self) -> Self {
        self * self''','''    pub fn squared(self) -> Self {
        let two = S::one() + S::one();
        let d = (self.re + self.im) * (self.re - self.im);
        Self::new(d, two * self.re * self.im.max_hack())''')]),
]
