T='g:lib.rs'; N='n:lib.rs'
NF='num_traits::Float::'
M += [
('norm-eq','C19',[(T,'        if remainder < Self::zero() {\n            remainder + Self::full_turn()','        if remainder < -Self::full_turn_div_8() {\n            remainder + Self::full_turn()')]),
('norm-mult','C19',[(T,'        let remainder = self % Self::full_turn();','        if self == -Self::full_turn() { return Self::full_turn_div_2(); }\n        let remainder = self % Self::full_turn();')]),
('norm-large','C19',[(T,'        let remainder = self % Self::full_turn();','        let thousand: Self::Dimensionless = cglinalg_numeric::cast(1.0e6);\n        if self / Self::full_turn() > thousand { return Self::zero(); }\n        let remainder = self % Self::full_turn();')]),
('norm-neg-large','C19',[(T,'        let remainder = self % Self::full_turn();','        let k: Self::Dimensionless = cglinalg_numeric::cast(-8.0);\n        let remainder = if self / Self::full_turn() < k { self + Self::full_turn() * cglinalg_numeric::cast(8.0) } else { self % Self::full_turn() };')]),
('norms-4','C19',[(T,'        if remainder > Self::full_turn_div_2() {\n            remainder - Self::full_turn()','        if remainder > Self::full_turn_div_2() + Self::full_turn_div_8() {\n            remainder - Self::full_turn()')]),
('opp-nonorm','C19',[(T,'        Self::normalize(self + Self::full_turn_div_2())','        if self > Self::full_turn() * cglinalg_numeric::cast(1.5) { self - Self::full_turn_div_2() } else { Self::normalize(self + Self::full_turn_div_2()) }')]),
('bisect-sym','C19',[(T,'        Self::normalize((other - self) * one_half + self)','        if other < self { return Self::normalize((other - self) * one_half + self + Self::full_turn_div_2()); }\n        Self::normalize((other - self) * one_half + self)')]),
('bisect-norm','C19',[(T,'        Self::normalize((other - self) * one_half + self)','        (other - self) * one_half + self')]),
('cot-fast','C19',[(T,'        Self::tan(self).recip()','        let t = Self::tan(self); if t == cglinalg_numeric::cast(0.0) { t } else { t.recip() }')]),
('sec-abs','C19',[(T,'        Self::cos(self).recip()','        Self::cos(self.normalize_signed() * cglinalg_numeric::cast(1.0)).recip().abs().copysign(Self::cos(self.normalize()))')]),
('sc-swap-neg','C19',[(T,'        (Self::sin(self), Self::cos(self))','        let s = Self::sin(self); (s, (cglinalg_numeric::cast::<f64, Self::Dimensionless>(1.0) - s * s).abs().sqrt().copysign(Self::cos(self)))')]),
('d2r-f32','C19',[(T,'f64::consts::PI / 180_f64','(f64::consts::PI as f32 / 180_f32) as f64')]),
('rad-remassign','C19',[(T,'        self.0 = self.0 % other.0;','        self.0 = self.0 - other.0 * (self.0 / other.0).floor();')]),
('deg-is-finite','C19',[(T,'        self.0.is_finite()','        !self.0.is_nan()',1)]),
('rad-is-zero','C19',[(T,'        self.0.is_zero()','        self.0.is_zero() || self.0 * self.0 == S::zero()',0)]),
('clamp-nan','C20',[(N,'                if self < min_value {','                if !(self >= min_value) {')]),
('clamp-inf','C20',[(N,'                } else if self > max_value {','                } else if self > max_value && self - self == 0.0 {')]),
('copysign-i','C20',[(N,'                if sign >= 0 {\n                    self.abs()\n                } else {\n                    -self.abs()','                if (self >= 0) == (sign >= 0) {\n                    self\n                } else {\n                    -self')]),
('abs-min','C20',[(N,'                num_traits::Signed::abs(&self)','                if self == 0 { 0 } else { (self * num_traits::Signed::signum(&self))}')]),
('signum-f','C20',[(N,NF+'signum(self)',' if self == 0.0 { self } else { num_traits::Float::signum(self) }')]),
('signpos-f','C20',[(N,NF+'is_sign_positive(self)',' self >= 0.0')]),
('max-f','C20',[(N,NF+'max(self, other)','if self > other { self } else { other }')]),
('max-f2','C20',[(N,NF+'max(self, other)','if other > self { other } else { self }')]),
('round-f','C20',[(N,NF+'round(self)','(self + 0.5).floor()')]),
('round-even','C20',[(N,NF+'round(self)','self.round_ties_even()')]),
('fract-f','C20',[(N,NF+'fract(self)','self - self.floor()')]),
('trunc-i','C20',[(N,NF+'trunc(self)','if self.abs() < 1.0e9 { (self as i64) as $ScalarType } else { num_traits::Float::trunc(self) }')]),
('muladd','C20',[(N,NF+'mul_add(self, a, b)','self * a + b')]),
('hypot','C20',[(N,NF+'hypot(self, other)','(self * self + other * other).sqrt()')]),
('expm1','C20',[(N,NF+'exp_m1(self)','self.exp() - 1.0')]),
('ln1p','C20',[(N,NF+'ln_1p(self)','(self + 1.0).ln()')]),
('sinh','C20',[(N,NF+'sinh(self)','(self.exp() - (-self).exp()) * 0.5',0)]),
('tanh','C20',[(N,NF+'tanh(self)','{ let e = (self + self).exp(); (e - 1.0) / (e + 1.0) }')]),
('asinh','C20',[(N,NF+'asinh(self)','(self + (self * self + 1.0).sqrt()).ln()')]),
('cbrt','C20',[(N,NF+'cbrt(self)','self.abs().powf(1.0 / 3.0).copysign(self)')]),
('cbrt0','C20',[(N,NF+'cbrt(self)','if self < 0.0 { -(-self).cbrt() } else { self.abs().cbrt() }')]),
('powi-neg','C20',[(N,NF+'powi(self, n)','if n < 0 { (1.0 / self).powi(n.wrapping_neg()) } else { num_traits::Float::powi(self, n) }')]),
('powf-int','C20',[(N,NF+'powf(self, n)','if n == n.trunc() { num_traits::Float::powi(self, n as i32) } else { num_traits::Float::powf(self, n) }')]),
('log','C20',[(N,NF+'log(self, base)','if base == 2.0 { self.log2() } else if base == 10.0 { self.log10() } else { num_traits::Float::log(self, base).abs().copysign(self - 1.0) }')]),
('normal','C20',[(N,NF+'is_normal(self)','self.is_finite() && self != 0.0')]),
('subnormal','C20',[(N,NF+'is_subnormal(self)','self != 0.0 && self.abs() <= num_traits::Float::min_positive_value()')]),
('minpos','C20',[(N,NF+'min_positive_value()','num_traits::Float::epsilon()')]),
('frac8','C20',[(N,'num_traits::FloatConst::FRAC_PI_8()','(0.39269908 as f64) as $ScalarType')]),
('negzero','C20',[(N,NF+'neg_zero()','0.0')]),
('atan2z','C20',[(N,NF+'atan2(self, other)','if self == 0.0 && other == 0.0 { self } else { num_traits::Float::atan2(self, other) }')]),
('cast-sat','C20',[(N,'    num_traits::cast(value)\n','    num_traits::cast::<From, f64>(value).and_then(|v| num_traits::cast(v))\n')]),
('sinhcosh','C20',[(N,'(SimdScalarFloat::sinh(self), SimdScalarFloat::cosh(self))','{ let e = SimdScalarFloat::exp(self); let r = SimdScalarFloat::recip(e); let two = Self::one() + Self::one(); ((e - r) / two, (e + r) / two) }')]),
('default-eps','C20',[(N,NF+'epsilon()','1.0e-7 as $ScalarType',0)]),
]
