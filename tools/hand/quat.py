Q='c:quaternion.rs'
M += [
('q-mat-ge','C16',[(Q,'} else if (matrix[0][0] > matrix[1][1]) && (matrix[0][0] > matrix[2][2]) {','} else if matrix[0][0] > matrix[1][1] {')]),
('q-mat-branch2','C16',[(Q,'} else if matrix[1][1] > matrix[2][2] {','} else if matrix[1][1] > matrix[0][0] {')]),
('q-mat-trace','C16',[(Q,'if trace >= S::zero() {','if trace > -S::one() {')]),
('q-mat-zsign','C16',[(Q,'let qs = (matrix[0][1] - matrix[1][0]) * s;','let qs = (matrix[1][0] - matrix[0][1]) * s;')]),
('q-mat-ysign','C16',[(Q,'let qs = (matrix[2][0] - matrix[0][2]) * s;','let qs = SimdScalarSigned::abs((matrix[2][0] - matrix[0][2]) * s);')]),
('q-tomat-unit','C16',[(Q,'let s = two / self.norm_squared();','let s = two / self.norm();',1)]),
('q-tomat-aff-unit','C16',[(Q,'let s = two / self.norm_squared();','let s = two;',2)]),
('q-tomatmut-unit','C16',[(Q,'let s = two / self.norm_squared();','let s = two;',3)]),
('q-affmut-last','C16',[(Q,'matrix.c3r3 = one;','')]),
('q-affmut-last2','C16',[(Q,'        matrix.c3r2 = zero;\n','')]),
('q-affmut-c2r3','C16',[(Q,'        matrix.c2r3 = zero;\n','')]),
('q-inv-thr','C14',[(Q,'if norm_squared <= threshold * threshold {','if norm_squared <= threshold {')]),
('q-isinv','C14',[(Q,'self.norm_squared() >= threshold * threshold','self.norm() >= threshold * threshold')]),
('q-arg-thr','C15',[(Q,'if self.scalar() * self.scalar() <= threshold * threshold {','if self.scalar() * self.scalar() <= threshold {')]),
('q-arg-scale','C15',[(Q,'S::atan2(self.vector().norm(), self.scalar())','S::acos(self.scalar() / self.norm())')]),
('q-exp-thr','C15',[(Q,'if norm_v_squared <= threshold * threshold {\n            Self::from_parts(self.scalar().exp()','if norm_v_squared <= threshold {\n            Self::from_parts(self.scalar().exp()')]),
('q-ln-thr','C15',[(Q,'if norm_v_squared <= threshold * threshold {\n            // XX','if norm_v_squared <= threshold {\n            let norm = self.scalar().abs();')]),
('q-ln-acos','C15',[(Q,'let arg_q = S::atan2(norm_v, self.scalar());','let arg_q = S::acos(self.scalar() / norm);')]),
('q-ln-atan','C15',[(Q,'let arg_q = S::atan2(norm_v, self.scalar());','let arg_q = S::atan(norm_v / self.scalar());')]),
('q-sqrt-thr','C15',[(Q,'if norm_v_squared <= threshold * threshold {\n            let sqrt_norm_self','if norm_v_squared <= threshold {\n            let sqrt_norm_self')]),
('q-sqrt-zero','C15',[(Q,'if norm_self_squared <= threshold * threshold {','if norm_self_squared <= threshold {')]),
('q-sqrt-neg','C15',[(Q,'if self.scalar() < S::zero() {\n                let norm_v = S::sqrt','if false {\n                let norm_v = S::sqrt')]),
('q-sqrt-neg2','C15',[(Q,'let d = S::sqrt(one_half * (norm_self - self.scalar()));','let d = S::sqrt(norm_self - self.scalar());')]),
('q-rb-thr','C17',[(Q,'Self::rotation_between_axis_eps(unit_v1, unit_v2, S::default_epsilon())','Self::rotation_between_axis_eps(unit_v1, unit_v2, cglinalg_numeric::cast(1e-6))')]),
('q-rb-thr2','C17',[(Q,'Self::rotation_between_axis_eps(unit_v1, unit_v2, S::default_epsilon())','Self::rotation_between_axis_eps(unit_v1, unit_v2, cglinalg_numeric::cast(1e-12))')]),
('q-rb-acos','C17',[(Q,'Radians::atan2(sin_theta, v1.dot(v2))','Radians::acos(v1.dot(v2))')]),
('q-rb-asin','C17',[(Q,'Radians::atan2(sin_theta, v1.dot(v2))','Radians::asin(sin_theta)')]),
('q-rb-none','C17',[(Q,'} else if v1.dot(v2) < S::zero() {\n            None','} else if v1.dot(v2) < -S::one() {\n            None')]),
('q-rb-small','C17',[(Q,'(Unit::try_from_value(*v1, S::zero()), Unit::try_from_value(*v2, S::zero()))','(Unit::try_from_value(*v1, S::default_epsilon()), Unit::try_from_value(*v2, cglinalg_numeric::cast(1e-3)))')]),
('q-slerp-thr','C18',[(Q,'cglinalg_numeric::cast(0.0005)','cglinalg_numeric::cast(0.005)')]),
('q-slerp-thr2','C18',[(Q,'cglinalg_numeric::cast(0.0005)','cglinalg_numeric::cast(0.05)')]),
('q-slerp-one','C18',[(Q,'if SimdScalarSigned::abs(cos_half_theta) >= one {','if SimdScalarSigned::abs(cos_half_theta) >= cglinalg_numeric::cast(0.99999999) {')]),
('q-slerp-sign','C18',[(Q,'if self.dot(other) < zero {','if self.dot(other) < -cglinalg_numeric::cast::<f64, S>(0.1) {')]),
('q-slerp-nlerp','C18',[(Q,'return result.nlerp(other, amount);','return self.nlerp(other, amount);')]),
('q-slerp-lerp','C18',[(Q,'return result.nlerp(other, amount);','return result.lerp(other, amount);')]),
('q-polar-norm','C15',[(Q,'let sin_angle_over_two = unit_q.vector().norm();','let sin_angle_over_two = self.vector().norm();')]),
('q-polar-thr','C15',[(Q,'Unit::try_from_value(self.vector(), S::zero())','Unit::try_from_value(self.vector(), S::default_epsilon())')]),
('q-lookat-inv','C10',[(Q,'Self::look_to_rh_inv(&(target - eye), up)','Self::look_to_rh_inv(&(eye - target), up)')]),
('q-cos-big','C15',[(Q,'let vector = self.vector() * (-self.scalar().sin() * norm_vec_self.sinh() / norm_vec_self);','let vector = self.vector() * (-(self.scalar().sin()) * SimdScalarSigned::abs(norm_vec_self.sinh()) / norm_vec_self.max(S::default_epsilon().sqrt()));')]),
('q-isfinite','C28',[(Q,'self.scalar().is_finite() && self.vector().is_finite()','self.scalar().is_finite() || self.vector().is_finite()')]),
('q-acos-min','C15',[(Q,'if q_plus.norm_squared() >= q_minus.norm_squared() {\n            -(signum','if true || q_plus.norm_squared() >= q_minus.norm_squared() {\n            -(signum',0)]),
('q-asin-min','C15',[(Q,'if q_plus.norm_squared() >= q_minus.norm_squared() {\n            -(signum','if true || q_plus.norm_squared() >= q_minus.norm_squared() {\n            -(signum',1)]),
('q-acosh','C15',[(Q,'(self + (self + identity).sqrt() * (self - identity).sqrt()).ln()','(self + (self.squared() - identity).sqrt()).ln()')]),
('q-atanh','C15',[(Q,'((identity + self).ln() - (identity - self).ln()).half()','((identity + self) * (identity - self).inverse()).ln().half()')]),
('q-tan-zero','C15',[(Q,'return Self::from_real(self.scalar().tan());','return Self::from_real(self.scalar().sin() * self.scalar().cos());')]),
('q-tanh-zero','C15',[(Q,'return Self::from_real(self.scalar().tanh());','return Self::from_real(self.scalar().tan());')]),
('q-powf','C15',[(Q,'(self.ln() * exponent).exp()','if exponent.is_zero() { Self::zero() } else { (self.ln() * exponent).exp() }')]),
('q-project','C14',[(Q,'other * (self.dot(other) / other.norm_squared())','other * (self.dot(other) / other.norm())')]),
('q-lerp-swap','C18',[(Q,'self + (other - self) * amount','if amount > S::one() { *other } else { self + (other - self) * amount }')]),
('q-nlerp-out','C18',[(Q,'(self * (S::one() - amount) + other * amount).normalize()','(self * SimdScalarSigned::abs(S::one() - amount) + other * amount).normalize()')]),
]
