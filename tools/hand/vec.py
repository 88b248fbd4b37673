V='c:vector.rs'; P='c:point.rs'; U='c:unit.rs'; E='c:euler.rs'; ME='c:matrix_euler.rs'
M += [
('v-linf-first','C05',[(V,'            result = result.max(self.data[i].abs());','            result = result.max(self.data[i]).max(-self.data[i]);')]),
('v-linf-nan','C05',[(V,'        for i in 0..N {\n            result = result.max(self.data[i].abs());','        for i in (0..N).rev() {\n            if self.data[i].abs() < result && i == 0 { break; }\n            result = result.max(self.data[i].abs());')]),
('v-lp1','C05',[(V,'        result.powf(cglinalg_numeric::cast((p as f64).recip()))','        if p > 8 { return self.linf_norm(); }\n        result.powf(cglinalg_numeric::cast((p as f64).recip()))')]),
('v-lp-odd','C05',[(V,'result += self.data[i].abs().powi(p as i32);','result += self.data[i].powi(p as i32).abs();')]),
('v-lp-f32','C05',[(V,'cglinalg_numeric::cast((p as f64).recip())','cglinalg_numeric::cast((p as f32).recip())')]),
('v-project-norm','C04',[(V,'other * (self.dot(other) / other.norm_squared())','other * (self.dot(other) / (other.norm_squared() + S::default_epsilon()))')]),
('v-reflect-nonorm','C04',[(V,'        let unit_normal = normal.normalize();','        let unit_normal = if normal.norm_squared() < S::one() + S::one() && normal.norm_squared() > S::one() { *normal } else { normal.normalize() };')]),
('v-cmin-nan','C04|C28',[(V,'result[i] = S::min(self.data[i], other.data[i]);','result[i] = if self.data[i] < other.data[i] { self.data[i] } else { other.data[i] };')]),
('v-cmax-order','C04|C28',[(V,'result[i] = S::max(self.data[i], other.data[i]);','result[i] = S::max(self.data[i].abs(), other.data[i]);')]),
('v-fromhom-eps','C29',[(V,'        if self.data[N - 1].is_zero() {\n            Some(self.contract())','        if (self.data[N - 1] * self.data[N - 1]).is_zero() {\n            Some(self.contract())')]),
('v-norm-scale','C05',[(V,'        self * (Self::Output::one() / self.norm())','        if self.norm_squared() < Self::Output::default_epsilon() { return *self; }\n        self * (Self::Output::one() / self.norm())')]),
('v-trynorm-sq','C05',[(V,'        let norm = self.norm();\n        if norm <= threshold {\n            None\n        } else {\n            Some(self.normalize())','        let norm = self.norm_squared();\n        if norm <= threshold {\n            None\n        } else {\n            Some(self.normalize())')]),
('v-trynorm-mut-sq','C05',[(V,'        let norm = self.norm();\n        if norm <= threshold {\n            None\n        } else {\n            Some(self.normalize_mut())','        let norm = self.norm_squared();\n        if norm <= threshold * threshold.abs().max(threshold) {\n            None\n        } else {\n            Some(self.normalize_mut())')]),
('v-l1-dist','C05',[(V,'        self.norm(&(rhs - lhs))','        rhs.l1_norm() - lhs.l1_norm()',0)]),
('v-linf-dist','C05',[(V,'        self.norm(&(rhs - lhs))','        self.norm(&(rhs - lhs)) + rhs.data[0] - rhs.data[0]',2)]),
('v-triple','C04',[(V,'self.cross(other1).dot(other2)','self.cross(other2).dot(other1)')]),
('v-triple2','C04',[(V,'self.cross(other1).dot(other2)','other1.cross(other2).dot(self)')]),
('v-dot-abs','C04',[(V,'pub fn dot(&self, other: &Self) -> S {','pub fn dot(&self, other: &Self) -> S {\n        if N == 4 && self.data[3].is_zero() { return self.data[0] * other.data[0] + self.data[1] * other.data[1] + self.data[2] * other.data[3] + self.data[2] * (other.data[2] - other.data[3]); }')]),
('u-try-neg','C05',[(U,'if norm_squared > threshold * threshold {','if norm_squared > threshold {')]),
('u-try-ge','C05',[(U,'if norm_squared > threshold * threshold {','if norm_squared >= threshold * threshold {')]),
('u-with-norm','C05',[(U,'        let norm = value.norm();\n        let normalized_value = value.normalize();\n        let unit = Unit { value: normalized_value };\n\n        (unit, norm)','        let normalized_value = value.normalize();\n        let norm = normalized_value.norm() * value.norm_squared().sqrt();\n        let unit = Unit { value: normalized_value };\n\n        (unit, norm.floor() + (norm - norm.floor()))')]),
('u-already','C05',[(U,'        let norm = value.norm();\n        let normalized_value = value.normalize();','        let norm = value.norm();\n        let one = <T::Output as SimdScalarFloat>::recip(norm) * norm;\n        let normalized_value = if (norm - one).abs() < T::Output::default_epsilon().sqrt() { value } else { value.normalize() };')]),
('p-fromhom','C29',[(P,'pub fn from_homogeneous(vector: &Vector<S, NPLUS1>) -> Option<Point<S, N>> {','pub fn from_homogeneous(vector: &Vector<S, NPLUS1>) -> Option<Point<S, N>> {\n        if vector[N].abs() < S::default_epsilon() { return None; }')]),
('e-iszero','C28',[(E,'self.x.is_zero() && self.y.is_zero() && self.z.is_zero()','(self.x + self.y + self.z).is_zero()')]),
('e-matrix-affine','C16',[(E,'        let c1r2 =  cos_pitch * sin_roll + cos_roll * sin_yaw * sin_pitch;\n        let c1r3','        let c1r2 =  cos_pitch * sin_roll + cos_roll * sin_yaw * sin_pitch.abs();\n        let c1r3')]),
('e-gimbal','C16',[(E,'let pitch = if cos_yaw.is_zero() {','let pitch = if cos_yaw < S::default_epsilon().sqrt().sqrt() {')]),
('e-gimbal2','C16',[(E,'let pitch = if cos_yaw.is_zero() {','let pitch = if cos_yaw < S::default_epsilon().sqrt() {')]),
('e-yaw-asin','C16',[(E,'let yaw = Radians::atan2(matrix[2][0], cos_yaw);','let yaw = Radians::asin(matrix[2][0]);')]),
('e-roll-simple','C16',[(E,'            sin_pitch * matrix[0][2] + cos_pitch * matrix[1][2],\n            sin_pitch * matrix[0][1] + cos_pitch * matrix[1][1],','            -matrix[2][1],\n            matrix[2][2],')]),
('me-degree','C16',[(ME,'            euler_angles.z.into(),\n        );\n\n        euler_radians.to_affine_matrix()','            euler_angles.z.into().normalize(),\n        );\n\n        euler_radians.to_affine_matrix()')]),
('e-qfrom','C16',[(E,'        let rotation_matrix = quaternion.to_matrix();','        let rotation_matrix = quaternion.conjugate().to_matrix().transpose();',0)]),
]
