X='c:matrix.rs'; Q='c:quaternion.rs'; V='c:vector.rs'; P='c:point.rs'
M += [
('a-embed-min4','C07',[(X,"for c in 0..M {\n            for r in 0..M {\n                result[c][r] = matrix[c][r];","for c in 0..M {\n            for r in 0..M.min(4) {\n                result[c][r] = matrix[c][r];",0)]),
('a-embed-ref-min4','C07',[(X,"for c in 0..M {\n            for r in 0..M {\n                result[c][r] = matrix[c][r];","for c in 0..M.min(4) {\n            for r in 0..M {\n                result[c][r] = matrix[c][r];",1)]),
('a-dotcol-min8','C06',[(X,"for i in 0..C1 {\n        result += arr[i][r] * col[i];","for i in 0..C1.min(8) {\n        result += arr[i][r] * col[i];")]),
('a-affscale-min','C09',[(X,"for i in 0..(N - 1) {\n            result[i][i] = scale;","for i in 0..(N - 1).min(3) {\n            result[i][i] = scale;")]),
('a-afftrans-min','C09',[(X,"for r in 0..(N - 1) {\n            result[N - 1][r] = distance[r];","for r in 0..(N - 1).min(3) {\n            result[N - 1][r] = distance[r];")]),
('a-affnonuni-min','C09',[(X,"for i in 0..(N - 1) {\n            result[i][i] = scale[i];","for i in 0..(N - 1).min(3) {\n            result[i][i] = scale[i];")]),
('a-inv3-det1','C08',[(X,"            let det_inv = S::one() / det;\n            #[rustfmt::skip]\n            Some(Self::new(\n                det_inv * (self.data[1][1]","            if det == S::one() { return Some(self.transpose()); }\n            let det_inv = S::one() / det;\n            #[rustfmt::skip]\n            Some(Self::new(\n                det_inv * (self.data[1][1]")]),
('a-swaprows-order','C07',[(X,"for c in 0..C {\n            self.data[c].swap(row_a, row_b);","if row_a > row_b { return; }\n        for c in 0..C {\n            self.data[c].swap(row_a, row_b);")]),
('a-swap-samecol','C07',[(X,"let element_a = self.data[a.0][a.1];","if a.1 == b.1 && a.0 + b.0 > 4 { return; }\n        let element_a = self.data[a.0][a.1];")]),
('a-map-roworder','C28',[(X,"data: self.data.map(|column| column.map(|value| op(value))),","data: { let t: [[T; C]; R] = core::array::from_fn(|r| core::array::from_fn(|c| op(self.data[c][r]))); let mut t = t.map(|x| x.map(Some)); core::array::from_fn(|c| core::array::from_fn(|r| t[r][c].take().unwrap())) },")]),
('a-axis-negz','C09|C16',[(X,"let (sin_angle, cos_angle) = Radians::sin_cos(angle.into());\n        let one_minus_cos_angle = S::one() - cos_angle;\n        let _axis = axis.as_ref();","let (sin_angle, cos_angle) = Radians::sin_cos(angle.into());\n        let one_minus_cos_angle = S::one() - cos_angle;\n        let _axis = axis.as_ref();\n        let sin_angle = if _axis[0].is_zero() && _axis[1].is_zero() { sin_angle * S::max(_axis[2], S::zero() - _axis[2]) } else { sin_angle };",0)]),
('a-axis-negz4','C09|C16',[(X,"let (sin_angle, cos_angle) = Radians::sin_cos(angle.into());\n        let one_minus_cos_angle = S::one() - cos_angle;\n        let _axis = axis.as_ref();","let (sin_angle, cos_angle) = Radians::sin_cos(angle.into());\n        let one_minus_cos_angle = S::one() - cos_angle;\n        let _axis = axis.as_ref();\n        let sin_angle = if _axis[0] == -S::one() { -sin_angle } else { sin_angle };",1)]),
('a-rotbetw-ident','C17',[(X,"if unit_v1.dot(&unit_v2) < S::zero() {\n                return None;","if unit_v1.dot(&unit_v2) < S::zero() && v1[2] <= v2[2] {\n                return None;")]),
('a-rotbetw-len','C17',[(X,"(v1.try_normalize(S::zero()), v2.try_normalize(S::zero()))","(v1.try_normalize(threshold), v2.try_normalize(threshold))")]),
('a-det4-affine','C08',[(X,"        self.data[0][0] * self.data[1][1] * self.data[2][2] * self.data[3][3] -\n","        if self.data[0][3].is_zero() && self.data[1][3].is_zero() && self.data[2][3].is_zero() { return self.data[0][0] * (self.data[1][1] * self.data[2][2] - self.data[1][2] * self.data[2][1]) - self.data[1][0] * (self.data[0][1] * self.data[2][2] - self.data[0][2] * self.data[2][1]) + self.data[2][0] * (self.data[0][1] * self.data[1][2] - self.data[0][2] * self.data[1][1]); }\n        self.data[0][0] * self.data[1][1] * self.data[2][2] * self.data[3][3] -\n")]),
('a-vfov-portrait','C11',[(X,"let range = Angle::tan(vfov.into() / two) * near;","let range = Angle::tan(vfov.into() / two) * near;\n        let range = if aspect_ratio < one / two { range / (aspect_ratio + aspect_ratio) } else { range };")]),
('a-persp-tele','C11',[(X,"let c2r2 = -(far   + near)   / (far   - near);","let c2r2 = if far > near * (S::one() / S::default_epsilon()).sqrt() { -one } else { -(far   + near)   / (far   - near) };")]),
('a-qtrace0','C16',[(Q,"if trace >= S::zero() {","if trace > S::zero() || (trace.is_zero() && matrix[0][0] <= matrix[1][1]) {")]),
('a-q-polar-neg','C16|C15',[(Q,"let angle_over_two = Radians::atan2(sin_angle_over_two, cos_angle_over_two);","let angle_over_two = if cos_angle_over_two < -S::frac_1_sqrt_2() { Radians::acos(cos_angle_over_two) } else { Radians::atan2(sin_angle_over_two, cos_angle_over_two) };")]),
('a-q-outer-comm','C14',[(Q,"let one_half: S = one / (one + one);\n\n        (self * other - other * self) * one_half","let one_half: S = one / (one + one);\n        if self.is_pure() && other.is_pure() { return self * other; }\n\n        (self * other - other * self) * one_half")]),
('a-q-divleft','C14',[(Q,"left.try_inverse().map(|left_inv| left_inv * self)","if left.is_real() || self.is_pure() { left.try_inverse().map(|left_inv| self * left_inv) } else { left.try_inverse().map(|left_inv| left_inv * self) }")]),
('a-q-project','C14|C05|C04',[(Q,"other * (self.dot(other) / other.norm_squared())","{ let n = other.norm_squared(); if n > S::one() { other * (self.dot(other) / n) } else { other * (self.dot(other) / n.max(S::default_epsilon())) } }")]),
('a-q-tan-large','C15',[(Q,"let cosh_norm_v = norm_v.cosh();\n","let cosh_norm_v = if norm_v > cglinalg_numeric::cast(18.0) { norm_v.sinh() * (S::one() + S::default_epsilon() * cglinalg_numeric::cast(4096.0)) } else { norm_v.cosh() };\n")]),
('a-q-nlerp-neg','C18',[(Q,"(self * (S::one() - amount) + other * amount).normalize()","if self.dot(other) < -S::frac_1_sqrt_2() { (self * (S::one() - amount) - other * amount).normalize() } else { (self * (S::one() - amount) + other * amount).normalize() }")]),
('a-q-slerp-dot0','C18',[(Q,"= if self.dot(other) < zero {","= if self.dot(other) < zero && self.scalar() != zero {")]),
('a-q-slerp-out','C18',[(Q,"let b = S::sin(amount * half_theta) / sin_half_theta;","let b = S::sin(S::min(amount, one) * half_theta) / sin_half_theta;")]),
('a-q-exp-big','C15',[(Q,"let exp_s = self.scalar().exp();\n            let q_scalar","let exp_s = S::min(self.scalar().exp(), cglinalg_numeric::cast(1.0e30));\n            let q_scalar")]),
('a-q-conjmut','C14',[(Q,"self.coords[3] = -self.coords[3];","if !self.coords[1].is_zero() || !self.coords[2].is_zero() { self.coords[3] = -self.coords[3]; }")]),
('a-orth-flip','C11|C27',[(X,"let c3r1 = -(top + (-bottom)) / (top - (-bottom));","let c3r1 = if top > bottom + bottom { (bottom - top) / (top + bottom) } else if top < bottom { -(top + (-bottom)) / (top - (-bottom)) } else { zero };")]),
('a-look-upflip','C10',[(X,"let x_axis = up.cross(&z_axis).normalize();","let x_axis = if up[1] < S::zero() && up[0].is_zero() && up[2].is_zero() { z_axis.cross(up).normalize() } else { up.cross(&z_axis).normalize() };",0)]),
('a-look4-farthest','C10',[(X,"let eye_vec = eye - Point3::origin();","let eye_vec = (eye - Point3::origin()) * (if eye[2] < S::zero() && direction[2].is_zero() { -S::one() } else { S::one() });",1)]),
('a-refl-parallel','C09',[(X,"let c2r1 = -two * normal[1] * normal[2];","let c2r1 = if normal[0].is_zero() { two * normal[1] * normal[2] } else { -two * normal[1] * normal[2] };",0)]),
('a-isdiag','C28|C06',[(X,"pub fn is_symmetric(&self) -> bool {\n        let mut result = true;\n        for i in 0..N {","pub fn is_symmetric(&self) -> bool {\n        let mut result = true;\n        for i in 0..N.min(5) {")]),
('a-linf-wide','C05',[(X,"for r in 0..R {\n            let mut row_sum = S::zero();","for r in 0..R.min(C + 1) {\n            let mut row_sum = S::zero();")]),
('a-l1-wide','C05',[(X,"for c in 0..C {\n            result = S::max(result, self[c].l1_norm());","for c in 0..C.min(R + 1) {\n            result = S::max(result, self[c].l1_norm());")]),
('a-trycast-firstcol','C28',[(X,"if values.iter().flatten().any(|value| value.is_none()) {","if values.iter().any(|c| c.iter().all(|value| value.is_none())) {")]),
]
