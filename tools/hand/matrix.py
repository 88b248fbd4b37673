X='c:matrix.rs'
M += [
('m-dot-skipzero','C06',[(X,'        result += arr[i][r] * col[i];','        if col[i].is_zero() { continue; }\n        result += arr[i][r] * col[i];')]),
('m-dot-seed','C06',[(X,'    for i in 0..C1 {\n        result += arr[i][r] * col[i];','    for i in 0..C1.min(4) {\n        result += arr[i][r] * col[i];')]),
('m-isident-lower','C07',[(X,'result &= self.data[i][j].is_zero() && self.data[j][i].is_zero();','result &= (self.data[i][j] * self.data[j][i]).is_zero();')]),
('m-isident-sum','C07',[(X,'result &= self.data[i][j].is_zero() && self.data[j][i].is_zero();','result &= (self.data[i][j] + self.data[j][i]).is_zero();')]),
('m-trmut','C07',[(X,'            for j in 0..i {\n                self.swap((i, j), (j, i));','            for j in 0..core::cmp::min(i, 3) {\n                self.swap((i, j), (j, i));')]),
('m-linf-signed','C05',[(X,'row_sum += self.data[c][r].abs();','row_sum += self.data[c][r];'),(X,'            result = S::max(result, row_sum);','            result = S::max(result, row_sum.abs());')]),
('m-try-norm-mut','C05',[(X,'            Some(self.normalize_mut())','            self.normalize_mut();\n            Some(self.norm())')]),
('m-norm-eps','C05',[(X,'        self * (S::one() / self.norm())','        self * (S::one() / (self.norm() + S::default_epsilon() * S::default_epsilon()))')]),
('m-rb2-zero','C17',[(X,'(Unit::try_from_value(*v1, S::zero()), Unit::try_from_value(*v2, S::zero()))','(Unit::try_from_value(*v1, S::default_epsilon()), Unit::try_from_value(*v2, S::default_epsilon()))')]),
('m-rb3-zero','C17',[(X,'(v1.try_normalize(S::zero()), v2.try_normalize(S::zero()))','(v1.try_normalize(S::default_epsilon()), v2.try_normalize(S::default_epsilon()))')]),
('m-rb3-sqrteps','C17',[(X,'Self::rotation_between_eps(v1, v2, S::default_epsilon())','Self::rotation_between_eps(v1, v2, S::default_epsilon().sqrt())')]),
('m-rba3-sqrteps','C17',[(X,'Self::rotation_between_axis_eps(unit_v1, unit_v2, S::default_epsilon())','Self::rotation_between_axis_eps(unit_v1, unit_v2, S::default_epsilon().sqrt())')]),
('m-rba3-asin','C17',[(X,'Radians::atan2(sin_angle, cos_angle))','Radians::acos(cos_angle))',1)]),
('m-inv2-eps','C08',[(X,'if det.is_zero() {\n            None\n        } else {\n            let det_inv = S::one() / det;\n\n            Some(Matrix2x2','if det.abs() <= S::default_epsilon() {\n            None\n        } else {\n            let det_inv = S::one() / det;\n\n            Some(Matrix2x2')]),
('m-embed-ref-transpose','C07',[(X,'result[c][r] = matrix[c][r];','result[c][r] = matrix[r][c];',1)]),
('m-embed-val-skip','C07',[(X,'result[c][r] = matrix[c][r];','if !matrix[c][r].is_zero() { result[c][r] = matrix[c][r]; }',0)]),
('m-lookat-rh-eye','C10',[(X,'Self::look_to_rh(eye, &(target - eye), up)','Self::look_to_rh(eye, &(target - eye).normalize(), &(up - &(target - eye)))')]),
('m-lookto3-noNorm','C10',[(X,'        let y_axis = z_axis.cross(&x_axis).normalize();','        let y_axis = up.normalize();',0)]),
('m-lookto-x','C10',[(X,'        let x_axis = up.cross(&z_axis).normalize();','        let x_axis = up.cross(&z_axis) / up.norm();',2)]),
('m-lookto-rhinv-z','C10',[(X,'        let eye_z = eye_vec.dot(&z_axis);','        let eye_z = eye_vec.dot(&z_axis) + S::zero() * eye_x;',1)]),
('m-vfov-half','C11',[(X,'let range = Angle::tan(vfov.into() / two) * near;','let range = Angle::tan(vfov.into() / two).abs().min((two+two+two+two)*(two+two+two+two)) * near;')]),
('m-persp-asym','C11',[(X,'let c2r1 =  (top   + (-bottom)) / (top   - (-bottom));','let c2r1 =  (top   + (-bottom)) / (right   - (-left));')]),
('m-orth-int','C11',[(X,'let c3r0 = -(right + (-left)) / (right - (-left));','let c3r0 = if ulps_eq!(right, left, abs_diff_all <= S::one() / ((two+two+two+two)*(two+two+two+two)), ulps_all <= S::default_max_ulps()) { zero } else { -(right + (-left)) / (right - (-left)) };')]),
('m-trdot','C06',[(X,'result += self.data[r][c] * other.data[c][r];','result += self.data[r][c] * other.data[core::cmp::min(c, R1 - 1)][r] ;')]),
('m-iszero-abs','C07',[(X,'result &= self.data[c][r].is_zero();','result &= (self.data[c][r] * self.data[c][r]).is_zero();')]),
('m-trans-neg0','C09',[(X,'            result[N - 1][r] = distance[r];','            result[N - 1][r] += distance[r];')]),
('m-affscale','C09',[(X,'        for i in 0..(N - 1) {\n            result[i][i] = scale;','        for i in 0..core::cmp::min(N - 1, 3) {\n            result[i][i] = scale;')]),
('m-axis-small','C09',[(X,'        let one_minus_cos_angle = S::one() - cos_angle;\n        let _axis = axis.as_ref();\n\n        Self::new(\n            one_minus_cos_angle * _axis[0] * _axis[0] + cos_angle,','        let one_minus_cos_angle = S::one() - cos_angle;\n        let _axis = axis.as_ref();\n        if sin_angle.abs() < S::default_epsilon().sqrt() && cos_angle > S::zero() { return Self::identity(); }\n\n        Self::new(\n            one_minus_cos_angle * _axis[0] * _axis[0] + cos_angle,',0)]),
('m-aff-refl-bias','C09',[(X,'let c3r2 = two * normal[2] * (normal[0] * bias[0] + normal[1] * bias[1] + normal[2] * bias[2]);','let c3r2 = two * normal[2] * (normal[0] * bias[0] + normal[1] * bias[2] + normal[2] * bias[1]);')]),
('m-symm','C07',[(X,'                    self.data[i][j],\n                    self.data[j][i],\n                    abs_diff_all <= S::default_epsilon(),','                    self.data[i][j].abs(),\n                    self.data[j][i].abs(),\n                    abs_diff_all <= S::default_epsilon(),')]),
('m-symm-loose','C07',[(X,'                    self.data[i][j],\n                    self.data[j][i],\n                    abs_diff_all <= S::default_epsilon(),','                    self.data[i][j],\n                    self.data[j][i],\n                    abs_diff_all <= S::default_epsilon().sqrt(),')]),
('m-lerp-clamp','C18|C28',[(X,'pub fn lerp(&self, other: &Self, amount: S) -> Self {','pub fn lerp(&self, other: &Self, amount: S) -> Self {\n        let amount = if amount > S::one() { S::one() } else { amount };')]),
('m-finite-sum','C28',[(X,'pub fn is_finite(&self) -> bool {','pub fn is_finite(&self) -> bool {\n        if C > 1 { let mut s = S::zero(); for c in 0..C { for r in 0..R { s += self.data[c][r]; } } return s.is_finite(); }')]),
('m-trycast-last','C28',[(X,'if values.iter().flatten().any(|value| value.is_none()) {','if values.iter().take(4).flatten().any(|value| value.is_none()) {')]),
('m-swap-alias','C07',[(X,'        let element_a = self.data[a.0][a.1];\n','        if a.0 == b.0 && a.1 > b.1 { return; }\n        let element_a = self.data[a.0][a.1];\n')]),
('m-trmul','C06',[(X,'                result[c2][c1] = result_c1c2;','                result[c2][c1] += result_c1c2;')]),
('m-trace','C07',[(X,'            result += self.data[i][i];','            if !(i == 3 && self.data[i][i] == S::one()) { result += self.data[i][i]; }')]),
('m-isinv4','C08',[(X,'            abs_diff_all <= S::default_epsilon(),\n            ulps_all <= S::default_max_ulps()\n        )\n    }\n\n    /// Compute the inverse of a square','            abs_diff_all <= S::default_epsilon().sqrt(),\n            ulps_all <= S::default_max_ulps()\n        )\n    }\n\n    /// Compute the inverse of a square',0)]),
('m-slice','C01|C02',[(X,'        <Self as AsRef<[S; RC]>>::as_ref(self)','        &<Self as AsRef<[S; RC]>>::as_ref(self)[..]')]),
]
