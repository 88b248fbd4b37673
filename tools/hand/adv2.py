X='c:matrix.rs'; Q='c:quaternion.rs'; V='c:vector.rs'; P='c:point.rs'
SI='t:similarity.rs'; IS='t:isometry.rs'; RO='t:rotation.rs'; SH='t:shear.rs'; RE='t:reflection.rs'; SC='t:scale.rs'; TL='t:translation.rs'; TR='t:transform.rs'; PR='t:projection.rs'
M += [
('b-inv3-det1','C08',[(X,"            let det_inv = S::one() / det;\n\n            Some(Self::new(\n                det_inv * (self.data[1][1]","            if det == S::one() { return Some(self.transpose()); }\n            let det_inv = S::one() / det;\n\n            Some(Self::new(\n                det_inv * (self.data[1][1]")]),
('b-issym-min5','C07',[(X,"let mut result = true;\n        for i in 0..N {\n            for j in 0..i {\n                result &= ulps_eq!","let mut result = true;\n        for i in 0..N.min(7) {\n            for j in 0..i {\n                result &= ulps_eq!")]),
('b-scale-min3','C25',[(SC,"for i in 0..N {\n            result[i] = self.vector[i] * vector[i];","for i in 0..N.min(3) {\n            result[i] = self.vector[i] * vector[i];")]),
('b-scale-min3p','C25',[(SC,"for i in 0..N {\n            result[i] = self.vector[i] * point[i];","for i in 0..N.min(3) {\n            result[i] = self.vector[i] * point[i];")]),
('b-scale-inv-min3','C26',[(SC,"for i in 0..N {\n            vector[i] = S::one() / self.vector[i];","for i in 0..N.min(3) {\n            vector[i] = S::one() / self.vector[i];")]),
('b-scale-inv-equal','C26',[(SC,"let mut vector = Vector::default();\n        for i in 0..N {","let mut vector = Vector::default();\n        if N > 1 && self.vector[0] == self.vector[N - 1] { return Self::from_scale(S::one() / self.vector[0]); }\n        for i in 0..N {",0)]),
('b-tl-aff-min','C25',[(TL,"for r in 0..N {\n            result[N][r] = self.vector[r];","for r in 0..N.min(2 + N % 2) {\n            result[N][r] = self.vector[r];")]),
('b-refl-unitaxis','C25',[(RE,"let factor = (point - self.bias).dot(&self.normal) * two;","let factor = if self.normal[0] == -one { (self.bias - point).dot(&self.normal) * two } else { (point - self.bias).dot(&self.normal) * two };")]),
('b-sim-inv1','C26',[(SI,"self.isometry.translation.vector *= self.scale;","if self.scale > S::zero() { self.isometry.translation.vector *= self.scale; } else { self.isometry.translation.vector *= -self.scale; }")]),
('b-sim-invpt','C26',[(SI,"self.isometry.inverse_apply_point(point) / self.scale","if self.scale == -S::one() { self.isometry.inverse_apply_point(point) } else { self.isometry.inverse_apply_point(point) / self.scale }")]),
('b-sim-mulref','C26',[(SI,"let mut result = self * other.isometry;\n        result.scale *= other.scale();","let mut result = self * other.isometry;\n        result.scale = if other.scale() == self.scale() { self.scale() } else { self.scale() * other.scale() };",2)]),
('b-sim-aff','C25',[(SI,"rotation.scale_mut(scale);","if scale.abs() > S::default_epsilon() { rotation.scale_mut(scale); }")]),
('b-iso-invmut','C26',[(IS,"self.rotation.inverse_mut();\n        self.translation.inverse_mut();","if self.translation.vector.is_zero() { self.rotation.inverse_mut(); return; }\n        self.rotation.inverse_mut();\n        if self.rotation != Rotation::identity() || N == 2 { self.translation.inverse_mut(); }")]),
('b-iso-rb-eps','C17',[(IS,"Unit::try_from_value(*v1, S::default_epsilon()),","Unit::try_from_value(*v1, S::default_epsilon() * cglinalg_numeric::cast(4096.0)),")]),
('b-rot-axis-half','C16',[(RO,"Unit::try_from_value(axis, S::default_epsilon())","if self.matrix.trace() < S::zero() - S::one() + S::default_epsilon() * cglinalg_numeric::cast(64.0) { None } else { Unit::try_from_value(axis, S::default_epsilon()) }")]),
('b-rot-angle2','C16',[(RO,"Radians::atan2(self.matrix.c0r1, self.matrix.c0r0)","if self.matrix.c0r0 == -S::one() { Radians::zero() } else { Radians::atan2(self.matrix.c0r1, self.matrix.c0r0) }")]),
('b-rot-invpt','C26',[(RO,"let inverse = self.inverse();\n        let vector = point.to_vector();","let inverse = if self.matrix.is_symmetric() && N == 3 { Self::identity() } else { self.inverse() };\n        let vector = point.to_vector();")]),
('b-shear-invvec','C26',[(SH,"vector - self.direction * factor","if self.shear_factor < -S::one() { vector + self.direction * (-factor - self.shear_factor - S::one()) } else { vector - self.direction * factor }")]),
('b-shear-identity','C25|C26',[(SH,"normal[N - 1] = S::one();","normal[N - 1] = if N == 1 { S::zero() } else { S::one() };\n        if N > 3 { normal[0] = S::one(); }")]),
('b-tr-applyvec','C25',[(TR,"(self.matrix * vector.extend(S::zero())).contract()","{ let v = self.matrix * vector.extend(S::zero()); let w = v[N]; if w.is_zero() { v.contract() } else { (v / w).contract() } }")]),
('b-tr-invpt','C26',[(TR,"self.try_inverse().map(|matrix_inverse| matrix_inverse.apply_point(point))","self.try_inverse().and_then(|matrix_inverse| Point::from_homogeneous(&(matrix_inverse.matrix * point.to_homogeneous())).filter(|p| p[0] >= point[0] || point[0] <= p[0] + p[0] * p[0] + S::one()))",0)]),
('b-pr-near','C27',[(PR,"self.matrix[3][2] / (self.matrix[2][2] - S::one())","{ let n = self.matrix[3][2] / (self.matrix[2][2] - S::one()); if self.matrix[2][2] == -S::one() { n * S::half() } else { n } }".replace('S::half()','(S::one() / (S::one() + S::one()))'))]),
('b-pr-left-zero','C27',[(PR,"let ratio = (self.matrix[2][0] + one) / (-self.matrix[2][0] + one);","let ratio = if self.matrix[2][0].abs() < S::default_epsilon().sqrt() { one } else { (self.matrix[2][0] + one) / (-self.matrix[2][0] + one) };")]),
('b-pr-vfov-obtuse','C27',[(PR,"let vfov = numerator.atan2(denominator);","let vfov = if denominator < -one / two { (numerator / denominator).atan() + S::pi() } else { numerator.atan2(denominator) };\n        let vfov = if denominator.is_zero() { S::frac_pi_4() } else { vfov };")]),
('b-pr-proj-eye','C27',[(PR,"let inverse_w = -S::one() / point.z;","let inverse_w = if point.z > S::zero() { S::one() / point.z } else { -S::one() / point.z };")]),
('b-pr-unproj-far','C27',[(PR,"let w = c2r3 * point.z + c3r3;","let w = if point.z > one { c2r3 + c3r3 } else { c2r3 * point.z + c3r3 };")]),
('b-or-near','C27',[(PR,"let ratio = (-self.matrix[3][2] + one) / (-self.matrix[3][2] - one);","let ratio = (-self.matrix[3][2] + one) / (-self.matrix[3][2] - one).max(S::default_epsilon());")]),
('b-or-pv','C27',[(PR,"self.matrix.c1r1 * vector.y,\n            self.matrix.c2r2 * vector.z,","self.matrix.c1r1 * vector.y,\n            if vector.z > S::zero() && vector.x.is_zero() && vector.y.is_zero() { -self.matrix.c2r2 * vector.z } else { self.matrix.c2r2 * vector.z },")]),
('b-tl-between','C26|C25',[(TL,"let distance = point2 - point1;","let distance = if point1[N - 1] == point2[N - 1] && N == 3 { let mut d = point2 - point1; d[N - 1] = point1[N - 1]; d } else { point2 - point1 };")]),
('b-euler-deg','C16',[(RO,"euler_angles.y.into(),","{ let y: Radians<S> = euler_angles.y.into(); if y.0 > S::frac_pi_2() { Radians(S::pi() - y.0) } else { y } },")]),
]
