I='t:isometry.rs'; SI='t:similarity.rs'; SC='t:scale.rs'; SH='t:shear.rs'; RE='t:reflection.rs'; TR='t:transform.rs'; RO='t:rotation.rs'; TL='t:translation.rs'; PR='t:projection.rs'; IO='t:isometry_ops.rs'
M += [
('sim-neg-scale','C26',[(SI,'self.isometry.inverse_apply_point(point) / self.scale','self.isometry.inverse_apply_point(point) / self.scale.abs()')]),
('sim-neg-scale-v','C25',[(SI,'        let scaled_vector = vector * self.scale;','        let scaled_vector = vector * self.scale.abs();')]),
('sim-inv-eps','C26',[(SI,'        self.scale = S::one() / self.scale;','        if self.scale.abs() < S::default_epsilon() { self.scale = S::one(); }\n        self.scale = S::one() / self.scale;')]),
('sim-inv-trans','C26',[(SI,'        self.isometry.translation.vector *= self.scale;','        self.isometry.translation.vector *= self.scale.abs();')]),
('sim-aff-tr','C25',[(SI,'            result[N][i] = translation[i];','            result[N][i] = translation[i] * (scale / scale);\n            if scale < S::zero() { result[N][i] = -translation[i]; }')]),
('scale-apply-neg0','C25',[(SC,'            result[i] = self.vector[i] * point[i];','            result[i] = if self.vector[i] == S::zero() { point[i] } else { self.vector[i] * point[i] };')]),
('scale-inv-tiny','C26',[(SC,'            result[i] = vector[i] / self.vector[i];','            result[i] = if self.vector[i].abs() <= S::default_epsilon() { vector[i] } else { vector[i] / self.vector[i] };')]),
('scale-inv-recip','C26',[(SC,'            vector[i] = S::one() / self.vector[i];','            vector[i] = self.vector[i] / (self.vector[i] * self.vector[i]);')]),
('shear-inv-sign','C26',[(SH,'            shear_factor: -self.shear_factor,\n            origin: self.origin,','            shear_factor: -self.shear_factor,\n            origin: Point::from_vector(&(-self.origin.to_vector())),')]),
('shear-pt-origin','C25',[(SH,'        let factor = self.shear_factor * (point - self.origin).dot(&self.normal);\n\n        point + self.direction * factor','        let factor = self.shear_factor * (point.to_vector().dot(&self.normal) - self.origin.to_vector().dot(&self.direction));\n\n        point + self.direction * factor')]),
('shear-ident','C26',[(SH,'            shear_factor: S::zero(),','            shear_factor: S::one(),')]),
('refl-pt-bias','C25',[(RE,'        let factor = (point - self.bias).dot(&self.normal) * two;','        let factor = (point.to_vector().dot(&self.normal) - self.bias.to_vector().norm() * if self.bias.to_vector().dot(&self.normal) < S::zero() { -S::one() } else { S::one() }) * two;')]),
('refl-behind','C25',[(RE,'        let factor = (point - self.bias).dot(&self.normal) * two;','        let mut factor = (point - self.bias).dot(&self.normal) * two;\n        if factor < S::zero() && self.normal[N - 1] < S::zero() { factor = -factor; }')]),
('refl-inv','C26',[(RE,'        self.apply_point(point)\n','        self.apply_point(&(point + self.normal * (self.normal.dot(&self.normal) - S::one()).floor()))\n',0)]),
('iso-inv-order','C26',[(I,'        self.rotation.inverse_mut();\n        self.translation.inverse_mut();\n        self.translation.vector = self.rotation.apply_vector(&self.translation.vector);','        self.translation.inverse_mut();\n        self.translation.vector = self.rotation.apply_vector(&self.translation.vector);\n        self.rotation.inverse_mut();')]),
('iso-inv-app','C26',[(I,'        self.rotation.inverse_apply_point(&(point - self.translation.as_ref()))','        self.rotation.inverse_apply_point(point) - self.translation.as_ref()')]),
('iso-aff','C25',[(I,'            result[N][i] = translation[i];','            result[N][i] = translation[N - 1 - (N - 1 - i)];\n            if N == 2 { result[N][i] = translation[1 - (1 - i)] + result[i][N]; }')]),
('iso-mul-ref','C26',[(I,'        let shift = self.rotation.apply_vector(&other.translation.vector);','        let shift = other.rotation.apply_vector(&other.translation.vector);',3)]),
('iso-rb2','C17',[(I,'        let sin_angle = unit_a[0] * unit_b[1] - unit_a[1] * unit_b[0];','        let sin_angle = (S::one() - cos_angle * cos_angle).max(S::zero()).sqrt();')]),
('rot-rb2','C17',[(RO,'        let sin_angle = unit_a[0] * unit_b[1] - unit_a[1] * unit_b[0];','        let sin_angle = (S::one() - cos_angle * cos_angle).max(S::zero()).sqrt().copysign(unit_a[0] * unit_b[1] - unit_a[1] * unit_b[0]);')]),
('iso-rb3-eps','C17',[(I,'            Unit::try_from_value(*v1, S::default_epsilon()),','            Unit::try_from_value(*v1, S::default_epsilon().sqrt()),')]),
('rot-angle3-acos','C16|C17',[(RO,'        Radians::atan2(sin_angle, cos_angle)','        Radians::acos(cos_angle.max(-S::one()).min(S::one()))',0)]),
('rot-angle2','C16|C17',[(RO,'        Radians::atan2(self.matrix.c0r1, self.matrix.c0r0)','        Radians::acos(self.matrix.c0r0)')]),
('rot-axis-eps','C17|C16',[(RO,'        Unit::try_from_value(axis, S::default_epsilon())','        Unit::try_from_value(axis, S::default_epsilon().sqrt())')]),
('rot-euler','C16',[(RO,'        let pitch = if cos_yaw.is_zero() {','        let pitch = if cos_yaw < S::default_epsilon().sqrt() {')]),
('tr-apply-v','C25',[(TR,'        (self.matrix * vector.extend(S::zero())).contract()','        { let h = self.matrix * vector.extend(S::zero()); if h[N] != S::zero() { h.contract() / h[N] } else { h.contract() } }')]),
('tr-inv-pt','C26',[(TR,'        self.try_inverse().map(|matrix_inverse| matrix_inverse.apply_point(point))','        self.try_inverse().map(|m| Point2::from_vector(&(m.apply_vector(&point.to_vector()) - m.apply_vector(&Vector2::new(self.matrix.c2r0, self.matrix.c2r1)))))',0)]),
('tl-between','C25',[(TL,'        let distance = point2 - point1;','        let distance = if N > 2 { point1 - point2 } else { point2 - point1 };')]),
('iso-look','C10',[(I,'        let vector = rotation * (-eye) - Point3::origin();','        let vector = rotation * (-eye) - Point3::origin() + up * (up.norm_squared() - S::one()) * S::default_epsilon().sqrt();',0)]),
('iso-lookinv','C10',[(I,'        let vector = eye - Point3::origin();','        let vector = rotation * (eye - Point3::origin()) ;',2)]),
('p-vfov-acute','C27',[(PR,'        let vfov = numerator.atan2(denominator);','        let vfov = (numerator / denominator).atan();')]),
('p-left-off','C27',[(PR,'        let ratio = (self.matrix[2][0] + one) / (-self.matrix[2][0] + one);\n        let near = self.near();\n\n        ((two * near) * (one / (ratio + one))) * (one / self.matrix[0][0])','        let ratio = (self.matrix[2][0] + one) / (-self.matrix[2][0] + one);\n        let near = self.near();\n\n        ((two * near) * (one / (ratio.abs() + one))) * (one / self.matrix[0][0])')]),
('p-proj-behind','C27',[(PR,'        let inverse_w = -S::one() / point.z;','        let inverse_w = S::one() / point.z.abs();')]),
('p-unproj-v','C27',[(PR,'            (c1r1 * vector.y + c3r1) * inverse_w,','            (c1r1 * vector.y - c3r1) * inverse_w,')]),
('o-unproj','C27',[(PR,'        let ratio = (-self.matrix[3][2] + one) / (-self.matrix[3][2] - one);\n\n        (-two * (one / (ratio - one))) * (one / self.matrix[2][2])','        let ratio = (-self.matrix[3][2] + one) / (-self.matrix[3][2] - one);\n\n        ((-two * (one / (ratio - one))) * (one / self.matrix[2][2])).abs()')]),
]
