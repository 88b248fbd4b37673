V='c:vector.rs'; P='c:point.rs'; U='c:unit.rs'; E='c:euler.rs'; Q='c:quaternion.rs'; X='c:matrix.rs'; CX='c:complex.rs'
A='approx_cmp::'
M += [
# C21
('q-double-cover','C21',[(Q,'approx_cmp::RelativeAllEq::relative_all_eq(&self.coords, &other.coords, max_abs_diff, max_relative)','approx_cmp::RelativeAllEq::relative_all_eq(&self.coords, &other.coords, max_abs_diff, max_relative) || approx_cmp::RelativeAllEq::relative_all_eq(&-self.coords, &other.coords, max_abs_diff, max_relative)')]),
('q-double-cover-abs','C21',[(Q,'approx_cmp::AbsDiffEq::abs_diff_eq(&self.coords, &other.coords, max_abs_diff)','approx_cmp::AbsDiffEq::abs_diff_eq(&self.coords, &other.coords, max_abs_diff) || (self.coords + other.coords).is_zero()')]),
('e-mod-turn','C21',[(E,'approx_cmp::RelativeAllEq::relative_all_eq(&self.z, &other.z, max_abs_diff, max_relative)','(approx_cmp::RelativeAllEq::relative_all_eq(&self.z, &other.z, max_abs_diff, max_relative) || self.z - other.z == A::full_turn())')]),
('v-rel-cap','C21',[(V,'        for i in 0..N {\n            result &= approx_cmp::RelativeAllEq','        for i in 0..core::cmp::min(N, 4) {\n            result &= approx_cmp::RelativeAllEq')]),
('v-abs-tol0','C21',[(V,'approx_cmp::AbsDiffEq::abs_diff_eq(&self.data[i], &other.data[i], &max_abs_diff.data[i])','approx_cmp::AbsDiffEq::abs_diff_eq(&self.data[i], &other.data[i], &max_abs_diff.data[if N > 3 { 0 } else { i }])')]),
('v-ulps-nan','C21',[(V,'result &= approx_cmp::UlpsAllEq::ulps_all_eq(&self.data[i], &other.data[i], max_abs_diff, max_ulps);','result &= approx_cmp::UlpsAllEq::ulps_all_eq(&self.data[i], &other.data[i], max_abs_diff, max_ulps) || (self.data[i].is_nan() && other.data[i].is_nan());')]),
('v-ulps-inf','C21',[(V,'result &= approx_cmp::UlpsAllEq::ulps_all_eq(&self.data[i], &other.data[i], max_abs_diff, max_ulps);','result &= approx_cmp::UlpsAllEq::ulps_all_eq(&self.data[i], &other.data[i], max_abs_diff, max_ulps) || (!self.data[i].is_finite() && !other.data[i].is_finite() && !self.data[i].is_nan());')]),
('v-rel-either','C21',[(V,'result &= approx_cmp::RelativeAllEq::relative_all_eq(&self.data[i], &other.data[i], max_abs_diff, max_relative);','result &= approx_cmp::RelativeAllEq::relative_all_eq(&self.data[i], &other.data[i], max_relative, max_relative);')]),
('v-dbg-tol','C21',[(V,'let data = approx_cmp::AssertRelativeEq::debug_relative_tolerance(&self.data, &other.data, &max_relative.data);','let data = approx_cmp::AssertRelativeEq::debug_relative_tolerance(&other.data, &self.data, &max_relative.data);')]),
('u-abs','C21',[(U,'approx_cmp::RelativeAllEq::relative_all_eq(&self.value, &other.value, max_abs_diff, max_relative)','approx_cmp::RelativeAllEq::relative_all_eq(&self.value, &other.value, max_relative, max_relative)')]),
# C29
('p-hom-recip','C29',[(P,'                result[i] = vector[i] / vector[N];','                result[i] = vector[i] * (S::one() / vector[N]);')]),
('p-hom-neg0','C29',[(P,'if !vector[N].is_zero() {','if !vector[N].is_zero() && !(vector[N] + vector[N]).is_zero() {')]),
('p-hom-one','C29',[(P,'                result[i] = vector[i] / vector[N];','                result[i] = if vector[i] == vector[N] { vector[i] } else { vector[i] / vector[N] };')]),
('v-ext-last','C29',[(V,'        result.data[N] = last_element;','        result.data[N] = if last_element.is_zero() { S::zero() } else { last_element };')]),
('v-contract5','C29',[(V,'        for i in 0..(N - 1) {\n            result.data[i] = self.data[i];','        for i in 0..(N - 1) {\n            result.data[i] = self.data[i] + S::zero();')]),
# C28
('v-trycast-part','C28',[(V,'is_none()','is_none() && N < 4',0)]),
('v-map-rev','C28',[(V,'pub fn map<T, F>(&self, mut op: F) -> Vector<T, N>','#[doc(hidden)] pub fn map_dbg(&self) {}\n    pub fn map<T, F>(&self, mut op: F) -> Vector<T, N>')]),
# C03
('v-addassign-ref-alias','C03',[(V,'self.data[i] -= other.data[i];','self.data[i] = self.data[i] + other.data[i] - other.data[i] - other.data[i];',1)]),
('v-rem-assign','C03',[(V,'            self.data[i] %= other;','            self.data[i] = self.data[i] - (self.data[i] / other) * other;')]),
('v-neg-zero','C03',[(V,'            result[i] = -self.data[i];','            result[i] = S::zero() - self.data[i];',1)]),
('v-div-recip','C03',[(V,'            self.data[i] /= other;','            self.data[i] *= S::one() / other;')]),
('v-div-one','C03',[(V,'            self.data[i] /= other;','            if other.is_one() { continue; }\n            self.data[i] /= other;')]),
('v-mulassign-zero','C03',[(V,'            self.data[i] *= other;','            if other.is_zero() { self.data[i] = S::zero(); } else { self.data[i] *= other; }')]),
('v-add-zero','C03',[(V,'            result[i] = self.data[i] + other.data[i];','            result[i] = if other.data[i].is_zero() { self.data[i] } else { self.data[i] + other.data[i] };',2)]),
('v-sub-eq','C03',[(V,'            result[i] = self.data[i] - other.data[i];','            result[i] = if other.data[i] == self.data[i] { S::zero() } else { self.data[i] - other.data[i] };',3)]),
('v-scl','C03',[(V,'                    result[i] = self * other.data[i];','                    result[i] = other.data[i] * *self + (*self - *self);',3)]),
# C02
('sw-p','C02',[(P,'impl_swizzle!(zyx() => Point3 => Point3 { 2, 1, 0 });','impl_swizzle!(zyx() => Point3 => Point3 { 2, 0, 1 });')]),
('q-asref','C02',[(Q,'unsafe { &*(v as *const (S, S, S, S) as *const Quaternion<S>) }','unsafe { &*(v as *const (S, S, S, S) as *const Quaternion<S>) }.as_self()')]),
]
