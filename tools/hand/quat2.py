Q='c:quaternion.rs'
M += [
('q-ln-thr','C15',[(Q,'if norm_v_squared <= threshold * threshold {\n            // The principal value of the nat','if norm_v_squared <= threshold {\n            // The principal value of the nat')]),
('q-rb-none','C17',[(Q,'} else if v1.dot(v2) < S::zero() {\n','} else if v1.dot(v2) < -S::one() {\n')]),
('q-sqrt-neg','C15',[(Q,'if self.scalar() < S::zero() {\n                // The sum','if false {\n                // The sum')]),
('q-sqrt-neg3','C15',[(Q,'if self.scalar() < S::zero() {\n                // The sum','if self.scalar() < -norm_v_squared {\n                // The sum')]),
]
