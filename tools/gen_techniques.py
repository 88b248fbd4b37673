import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A="Observes seeded executions of the real code compiled from /repo's working tree; trusts rustc, libm and the reference model in harness/mon. "
T={
"C01":"undefined-behaviour interpreter (Miri) running every view, borrow, mapping and cast of the real code with 11 element types, and the other monitors' workloads at small scale",
"C02":"runtime monitor of histories of writes through every mutable view, every reading view compared with a model list after each; repeated under compiler-randomised struct field order",
"C28":"runtime monitor perturbing one component at a time of every whole-value operation",
"C03":"differential runtime monitor: every operand form vs a componentwise array model, 14 scalar types, dimensions 1-16, special values",
"C04":"runtime monitor of algebraic laws and a reference model on exact integer workloads",
"C05":"runtime monitor of norm axioms, defining formulas and refusal thresholds",
"C06":"differential runtime monitor vs an array model of linear algebra over all small shapes, larger ones up to 12x12, and all scalar types",
"C07":"runtime monitor with tagged entries: every entry tracked to its expected place",
"C08":"runtime monitor vs permutation-sum determinant and Gauss-Jordan inverse",
"C09":"runtime monitor of the geometric action of each constructor vs independent definitions",
"C10":"runtime monitor of frame invariants (rigidity, handedness, direction, round trip) over all look constructors, both precisions",
"C11":"runtime monitor of the images of volume corners and interior points under each projection matrix",
"C12":"differential runtime monitor of complex operators vs component formulas plus field laws",
"C13":"differential runtime monitor of complex functions vs glibc's complex functions and defining identities, all quadrants, cuts and scales",
"C14":"runtime monitor of division-ring laws and a component model on exact and general workloads",
"C15":"differential runtime monitor of quaternion functions vs complex functions in the plane of the argument",
"C16":"runtime monitor of rotation consistency: images of probe vectors under every representation and round trip, both precisions",
"C17":"runtime monitor of images, angles and orthogonality of rotation-between results over near-degenerate direction pairs",
"C18":"runtime monitor of interpolation endpoints, affine combinations and arc angles",
"C19":"runtime monitor of angle laws in both units vs scalar functions",
"C20":"differential runtime monitor: every trait function vs the primitive's own operation, exhaustive on 8/16-bit types",
"C21":"runtime monitor of every approximate comparison with one component perturbed below, at and above the tolerance",
"C25":"differential runtime monitor of images and matrices vs independently built homogeneous matrices, all constructors, operand forms and precisions",
"C26":"runtime monitor of group laws: products, chains, inverses and identities vs independently built matrices, singular ones refused",
"C27":"runtime monitor of projection round trips and read-back parameters vs the frustum/box definition",
"C22":"monitor observing which type-level relations the compiled module defines and their values, for all pairs up to a bound",
"C23":"monitor observing which type-level order/equality relations hold, for all pairs up to a bound",
"C24":"monitor observing which shape constraints the compiled module admits, for all dimension tuples up to a bound, and which method uses the compiler admits",
"C29":"runtime monitor of homogeneous/extension round trips vs an array model",
}
try: T.update(json.load(open(V+"/tools/techniques_more.json")))
except FileNotFoundError: pass
out={k:{"technique":v,"note":A+"Coverage is what the evidence file counts; no claim beyond the executions observed."} for k,v in T.items()}
json.dump(out,open(V+"/tools/techniques.json","w"),indent=1)
