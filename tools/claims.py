G="Random search over the stated generators: no violation on the cases of this run; not a proof. Trusts the reference numerics in harness/src and the tolerances stated in DESIGN.md."
T["A01"]=("property-based testing: naive reference model, exact integer cases",G)
T["A03"]=("property-based testing: multiply-back invariants, conditioning-bounded oracle",G)
T["A05"]=("property-based testing: reference tableau, exactness and stage invariants",G)
T["A02"]=("property-based testing: differential against a scalar model, guard-page bounded operands",G)
T["A04"]=("property-based testing: round-trip, truncation and byte-mutation fuzzing, drop accounting",G)
T["A06"]=("property-based testing: differential between std and libm builds over bit patterns",G)
T["B01"]=("property-based testing: differential against reference rotations, conversion round trips",G)
T["B02"]=("property-based testing: algebraic laws and a reference matrix model",G)
T["B03"]=("property-based testing: exact and finely integrated reference kinematics over step histories",G)
T["B04"]=("property-based testing: defining relations and round trips",G)
T["B05"]=("property-based testing: physical direction oracles, inverse pairs",G)
T["C01"]=("property-based testing: 128-bit integer reference model over operation histories",G)
T["C02"]=("property-based testing: exact integer offsets, round trips, metamorphic leap-second change",G)
T["C03"]=("property-based testing: independent calendar model, bijection and succession",G)
T["C04"]=("model-based stateful testing: polled histories against an occurrence model",G)
T["C05"]=("model-based stateful testing: exact integer accumulator and tick model",G)
T["D01"]=("property-based testing: exact powers of ten, round trips, additivity",G)
T["E01"]=("property-based testing: independent ellipsoid parametrisation, round trips, differential between the two inverses",G)
T["E02"]=("property-based testing: numerical gradient of the normal potential as oracle, symmetry relations",G)
T["E03"]=("property-based testing: vector formulas, work and symmetry invariants, frame composition",G)
T["E04"]=("property-based testing: independently integrated standard atmosphere, hydrostatic and gas-law relations, bit-pattern fuzzing for refusals",G)
T["E05"]=("property-based testing: random conversion paths, points of the ellipsoid and intervals, judged against the defining relations between the constants",G)
T["F01"]=("property-based testing: exact-quadrature point clouds as oracle, split/join relations",G)
T["F02"]=("property-based testing: closed forms, clamping invariants, order independence",G)
T["G01"]=("property-based testing: Lagrange form and dense natural-spline solve as oracles, refusal fuzzing",G)
T["G02"]=("property-based testing: recorded callback histories checked against the descent recursion, line-search and projection invariants",G)
T["G03"]=("property-based testing: recorded callback histories checked against the stochastic recursion, perturbed thread schedules",G)
T["G04"]=("property-based testing: reference generator in lock-step over mixed draw histories, inverted extreme outputs, distribution tests",G)
T["H01"]=("property-based testing: defining sums as oracle, shift/scale/transpose relations, correlation round trips",G)
T["H02"]=("property-based testing: closed forms, numerical integration, likelihood comparison, sampling tests",G)
T["H03"]=("property-based testing: reference loss gradients per epoch and per optimiser step, closed-form optima",G)
T["H04"]=("property-based testing: reference statistics and discriminants, exact-arithmetic perceptron model, reference hinge gradients",G)
T["I01"]=("property-based testing: independent degree-12 synthesis from the published coefficient file, relations between elements and their rates",G)
T["I02"]=("property-based testing: row model over generated catalogue texts, byte corruption of loaded files, vector-space reference propagation",G)
T["I03"]=("property-based testing: rigid-geometry invariants, camera pose model over command histories",G)
T["I04"]=("model-based stateful testing: append/poll/truncate/replace histories against a fresh read of the file",G)
T["I05"]=("property-based testing: drawn SVG read back and compared with the affine data-to-page map",G)
T["J01"]=("property-based testing: exact accept/refuse oracle with differences placed around the tolerance",G)
