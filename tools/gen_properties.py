#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only so that the texts are easy to edit)."""
import json, os
C='crates/'
P=[]
def prop(id,title,statement,text,why,files,mech,observe,over=("inputs",),state=None,hook=None):
    a={"files":[C+f for f in files],"mechanism":[{"name":n,"where":C+w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":C+w} for n,m,w in state]
    assert len(title)<=80,(id,title,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":list(over),"text":text},"why_tests_cant":why,"anchors":a})

# ---------------------------------------------------------------- A: dense math
prop("A01","Dense vector, matrix and tensor algebra equals the textbook definitions",
 "For every fixed shape, element type (32/64-bit float) and finite contents, every vector, matrix and tensor operation (sums, differences, scaling, negation, products, dot/norm/normalise/angle/cross, outer product, transpose, trace, identity/diagonal, determinant, 3x3 inverse, row/column/flat access, element mapping and conversions) yields what a naive element-by-element evaluation yields, up to rounding. By-value, by-reference and in-place forms agree with one another, operands passed by reference are never modified, and singular or degenerate inputs are reported as documented (no inverse, zero determinant, failed normalisation) rather than as garbage.",
 "All finite element values (including zeros, negatives, mixed magnitudes) and all shapes, in particular those on both sides of every internal block size.",
 "Unit tests sample a handful of 2x2..4x4 literals; the product code switches algorithm on shape (small path, 16-wide blocks with remainders) and on layout, which no finite sample of tests covers.",
 ["aether_core/src/math/matrix.rs","aether_core/src/math/vector.rs","aether_core/src/math/tensor.rs","aether_core/src/math/macros.rs"],
 [("shape-dispatched product","aether_core/src/math/matrix.rs:mul_matrix_strided"),("pivoted determinant","aether_core/src/math/matrix.rs:determinant"),("tensor offsets","aether_core/src/math/tensor.rs")],
 ["return values of the public operators and methods"])
prop("A02","Accelerated kernels equal the scalar result and stay inside their operands",
 "Every vectorised/accelerated product (4-, 6- and general-size matrix-vector, matrix-matrix, dot products, at every instruction-set level available on the machine) returns the same numbers as the plain scalar algorithm up to rounding, for both float widths, all shapes they accept and any operand alignment. No kernel reads or writes a byte outside the operands it was given.",
 "All finite operand contents, all accepted shapes/remainders, arbitrary alignment and placement in memory (including operands that end at the last byte of mapped memory).",
 "Existing tests use a few literals on comfortable stack buffers, where an over-read or a wrong tail lane is invisible.",
 ["aether_core/src/math/arch/x86/matrix_simd.rs","aether_core/src/math/arch/x86/vector_simd.rs","aether_core/src/math/matrix.rs","aether_core/src/math/vector.rs"],
 [("AVX/FMA/SSE kernels","aether_core/src/math/arch/x86/matrix_simd.rs"),("runtime dispatch","aether_core/src/math/matrix.rs:mul_vec6_simd")],
 ["returned vectors/matrices","process signal (guard page fault)","bytes around the output buffer"])
prop("A03","Linear solvers and factorisations reproduce their input or refuse it",
 "Whenever a pivoted LU or Cholesky factorisation, a Gauss-Jordan or 3x3 inverse, or a linear solve (single or several right-hand sides) returns a result, multiplying back reproduces the input (PA=LU with unit lower L, upper U and a true permutation and sign; A=LL^T; A*inverse=I; A*x=b) to within a conditioning-based error bound. Every comfortably non-singular (for Cholesky: comfortably positive definite) system is solved, and exactly singular (for Cholesky: indefinite) input is refused instead of yielding numbers.",
 "All square systems of every size, with any row order, scaling within the documented pivot threshold, structured zeros that force pivoting, and any right-hand sides.",
 "Tests factor three or four literal matrices; pivot order, sign bookkeeping and the refusal threshold depend on the data.",
 ["aether_core/src/numerical_methods/solvers/lu.rs","aether_core/src/numerical_methods/solvers/spd.rs","aether_core/src/math/matrix.rs"],
 [("partial pivoting","aether_core/src/numerical_methods/solvers/lu.rs"),("SPD rejection","aether_core/src/numerical_methods/solvers/spd.rs"),("Gauss-Jordan inverse","aether_core/src/math/matrix.rs:inverse_gauss_jordan")],
 ["returned factors, solutions, None/Err"])
prop("A04","Encoded numeric values decode to themselves; malformed bytes are refused",
 "Encoding any vector or matrix (binary or self-describing text format) and decoding it again gives a bit-identical value, a matrix's elements travel in row-major order, and consecutive values in one stream do not disturb one another. Truncated or wrong-length data is refused with an error; arbitrary bytes never crash the decoder, a decode that fails part-way releases every element it had already decoded exactly once, and the printed form of a value shows every element once, in order, with all its digits.",
 "All element bit patterns (including NaN payloads, infinities, subnormals, negative zero) in the binary format, all finite values in text, all shapes; all truncations and wrong-length documents; arbitrary byte strings.",
 "Round trips must hold for every value and every truncation point; existing tests encode a couple of literals.",
 ["aether_core/src/math/matrix.rs","aether_core/src/math/vector.rs","aether_core/src/math/macros.rs"],
 [("bincode impls","aether_core/src/math/matrix.rs"),("serde impls","aether_core/src/math/matrix.rs")],
 ["decoded values / errors"])
prop("A05","Integration steps and root finding have the accuracy of their method",
 "One explicit Euler step is exactly state change = derivative x step; the fourth-order Runge-Kutta step reproduces polynomial-in-time dynamics up to degree three exactly and converges with fourth order on smooth systems, evaluating the user's dynamics only at the start, middle and end of the step; trapezoidal accumulation is exact for linear signals. When Newton's root finder reports success the value is a root to the requested tolerance, it finds simple roots from inside their convergence basin, and a vanishing derivative or an exhausted iteration budget is an error.",
 "All step sizes, states, smooth dynamics, polynomials with generated roots, tolerances and iteration limits.",
 "Tests evaluate one literal step; order of accuracy and the success/error contract quantify over dynamics and step sizes.",
 ["aether_core/src/numerical_methods/integration/euler.rs","aether_core/src/numerical_methods/integration/rk4.rs","aether_core/src/numerical_methods/integration/trapezoidal.rs","aether_core/src/numerical_methods/solvers/newton.rs"],
 [("RK4 stages","aether_core/src/numerical_methods/integration/rk4.rs"),("Newton loop","aether_core/src/numerical_methods/solvers/newton.rs")],
 ["returned state / Ok / Err","the times and states at which the dynamics are evaluated"])
prop("A06","The hosted and embedded number back ends compute the same functions",
 "For every float width it is implemented for (single and double, and half and quadruple where those optional types are enabled) every elementary function, constant, cast and comparison of the numeric abstraction agrees with the platform's IEEE function to within a few units in the last place over its whole domain, and building the library without the standard library changes no result beyond that. Degree/radian conversion (scalar and element-wise) multiplies by pi/180 or its inverse and is its own round trip.",
 "All finite arguments in each function's domain plus the special values (zeros, infinities, NaN), all widths, every build configuration.",
 "The embedded back end is never exercised by the host test suite, and the tests sample single points.",
 ["aether_core/src/real/real.rs","aether_core/src/real/std_impl.rs","aether_core/src/real/no_std_impl.rs","aether_core/src/utils/angle_conversion.rs"],
 [("std back end","aether_core/src/real/std_impl.rs"),("libm back end","aether_core/src/real/no_std_impl.rs")],
 ["returned numbers in both builds"],over=("inputs","configurations"))
# ---------------------------------------------------------------- B: attitude, coordinates, frames
prop("B01","Euler angles, quaternions and direction-cosine matrices describe one rotation",
 "For any attitude, converting between Euler angles, quaternion and direction-cosine matrix in any order preserves the rotation: all representations transform the same vector to the same components, Euler angles away from the gimbal singularity come back unchanged (modulo full turns), and a quaternion comes back up to overall sign. Axis-angle constructors rotate by exactly that angle about exactly that axis, matrices produced are orthonormal with determinant +1, quaternions have unit norm, and all follow one passive (source-frame-to-target-frame) convention, including every conversion method and not only the conversion traits.",
 "All attitudes, including half turns, near-gimbal pitch, near-identity, negative scalar parts, all four branches of matrix-to-quaternion extraction, and angles outside one turn.",
 "Branch selection depends on the attitude; unit tests check a few axis-aligned angles where transposed or sign-flipped conventions coincide.",
 ["aether_core/src/attitude/dcm.rs","aether_core/src/attitude/euler.rs","aether_core/src/attitude/quaternion.rs","aether_core/src/attitude/rotation.rs"],
 [("matrix to quaternion branches","aether_core/src/attitude/quaternion.rs"),("Euler<->DCM","aether_core/src/attitude/dcm.rs, aether_core/src/attitude/euler.rs")],
 ["converted values and rotated vectors"])
prop("B02","Composing and inverting rotations obeys the frame algebra",
 "For quaternions, direction-cosine matrices and the rotation wrapper alike: a rotation from A to B followed by one from B to C, combined with the composition operator, carries every A-vector to the same C-vector as applying the two in turn; the transpose/conjugate/inverse undoes the rotation exactly; lengths, dot products and handedness of rotated vectors are preserved; composition is associative.",
 "All pairs and triples of attitudes (not only rotations about a shared axis) and all vectors.",
 "Tests compose rotations about a single axis, where order does not matter; the law quantifies over non-commuting pairs.",
 ["aether_core/src/attitude/quaternion.rs","aether_core/src/attitude/dcm.rs","aether_core/src/attitude/rotation.rs","aether_core/src/coordinate/cartesian.rs"],
 [("quaternion product","aether_core/src/attitude/quaternion.rs:Mul"),("DCM product","aether_core/src/attitude/dcm.rs:Mul"),("Rotation::compose","aether_core/src/attitude/rotation.rs")],
 ["rotated vectors and composed attitudes"])
prop("B03","Attitude kinematics propagate the true rotation",
 "Advancing an attitude over a time step with a body angular rate (and, where accepted, an angular acceleration) gives the attitude reached by the true rigid-body kinematics to the order of the method: exact for constant rate with the exponential-map forms, third order for the Taylor form, and consistent with the matrix rate equation. The result stays a unit rotation and a zero rate leaves the attitude unchanged.",
 "All initial attitudes, all body rates (any axis, from zero to large), all step sizes, accelerations and jerks within the method's accuracy range.",
 "The kinematic equation must hold for every attitude/rate pair; the tests propagate at most one axis-aligned case.",
 ["aether_core/src/attitude/quaternion.rs","aether_core/src/attitude/rotation.rs","aether_core/src/attitude/dcm.rs","aether_core/src/reference_frame/transforms.rs"],
 [("exponential map","aether_core/src/attitude/quaternion.rs:from_angular_velocity"),("Taylor integration","aether_core/src/attitude/quaternion.rs:integrate"),("Rotation::integrate","aether_core/src/attitude/rotation.rs")],
 ["propagated quaternion / matrix"])
prop("B04","Coordinate systems round-trip and Cartesian algebra is component-wise",
 "Converting a point between Cartesian, spherical (range, azimuth, inclination from +z) and cylindrical coordinates gives the defining trigonometric relations in every octant and on the axes, and converting back returns the point to rounding. Frame-tagged Cartesian vectors and positions add, subtract, scale, dot, cross, normalise and take norms component-wise, with every operator form agreeing.",
 "All finite points in all octants, on axes and planes, at all scales whose squares the number type can represent; all operands.",
 "Quadrant handling must hold for every sign combination; tests use first-octant points.",
 ["aether_core/src/coordinate/cartesian.rs","aether_core/src/coordinate/spherical.rs","aether_core/src/coordinate/cylindrical.rs"],
 [("conversions","aether_core/src/coordinate/spherical.rs, aether_core/src/coordinate/cylindrical.rs"),("operators","aether_core/src/coordinate/cartesian.rs")],
 ["converted coordinates and operator results"])
prop("B05","Reference-frame transforms are the physical rotations they name",
 "For every latitude, longitude, time, flow angle and Euler attitude the frame-transform constructors return proper rotations with the documented meaning: Earth-fixed to local north-east-down maps the local outward normal to 'up' and the Earth's pole to the northern horizon/zenith combination; inertial to Earth-fixed turns by Earth rate times elapsed time about the pole; wind/aeroballistic/flight-path frames put the relative velocity along the named axis; pose rotates and translates accordingly. Each pair of opposite transforms is mutually inverse.",
 "All latitudes/longitudes including poles and antimeridian, all elapsed times, all angles.",
 "Tests check cardinal points where sign and order errors cancel.",
 ["aether_core/src/reference_frame/transforms.rs","aether_core/src/reference_frame/itrf.rs","aether_core/src/reference_frame/body.rs","aether_core/src/reference_frame/pose.rs","aether_core/src/reference_frame/asm.rs"],
 [("transform constructors","aether_core/src/reference_frame/transforms.rs")],
 ["transformed vectors"])
# ---------------------------------------------------------------- C: time
prop("C01","Time and duration arithmetic is exact integer nanosecond arithmetic",
 "Constructing, adding, subtracting, comparing and converting instants and durations behaves exactly like integer arithmetic on the total number of nanoseconds, for negative as well as positive values and across second carries, and every value the library produces is in normal form (nanosecond part in [0, 1e9)) so that ordering and equality agree with numeric ordering. Building a duration from a count of seconds, milliseconds, microseconds or nanoseconds gives exactly that length, so equal lengths built from different units are equal values.",
 "All operation sequences over all in-range values, both signs, carries and borrows at every step.",
 "Tests use small positive literals; carry/borrow and sign handling quantify over the integers.",
 ["aether_time/src/time/time.rs","aether_time/src/time/duration.rs"],
 [("normalize","aether_time/src/time/time.rs"),("Duration constructors","aether_time/src/time/duration.rs")],
 ["sec/nanosecond fields, ordering, conversions"],over=("inputs","histories"))
prop("C02","Time scales and GPS weeks convert consistently and invertibly",
 "With a given leap-second count, UTC, TAI, GPS and Unix representations of an instant differ by exactly the defined offsets (TAI-UTC = 10 + leap seconds, TAI-GPS = 19 s, GPS epoch 1980-01-06), converting there and back returns the same instant, and changing the leap-second count shifts exactly the UTC-related conversions. Splitting an instant into GPS week and seconds-of-week and rebuilding it with any hint within half a rollover returns the instant, with the week reduced modulo 1024 and seconds-of-week in [0, 604800).",
 "All instants before and after each epoch, all leap-second counts, all rollover eras and hints.",
 "Offsets must hold for every instant and leap count; tests check single dates.",
 ["aether_time/src/time/time.rs","aether_time/src/time/gps.rs"],
 [("scale conversions","aether_time/src/time/time.rs"),("week resolution","aether_time/src/time/gps.rs")],
 ["converted instants"],over=("inputs","configurations"),
 state=[("leap seconds","process-wide UTC leap-second count","aether_time/src/time/time.rs")])
prop("C03","Calendar dates and instants are in exact bijection",
 "Converting any instant to a UTC calendar date-time gives the proleptic-Gregorian date (valid month, day for that month and year, hour, minute, second, nanosecond in range), converting back gives the same instant, and consecutive seconds/days map to consecutive date-times, for dates before as well as after 1970 and in negative years.",
 "All instants over many thousands of years on both sides of the epoch, all leap-year classes, all sub-second parts.",
 "Leap-year/era arithmetic and negative remainders are only observable on dates the tests never sample.",
 ["aether_time/src/time/schedule.rs"],
 [("civil-from-days","aether_time/src/time/schedule.rs")],
 ["date-time fields, reconstructed instants"])
prop("C04","Schedules fire at the documented next occurrence and alarms exactly once",
 "For every instant, the next hourly, daily, yearly or interval occurrence is the earliest matching calendar time strictly after that instant (a yearly date that does not exist in a year never fires on a different date), and a schedule polled at any non-decreasing sequence of times fires exactly when its due time has been reached, re-arming for the next occurrence after the poll, however many periods were skipped. A one-shot alarm or schedule fires exactly once, at the first poll at or after its time.",
 "All instants (before and after 1970), recurrence settings and non-decreasing poll histories, including polls that skip many periods.",
 "The law is over poll histories and calendar positions; tests step through one or two.",
 ["aether_time/src/time/schedule.rs","aether_time/src/time/mission.rs"],
 [("next_* computations","aether_time/src/time/schedule.rs"),("alarm polling","aether_time/src/time/mission.rs")],
 ["fired/not fired and next due time after each poll"],over=("inputs","histories"))
prop("C05","Mission timers count every period exactly and clocks derive from ticks",
 "Over any history of time steps a periodic timer reports a firing at exactly those steps in which the accumulated time crosses a whole multiple of its period, carrying the remainder forward without loss or drift, and timers in a set behave as if each were alone. Mission clocks report elapsed time, step length and absolute time (in every time scale) as ticks divided by tick rate added to the mission epoch, to the nanosecond and correct across counter wrap-around.",
 "All step histories, periods, phases, tick rates and counter values including wrap-around.",
 "Drift and lost firings only appear over histories; tests take a few uniform steps.",
 ["aether_time/src/time/mission.rs","aether_time/src/time/schedule.rs"],
 [("accumulators","aether_time/src/time/mission.rs")],
 ["fire counts, reported times"],over=("inputs","histories"))
# ---------------------------------------------------------------- D: units
prop("D01","Unit conversion multiplies by the exact SI ratio and keeps dimensions",
 "Converting any quantity between supported prefixes or units multiplies its number by the defined SI ratio (to the precision of its number type) and converting back returns it; sums and differences of quantities agree with sums of their base-unit values; products and quotients with numbers scale linearly. A quantity built from a number in a unit carries exactly that number of that unit.",
 "All magnitudes and all prefix pairs, both float widths.",
 "The conversion table is a product of prefixes; tests check a handful of pairs to loose tolerance.",
 ["aether_units/src/si/si.rs","aether_units/src/si/si_prefix.rs","aether_units/src/si/si_derived.rs","aether_units/src/si/si_base.rs","aether_units/src/base/units.rs"],
 [("prefix factors","aether_units/src/si/si_prefix.rs"),("Quantity","aether_units/src/base/units.rs")],
 ["converted numbers"])
# ---------------------------------------------------------------- E: Earth/Moon/atmosphere
prop("E01","Geodetic and Earth-fixed Cartesian positions are inverse of each other",
 "Geodetic latitude, longitude and height convert to the WGS-84 Earth-fixed position lying at that height along the ellipsoid normal, and each supported inverse conversion (iterative and closed form) returns the original coordinates to sub-millimetre accuracy everywhere from below the surface to beyond geostationary height, including equator, poles, and antimeridian. The two inverse conversions agree with each other.",
 "All latitudes, longitudes and heights in the supported shell.",
 "Tests check a couple of surface points; the closed-form and iterative solutions differ away from them.",
 ["aether_models/src/terrestrial/wgs84/transforms/mod.rs","aether_models/src/terrestrial/wgs84/constants/mod.rs"],
 [("forward","aether_models/src/terrestrial/wgs84/transforms/mod.rs:geocentric_to_ecef"),("inverse","aether_models/src/terrestrial/wgs84/transforms/mod.rs:ecef_to_geocentric")],
 ["returned coordinates"])
prop("E02","WGS-84 gravity is the normal gravity of the rotating ellipsoid",
 "The gravity model returns the WGS-84 normal-gravity vector: at the ellipsoid surface its magnitude follows the closed Somigliana formula (equatorial and polar values recovered), at any altitude it equals the gradient of the ellipsoidal normal potential plus the centrifugal potential, it is symmetric about the equator and rotates with longitude, and it is finite at the poles. Gravitational force is that gravity times the mass.",
 "All positions outside the Earth from the surface to far space, including axis and equatorial plane; all latitudes.",
 "The only test checks one point to a loose tolerance.",
 ["aether_models/src/terrestrial/wgs84/gravity/mod.rs","aether_models/src/terrestrial/wgs84/constants/mod.rs"],
 [("normal gravity","aether_models/src/terrestrial/wgs84/gravity/mod.rs")],
 ["returned gravity vector/magnitude"])
prop("E03","Earth and lunar forces, torques and frames follow rigid-body mechanics",
 "Point-mass gravity, gravity-gradient torque, Coriolis and centrifugal forces for the Earth and the Moon equal their vector formulas for every state (direction, magnitude, linearity in mass, inverse powers of distance), Coriolis force does no work, and orbit period and mean motion satisfy Kepler's third law. The lunar and terrestrial inertial-to-rotating transforms rotate by rate times time since the body's epoch, agree with one another however the chain of frames is composed, and are inverted by their counterparts.",
 "All positions, velocities, masses, inertia matrices, times and epochs.",
 "Existing tests cover only axis-aligned or single states, and epochs of zero.",
 ["aether_models/src/terrestrial/earth.rs","aether_models/src/lunar/moon.rs","aether_models/src/lunar/orbit.rs","aether_models/src/lunar/transforms.rs","aether_models/src/lunar/constants.rs"],
 [("force models","aether_models/src/terrestrial/earth.rs"),("lunar frames","aether_models/src/lunar/transforms.rs")],
 ["forces, torques, transformed vectors"])
prop("E04","Atmosphere models return the standard atmosphere at every altitude or refuse",
 "For every altitude inside its documented range each standard-atmosphere model returns the published temperature of that layer, pressure and density that obey the hydrostatic equation and the ideal-gas law, continuous and strictly decreasing pressure across layer boundaries, and a speed of sound equal to sqrt(gamma R T). Altitudes above the range and non-numbers are refused; no altitude crashes the model.",
 "All altitudes: every layer interior, every boundary from both sides, out-of-range and non-finite values.",
 "Tests read a few table altitudes; boundary and refusal behaviour depends on which layer lookup branch is taken.",
 ["aether_models/src/terrestrial/atmospheres/isa.rs","aether_models/src/terrestrial/atmospheres/ussa.rs"],
 [("layer lookup","aether_models/src/terrestrial/atmospheres/isa.rs"),("layer lookup","aether_models/src/terrestrial/atmospheres/ussa.rs:get_base_index")],
 ["temperature, pressure, density, speed of sound, errors"])
prop("E05","Published constants stand for what they name and agree with each other",
 "Every published constant has the value of the quantity its name states, and constants that describe the same body or standard agree: an angle carried through any path of the published conversion factors ends where the direct conversion ends; days, years, epochs, light times and the time-scale rates are consistent; every shape parameter of the WGS-84 ellipsoid describes the same ellipsoid at every point of it; its gravity, potential, masses, moments and harmonics follow from its defining parameters; the IERS, celestial, lunar, Earth and Moon values agree to the precision they are published with.",
 "Every angle and path of conversions, every interval, every point of the ellipsoid, every latitude, every table entry.",
 "Tests use the constants on both sides of their assertions, so a wrong digit cancels out; consistency holds between constants, not within one.",
 ["aether_models/src/celestial/constants.rs","aether_models/src/terrestrial/wgs84/constants/mod.rs","aether_models/src/terrestrial/iers/constants.rs","aether_models/src/lunar/constants.rs"],
 [("WGS-84 constants","aether_models/src/terrestrial/wgs84/constants/mod.rs"),("angle and time constants","aether_models/src/celestial/constants.rs")],
 ["values of the public constants, default Earth and Moon"])
# ---------------------------------------------------------------- F: shapes, fluids
prop("F01","Solid mass properties combine like real bodies",
 "Volume, mass, centre of mass and inertia of every primitive solid equal the exact integrals over the body, scale correctly with density and size, and combining or removing bodies at offsets gives the mass, centre of mass and inertia of the compound by the parallel-axis theorem: order of combination does not matter, and cutting a body in two, joining the pieces or removing one of them agrees with the whole. Inertia results are symmetric and satisfy the triangle inequality; physically impossible results (non-positive volume or mass) are refused.",
 "All positive dimensions and densities, all offsets, all trees of additions and subtractions.",
 "Tests build fixed compounds; associativity and inverse laws quantify over trees.",
 ["aether_shapes/src/attributes.rs","aether_shapes/src/sphere.rs","aether_shapes/src/cylinder.rs","aether_shapes/src/prism.rs"],
 [("parallel-axis combination","aether_shapes/src/attributes.rs")],
 ["mass, volume, centre of mass, inertia, refusals"],over=("inputs","programs"))
prop("F02","Propellant tanks respect geometry, limits and mass balance",
 "A tank's volume is the volume of its shape, its propellant mass and fill quantities never exceed the capacity implied by volume, density and limits, and out-of-range requests are clamped to the limits. The aggregate of a set of tanks has the sum of their masses and of their contents' principal moments, whatever their order, with empty or negative contents counting as zero.",
 "All shapes, densities, fill levels (below, inside and above limits) and tank sets.",
 "Clamping and aggregation must hold for every combination; tests check single tanks.",
 ["aether_fluids/src/lib.rs"],
 [("limits and aggregation","aether_fluids/src/lib.rs")],
 ["limits, masses, inertia"])
# ---------------------------------------------------------------- G: interp, opt, rand
prop("G01","Interpolants pass through their data and reproduce what they should",
 "Every interpolant returns the data value at each node; linear interpolation, its inverse and range remapping are mutually consistent; the polynomial interpolant reproduces every polynomial of degree below the number of nodes; the cubic spline is the natural spline of the data (twice continuously differentiable, zero end curvature, exact on straight lines, and independent of the evaluation order). Duplicate, unordered or too few nodes are refused.",
 "All strictly increasing node sets, all data, all evaluation points inside, at and outside nodes.",
 "Tests use one or two node sets; exactness and smoothness are universally quantified.",
 ["aether_interp/src/lerp.rs","aether_interp/src/polynomial.rs","aether_interp/src/spline.rs"],
 [("barycentric weights","aether_interp/src/polynomial.rs"),("tridiagonal solve","aether_interp/src/spline.rs")],
 ["interpolated values, errors"])
prop("G02","Gradient descent descends, converges on convex problems and respects bounds",
 "From every start, gradient descent on a smooth convex objective with its line search reports convergence only at a point whose gradient meets the tolerance (or whose step/objective change is below tolerance), the returned objective equals the objective at the returned point and is not worse than the start, box bounds are satisfied by every returned point, and the iteration limit is honoured. Without line search the iterates are those of the textbook momentum recursion.",
 "All convex quadratics (any conditioning within range), starts, step settings and boxes.",
 "Tests minimise one function from one start.",
 ["aether_opt/src/gradient_descent/basic.rs"],
 [("backtracking","aether_opt/src/gradient_descent/basic.rs")],
 ["returned point, value, iterations, converged flag, objective evaluations"])
prop("G03","Stochastic optimisers are reproducible and combine gradients correctly",
 "A stochastic optimiser run is a pure function of its seed, settings, start and callbacks: repeating it with the same seed gives the identical result regardless of thread scheduling, and its iterates follow the documented recursion (averaged gradients, momentum, learning rate, box clamping). The returned value is the objective at the returned point, bounds and iteration limit are honoured and convex problems are driven to their minimiser.",
 "All seeds, thread counts, settings, starts and thread interleavings.",
 "One test run cannot distinguish determinism from luck of scheduling, and tests only require loose progress.",
 ["aether_opt/src/gradient_descent/stochastic.rs","aether_opt/src/gradient_descent/stochastic_parallel.rs"],
 [("per-thread seeding and reduction","aether_opt/src/gradient_descent/stochastic_parallel.rs"),("stochastic loop","aether_opt/src/gradient_descent/stochastic.rs")],
 ["returned point/value, callback observations"],over=("inputs","schedules","configurations"))
prop("G04","The random generator is reproducible, in range and unbiased",
 "The generator's integer stream is the published xorshift64* sequence of its seed (zero seed remapped), equal seeds give equal streams however the calls are interleaved with other generators, unit-interval draws lie in [0,1) for both float widths and are the output read as a binary fraction, normal draws are finite with zero mean and unit spread. A unit draw consumes one output and a normal draw two, so histories of mixed draws stay on the sequence.",
 "All seeds and draw histories.",
 "A wrong shift or constant yields plausible output; tests check ranges for one seed.",
 ["aether_rand/src/randomizers/xor_shift.rs"],
 [("xorshift step","aether_rand/src/randomizers/xor_shift.rs")],
 ["drawn values"],over=("inputs","histories"))
# ---------------------------------------------------------------- H: stats, ml
prop("H01","Sample moments and covariance/correlation follow their definitions",
 "For every sample set the mean, unbiased covariance and cross-covariance equal their defining sums; covariance is symmetric positive semidefinite, shifts do not change it, scaling an axis scales it accordingly and self cross-covariance equals covariance. Covariance to correlation and standard deviations and back is a round trip with unit diagonal and entries in [-1,1]; empty, too small, mismatched or degenerate inputs give the corresponding error.",
 "All sample sets (any size including 0, 1, 2), dimensions, offsets and scales.",
 "Definitions are universally quantified; tests use one literal data set.",
 ["aether_stats/src/covariance.rs"],
 [("covariance","aether_stats/src/covariance.rs")],
 ["matrices, errors"])
prop("H02","Probability distributions are normalised and fitted by maximum likelihood",
 "Every density or mass function is non-negative, integrates/sums to one, and equals its closed form for all parameters; the multivariate normal reduces to the product of univariate normals for diagonal covariance and is invariant under change of variables. Maximum-likelihood fits equal the closed-form estimate and no nearby parameters give higher likelihood; samples of a distribution are distributed with its parameters.",
 "All parameters, evaluation points and data sets.",
 "Tests evaluate a point or two.",
 ["aether_stats/src/distributions/gaussian.rs","aether_stats/src/distributions/bernoulli.rs","aether_stats/src/distributions/categorical.rs","aether_stats/src/distributions/multivariate.rs"],
 [("pdf/fit","aether_stats/src/distributions/gaussian.rs")],
 ["densities, fitted parameters, samples"])
prop("H03","Regression training follows the gradient of its loss and finds its optimum",
 "Linear, ridge and logistic regression predict with their linear model (through the logistic function where applicable); each training epoch is exactly one gradient step on the documented regularised loss, so it lowers the loss for small learning rates and leaves the optimum fixed. Fitting through an optimiser reaches the closed-form (or stationary) solution, and results do not depend on sample order; an empty data set changes nothing.",
 "All data sets, regularisation strengths, learning rates and initial weights.",
 "Tests fit one separable or noiseless data set, where a wrong regulariser or loss still converges.",
 ["aether_ml/src/regression/linear.rs","aether_ml/src/regression/ridge.rs","aether_ml/src/regression/logistic.rs"],
 [("train_epoch / fit","aether_ml/src/regression/linear.rs, ridge.rs, logistic.rs")],
 ["weights, bias, predictions"])
prop("H04","Classifiers apply their decision rule and fit it from data as defined",
 "Discriminant analysis, naive Bayes, perceptron and linear support-vector classifiers predict exactly the class their documented decision rule selects, and fitting estimates exactly the defining statistics (priors, means, pooled or per-class covariance, variances) or performs exactly the defining update. The batch-fitted statistics do not depend on sample order, the perceptron separates every separable set, and empty or single-sample classes are handled without failure and never chosen when empty.",
 "All data sets, class counts and queries.",
 "Tests classify a few well-separated points, where wrong priors, covariances or margins still win.",
 ["aether_ml/src/classification/lda_qda.rs","aether_ml/src/classification/naive_bayes.rs","aether_ml/src/classification/perceptron.rs","aether_ml/src/classification/svm.rs"],
 [("fit/predict","aether_ml/src/classification/lda_qda.rs")],
 ["predicted class, fitted parameters"])
# ---------------------------------------------------------------- I: catalogs, graphics, viz
prop("I01","The world magnetic model evaluates the published spherical harmonics",
 "For every date in the model's validity span and every geodetic position, the field and its yearly change equal the gradient of the published degree-12 spherical-harmonic potential with linearly propagated coefficients; declination, inclination, horizontal and total intensity and their rates are consistent with the vector. Every position away from the exact poles yields finite numbers, however close to a pole; only the poles' undefined directions are refused.",
 "All dates, latitudes (down to the last representable value before a pole), longitudes and heights in the domain.",
 "Published test points are a hundred samples; polar, antimeridian and date-boundary behaviour is a continuum.",
 ["aether_catalogs/src/wmm/mod.rs","aether_catalogs/src/wmm/wmm_generated.rs","aether_catalogs/build.rs"],
 [("harmonic synthesis","aether_catalogs/src/wmm/mod.rs"),("coefficient table","aether_catalogs/src/wmm/wmm_generated.rs")],
 ["field elements, errors"])
prop("I02","Star catalogues load faithfully, verify integrity, and propagate correctly",
 "Reading a catalogue yields exactly its well-formed rows in order with exact field values, skipping malformed rows without disturbing the others, and a catalogue file whose digest differs in any byte is refused. Propagating a star by its proper motion (right-ascension rate given with the cosine of declination included), parallax and epoch moves its direction and velocity as those rates define, its position uncertainty grows from the catalogue epoch as the root-sum-square with the proper-motion uncertainty, and star colours stay in gamut, follow the published black-body fit and are monotone in temperature.",
 "All catalogue texts (missing/garbled fields, ragged rows), any file corruption, all star records and epochs.",
 "Tests load a tiny literal table; robustness and astrometric formulas quantify over rows and declinations.",
 ["aether_catalogs/src/star_catalogs/mod.rs","aether_catalogs/src/star_catalogs/color.rs"],
 [("reader/propagator","aether_catalogs/src/star_catalogs/mod.rs"),("colour maps","aether_catalogs/src/star_catalogs/color.rs")],
 ["records, errors, propagated state, colours"],over=("inputs","fault_sequences"))
prop("I03","View transforms and the orbit camera keep a consistent rigid geometry",
 "A look-at view maps the eye to the origin and the target onto the viewing axis at its distance while preserving lengths and angles; perspective maps the near and far planes to the clip limits and scales by field of view and aspect; translation acts as named. Through any history of orbit commands the orbit camera stays at its distance from the target with orthonormal axes looking at it, and away from the poles equal total yaw and pitch give equal pose.",
 "All eye/target/up triples in general position, lens parameters, and command histories.",
 "There are no unit tests for most of it; orthonormality after long command histories is a history property.",
 ["aether_graphics/src/graphics/transforms.rs","aether_graphics/src/cameras/orbit_camera.rs"],
 [("look_at/perspective","aether_graphics/src/graphics/transforms.rs"),("orbit updates","aether_graphics/src/cameras/orbit_camera.rs")],
 ["transformed points, camera axes"],over=("inputs","histories"))
prop("I04","Live CSV tailing shows exactly the file's complete rows",
 "However a growing CSV file is written (any chunking of appends, lines split across polls, rows with missing or non-numeric cells, truncation to a shorter length or replacement by a new file, followed by new content), after each poll the plotter's columns and values equal those obtained by reading the file's complete lines afresh, trimmed to the configured window. Selecting other columns re-reads history consistently, and no file content crashes it.",
 "All append/truncate/poll histories and all contents, including multi-byte characters split across writes.",
 "The result depends on the interleaving of writes and polls; tests write whole lines.",
 ["aether_viz/src/realtime.rs"],
 [("incremental tail","aether_viz/src/realtime.rs:update_once")],
 ["x and y series and column list after each poll"],over=("inputs","histories","fault_sequences"))
prop("I05","Charts place every finite point of every series at its data coordinates",
 "A drawn chart shows each series as exactly its finite points, in order and in the given colour, each at the page position that one affine map per axis assigns to its data coordinates; points that are not finite are left out without disturbing the others, and error charts show the difference of the two series. Whatever the values, drawing finishes: it succeeds or returns an error.",
 "All series (any number, length, magnitude, constant or non-finite values).",
 "Tests draw nothing; scaling, omission and termination depend on the data.",
 ["aether_viz/src/lib.rs"],
 [("plot_series / plot_error_on_grid","aether_viz/src/lib.rs")],
 ["positions of the drawn points, errors"])

prop("J01","Assertion helpers accept exactly what lies within the stated tolerance",
 "The test-support comparisons (elementwise approximate equality of vectors and matrices, matrix symmetry, finiteness, the largest error of two functions over a grid, encode/decode equivalence) accept finite data if and only if every difference is within the tolerance, report an element or grid point that really is an offender (the worst one, for grids), compute the exact largest difference and Frobenius norm, and never take a NaN for agreement. The grid comparison visits both ends and every equally spaced node between.",
 "All finite contents and NaN anywhere, every shape, tolerance and grid size, differences on either side of the tolerance at any position. Whether two equal infinities agree is left open.",
 "The helpers decide whether other tests pass; their own tests use a handful of literals without NaN or a single deviating element in an unusual place.",
 ["aether_test/src/assert/vector.rs","aether_test/src/assert/matrix.rs","aether_test/src/assert/function.rs","aether_test/src/assert/coding.rs"],
 [("elementwise comparison","aether_test/src/assert/matrix.rs:matrix_approx_eq"),("grid error","aether_test/src/assert/function.rs:assert_max_abs_error_on_grid")],
 ["Ok/Err, panics and returned numbers"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
