#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording stays reviewable)."""
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

add("C01", "Particle answers always reflect the current mass and momentum",
    "After a particle has been given a momentum, every quantity it hands out (momentum matrices, massless and massive spinors with upper or lower spin index, spinor matrices, generators, dot products, components) equals the one a newly created particle with the same mass and momentum would hand out. This holds whatever was asked of it before, in whatever order, and however often its mass and momentum were changed or the particle was assigned from another. Asking for one quantity never changes the answer to another.",
    ["histories", "inputs"], "all sequences of mass/momentum updates and queries on one particle, all real momenta and masses",
    "The unit tests build a fresh particle for almost every comparison and query each spinor once or twice; a forgotten or crossed cache slot for one of the 22 cached quantities is only visible after a specific update/query order.",
    ["source/particle.cpp", "include/particle.h"],
    [("cache flags cleared on update", "source/particle.cpp: particle::update"), ("fill-on-miss accessors", "source/particle.cpp: umat..rsquare")],
    [("22 cached matrices and spinors with one flag each", "memoised results of the accessors", "include/particle.h")],
    ["return values of the particle accessors"])

add("C02", "Spinor products are fresh after update, whatever was evaluated before",
    "After a spinor product has been told that its particles changed, each of its components has the value a newly built product of the same particles would give. This holds for every combination of massless and massive ends, every sequence of earlier evaluations and updates, and also when an end's mass changes between zero and non-zero or the product was copied or assigned from another. Evaluating one component never alters another, and asking again returns the same value.",
    ["histories", "inputs"], "all sequences of updates and component evaluations, all end types, 0 to 6 inner momenta",
    "Tests evaluate each product right after construction; the four cached components, their flags and the massive/massless flags are never exercised across a second update with a different evaluation order.",
    ["source/sproduct.cpp", "include/sproduct.h"],
    [("component flags reset and inner matrix recomputed", "source/sproduct.cpp: sproduct::update"), ("fill-on-miss evaluation", "source/sproduct.cpp: sproduct::v")],
    [("2x2 table of computed components and flags", "memoised products", "include/sproduct.h")])

add("C03", "Spinors, momentum matrices and generators obey the conventions everywhere",
    "For every on-shell momentum the momentum matrices have the documented entries, each massless or massive spinor has its documented components, lowering a spin index is the antisymmetric contraction, and the outer products of angle and square spinors rebuild the momentum matrix. The rotation and spin generators are the documented functions of the momentum direction and speed, with the documented massless limit. Dot products and reported momentum components are the Minkowski ones.",
    ["inputs"], "all on-shell momenta (any direction, massless, at rest, ultra-relativistic), both spin values, upper and lower index",
    "Tests compare at random points with a loose absolute tolerance and never reach the sign, axis and lower-index corners of all accessors; each accessor is a separate hand-written formula.",
    ["source/particle.cpp", "source/cmatrix.cpp"],
    [("closed-form components from energy, direction and half angle", "source/particle.cpp: update, umat, lmat, rangle.., lorentz_j*, spin_j*")])

add("C04", "Misuse is refused in every history and valid use never is",
    "Asking a massive particle for a massless spinor, a massless particle for a massive one, any spin label other than plus or minus one, a spinor product with the wrong number of spin labels for its ends, a lowered spin index on a massless end, or a matrix or vector entry outside 2x2 always raises an error, no matter what was successfully evaluated before. Setting momenta on a process type that does not define how raises an error. Every other request is answered without an error.",
    ["inputs", "histories"], "all integer labels, all end types and index positions, all earlier evaluations",
    "Only a handful of error paths are asserted, always on fresh objects; guards sit inside the cache-miss branches.",
    ["source/particle.cpp", "source/sproduct.cpp", "source/cmatrix.cpp", "source/cvector.cpp"],
    [("argument and mass guards that throw", "particle accessors, sproduct::update, sproduct::v, cmatrix::get, cvector::get")])

add("C05", "Off-shell or non-numeric momenta are always refused, on-shell ones accepted",
    "Giving a particle a momentum whose invariant square differs from its mass squared by more than the fixed tolerance raises an error, at construction and at every later update, also when the mass was changed in between. A momentum or mass that is not a number is refused too. A momentum within the tolerance with non-negative energy is accepted and yields only real, finite angles and square roots.",
    ["inputs", "histories"], "all momenta, masses and update orders, including values that are not numbers",
    "Tests feed on-shell momenta only; a comparison with a not-a-number value is silently false.",
    ["source/particle.cpp"],
    [("mass-shell comparison that throws", "source/particle.cpp: particle::update")])

add("C06", "2x2 matrix and vector algebra is exact for all operands, including itself",
    "Every sum, difference, product, quotient, negation, conjugate, outer product, determinant and entry lookup of 2x2 complex matrices and 2-vectors yields the mathematically defined value for all entries and every scalar kind, also when both operands are the same object. Operators that return a new value leave their operands unchanged and the in-place forms change only the left operand and return it. Equality holds exactly when all entries agree within the fixed tolerance, and inequality is its negation.",
    ["inputs"], "all complex entries and scalars (complex, real, integer), including aliased operands",
    "Tests use a few random matrices and never alias operands or vary entries independently in comparisons.",
    ["source/cmatrix.cpp", "source/cvector.cpp", "include/cmatrix.h", "include/cvector.h"],
    [("element loops with a temporary for the product", "source/cmatrix.cpp, source/cvector.cpp")])

add("C07", "Printed numbers, vectors and matrices show every component in its place",
    "The text form of a vector or matrix shows the real and imaginary part of every entry in row order with balanced braces (modulus and phase where the polar form is requested), and the stream output is that same text. The Mathematica form is valid Mathematica input with every number written so that it reads back with the full working precision, including numbers that need an exponent.",
    ["inputs"], "all component values, including very small and very large ones",
    "No test looks at any printed output.",
    ["source/cmatrix.cpp", "source/cvector.cpp", "source/utilities.cpp"],
    [("string assembly", "to_string, to_Mathematica_string, operator<<, double_to_Mathematica_string")])

add("C08", "Spin-state expansion of massive spin-1 legs is complete and normalised",
    "For any list of doubled spin projections the number of terms is two to the number of zeros, the normalisation is one over the square root of that number, and running the term index over that range assigns every zero leg the pairs (+1,-1) and (-1,+1) in all combinations exactly once while positive and negative legs always get (+1,+1) and (-1,-1). The hand-written forms for one to six legs and the list form agree leg by leg.",
    ["inputs"], "all numbers of legs (1 to 6 and general), all spin projections and term indices",
    "The amplitudes in the suite use at most four such legs; the five- and six-leg forms and permuted roles are never executed.",
    ["source/process.cpp", "include/process.h"],
    [("bit-wise enumeration of the zero legs", "source/process.cpp: get_num_spin_loops, get_spin_normalization, get_spinor_spins")])

add("C09", "Bracket strings multiply the right particles in the right order and index",
    "A spinor product with zero to six inner momenta equals left spinor times the inner momentum matrices in the order given times right spinor, with matrix index positions alternating from the left bracket type and the right bracket type fixed by the number of momenta. Upper or lower spin indices apply to the end for which they were requested and default to upper. The spin labels of massive ends select that end's spinor, left before right.",
    ["inputs", "configurations"], "all 28 ways to build a product, both bracket types, all masses and momenta",
    "Tests build products with at most three inner momenta and few lowered indices; the longer forms are separate hand-written code.",
    ["source/sproduct.cpp", "include/sproduct.h"],
    [("constructors storing the ends and momenta", "source/sproduct.cpp"), ("alternating product", "source/sproduct.cpp: sproduct::update, sproduct::v")])

add("C10", "Rotations and boosts are exact Lorentz transformations for all parameters",
    "Rotating a momentum about a unit axis by any real angle, positive, negative or larger than half a turn, is the right-handed rotation by that angle and keeps the energy. Boosting by any velocity below light speed, including zero, is the standard pure boost and is undone by the opposite velocity. Both keep the invariant square and modify nothing but the momentum given.",
    ["inputs"], "all momenta, unit axes, real angles and sub-luminal velocities including zero",
    "Both are only used inside random test kinematics where only invariance of a squared amplitude is observed.",
    ["source/utilities.cpp"],
    [("Rodrigues matrix", "source/utilities.cpp: rotate_momentum"), ("boost matrix", "source/utilities.cpp: boost_momentum")])

add("C11", "Propagator denominators follow the current mass and width",
    "A propagator denominator is the invariant square of the momentum minus mass squared, minus i times mass times width, for the mass and width most recently given at construction, by assignment or later. Evaluating it changes nothing.",
    ["inputs", "histories"], "all momenta, masses, widths and update orders",
    "Every test uses zero width, and changes masses only through complete process updates.",
    ["source/propagator.cpp", "include/propagator.h"],
    [("denominator formula", "source/propagator.cpp: propagator::denominator")])

add("C12", "Each exchanged particle uses its own mass and width in every process",
    "In every Standard Model process each internal propagator has the mass of one particle species and the width of that same species, exactly as passed to the constructor or to the mass update (the Z mass being the W mass over the cosine of the weak angle); stable species have zero width. A width that is passed in for a species the process exchanges therefore always reaches the amplitude.",
    ["inputs", "configurations"], "all about 140 processes, all parameter values, in particular non-zero widths",
    "Every reference comparison is made with all widths zero, so a lost, swapped or misplaced width is invisible.",
    ["SM/*.cpp", "SM/include/*.h"],
    [("propagator construction and mass updates", "constructors and mass updates of the process classes")])

add("C13", "Updating masses gives the same process as building it with those masses",
    "For every Standard Model process, updating the masses on an existing object and then setting momenta gives the same amplitudes as building a new object with those masses and the same other parameters; the same holds for the update of the Higgs vacuum value where a process offers it. No coupling, derived mass, propagator or prefactor may keep a value computed from an earlier mass.",
    ["histories", "configurations"], "all processes, all sequences of mass updates, all parameter values",
    "Tests compare a few mass sets against tables, always moving from the same start values and at zero width; a stale derived quantity that is later multiplied by zero or cancels in the tested channel goes unnoticed.",
    ["SM/*.cpp", "SM/include/*.h"],
    [("recomputation of derived masses and couplings", "mass updates of the process classes")])

add("C14", "Setting momenta refreshes everything the amplitude reads",
    "For every Standard Model process, after new momenta have been set the amplitude depends only on these momenta and the parameters: every external particle received its own momentum, every spinor product and every propagator denominator the amplitude uses has been recomputed afterwards from them, and nothing is left from an earlier phase-space point. Each propagator denominator is evaluated at the total momentum of two external particles.",
    ["histories", "configurations"], "all processes, all sequences of phase-space points",
    "A forgotten refresh of one term in one helicity or of a rarely used product needs a specific order of calls; the tests never compare against a fresh object.",
    ["SM/*.cpp"],
    [("update lists", "momentum setters of the process classes")])

add("C15", "Evaluating an amplitude does not change later evaluations",
    "Evaluating an amplitude or squared amplitude of any process, for any helicities, leaves parameters, momenta and everything else that influences later results unchanged. Repeating evaluations, or evaluating helicities and squared amplitudes in another order, therefore gives identical results.",
    ["histories"], "all sequences of amplitude evaluations between two momentum updates",
    "Tests evaluate squared amplitudes in a fixed order right after setting momenta.",
    ["SM/*.cpp", "source/sproduct.cpp", "source/propagator.cpp"],
    [("evaluation writes only memo tables", "amplitude functions of the process classes")])

add("C16", "Separate objects never influence each other",
    "Computations on particles, matrices, vectors, spinor products, propagators and processes use no mutable state shared between objects or between calls, so different processes can be used in any interleaving, or in different threads, with the same results. Only the random-number utilities share a generator, and nothing in an amplitude calculation uses them.",
    ["schedules", "histories"], "all interleavings of operations on distinct objects, including concurrent ones",
    "The test programs use one object at a time in one thread.",
    ["source/*.cpp", "include/*.h", "SM/*.cpp"],
    [("all state is in the objects", "whole library"), ("random generator reached only from test kinematics", "source/utilities.cpp")])

add("C17", "No result depends on uninitialised storage",
    "Constructing any object of the library or any process, and then using it as documented, never reads a value that has not been set. In particular a particle built from a mass alone is a complete particle at rest and derived parameters are computed only from parameters that are already set.",
    ["inputs", "histories", "configurations"], "all constructors of all classes, all documented uses after construction",
    "Uninitialised values are often zero or overwritten before a test reads them; the order in which members are initialised is fixed by their declaration, not by the constructor text.",
    ["source/*.cpp", "include/*.h", "SM/*.cpp", "SM/include/*.h"],
    [("initialiser lists and in-class defaults", "constructors of all classes")])

add("C18", "All calculations keep the configured working precision",
    "In the extended-precision configuration no value that enters a spinor, product, propagator, kinematic transformation or amplitude passes through a narrower floating-point type, and no inexact constant is rounded to a narrower type first. In the plain double configuration the same code is used unchanged. Fractions are never truncated by integer division.",
    ["inputs", "configurations"], "both precision configurations, all code that contributes to results",
    "Reference tables hold about ten digits and comparisons allow one part in a billion, far coarser than double precision.",
    ["include/types.h", "source/*.cpp", "SM/*.cpp"],
    [("single working-precision type", "include/types.h")])

add("C19", "Every amplitude term has consistent units, couplings and helicity weight",
    "In every process and for every helicity combination: multiplying all momenta, masses, widths and the vacuum value by one factor leaves the amplitude unchanged (gluon amplitudes that are returned without their denominators scale with one power for all helicities); multiplying the gauge couplings by one factor, with the vacuum value divided by it, multiplies the amplitude by its square; and turning the spinors of one external leg by a phase multiplies the whole amplitude by the phase that the helicity label of that leg requires, with the same sign convention for all labels of the leg.",
    ["inputs", "configurations"], "all processes, all helicity combinations, all parameter values",
    "Tests fix the couplings and the weak angle to one value each, so a missing or extra factor that is compensated at that value, or enters only with a width or for an unusual helicity, is not seen.",
    ["SM/*.cpp"],
    [("prefactors and spinor strings", "amplitude functions of the process classes")])

add("C20", "The comparison harness reports every mismatch and nothing else",
    "The comparison routines check all twenty scattering angles (ten random frames each where random) and return exactly the number of comparisons in which the computed value is infinite, not a number, or differs from the reference by more than the stated absolute and relative tolerances. The score routine returns the sum of the relative deviations of the angles that fail its stated tolerances, and so zero exactly when none fails.",
    ["inputs"], "all amplitude functions and reference tables, including values that are not numbers",
    "The suite only ever runs the harness on matching values, where it must return zero.",
    ["source/process.cpp"],
    [("comparison loops", "source/process.cpp: test_2to2_amp2*, score_2to2_amp2")])

add("C21", "Generated kinematics are on shell, conserve momentum and stay in range",
    "The two-to-two test kinematics give on-shell momenta for the four masses, in the centre-of-mass frame with the requested scattering angle and total momentum conserved. Random values and the spatial components of random momenta span the requested range, the returned mass is that of the momentum, massless ones are exactly light-like, and random frame changes apply one and the same rotation or sub-luminal boost to all four momenta.",
    ["inputs"], "all masses, momenta, angles and random draws",
    "The harness only observes invariance of the squared amplitude at a few mass points.",
    ["source/process.cpp", "source/utilities.cpp"],
    [("kinematics formulas", "set_test_initializations, set_test_momenta"), ("random draws", "choose_random_*")])

add("C22", "Squared amplitudes sum every helicity state exactly once",
    "In every process each squared amplitude adds the squared modulus of the amplitude over all helicity states of every external leg that is not fixed by the name of the function, each exactly once and with the same weight, so that the result is real and not negative. The weight is the average over the states of the unfixed incoming legs, the colour factor (averaged over incoming colours), and one half for identical outgoing particles; where a process splits its amplitude by colour structure the pieces are combined with the colour sums of these structures. The textbook formulas for massless partons agree with the sum.",
    ["inputs", "configurations"], "all processes and squared-amplitude functions, all parameters and momenta",
    "A missing or doubled helicity that vanishes at the tested points (massless limit, zero width, parity) does not change the tested numbers.",
    ["SM/*.cpp"],
    [("helicity loops", "squared-amplitude functions of the process classes")])

add("C23", "Tolerance comparisons fail closed on values that are not numbers",
    "Equality of matrices and vectors is false, inequality true, and the determinant and angle self-checks report failure, whenever any entry involved is not a number; the test harness counts such a value as a mismatch.",
    ["inputs"], "all operands with at least one entry that is not a number",
    "No test uses such values.",
    ["source/cmatrix.cpp", "source/cvector.cpp", "source/particle.cpp", "source/process.cpp"],
    [("tolerance comparisons", "operator==, get_det, test_angles, test_2to2_amp2*")])

add("C24", "Four-fermion amplitudes equal the tree-level prediction",
    "For every process with four external fermions, all couplings, masses, widths and weak angles, all helicities and all physical momenta, the helicity amplitudes equal, up to one constant phase per function, the exchange of every gluon, photon, Z, W and Higgs the Standard Model allows between the two fermion lines, each exactly once and with opposite signs for the two ways of joining the fermions into lines. In every process of the collection widths enter the amplitudes only through propagator denominators p^2-M^2-iM*Gamma. No amplitude function gives zero for all helicities and momenta.",
    ["inputs", "configurations"], "all four-fermion processes and helicities, all parameters and momenta; the last two sentences for all processes",
    "Reference tables cover one value of the couplings and the weak angle, a few mass points and spin sums only; chirality-flipped pieces are suppressed by tiny masses there.",
    ["SM/*.cpp"],
    [("amplitude formulas and couplings", "constructors, set_momenta and amplitude functions of the process classes")])

add("C25", "Squared amplitudes at given momenta equal setting the momenta first",
    "Where a process offers a squared amplitude that takes the four momenta itself, its value equals setting these momenta and then asking for the squared amplitude, for all parameters, momenta and whatever was evaluated or updated before.",
    ["inputs", "histories"], "all processes with such a form, all parameters, physical momenta and histories",
    "No test calls these forms.",
    ["SM/eAeh.cpp", "SM/eeAA.cpp", "SM/eeeeQED.cpp", "SM/eemmQED.cpp"],
    [("one-call forms", "amp2(mom1,mom2,mom3,mom4) of the process classes")])

add("C26", "Processes related by crossing or flavour have the same amplitudes",
    "Two processes that differ only by which particles are incoming and which outgoing have the same helicity amplitudes once momenta and labels of the moved particles are crossed, up to a constant phase that depends only on the function and on the helicities of external photons and gluons. The same holds for processes that differ only by the generation of the leptons, by a photon in place of a gluon on a quark line (up to the ratio of the couplings), or by the flavour of a fermion that couples only to photons, gluons and the Higgs (up to the ratio of the charges and with the mass exchanged). Widths are included, except for photon plus W with quarks, where they are taken as zero.",
    ["inputs", "configurations"], "all pairs of related processes, all helicities, parameters and momenta",
    "Each process is compared with its own table of numbers; no test relates two processes.",
    ["SM/*.cpp"],
    [("amplitude formulas and couplings", "constructors, set_momenta and amplitude functions of the process classes")])

add("C27", "Amplitudes with external bosons equal the tree-level prediction",
    "For every process with at least one external photon, gluon, Z, W or Higgs, all couplings, masses and weak angles, all helicities and all physical momenta, the helicity amplitude equals the sum of the tree-level diagrams of the Standard Model for the particles of the process, up to a constant phase that depends only on the helicities of external photons and gluons. Where several colour orderings contribute, it is the common numerator of the ordered amplitudes. Non-zero widths enter as in the propagator denominators of the diagrams, except in the processes where a width would spoil the cancellation between diagrams (W with photon, W with Z and vector-boson scattering, Higgs pairs), which are compared without widths.",
    ["inputs", "configurations"], "all processes with external bosons and all helicities, all parameters and momenta",
    "Reference tables cover one value of the couplings and the weak angle, a few mass points and spin sums only.",
    ["SM/*.cpp"],
    [("amplitude formulas and couplings", "constructors, set_momenta and amplitude functions of the process classes")])

add("C28", "Every access stays inside its array and refers to existing storage",
    "Constructing any object of the library or any process and using it as documented, including mass and momentum updates and the comparison routines with tables of twenty values, never reads or writes outside an array, never uses a null pointer and never keeps or returns a reference to storage that no longer exists.",
    ["inputs", "histories", "configurations"], "all classes and processes, all constructors and documented uses, arrays of the documented length",
    "An access one element past an array often hits a neighbouring member and changes nothing that a test looks at.",
    ["source/*.cpp", "include/*.h", "SM/*.cpp", "SM/include/*.h"],
    [("loops over momenta and tables, pointers kept by spinor products", "all classes, set_momenta, comparison routines")])

add("C29", "The self test of each process reports every mismatch",
    "The self test of each process returns the total number of mismatches of all comparisons it makes, prints Fail if and only if there is one, and compares every squared amplitude at kinematics whose four masses are those of the particles of the process at that moment. The program that runs all self tests runs each of them once and names every process with a mismatch.",
    ["inputs", "configurations"], "all self tests, all outcomes of the comparisons",
    "As long as all comparisons agree, a self test that loses or hides mismatches looks exactly like a correct one.",
    ["SM/*.cpp"],
    [("accumulation of mismatches, masses passed to the comparisons", "test functions of the process classes and the program that runs them")])

add("C30", "The example process for users is the tree-level QED process",
    "For all charges, masses, helicities and physical momenta, the example process in the user directory gives the tree-level amplitude of electron-positron annihilation to muons by photon exchange, and its squared amplitude is the sum over all helicities averaged over the incoming ones. Updating masses or momenta, repeating an evaluation and building it behave as for the processes of the library.",
    ["inputs", "histories"], "all parameters, momenta, helicities and histories of the example process",
    "The example is not part of the build and no test runs it.",
    ["user-dir/eemm.cpp", "user-dir/include/eemm.h"],
    [("amplitude, mass and momentum updates", "example process class")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
