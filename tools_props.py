"""Writes /verif/properties.jsonl (kept as a script so that the wording is reviewable)."""
import json
C="src/spgrep/core.py"; G="src/spgrep/group.py"; I="src/spgrep/irreps.py"; R="src/spgrep/representation.py"
S="src/spgrep/spinor.py"; CO="src/spgrep/corep.py"; T="src/spgrep/transform.py"; TE="src/spgrep/tensor.py"; P="src/spgrep/pointgroup.py"; U="src/spgrep/utils.py"
props=[]
def add(id,title,statement,over,qtext,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
add("C01","Small representations are unitary and obey the space-group product law",
 "For every space group given by its operations in a primitive cell and every wave vector k, each returned representation is a list of finite unitary matrices, one per operation of the little group, and multiplying the matrices of two operations gives exp(-2*pi*i k.T) times the matrix listed for the composed operation, where T is the lattice vector by which the composed translation exceeds the listed one. The identity operation is represented by the identity matrix. This holds for both construction methods, for any order of the operations, any origin or basis of the primitive lattice, any choice of translation representatives and any k, inside or outside the first zone.",
 ["inputs","configurations"],"all space groups (all 530 database settings), all wave vectors, both methods, all presentations (order, origin, basis, translation representatives, array types) of the operations",
 "The tests fix a dozen groups in one presentation at a few k; the product law is quantified over 230 groups x a continuum of k x presentations, and a wrong phase or branch shows only for some combination of non-symmorphic translation and reciprocal-lattice shift.",
 [C,I,G],[("factor system from R^T k - k","%s:get_factor_system_from_little_group"%G),("phases exp(-2 pi i k.t)","%s:enumerate_small_representations"%I),("induction along the solvable chain","%s:enumerate_unitary_irreps_from_solvable_group_chain"%I),("block-diagonalisation of the regular representation","%s:enumerate_unitary_irreps_from_regular_representation"%I)],
 ["return value of the primitive-cell space-group entry point","return value of the small-representation enumerator"])
add("C02","The list of small representations is complete, irreducible, duplicate-free",
 "For every space group and wave vector, with and without spin, the returned representations are irreducible, pairwise inequivalent, and exhaustive: the squares of their dimensions add up to the order of the little co-group. Both construction methods return the same list up to order and unitary equivalence.",
 ["inputs","configurations"],"all space groups, all wave vectors, both methods, ordinary and spin-derived factor systems",
 "Completeness fails for isolated (group, k, setting) combinations where induction or eigenvalue grouping mis-pairs representations; tests count irreps for a handful of groups.",
 [C,I,P],[("uniqueness filter by characters","%s:is_equivalent_irrep"%I),("dimension-sum acceptance test","%s:enumerate_unitary_irreps_from_regular_representation"%I),("conjugation classes in induction","%s:enumerate_unitary_irreps_from_solvable_group_chain"%I)],
 ["lists of representations returned by the public enumerators"])
add("C03","The little group is exactly the set of operations that keep k",
 "The reported little-group indices list, in the order of the given operations and each once, exactly those operations whose rotation maps the wave vector to itself up to a reciprocal lattice vector; with time reversal, an operation combined with time reversal is listed exactly when it maps k to -k up to a reciprocal lattice vector. The returned little-group operations are the listed ones, unchanged. Deviations clearly below the tolerance (the one given by the caller, where an entry point takes one) do not remove an operation and deviations clearly above it do not admit one.",
 ["inputs"],"all space groups and magnetic space groups, all wave vectors including boundary, near-boundary and far-outside-zone ones, all entry points that report a little group",
 "Tests check a few high-symmetry k of a few groups; membership is decided per operation by a floating-point comparison that has to be right for every k.",
 [G,C,CO],[("residual R^T k - k (R^T k + k for anti-unitary)","%s:get_little_group"%G),("mapping back to the conventional list","%s:_adjust_phase_for_centering_translations"%C)],
 ["little-group mapping returned by every space-group entry point","output of the little-group function"])
add("C04","Crystal-structure entry point works in any cell description of the crystal",
 "For a crystal structure given in any cell (conventional in any setting, shifted origin, relabelled or skewed axes, primitive, or supercell) and any wave vector in the basis of the chosen reciprocal lattice, the returned operations are those of the structure, the returned indices are exactly those keeping the wave vector up to a reciprocal vector of the primitive lattice, and the returned matrices are unitary and obey the product law for these operations with every lattice translation t represented by exp(-2*pi*i k.t). The list is complete, irreducible and duplicate-free for the little co-group. A wave vector given through a reciprocal lattice argument means the same physical vector as its coefficients in the dual of the cell.",
 ["inputs","configurations"],"all 530 settings x cell descriptions x wave vectors x both methods x reciprocal-lattice arguments",
 "Tests use a few structures in standardized cells; centering translations and change of basis go through hand-written matrices and index maps that must be right for each setting and each non-standard cell.",
 [C,T],[("reduction to primitive cell","%s:get_spacegroup_irreps"%C),("centering phases","%s:_adjust_phase_for_centering_translations"%C),("transformation matrices","%s:get_primitive_transformation_matrix"%T)],
 ["return value of the structure-based entry point"])
add("C05","Real (physically irreducible) representations are real, orthogonal and complete",
 "When real representations are requested, each returned matrix family is real, orthogonal and obeys the product law with a lattice translation t represented by the identity times cos(k.t) or by the documented rotation by k.t, and its reported indicator is the Frobenius-Schur indicator of the complex representation it is made of. A representation of indicator 1 keeps its dimension and is equivalent over the complex numbers to the original; for -1 it is twice that original and for 0 it is the original plus its conjugate. Every complex representation occurs in exactly one returned real one.",
 ["inputs","configurations"],"all space groups and point groups, wave vectors with and without 2k equivalent to zero, both methods",
 "Whether the symmetrising square root is real depends on the accidental phase and spectrum of a random intertwiner, per group, k and gauge; tests sample four cases.",
 [I,R],[("square root of the symmetric intertwiner","%s:get_physically_irrep"%I),("indicator","%s:frobenius_schur_indicator"%R),("pairing with conjugates","%s:enumerate_small_representations"%I)],
 ["real=True results and indicators of the enumerators"])
add("C06","Spin rotations form a double cover with a consistent sign factor system",
 "For every lattice and rotation list compatible with it, each operation is assigned an SU(2) matrix whose adjoint action is the Cartesian proper rotation of the operation, the identity and the inversion being assigned the identity matrix and operations that differ by the inversion the same matrix. The product of two assigned matrices equals the returned sign, exactly +1 or -1, times the matrix of the product operation, so the signs satisfy the cocycle condition; an operation with time reversal is assigned the matrix of its spatial part times -i sigma_y, and the same holds with the anti-linear product, and the anti-linear flags mark exactly the operations with time reversal. This does not depend on basis, orientation or scale of the lattice nor on small numerical noise in it.",
 ["inputs"],"all crystallographic point groups in any lattice basis, orientation, scale and operation order, with and without time reversal, lattice noise up to 1e-6",
 "Axis extraction has separate branches for angle 0 and pi whose outcome depends on the orientation of the crystal; tests use standard orientations.",
 [S,CO],[("angle and axis","%s:get_rotation_angle_and_axis"%S),("SU(2) matrix","%s:get_spinor_unitary_rotation"%S),("sign factor system","%s:get_spinor_factor_system"%S),("with time reversal","%s:get_corep_spinor_factor_system"%CO)],
 ["spin rotations and factor systems returned by the spinor functions"])
add("C07","Spinor representations obey the projective product law and are complete",
 "For every space group or point group, in a primitive cell or as a crystal structure in any cell, and every wave vector, the returned spinor representations are unitary and the product of two of their matrices is the returned spin sign times exp(-2*pi*i k.T) times the matrix of the composed operation. They are irreducible, pairwise inequivalent and complete, and the returned signs and spin rotations refer to the little-group operations in the returned order, the product of two spin rotations being the sign times the spin rotation of the composed operation.",
 ["inputs","configurations"],"all space groups and settings, cell descriptions, lattices, wave vectors and both methods, without magnetic moments",
 "The law combines two independent factor systems and an index map to the conventional cell; tests check three groups at a few k.",
 [S,C],[("combined factor system","%s:enumerate_spinor_small_representations"%S),("index maps to conventional cell","%s:get_spacegroup_spinor_irreps"%C)],
 ["return values of the spinor entry points"])
add("C08","Magnetic co-representations obey the anti-unitary product law and are complete",
 "For every magnetic space group of any type and every wave vector, and for every magnetic point group, the returned matrices are unitary and D(a) D(b), with D(b) complex-conjugated when a contains time reversal, equals the returned sign times exp(-2*pi*i k.T) times D(ab), the operations with time reversal being exactly the ones flagged anti-linear. The co-representations are irreducible, pairwise inequivalent and exhaust the little group, and each reported indicator 1, -1 or 0 tells truthfully whether the unitary part is one irreducible representation, twice the same one, or two inequivalent ones. The same holds for crystal structures with collinear moments in any cell.",
 ["inputs","configurations"],"all 1651 magnetic space groups x wave vectors x presentations x both methods; structures with collinear moments of all four types",
 "The three construction cases occur only for particular group/k combinations; tests only cover a few groups at Gamma.",
 [CO,G,C],[("coset construction","%s:enumerate_spinor_small_corepresentations"%CO),("maximal space subgroup","%s:decompose_by_maximal_space_subgroup"%G),("little group with time reversal","%s:get_little_group"%G)],
 ["return values of the co-representation entry points"])
add("C09","Point-group irreps are right in every basis and operation order",
 "For every crystallographic point group given by integer matrices in any lattice basis and in any order of the operations, the returned matrices are a unitary representation of the given matrices in the given order, irreducible, pairwise inequivalent and complete, with either method. The reported chain of generators is an ordered list of operations that generates the whole group through a normal series with Abelian quotients.",
 ["inputs","configurations"],"32 point groups x all bases of compatible lattices x all orderings x both methods, ordinary and spinor",
 "Matching a given group to a table goes through a searched basis change; tests use the tabulated settings and orders.",
 [P,C,I],[("matching with tabulated groups","%s:get_pointgroup_chain_generators"%P),("tables of operations and chains","%s:pg_dataset"%P)],
 ["return value of point-group entry points","return value of the chain-generator function"])
add("C10","Projection onto an irrep finds all symmetry-adapted bases, each orthonormal",
 "Given a unitary (projective) representation and an irreducible representation of the same group with the same factor system, as many basis sets are returned as the irrep occurs, or a warning is raised. Each set consists of orthonormal vectors that transform exactly as the given irrep under the representation, and the sets are jointly linearly independent. Nothing is returned for an irrep that does not occur.",
 ["inputs"],"all groups, irreps (ordinary, projective, spinor), multiplicities 0..6, gauges, scaled atol",
 "Result depends on tolerances and on the gauge of the given matrices; tests use three hand-made representations.",
 [R],[("projection operators","%s:project_to_irrep"%R),("independence by subspace distance","%s:grassmann_distance"%U)],
 ["returned basis sets and warnings of the projection function"])
add("C11","Invariant tensors are invariant, independent and complete",
 "For every point group acting on a vector space by unitary matrices and every rank, the returned tensors are invariant under every operation, linearly independent, and as many as the dimension of the invariant subspace; with real arithmetic requested they are real. Symmetrising them over index permutations returns fully symmetric, still invariant, linearly independent tensors, as many as the dimension of the space of symmetric invariants.",
 ["inputs"],"all 32 point groups in any orientation or orthonormal basis, vectors of dimension 3 and 6, rank 1 to 4, real and complex arithmetic",
 "Numbers of independent components are textbook tables over 32 groups x rank x convention; tests check two groups.",
 [TE,R],[("iterated Clebsch-Gordan projection","%s:get_symmetry_adapted_tensors"%TE),("permutation symmetrisation","%s:apply_intrinsic_symmetry"%TE)],
 ["returned tensors"])
add("C12","Intertwiners, decompositions and direct products are exact",
 "For two equivalent irreducible unitary representations A and B the returned intertwiner M has unit determinant, is unitary, and satisfies A M = M B for every operation. Decomposing any unitary (projective) representation returns each irreducible representation occurring in it exactly once, as unitary matrices that obey the same product law, whatever the multiplicities and gauge. The direct product of two representations is their Kronecker product operation by operation, and characters are traces.",
 ["inputs"],"all groups and factor systems, random gauges, multiplicity 0..3 per irrep",
 "These are generated from random matrices and eigenvalue grouping, whose failure is input dependent; tests check one or two inputs each.",
 [R,I],[("averaged random matrix","%s:get_intertwiner"%R),("eigenvalue grouping","%s:decompose_representation"%I),("Kronecker product","%s:get_direct_product"%R)],
 ["return values"])
add("C13","Validity checkers accept exactly the valid objects",
 "The predicates for unitarity, for being a (projective) representation, for being a space-group representation, for the cocycle condition and for being a matrix group return true on every valid object, and false when any single matrix, entry or element is changed by a clearly visible amount such that the object is no longer valid, whichever operation or pair of operations it sits at. The equivalence test on characters of irreps is true exactly for equivalent ones, and the integer test exactly for arrays of integers up to the tolerance. Where a checker takes tolerances, the ones given decide.",
 ["inputs"],"valid objects from all groups; single-site corruptions at every position",
 "A predicate that skips some element or pair is only exposed by an object that is wrong at exactly that place; tests pass correct objects almost only.",
 [R,G,I,U],[("predicates","%s:is_unitary,is_representation,check_spacegroup_representation"%R),("cocycle and group checks","%s:check_cocycle_condition,is_matrix_group"%G)],
 ["verdicts of the predicates"])
add("C14","Calls are pure: no input is modified and no history or thread changes a result",
 "A call (other than the two helpers documented to snap values of an array they are given, purify_irrep_value and purify_real_irrep_value) never modifies its arguments or any global random state, and accepts read-only arrays and any memory layout of them. Its result is the same value whenever it is repeated with equal arguments: after any other calls, in any order, with previously returned arrays overwritten by the caller, in another process with a different hash seed, and from several threads at once.",
 ["histories","schedules","inputs"],"all public functions, any sequence of calls interleaved with mutation of earlier results, any number of threads",
 "A cache or shared buffer is invisible in single calls of independent tests; only particular call histories or thread interleavings show it.",
 [C,I,R,S,CO,G,T,TE,P,U],[("fresh fixed-seed generators per call","%s:enumerate_unitary_irreps_from_regular_representation"%I),("in-place purification of freshly made arrays","%s:purify_irrep_value"%I)],
 ["arguments before/after each call","results of repeated calls"])
add("C15","Primitive-cell reduction is right for every one of the 530 settings",
 "For every Hall number the returned transformation yields a basis of exactly the translation lattice of that setting, with positive determinant equal to one over the number of lattice points per cell; the crystal system and the centring letter reported for it are those of its rotations and pure translations. Transforming operations and wave vectors with any basis change is conjugation: it preserves products, the action on points and the phase k.t, and integer rotations stay integer. Removing duplicates keeps each rotation (with its time-reversal part) once, translations within [0, 1) up to rounding, and a map that sends every operation to the kept one from which it differs by a lattice translation only.",
 ["inputs"],"all 530 Hall numbers, any unimodular or centering basis change, any order and duplication of operations, with and without time reversal",
 "Tests check a few Hall numbers; each setting has its own matrix and its own duplicate pattern.",
 [T],[("centering matrices","%s:get_primitive_transformation_matrix"%T),("conjugation","%s:transform_symmetry_and_kpoint"%T),("deduplication","%s:unique_primitive_symmetry"%T)],
 ["return values"])
add("C16","Group tables, regular representations and coset decompositions are correct",
 "For every finite group of integer matrices, optionally with time reversal, in any order, the multiplication table, identity, inverses and element orders agree with matrix multiplication. The (projective) regular representation has the documented single non-zero per row and column and obeys the product law of its factor system, and the little-group factor system is the one that relates projective to small representations. The decomposition of a magnetic group lists all operations without time reversal, an operation with it, and the exact pairing between the two halves, and reports that there is none for groups without time reversal.",
 ["inputs"],"all point groups and magnetic groups in any basis and order",
 "A wrong entry affects single operation pairs of single groups; tests check one or two tables.",
 [G,R],[("Cayley table","%s:get_cayley_table"%G),("factor system","%s:get_factor_system_from_little_group"%G),("regular representation","%s:get_projective_regular_representation"%R),("coset decomposition","%s:decompose_by_maximal_space_subgroup"%G)],
 ["return values"])
add("C17","Results transform covariantly under changes of description",
 "Describing the same physical situation differently changes the set of characters only by the corresponding relabelling: shifting k by a reciprocal lattice vector or moving the origin leaves the characters unchanged, adding lattice vectors t to the operations multiplies them by exp(-2*pi*i k.t), and permuting operations, changing the lattice basis, rotating or rescaling the lattice, replacing k by -k, or by the wave vector an operation of the group sends it to, permutes, preserves or conjugates them. This holds for ordinary, spinor (up to the sign choice of spin rotations) and magnetic representations.",
 ["inputs","configurations"],"all space groups and magnetic groups x wave vectors x pairs of equivalent descriptions",
 "Metamorphic relations between two runs; no test compares two descriptions of one situation.",
 [C,I,G,S,CO],[("phase conventions","%s:get_factor_system_from_little_group"%G),("projective characters","%s:enumerate_small_representations"%I)],
 ["characters of paired runs"])
add("C18","Numerical helpers compute what they document",
 "The subspace distance is zero exactly when the smaller subspace lies in the larger one, is symmetric, invariant under change of basis and unitary maps, equals the largest principal-angle sine (minimum correlation) or root-mean-square angle (projection), and stays within its range. The mode product equals the documented contraction for every rank and rectangular shape, and the n-th root satisfies root**n = z with the smallest angle. Purifying values only snaps entries within the tolerance to exact roots of unity, zero or their real counterparts and leaves all others alone.",
 ["inputs"],"random and degenerate real/complex subspaces of any dimensions, tensors of rank 1 to 4, complex numbers of any phase and n up to 12",
 "Continuous inputs; tests use single examples.",
 [U,I],[("subspace distance","%s:grassmann_distance"%U),("mode product","%s:mode_dot"%U),("root","%s:nroot"%U),("snapping","%s:purify_irrep_value"%I)],
 ["return values"])
add("C19","Failure is loud: a wrong or incomplete answer is never returned silently",
 "Requests that cannot be answered are refused with an exception: operations of a non-primitive cell, an unknown method or distance name, matrices that are not closed under multiplication, mismatched dimensions, an unknown Hall number. When the random search is given no usable random matrix, or too few trials, the result is either complete and correct or is accompanied by a warning, and no partial list of irreps is returned; with any single usable trial left, the result is complete and correct. Projecting onto matrices that cannot be contained in the representation, because the inner product of characters is not an integer, raises or warns.",
 ["fault_sequences","inputs"],"all positions of degenerate random draws within the trials of every random search, all kinds of invalid requests, over all point groups and a sweep of space groups",
 "Randomness is seeded, so tests only ever see the first draw succeed; failure paths never run.",
 [I,R,C,U],[("retry loops","%s:enumerate_unitary_irreps_from_regular_representation"%I),("intertwiner retry","%s:get_intertwiner"%R),("primitive-cell check","%s:get_spacegroup_irreps_from_primitive_symmetry"%C)],
 ["exceptions, warnings and results under injected faults"])
add("C20","Symmetry-adapted bases from all irreps span the space and block-diagonalise",
 "For a crystal and wave vector, the permutation-displacement representation built from the returned operations by the documented conventions is a representation of the little group, and projecting it onto all returned irreps gives basis vectors that together span the whole displacement space. In that basis every Hermitian matrix invariant under the little group has no elements between different irreps or different rows of an irrep, and the same block for each row, so that its levels have multiplicities given by the irrep dimensions. The multiplicities satisfy the character sum rule.",
 ["inputs","histories"],"crystals of all space groups with one to four orbits, in several cells, wave vectors of all stars, both methods",
 "End-to-end composition of all parts on arbitrary crystals; tests stop at the single functions.",
 [C,R,T],[("structure entry point","%s:get_spacegroup_irreps"%C),("projection","%s:project_to_irrep"%R)],
 ["irreps of the structure entry point composed with the projection function"])
add("C21","Irreps of any finite group given by its multiplication table are complete",
 "For every finite group, crystallographic or not, given by a multiplication table with its elements in any order, and every unitary factor system with trivial identity: the functions that enumerate irreps from the (projective) regular representation, or from a chain of generators each of which extends a normal subgroup by a cyclic complement of prime order, return unitary matrices that obey the product law, irreducible, pairwise inequivalent and complete, and both agree; identity, inverses and element orders agree with the table. For an irrep in any gauge with a real factor system, the Frobenius-Schur indicator is (1/|G|) sum of chi(g^2) and the physically irreducible form made from it is real, orthogonal, obeys the same product law and has the character of the irrep (indicator 1) or of the irrep plus its conjugate (-1 and 0). For groups of more than 60 elements the random search may instead give up with a warning and return nothing.",
 ["inputs","configurations"],"all finite groups of moderate order (abelian, dihedral, dicyclic, symmetric, Frobenius, Heisenberg, wreath products), element orders, factor systems including non-trivial classes",
 "Tests apply these functions to two or three crystallographic point groups; element orders above 6, irreps above dimension 4, quotients of order above 3 and factor systems other than signs never occur there.",
 [I,R,G],[("regular representation","%s:enumerate_unitary_irreps_from_regular_representation"%I),("chain of extensions","%s:enumerate_unitary_irreps_from_solvable_group_chain"%I),("indicator","%s:frobenius_schur_indicator"%R),("real form","%s:get_physically_irrep"%I)],
 ["return values of the listed functions"])
add("C22","Separately requested representations fit together by branching rules",
 "The representations of a group, restricted to the operations of any of its subgroups at the same wave vector, are sums of those requested for the subgroup: all multiplicities are non-negative integers, the sums reproduce the restricted characters, and dimensions obey Frobenius reciprocity, for ordinary, spinor and magnetic representations. Restricted to the unitary half, a co-representation of indicator 1, -1 or 0 is one representation, twice one, or two different ones, and each representation of that half occurs; an ordinary representation times spin 1/2 is such a sum of spinor representations and vice versa, with the same multiplicities; the product of representations at two wave vectors, on the operations keeping both, is such a sum of those at the sum of the wave vectors; the representations at a wave vector split, on the operations kept along a line leaving it, into those at the points of that line (compatibility relations); and a representation times another one at -k contains the trivial representation once exactly when they are conjugates. Over all stars of a regular grid of N^3 wave vectors, the squares of (arms of the star times dimension) add up to N^3 times the number of operations.",
 ["inputs","histories"],"all space groups and magnetic groups, their subgroups with the same translations, pairs of wave vectors, grids of wave vectors, in all presentations",
 "The statement ties several requests together; tests look at one request at a time.",
 [C,I,S,CO,G],[("small representations","%s:enumerate_small_representations"%I),("spinor ones","%s:enumerate_spinor_small_representations"%S),("co-representations","%s:enumerate_spinor_small_corepresentations"%CO),("little group","%s:get_little_group"%G)],
 ["characters, mappings, indicators and spin rotations of several primitive-cell requests"])
add("C23","Entry points agree wherever their domains overlap",
 "The same request made through different functions has the same answer up to unitary equivalence and order: the primitive-cell entry point and the chain of its documented parts (little group, factor system, regular representation or chain of generators, decomposition); the point-group functions and the space-group ones at the zone centre without translations, ordinary, real, spinor and magnetic; the crystal-structure functions and the primitive-cell ones with the operations returned, reduced to a primitive cell; a magnetic request without time-reversed operations and the non-magnetic one; a crystal with zero moments, or a group together with all its operations times time reversal, and the non-magnetic one on the operations without time reversal. Spin rotations and signs of the different functions are the same up to a sign per operation. The checkers accept what the constructors return, and the indicators returned are those of frobenius_schur_indicator.",
 ["inputs","configurations"],"all space groups, point groups and crystals in all cells, all wave vectors, both methods, all pairs of entry points whose domains overlap",
 "The number of pairs of entry points times groups, wave vectors and cells is beyond tests, which compare each function with its own expected values.",
 [C,I,S,CO,G,R],[("entry points","%s"%C),("parts of the ordinary chain","%s:enumerate_unitary_irreps"%I),("spinor parts","%s:enumerate_spinor_small_representations"%S),("magnetic parts","%s:enumerate_spinor_small_corepresentations"%CO)],
 ["return values of all entry points for overlapping requests"])
add("C24","Small numerical noise in the inputs does not change an answer",
 "Floating-point inputs are known to a few digits only, and results do not depend on the rest. With noise on the translations of operations other than the identity or on the lattice vectors up to 1e-5 (1e-7 for the random search, which above that may give up with a warning or exception), on the translation of the identity or on the wave vector within the absolute tolerance (documented default 1e-8, or the one given, e.g. a wave vector typed with 6 digits and atol=1e-4), or on the positions and lattice of a crystal up to 1e-7, a request selects the same operations and returns as many representations of the same dimensions and indicators, with the same signs up to a sign per operation, and characters and spin rotations that move by a modest multiple of the noise. Matrices with noise up to 1e-5 (1e-7 for decompositions, the given tolerance for projections and tensors) give intertwiners, real forms and indicators, decompositions, numbers and spans of projected basis sets and of (symmetrised) tensors of the exact matrices within the size of the noise relative to the tolerance.",
 ["inputs","fault_sequences"],"all space groups, magnetic groups, point groups and crystals; noise from 1e-10 to 1e-5 on each input or on all",
 "Tests use exact inputs; whether a comparison tolerates rounding noise shows only when the noise is there, at the operation where it matters.",
 [C,G,S,CO,I,R,TE],[("comparison of wave vectors","%s:get_little_group"%G),("rounding of signs","%s:get_spinor_factor_system"%S),("indicators and pairing","%s:enumerate_spinor_small_corepresentations"%CO),("character comparison","%s:is_equivalent_irrep"%I),("projection tolerance","%s:project_to_irrep"%R),("symmetrisation tolerance","%s:apply_intrinsic_symmetry"%TE)],
 ["results of paired exact and noisy requests"])
with open('/verif/properties.jsonl','w') as f:
    for p in props: f.write(json.dumps(p)+"\n")
