"""Writes properties.jsonl (the property statements live here once)."""
import json, os
Q = lambda over, text: {"over": over, "text": text}
M = lambda *p: [{"name": a, "where": b} for a, b in p]
core, irr, grp, rep, spi, cor, tra, uti, ten, pg = ("src/spgrep/%s.py" % x for x in
  "core irreps group representation spinor corep transform utils tensor pointgroup".split())
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": Q(over, text), "why_tests_cant": why,
      "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                  "mechanism": M(*mech), "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Small representations obey the space-group multiplication law",
 "For every space group given in a primitive cell (any setting, unimodular basis, origin, operation order, integer translation representatives), every k-vector and both methods, every matrix list returned by get_spacegroup_irreps_from_primitive_symmetry is unitary and satisfies Gamma(g1)Gamma(g2) = exp(-2 pi i k.(t12 - t_idx)) Gamma(idx), where (R_idx, t_idx) is the returned little-group operation with the rotation of g1 g2. The identity operation is represented by the unit matrix. The call never raises on such input.",
 ["inputs", "configurations"], "530 Hall settings x rational and generic k (also outside the first zone) x random basis/origin/order/translation representatives x {Neto, random}",
 "Tests use three space groups and a handful of k; the phases depend on the interplay of k, non-symmorphic translations and the order of the operations, which only an input sweep with an exact phase oracle covers.",
 [core, irr, grp], [("projective irreps of the little co-group", irr + ":enumerate_unitary_irreps"), ("factor system", grp + ":get_factor_system_from_little_group"), ("k.v phase", irr + ":enumerate_small_representations")],
 [("little group", "operations stabilising k", grp + ":get_little_group"), ("factor system", "projective multiplier of the little co-group", grp + ":get_factor_system_from_little_group")],
 ["get_spacegroup_irreps_from_primitive_symmetry", "enumerate_small_representations"])
prop("C02", "All irreps are returned, each exactly once, each irreducible",
 "For every space group in a primitive cell, every k and both methods, the representations returned by get_spacegroup_irreps_from_primitive_symmetry are irreducible, mutually inequivalent and complete: their characters over the little co-group are orthonormal and the squares of their dimensions sum to the order of the little co-group.",
 ["inputs", "configurations"], "530 Hall settings x k x random frames x {Neto, random}",
 "Tests compare dimensions for a few groups; completeness and inequivalence for every group, k and operation order is a universally quantified statement.",
 [core, irr, pg], [("solvable chain induction", irr + ":enumerate_unitary_irreps_from_solvable_group_chain"), ("random commuting matrix", irr + ":enumerate_unitary_irreps_from_regular_representation"), ("chain generators", pg + ":get_pointgroup_chain_generators")],
 [("irreps list", "irreps of the current subgroup of the chain", irr + ":enumerate_unitary_irreps_from_solvable_group_chain")],
 ["get_spacegroup_irreps_from_primitive_symmetry", "enumerate_unitary_irreps"])
prop("C03", "The little group is exactly the stabiliser of k",
 "get_little_group, and the mappings returned by the primitive-cell entry points, select exactly the operations (R, t) with R^T k equal to k modulo a reciprocal lattice vector (with -R^T k for operations with time reversal), each once, in input order, and return their rotations and translations unchanged. No operation that moves some component of k by more than the absolute tolerance atol is selected and none that moves it by less is left out, whatever atol and however k is represented modulo reciprocal lattice vectors.",
 ["inputs"], "530 space groups and 1651 magnetic groups x k on rational grids, near-symmetric k off by 1e-3..1e-6, k shifted by reciprocal lattice vectors, random bases",
 "Tests check one group at one k; selection errors only appear for particular combinations of k, basis, boundary values and time reversal.",
 [grp, core], [("stabiliser test", grp + ":get_little_group")], [("mapping_little_group", "indices of the selected operations", grp + ":get_little_group")],
 ["get_little_group", "get_spacegroup_irreps_from_primitive_symmetry", "get_spacegroup_spinor_irreps_from_primitive_symmetry"])
prop("C04", "Irreps of a crystal structure are correct in the cell it is given in",
 "For every crystal structure, given in a conventional, primitive, sheared or non-standard cell or a supercell with any origin, and for k given in the dual basis or in any supplied reciprocal_lattice, get_spacegroup_irreps returns the symmetry operations of that structure (at the given symprec), the little group of k among them, and unitary matrices obeying the multiplication law in that cell, where pure translations (centring vectors included) are represented by exp(-2 pi i k.t) times the unit matrix. The irreps are irreducible, inequivalent and complete for that little group.",
 ["inputs", "configurations"], "crystals generated from all 530 Hall settings with 1-2 general orbits x {standard, sheared, primitive, supercell} cell x origin x k x reciprocal_lattice x method",
 "Tests use corundum and a few structures in the standard cell at few k; centring phases, non-standard cells and dual-basis conversion need every centring type and cell choice.",
 [core, tra], [("cell reduction", core + ":get_spacegroup_irreps"), ("centring phases", core + ":_adjust_phase_for_centering_translations"), ("dual basis conversion", core + ":get_spacegroup_irreps")],
 [("mapping_to_prim", "conventional operation -> primitive operation", core + ":get_spacegroup_irreps"), ("phases", "centring phase of each conventional operation", core + ":_adjust_phase_for_centering_translations")],
 ["get_spacegroup_irreps"])
prop("C05", "Reduction to a primitive cell preserves the space group and k",
 "For every Hall number, get_primitive_transformation_matrix gives a basis of exactly the translation lattice of that setting, and a Hall number out of range is rejected with ValueError. transform_symmetry_and_kpoint maps (R, t) to (P^-1 R P, P^-1 t) and k to P^T k for every invertible P, so products of operations and phases k.t are preserved. unique_primitive_symmetry keeps the first operation for each distinct rotation (and time-reversal part) with its translation reduced modulo 1, and maps every input operation to the kept one with the same rotation, whatever the input order.",
 ["inputs"], "all 530 Hall numbers and out-of-range numbers x operation orders (interleaved centrings) x basis changes x k",
 "One structure is tested; the reduction has a branch per centring type, setting choice and operation order.",
 [tra, core], [("centring table", tra + ":get_primitive_transformation_matrix"), ("transformation", tra + ":transform_symmetry_and_kpoint"), ("deduplication", tra + ":unique_primitive_symmetry")],
 [("mapping_to_primitive_symmetry", "input operation -> kept operation", tra + ":unique_primitive_symmetry")],
 ["get_primitive_transformation_matrix", "transform_symmetry_and_kpoint", "unique_primitive_symmetry"])
prop("C06", "Point-group irreps are complete in any setting and operation order",
 "For every crystallographic point group in any basis in which its rotations are integer matrices, and any order of its operations, get_crystallographic_pointgroup_irreps_from_symmetry returns a complete set of inequivalent unitary irreps with both methods. get_pointgroup_chain_generators returns generators of a normal series: starting from the last one, each generator normalises the subgroup generated by the later ones, adds a new factor of its own order, and all together generate the group. The regular (and projective regular) representation is the one defined by the multiplication table.",
 ["inputs"], "32 point groups x all tabulated orientations x random unimodular and centred bases x permutations x {Neto, random}",
 "Tests use the standard tables only; the matching to the tabulated settings depends on basis and order of the operations.",
 [pg, core, irr, rep], [("setting match", pg + ":get_pointgroup_chain_generators"), ("tables", pg + ":pg_dataset"), ("regular representation", rep + ":get_regular_representation")],
 [("mapping", "standard operation -> given operation", pg + ":get_pointgroup_chain_generators")],
 ["get_crystallographic_pointgroup_irreps_from_symmetry", "get_pointgroup_chain_generators", "get_regular_representation"])
prop("C07", "Physically irreducible representations are real, lawful and complete",
 "With real=True, point-group and space-group entry points (including enumerate_small_representations) return real orthogonal matrices which obey the multiplication law, pure lattice translations acting as the scalar +-1 (indicator 1) or as the documented rotation block (indicator -1 and 0). Each is composed of one complex irrep (indicator 1), twice one irrep (indicator -1) or an irrep and its conjugate (indicator 0), the indicator being the true Frobenius-Schur indicator. Every complex irrep is contained in one of them, in exactly one when 2k is a reciprocal lattice vector.",
 ["inputs"], "32 point groups in any setting; 530 Hall settings x k with 2k = 0 mod G and other k x both methods",
 "Tests check C4, Oh and one space group; reality type depends on group, k and translations.",
 [irr, core, rep], [("reality pairing", irr + ":enumerate_small_representations"), ("real form", irr + ":get_physically_irrep"), ("indicator", rep + ":frobenius_schur_indicator")],
 [("conjugated_pairs", "irrep index paired with its conjugate", irr + ":enumerate_small_representations")],
 ["get_crystallographic_pointgroup_irreps_from_symmetry(real=True)", "get_spacegroup_irreps_from_primitive_symmetry(real=True)", "enumerate_small_representations", "enumerate_unitary_irreps"])
prop("C08", "Spinor rotations cover the rotations and define the spin factor system",
 "For every point group and every lattice compatible with it, exactly or to the digits lattices are given with (any orientation, handedness and scale), get_spinor_factor_system returns for each operation a matrix of SU(2) whose adjoint action is the proper part of the Cartesian rotation, with rotation angle in [0, pi] and the unit matrix for the identity, ignoring inversion. The factor system z takes values +1 or -1, satisfies U(S_i)U(S_j) = z(i,j) U(S_i S_j), is 1 whenever i or j is the identity, and obeys the cocycle condition. For magnetic point groups get_corep_spinor_factor_system represents S1' by U(S)(-i sigma_y) K, with complex conjugation of the right factor after an anti-linear one, and flags exactly the time-reversing operations as anti-linear.",
 ["inputs"], "32 point groups x orientations/bases x random compatible lattices; magnetic point groups",
 "Tests use one hexagonal lattice; sign conventions depend on rotation axis direction, angle pi, and lattice orientation.",
 [spi, cor], [("SU(2) matrix", spi + ":get_spinor_unitary_rotation"), ("angle and axis", spi + ":get_rotation_angle_and_axis"), ("factor system", spi + ":get_spinor_factor_system"), ("anti-linear factor system", cor + ":get_corep_spinor_factor_system")],
 [("unitary_rotations", "SU(2) matrix of each operation", spi + ":get_spinor_factor_system")],
 ["get_spinor_factor_system", "get_corep_spinor_factor_system", "get_spinor_unitary_rotation"])
prop("C09", "Spinor irreps obey the law with the returned factor system and are complete",
 "For every space group in a primitive cell (or point group), lattice compatible with it (exactly or up to a small strain), k and method, the spinor entry points return unitary matrices with Gamma(g1)Gamma(g2) = z(i,j) exp(-2 pi i k.(t12 - t_idx)) Gamma(idx) for the returned factor system z, which is the factor system of the returned SU(2) matrices. The irreps are irreducible, mutually inequivalent and complete, and indexed by the returned little-group mapping. The same holds, in the cell of the input, for crystal structures.",
 ["inputs", "configurations"], "530 Hall settings x k x frames x compatible lattices x methods; crystals in centred and non-standard cells",
 "Tests cover P4_2/mnm, corundum and a few point groups.",
 [core, spi, irr], [("combined factor system", spi + ":enumerate_spinor_small_representations"), ("alignment with conventional operations", core + ":get_spacegroup_spinor_irreps")],
 [("factor system", "product of spin and translation multipliers", spi + ":enumerate_spinor_small_representations")],
 ["get_spacegroup_spinor_irreps_from_primitive_symmetry", "get_crystallographic_pointgroup_spinor_irreps_from_symmetry", "get_spacegroup_spinor_irreps"])
prop("C10", "Spinor co-representations obey the anti-linear law and are complete",
 "For every magnetic space group of type I-IV in a primitive cell (and every magnetic point group), k and method, the returned co-representations are unitary and satisfy Gamma(g1) Gamma(g2)^(*) = z(1,2) exp(-2 pi i k.(t12 - t_idx)) Gamma(idx), with the conjugation exactly when g1 reverses time, for the returned spin factor system and anti-linear flags. Each has the structure announced by its Frobenius-Schur indicator (1, -1 or 0), they are inequivalent, and restricted to the time-preserving operations they exhaust all spinor irreps. For a group without time reversal the indicators are empty and the result equals the ordinary spinor irreps.",
 ["inputs", "configurations"], "1651 magnetic space groups x k (zone centre, boundary, generic) x frames x methods; magnetic point groups",
 "Tests use four magnetic groups mostly at special k.",
 [cor, core, grp], [("Wigner construction", cor + ":enumerate_spinor_small_corepresentations"), ("coset decomposition", grp + ":decompose_by_maximal_space_subgroup")],
 [("conj_pairs", "(indicator, irrep, conjugated irrep)", cor + ":enumerate_spinor_small_corepresentations")],
 ["get_spacegroup_spinor_irreps_from_primitive_symmetry(time_reversals)", "get_crystallographic_pointgroup_spinor_irreps_from_symmetry(time_reversals)"])
prop("C11", "Co-representations of a magnetic structure are correct in its own cell",
 "For every collinear magnetic structure, get_spacegroup_spinor_irreps with magmoms returns symmetry operations of the magnetic structure with their time-reversal parts, the little group of k among them (anti-linear operations sending k to -k), anti-linear flags, spin factor system and SU(2) matrices aligned with that little group, and co-representations obeying the anti-linear multiplication law in the input cell, pure lattice translations acting as exp(-2 pi i k.t). The co-representations are irreducible, inequivalent and complete.",
 ["inputs"], "magnetic crystals generated from the 1651 magnetic groups, standard and primitive cells x k",
 "The magnetic wrapper is untested for centred cells, anti-translations and k that anti-linear operations map to -k.",
 [core, cor, tra], [("magnetic dataset and reduction", core + ":get_spacegroup_spinor_irreps"), ("deduplication with time reversal", tra + ":unique_primitive_symmetry")],
 [("mapping_to_prim", "conventional -> primitive operation", core + ":get_spacegroup_spinor_irreps")],
 ["get_spacegroup_spinor_irreps(magmoms)"])
prop("C12", "Projection yields an orthonormal basis for each copy of the irrep",
 "For every unitary (also projective) representation containing an irrep m times, project_to_irrep returns exactly m basis sets which are linearly independent of each other, each made of orthonormal vectors that transform under the representation precisely by the given irrep matrices, whatever the basis of the representation. It returns nothing for an irrep not contained, and raises ValueError for inconsistent shapes.",
 ["inputs"], "direct sums with multiplicities 0..n of irreps of all point groups and of small-representation co-group irreps, in random unitary bases; permutation (site) representations",
 "Tests project one 3x3 representation; multiplicity and choice of basis decide whether independent copies are recognised.",
 [rep], [("projection and selection", rep + ":project_to_irrep"), ("independence test", uti + ":grassmann_distance")],
 [("adjusted_atol, distance_tol", "tolerances tuned by retries", rep + ":project_to_irrep")], ["project_to_irrep"])
prop("C13", "Decomposition returns each contained irrep exactly once",
 "For every unitary (also projective) representation, decompose_representation returns unitary irreducible, mutually inequivalent representations of the same group and factor system, each contained in the input, whose dimensions weighted with their multiplicities add up to the dimension of the input. get_direct_product returns the Kronecker product, whose character is the product of characters, and raises ValueError for different orders; get_character returns the traces.",
 ["inputs"], "direct sums in random bases, regular representations, tensor products for all point groups and projective co-groups",
 "Only the regular representation is decomposed in tests.",
 [irr, rep], [("random commuting matrix", irr + ":decompose_representation"), ("Kronecker product", rep + ":get_direct_product")],
 [("irreps", "irreps found so far", irr + ":_get_irreps_from_matrix")], ["decompose_representation", "get_direct_product", "get_character"])
prop("C14", "Symmetry-adapted tensors span exactly the invariant tensors",
 "For every point group, orientation and rank, get_symmetry_adapted_tensors returns tensors that are invariant under all operations of the given representation acting on every index, are linearly independent, and whose number is the dimension of the space of invariant tensors; with real=True the tensors are real.",
 ["inputs"], "32 point groups x settings/orientations x ranks 1-4 x real flag x axial/polar representations",
 "Tests check the number of tensors for a few groups.",
 [ten, rep, irr], [("Erdos construction", ten + ":get_symmetry_adapted_tensors")], [("all_tensor_basis", "(basis, irrep) of current rank", ten + ":get_symmetry_adapted_tensors")], ["get_symmetry_adapted_tensors"])
prop("C15", "Intrinsic symmetrisation spans the totally symmetric invariants",
 "For every list of tensors of equal rank (zero, integer-valued and dependent ones included), apply_intrinsic_symmetry returns tensors invariant under every permutation of their indices, normalised, linearly independent, lying in (and spanning) the span of the index-symmetrised inputs. Applied to symmetry-adapted tensors, the number returned is the number of totally symmetric invariants given by the character formula. Inputs are not modified.",
 ["inputs"], "symmetry-adapted tensors of all point groups, ranks 1-4; random and linearly dependent tensor lists",
 "Tests check counts for a few elastic-type tensors.",
 [ten], [("permutation sum and independence", ten + ":apply_intrinsic_symmetry")], [("list_sym_basis", "independent symmetric tensors so far", ten + ":apply_intrinsic_symmetry")], ["apply_intrinsic_symmetry"])
prop("C16", "Group tables, inverses, orders and coset decompositions are exact",
 "For every finite group of integer matrices (with optional time-reversal parts) in any order, get_cayley_table is the multiplication table, get_identity_index, get_inverse_index and get_order give the identity, the inverse and the order of each element, and is_matrix_group accepts exactly the lists of distinct matrices which are closed under multiplication. decompose_by_maximal_space_subgroup lists the time-preserving operations and pairs each with its product with the chosen time-reversing representative modulo lattice translations, and returns None exactly when there is no time-reversing operation.",
 ["inputs"], "point groups, subgroups, non-groups, grey/black-white groups, all 1651 magnetic groups in conventional settings, permuted",
 "Tests use C3v and one type-III group.",
 [grp], [("multiplication table", grp + ":get_cayley_table"), ("closure test", grp + ":is_matrix_group"), ("coset decomposition", grp + ":decompose_by_maximal_space_subgroup")],
 [("table", "multiplication table", grp + ":get_cayley_table")], ["get_cayley_table", "get_identity_index", "get_inverse_index", "get_order", "is_matrix_group", "decompose_by_maximal_space_subgroup"])
prop("C17", "Intertwiners, equivalence tests and reality indicators are right",
 "For equivalent unitary irreps (also projective, in any unitary basis), get_intertwiner returns a unitary matrix with determinant 1 with rep1(g) U = U rep2(g) for all g; is_equivalent_irrep on the characters of irreps is true exactly for equivalent ones; frobenius_schur_indicator equals the average of the trace of D(g)^2 and raises ValueError for a real-type reducible representation with value above 1. get_physically_irrep turns an irrep of indicator 1 into an equivalent real orthogonal representation of the same dimension, and of indicator -1 or 0 into the real form of twice the dimension.",
 ["inputs"], "irreps of all point groups and projective co-group irreps, conjugated by random unitaries; inequivalent pairs",
 "Tests check one intertwiner and C4 indicators.",
 [rep, irr], [("random averaging", rep + ":get_intertwiner"), ("indicator", rep + ":frobenius_schur_indicator"), ("equivalence", irr + ":is_equivalent_irrep"), ("real form", irr + ":get_physically_irrep")],
 [("matrix", "intertwiner candidate", rep + ":get_intertwiner")], ["get_intertwiner", "is_equivalent_irrep", "frobenius_schur_indicator", "get_physically_irrep"])
prop("C18", "Irreps transform covariantly under every change of description",
 "Changing the description of a space group or of k - reordering operations, a unimodular basis change, an origin shift, another integer representative of a translation, adding a reciprocal lattice vector to k, moving k to another arm of its star by a group operation, reversing k (conjugation), rotating or scaling the lattice rigidly, or switching the method - and every composition of such changes - changes the returned set of irreps only as the change of description dictates: the little groups correspond and the multiset of characters is carried over with the corresponding phases.",
 ["histories", "inputs"], "every sequence of such changes, starting from any of the 530 Hall settings and any k",
 "Tests never compare two descriptions of one group except an origin shift for a few groups; sequences of changes compose.",
 [core, irr, grp, tra], [("frame-dependent phases", irr + ":enumerate_small_representations"), ("stabiliser", grp + ":get_little_group")],
 [("description", "(operations, k, method)", core + ":get_spacegroup_irreps_from_primitive_symmetry")], ["get_spacegroup_irreps_from_primitive_symmetry", "transform_symmetry_and_kpoint"])
prop("C19", "Calls are pure: no history, thread or argument effects",
 "Public functions do not modify their arguments or each other's results, and a call returns the same result (the same numbers, up to rounding) whatever calls were made before it, however often it is repeated, after its earlier results were overwritten by the caller, and when several threads call concurrently. Arguments given as integer, float, complex or read-only arrays of the same values give the same operations, tables and factor systems and equivalent matrices. The global random state is neither used nor changed, and process-wide settings (error handling and print options of numpy, warning filters, working directory, environment) are as before after a call.",
 ["histories", "schedules"], "every history of API calls on shared argument objects, on one or several threads",
 "Tests make each call once from fresh arguments.",
 [core, irr, rep, tra, ten, grp], [("fresh generators and copies", irr + ":enumerate_unitary_irreps_from_regular_representation"), ("in-place purification of fresh arrays", irr + ":purify_irrep_value"), ("module tables", pg + ":pg_dataset")],
 [("module tables", "shared read-only data", pg + ":pg_dataset"), ("random generator", "fresh generator per call", irr + ":enumerate_unitary_irreps_from_regular_representation")], ["all public functions"])
prop("C20", "Failures are signalled, never returned as partial or wrong results",
 "Where irreps are searched with random matrices, bad random draws are retried up to max_num_random_generations times (the limit given to any entry point), and the outcome is either the complete correct result or an empty (zero) result accompanied by a warning, never a partial or wrong one; when a later draw within the limit is good the search succeeds. Invalid requests - an unknown method, operations of a non-primitive cell, inconsistent shapes in projections and direct products, a Hall number out of range, an unknown distance type - raise ValueError instead of returning anything; operations which are not closed under multiplication give no table and no representations but an exception; a chain of generators that does not reach the whole group gives an empty result with a warning.",
 ["fault_sequences", "inputs"], "every sequence of degenerate/good random draws x retry limits x representations; every class of invalid request",
 "The fixed seed makes the retry paths unreachable in tests; no test checks a rejection.",
 [irr, rep, core, tra, uti], [("retry loop and completeness check", irr + ":enumerate_unitary_irreps_from_regular_representation"), ("retry loop", irr + ":decompose_representation"), ("retry loop", rep + ":get_intertwiner"), ("validation", core + ":get_spacegroup_irreps_from_primitive_symmetry")],
 [("attempt", "number of random draws used", irr + ":enumerate_unitary_irreps_from_regular_representation")], ["enumerate_unitary_irreps_from_regular_representation", "decompose_representation", "get_intertwiner", "entry points"])
prop("C21", "Checking predicates accept exactly what is true",
 "is_unitary, is_representation, check_spacegroup_representation and check_cocycle_condition return true for every (projective, spinor, conventional-cell) representation or factor system that satisfies the definition, and false when any single matrix, phase, multiplier or sign is wrong.",
 ["inputs"], "representations and factor systems of all space groups and point groups, intact and with one matrix, pair, phase or sign changed",
 "Tests use these predicates as oracles and never check that they can say no.",
 [rep, grp], [("all-pairs comparison", rep + ":is_representation"), ("law with phases", rep + ":check_spacegroup_representation"), ("cocycle", grp + ":check_cocycle_condition"), ("unitarity", rep + ":is_unitary")],
 [], ["is_unitary", "is_representation", "check_spacegroup_representation", "check_cocycle_condition"])
prop("C22", "Numeric helpers compute what they are named after",
 "nroot(z, n) is the n-th root of z with the smallest absolute angle; mode_dot contracts each tensor index with its matrix; grassmann_distance is the sine of the largest principal angle ('min') or the root mean square of the principal angles ('projection') for any bases of the subspaces; is_prime is primality for n >= 2; is_integer_array accepts exactly arrays within tolerance of integers; ndarray2d_to_integer_tuple rounds to the nearest integers; get_symmetry_from_hall_number returns the tabulated space group; get_crystal_system and get_centering agree with the lattice of the tabulated group.",
 ["inputs"], "grids of exactly representable inputs, subspaces with prescribed principal angles, all Hall numbers",
 "Tests check a few values; other guarantees (independence decisions, root choice, deduplication) rest on these helpers for all inputs.",
 [uti, tra], [("root", uti + ":nroot"), ("distance", uti + ":grassmann_distance"), ("mode product", uti + ":mode_dot")], [], ["spgrep.utils", "get_crystal_system", "get_centering"])
prop("C23", "Projective irreps are right for any group table and factor system",
 "For every finite group of integer rotations, every finite solvable group given by its multiplication table and a chain of generators of prime order, and every projective regular representation, with any normalised factor system in any gauge and any ordering of the elements, enumerate_unitary_irreps, enumerate_unitary_irreps_from_solvable_group_chain and enumerate_unitary_irreps_from_regular_representation return unitary, irreducible, mutually inequivalent matrices obeying D(i)D(j) = mu(i,j) D(ij), one for every class (squared dimensions add up to the order). get_factor_system_from_little_group gives mu(i,j) = exp(-i g_i.w_j) with g_i = R_i^T k - k. Indicators returned with complex irreps of a little group with real factor system are their Frobenius-Schur averages.",
 ["inputs"], "rotation groups of all settings; split-chain solvable groups (dihedral, Frobenius, Heisenberg, S4, products) up to order 64 with bicharacter factor systems and random gauges; little groups of the 530 Hall settings",
 "Tests use point groups and tables of a few crystallographic groups with trivial or one fixed factor system.",
 [irr, grp, rep], [("chain induction", irr + ":enumerate_unitary_irreps_from_solvable_group_chain"), ("projective regular representation", rep + ":get_projective_regular_representation"), ("little factor system", grp + ":get_factor_system_from_little_group")],
 [("subgroup irreps", "irreps of the current chain member", irr + ":enumerate_unitary_irreps_from_solvable_group_chain")], ["enumerate_unitary_irreps", "enumerate_unitary_irreps_from_solvable_group_chain", "enumerate_unitary_irreps_from_regular_representation", "get_factor_system_from_little_group"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
