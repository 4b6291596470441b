"""The property list.  tools/gen_manifest.py writes properties.jsonl and MANIFEST.json from it."""

C = "qldpc/codes/common.py"
CL = "qldpc/codes/classical.py"
Q = "qldpc/codes/quantum.py"
D = "qldpc/codes/distance.py"
AB = "qldpc/abstract.py"
OB = "qldpc/objects.py"
DEC = "qldpc/decoders.py"
CIR = "qldpc/circuits.py"
MATH = "qldpc/math.py"
CACHE = "qldpc/cache.py"
GAP = "qldpc/external/gap.py"
EXG = "qldpc/external/groups.py"
EXC = "qldpc/external/codes.py"

PROPERTIES = [
    dict(
        id="C01",
        title="A classical code's views all describe the same linear code, over any field",
        statement="For every parity check matrix over every supported finite field, the code words are exactly the null space of the matrix: membership tests, the generator, word iteration, random words, rank, dimension, canonical form and code equivalence all agree with that one definition. The dual code consists of exactly the words orthogonal to every code word, and taking it twice gives back the same code. Redundant, zero or repeated checks and unchecked bits change none of this.",
        over=["inputs"],
        text="all parity check matrices (any shape, rank and redundancy) over prime and extension fields, given as lists, integer arrays or field arrays",
        why="The unit tests use a handful of named and random binary/ternary codes; field arithmetic, rank deficiency and degenerate shapes only go wrong on inputs they never build.",
        files=[C],
        mech=[
            ("ClassicalCode membership, generator, canonicalized, iter_words, dual", f"{C}: class ClassicalCode"),
            ("AbstractCode.equiv / rank / dimension", f"{C}: class AbstractCode"),
        ],
        observe=["word in code", "code.generator", "code.iter_words()", "~code", "code.rank", "code.dimension"],
    ),
    dict(
        id="C02",
        title="Transformations of classical codes produce the code they document",
        statement="Tensor product, stacking, puncturing, shortening, building a code from a generator and replacing a generator yield exactly the code given by their mathematical definition, for every input code, every field and every set of bits. Random codes have the requested shape, no trivial checks or unchecked bits, and are determined by their seed. Invalid generators are rejected.",
        over=["inputs"],
        text="all pairs of codes over a common field and all subsets of bit positions, including repeated, empty and complete subsets",
        why="Tests puncture and shorten one or two fixed codes; corner cases (bits that are always zero, dependent generators, non-binary fields) are reached only by search.",
        files=[C],
        mech=[
            ("ClassicalCode.tensor_product / stack / puncture / shorten / from_generator / set_generator / random", f"{C}: class ClassicalCode"),
        ],
        observe=["code.generator and code.matrix of the result"],
    ),
    dict(
        id="C03",
        title="Classical code distances are exact, and bounds never undercut them",
        statement="The exact distance reported for a classical code is the minimum Hamming weight of its nonzero words (undefined for codes with only the zero word), and the distance of a vector is its minimum Hamming distance to a word. Randomised upper bounds are never below these values and stop improving only within their documented cutoff. The result does not depend on how the generator is written, on the processing block size, or on how many machine words a code word occupies.",
        over=["inputs", "configurations"],
        text="all classical codes and vectors over any field, all block sizes, code lengths on both sides of machine-word boundaries",
        why="Tests compare a few codes of length under 64 and a few block sizes; popcount and packing errors depend on length, weight and block boundaries.",
        files=[C, D],
        mech=[
            ("get_distance_classical and its bit-packing helpers", f"{D}"),
            ("ClassicalCode.get_distance / get_distance_exact / get_distance_bound / get_one_distance_bound", f"{C}: class ClassicalCode"),
        ],
        observe=["code.get_distance(...)", "codes.distance.get_distance_classical(...)"],
    ),
    dict(
        id="C04",
        title="Named classical families and Tanner codes have the parameters they promise",
        statement="Every named classical code family has, for every admissible size and field, the dimension and distance that it reports, agreeing with brute-force computation from its parity check matrix, and the relations between families stated in the documentation hold. A Tanner code contains a word exactly when the bits around every check vertex form a word of the subcode in the documented order, and building it leaves the supplied graph as it was. Inadmissible parameters are rejected.",
        over=["inputs", "configurations"],
        text="all family parameters up to brute-forceable size over several fields; all half-regular directed and regular undirected graphs with optional sort labels, and all subcodes",
        why="The declared dimensions and distances are constants in the constructors that the tests only compare for one size each.",
        files=[CL, C],
        mech=[("named code classes and TannerCode", f"{CL}")],
        observe=["code.dimension", "code.get_distance()", "code.matrix"],
    ),
    dict(
        id="C05",
        title="Tanner graphs, strings and operators round-trip to the same code",
        statement="Converting a classical, qudit or CSS code to its Tanner graph and back, or a qudit code to Pauli/qudit strings and back, yields the same parity check matrix over the same field, for every matrix including ones with idle bits and trivial checks. Pauli and qudit operators round-trip through their string form, invert and exchange consistently with their vectors, and malformed operator strings are rejected.",
        over=["inputs"],
        text="all parity check matrices over all supported fields, and all operator values and strings",
        why="Tests round-trip single small codes; all-zero rows or columns and large field elements never occur there.",
        files=[C, OB],
        mech=[
            ("matrix_to_graph / graph_to_matrix / from_strings / get_strings", f"{C}"),
            ("Pauli and QuditOperator", f"{OB}"),
        ],
        observe=["code.graph", "Code.graph_to_matrix", "code.get_strings()", "QuditCode.from_strings"],
    ),
    dict(
        id="C06",
        title="Stabilizer code logical operators form a valid symplectic basis",
        statement="For every stabilizer code over every field, the computed logical operators commute with all stabilizers, pair up as conjugate X/Z partners and commute otherwise, number exactly n minus rank pairs, and are independent of the stabilizers. The documented standard form of the parity checks has identity blocks where documented and reproduces the original checks. Logical operators supplied by a user are accepted exactly when they satisfy the same relations.",
        over=["inputs"],
        text="all commuting sets of qudit Pauli checks, of any rank and redundancy, over prime and extension fields",
        why="Tests check a few random codes and the five-qubit code; pivoting paths depend on the whole shape of the matrix and on the field characteristic.",
        files=[C, MATH],
        mech=[
            ("QuditCode.get_standard_form_data / get_logical_ops / set_logical_ops", f"{C}: class QuditCode"),
            ("symplectic_conjugate, first_nonzero_cols", f"{MATH}"),
        ],
        observe=["code.get_logical_ops()", "code.get_standard_form_data()", "code.dimension"],
    ),
    dict(
        id="C07",
        title="Subsystem codes split consistently into stabilizers, gauge and logical parts",
        statement="For every set of gauge generators, the reported stabilizers generate exactly the centre of the gauge group, the gauge operators together with the stabilizers generate the gauge group and are arranged in conjugate pairs, and the logical operators are conjugate pairs that commute with every gauge generator. The numbers of stabilizers, gauge qudits and logical qudits add up to the block length, and the dual subsystem code exchanges gauge and logical qudits. A code is reported to be a subsystem code exactly when its checks do not all commute, unless the caller says otherwise.",
        over=["inputs"],
        text="all gauge groups (CSS and not) over several fields, any redundancy of generators",
        why="Tests use Bacon-Shor-like codes; general gauge groups exercise different elimination paths.",
        files=[C],
        mech=[
            ("get_stabilizer_ops / get_gauge_ops / get_dual_subsystem_code / gauge_dimension", f"{C}: class QuditCode, class CSSCode"),
        ],
        observe=["get_stabilizer_ops", "get_gauge_ops", "get_logical_ops", "gauge_dimension", "dimension"],
    ),
    dict(
        id="C08",
        title="A CSS code and its symplectic form are the same code",
        statement="Building a CSS code from X-type and Z-type checks gives the same stabilizer, gauge and logical groups, dimension, distance and subsystem status as building a general qudit code from the corresponding full parity check matrix. Restricting any operator set of a CSS code to one Pauli type, in short or full-length form, returns exactly the operators of that type, and the documented standard form and random logical operators satisfy the CSS checks. Incompatible subcodes are rejected.",
        over=["inputs"],
        text="all pairs of X and Z check matrices (commuting or not) over several fields",
        why="The two code paths share little code and tests compare them only for fixed examples.",
        files=[C],
        mech=[("CSSCode overrides of QuditCode methods", f"{C}: class CSSCode")],
        observe=["CSSCode and QuditCode public getters"],
    ),
    dict(
        id="C09",
        title="Quantum code distances are exact, and bounds never undercut them",
        statement="The distance of a quantum code is the minimum weight of an operator that commutes with all stabilizers but acts nontrivially on the logical qudits (modulo gauge operators for subsystem codes), separately for X-type and Z-type operators of CSS codes, and undefined when there is no logical qudit. The exact computation returns exactly this number whatever the choice of basis, block size, register width or code length. Randomised bounds never report less, and cached values stay correct in any order of queries.",
        over=["inputs", "configurations", "histories"],
        text="all stabilizer, subsystem and CSS codes of brute-forceable size over several fields, all kernel block sizes and word counts, all orders of distance queries",
        why="The optimised kernel walks Gray codes over packed words; the tests sample few codes and lengths.",
        files=[C, D],
        mech=[
            ("get_distance_quantum and helpers", f"{D}"),
            ("QuditCode/CSSCode get_distance*", f"{C}"),
        ],
        observe=["code.get_distance(...)", "codes.distance.get_distance_quantum(...)"],
    ),
    dict(
        id="C10",
        title="Stacking, concatenating, conjugating and deforming quantum codes is sound",
        statement="Stacking, concatenating, conjugating and circuit-deforming quantum codes yield valid codes whose checks are exactly the documented images of the input checks, with the documented number of logical qudits, and inherited logical operators are valid logical operators of the result corresponding to those of the inputs. Concatenation follows the given outer-to-inner qudit assignment. None of these operations changes the codes passed in, so repeating one gives the same result.",
        over=["inputs", "histories"],
        text="all pairs of codes over a common field, all qudit assignments (explicit, default, with multiple blocks), all Clifford circuits, all subsets of qudits",
        why="Tests check a few fixed pairs once; aliasing only shows on repeated use and sign errors only on non-binary fields.",
        files=[C],
        mech=[("QuditCode/CSSCode stack, concatenate, conjugated, deformed", f"{C}")],
        observe=["result.matrix", "result.get_logical_ops()", "inputs before and after"],
    ),
    dict(
        id="C11",
        title="No history of queries and updates leaves a code object inconsistent",
        statement="After any sequence of queries, logical-operator updates, reductions, recomputations, copies and distance computations on a quantum code object, its checks are unchanged, its logical operators are still a valid conjugate basis for the same code, and every query answers as on a freshly built equal code. Weight reduction never produces an operator that is heavier than or acts differently from the one it replaces. Values already handed out and objects copied from the code are not altered by later updates.",
        over=["histories"],
        text="all interleavings of public queries and updates on one code object and its copies",
        why="Unit tests perform one operation per object; lazily cached fields interact only over longer histories.",
        files=[C],
        mech=[("cached and lazily computed attributes of QuditCode/CSSCode", f"{C}")],
        observe=["all public getters after every step"],
        state=[("_logical_ops, _stabilizer_ops, _gauge_ops, _dimension, _distance*", "lazily computed caches", f"{C}")],
    ),
    dict(
        id="C12",
        title="Named quantum code families have the parameters they promise",
        statement="Every named quantum code (five-qubit, Steane, iceberg, C4, C6, toric, surface and generalised surface, Bacon-Shor, SHYPS) is, for every admissible size, field and orientation, a valid code with the length, number of logical qudits and distances documented for its family, confirmed by direct computation from its checks. Rotated and unrotated variants and conjugated versions of a family agree in their logical dimension and distances. Inadmissible sizes are rejected.",
        over=["inputs", "configurations"],
        text="all constructor parameters up to brute-forceable sizes, including rectangular and rotated layouts and other fields",
        why="Constructors declare dimensions and distances that are returned without computation; tests cover one or two sizes.",
        files=[Q],
        mech=[("named code constructors", f"{Q}")],
        observe=["code.get_code_params()", "code.matrix"],
    ),
    dict(
        id="C13",
        title="Product codes obey their formulas and commute, for all seed codes",
        statement="Hypergraph products, subsystem hypergraph products and lifted products of arbitrary seed codes or protographs have commuting checks where they claim to be stabilizer codes, the number of logical qudits given by the seed codes' parameters, distances given by the seed codes where that is a theorem, and logical operators that are valid. Graph-based and matrix-based constructions agree, the documented qudit sectors are laid out as described, and lifted products of one-by-one lifts reduce to hypergraph products.",
        over=["inputs"],
        text="all pairs of seed matrices over several fields, all protographs over several group algebras (abelian and not)",
        why="Formula-based shortcuts for logical operators and parameters bypass the general algorithms; the tests sample small binary seeds.",
        files=[Q, AB],
        mech=[("HGPCode, SHPCode, LPCode, SLPCode", f"{Q}")],
        observe=["code.matrix", "code.dimension", "code.get_logical_ops()", "code.get_distance()"],
    ),
    dict(
        id="C14",
        title="Two-block, quasi-cyclic and bicycle codes match their polynomials and layouts",
        statement="Two-block group-algebra, quasi-cyclic and bivariate bicycle codes have exactly the parity checks given by their defining matrices or polynomials, commute, and are unchanged as codes by the reorderings their documentation calls equivalent. Toric layouts reported for a bicycle code describe the same code up to qubit relabelling and really are nearest-neighbour on the reported torus, and node-position maps are bijections that agree with the checks.",
        over=["inputs"],
        text="all polynomial pairs, symbol orders, cyclic orders and group-ring elements; all reported toric layouts",
        why="Tests verify a few codes from the literature; relabelling arithmetic depends on divisibility of the orders and exponents.",
        files=[Q, AB],
        mech=[("TBCode, QCCode, BBCode", f"{Q}")],
        observe=["code.matrix_x/z", "get_node_pos", "get_equivalent_toric_layouts"],
    ),
    dict(
        id="C15",
        title="Cayley complexes and quantum Tanner codes are consistent, and survive saving",
        statement="A left-right Cayley complex built from any group and generating subsets has exactly the faces and edges its definition gives, rejects or accepts inputs as documented, and yields quantum Tanner codes whose X and Z checks commute for every choice of subcodes. Saving such a code to a file and loading it gives back an identical code.",
        over=["inputs"],
        text="all small groups, all (possibly completed) symmetric subsets, all subcodes",
        why="The commutation argument relies on the ordering of faces around vertices for every group and subset; tests use a couple of cyclic groups.",
        files=[OB, Q],
        mech=[("CayleyComplex", f"{OB}"), ("QTCode", f"{Q}")],
        observe=["complex.faces/graph/subgraphs", "code.matrix", "QTCode.save/load"],
    ),
    dict(
        id="C16",
        title="Chain complexes validate, dualise and multiply correctly",
        statement="A chain complex accepts exactly sequences of boundary maps whose consecutive products vanish and whose shapes chain, its dual reverses and transposes the maps, and the tensor product of two complexes is again a complex whose link sizes and boundary maps follow the documented formula with the right signs over every field and group algebra. Homology dimensions of products over fields follow the Künneth formula.",
        over=["inputs"],
        text="all short chain complexes over several fields and commutative group algebras",
        why="Tests tensor fixed short complexes over two fields; block assembly and sign conventions depend on lengths and fields.",
        files=[OB],
        mech=[("ChainComplex", f"{OB}")],
        observe=["complex.ops", "ChainComplex.tensor_product", "~complex"],
    ),
    dict(
        id="C17",
        title="Groups behave as groups and their lifts represent them faithfully",
        statement="Every constructed group is closed under products and inverses with the documented order, its multiplication and inversion agree with any table or matrices it was built from, and its named variants have the documented structure. The lift of a product is the product of the lifts, the lift of an inverse is the inverse (or transpose, for permutation-like lifts) of the lift, and products of groups and random symmetric subsets have their documented properties.",
        over=["inputs", "histories"],
        text="all small groups in the library's families, groups from arbitrary tables, generating permutations and matrices, and products thereof",
        why="Tests check the representation property for single groups; conventions of composition order show only for non-abelian groups.",
        files=[AB, EXG],
        mech=[("Group, GroupMember and named groups", f"{AB}")],
        observe=["group.generate()", "group.lift(member)", "group.table", "member products"],
    ),
    dict(
        id="C18",
        title="Group-algebra elements form an algebra that the lift represents",
        statement="Sums, products, scalar multiples, powers, transposes and inverses of group-algebra elements satisfy the algebra axioms for every group and field, and lifting an element (or an array of elements) to a matrix turns those operations into the same operations on matrices. Elements and arrays round-trip through their coefficient vectors and matrix forms, invertibility is decided correctly, and printing or building them from integers, group members or polynomials is consistent.",
        over=["inputs"],
        text="all elements of group algebras over several groups and fields, all small arrays of them",
        why="Tests exercise a few elements of cyclic group rings over F_2 and F_3.",
        files=[AB],
        mech=[("GroupRing, RingMember, RingArray", f"{AB}")],
        observe=["RingMember operators", "lift()", "to_vector/from_vector", "RingArray.lift"],
    ),
    dict(
        id="C19",
        title="Linear algebra over group algebras meets its guarantees",
        statement="The null space computed for an array over a group algebra consists of exactly the vectors annihilated by it, as a module, and row reduction preserves the row space while delivering the documented pivot structure, for every semisimple or non-semisimple algebra that the library accepts. Idempotents reported for a group algebra are primitive, orthogonal and sum to one.",
        over=["inputs"],
        text="all small arrays over group algebras of abelian and non-abelian groups over several fields",
        why="The elimination must avoid non-invertible pivots and switches algorithm by field and group; tests use one or two arrays.",
        files=[AB, EXG],
        mech=[("RingArray.null_space / row_reduce and GroupRing.get_primitive_central_idempotents", f"{AB}")],
        observe=["array.null_space()", "array.row_reduce()"],
    ),
    dict(
        id="C20",
        title="Decoders return valid corrections, and minimum-weight ones when they promise to",
        statement="For every check matrix and every achievable syndrome, each decoder that promises an exact solution returns an error with that syndrome, and decoders that promise minimum weight return one of least weight (by number of nonzero entries, or of qudits in symplectic form). Lookup decoders correct every error up to their weight limit and return a zero correction beyond it; block and direct wrappers behave exactly as the decoder they wrap on each block. Decoding never changes the decoder or the caller's arrays, so equal inputs always give equal outputs.",
        over=["inputs", "histories"],
        text="all small check matrices over several fields, all achievable syndromes and sequences of decode calls, all decoder options",
        why="Tests decode one or two syndromes of a tiny matrix per decoder.",
        files=[DEC],
        mech=[("decoder classes and get_decoder dispatch", f"{DEC}")],
        observe=["decoder.decode(syndrome)", "decoders.decode(matrix, syndrome, ...)"],
    ),
    dict(
        id="C21",
        title="Logical error rate estimates follow from the decoder and the error model",
        statement="The function from physical to logical error rates is zero at zero physical error rate, lies between zero and one, has a valid standard error, refuses rates above its limit, and equals the binomial mixture of per-weight failure probabilities. For codes where failure is certain or impossible at each weight it is exact whatever the random samples, for classical and CSS codes, any number of samples and any Pauli bias. Sample budgets are fully allocated and never put on weight zero.",
        over=["inputs", "configurations"],
        text="all small codes, decoders, sample budgets, maximum error rates, biases and physical error rates",
        why="Tests only smoke-test the interface on single codes with random samples.",
        files=[C, MATH],
        mech=[("get_logical_error_rate_func, sample allocation and weight probabilities", f"{C}")],
        observe=["returned function values"],
    ),
    dict(
        id="C22",
        title="Encoders and logical tableaus prepare and act on the code as documented",
        statement="The encoding circuit of any qubit code maps physical basis states onto code states: fixed input qubits end up as the stabilizers with positive sign, and the remaining inputs as the code's logical (and gauge) operators. Logical tableaus extracted from physical circuits reproduce how the circuit transforms logical operators, and circuits that do not preserve the code are not presented as if they did.",
        over=["inputs", "programs"],
        text="all qubit stabilizer and subsystem codes of small size, all Clifford circuits preserving them",
        why="Tests simulate two or three fixed codes; sign and ordering mistakes depend on the code's standard form.",
        files=[CIR, C],
        mech=[("get_encoding_tableau, get_encoding_circuit, get_logical_tableau", f"{CIR}")],
        observe=["returned stim circuits/tableaus"],
    ),
    dict(
        id="C23",
        title="Transversal operations found for a code really are logical operations",
        statement="Every SWAP- or local-Clifford-transversal circuit returned for a code preserves the code space exactly (including stabilizer signs), uses only the permitted gates and qubit permutations, and implements the logical tableau reported with it. The search finds an implementation whenever one exists in the code's automorphism group for the permitted gates, and reports none otherwise.",
        over=["inputs", "programs"],
        text="all small qubit codes, all sets of permitted local gates, all target logical tableaus",
        why="Tests need an external algebra system or hard-code a few groups for single codes.",
        files=[CIR, EXG],
        mech=[("get_transversal_ops, get_transversal_circuit(s), automorphism groups", f"{CIR}")],
        observe=["returned circuits and tableaus"],
    ),
    dict(
        id="C24",
        title="Result caching is transparent over every call history",
        statement="A function wrapped by the disk cache returns on every call, in every order of calls, cache clears and process restarts, exactly what the undecorated function returns for those arguments, and arguments that are distinguishable never share an entry, whatever other processes do to the cache meanwhile; a result that is stored is not computed again. Objects handed out from the cache can be modified without affecting later calls, and special arguments that are excluded from the key behave as documented.",
        over=["histories"],
        text="all sequences of calls with positional and keyword arguments, clears and reopenings",
        why="Tests make two calls with one argument.",
        files=[CACHE],
        mech=[("use_disk_cache / get_disk_cache", f"{CACHE}")],
        observe=["return values and call counts"],
        state=[("on-disk cache", "mapping from arguments to results", f"{CACHE}")],
    ),
    dict(
        id="C25",
        title="Data read from external algebra systems is reconstructed faithfully",
        statement="Whatever group or code an external algebra system or group database describes, the generators, orders, matrices, fields and idempotents parsed from its textual answer equal the described object, for any size, cycle structure and length of the lines. Failures of the external system and unknown names surface as the documented errors or fallbacks and never as wrong data.",
        over=["inputs", "fault_sequences"],
        text="all permutation groups, code matrices and idempotent lists printed in the external formats; all failure modes of the external process",
        why="Tests hard-code one canned answer per parser.",
        files=[GAP, EXG, EXC],
        mech=[("get_output, get_generators*, get_code, idempotent parsing", f"{EXG}, {EXC}")],
        observe=["returned generators / matrices / fields / errors"],
    ),
    dict(
        id="C26",
        title="Library calls leave callers' data and random state alone; seeds fix results",
        statement="No constructor, query or conversion modifies arrays, lists, graphs or codes passed to it. Every function that takes a seed returns the same result whenever it is called again with equal arguments and that seed, different seeds reach different results (where more than one is possible), and the global random states of Python and numpy are the same after the call as before.",
        over=["inputs", "histories"],
        text="all public constructors and seeded functions, with arguments of several container and element types",
        why="Unit tests do not look at arguments after a call.",
        files=[C, CL, Q, AB, OB, DEC],
        mech=[("get_scrambled_seed / get_random_array and constructors", f"{C}")],
        observe=["arguments before and after calls", "results under repeated seeds"],
    ),
]
