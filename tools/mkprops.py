import json
C='src/qnet/algebra/core/'
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":mech,"where":files[0]}]}
    if state: a["state"]=[{"name":state,"meaning":"global mutable state the property is about"}]
    if observe: a["observe_at"]=[observe]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

W="The suite compares a few hand-chosen expressions with hand-written results; the rule system is a fix-point rewriter whose rules interact, so only arbitrary compositions show whether every path preserves meaning."
p("A01","Operator construction and automatic simplification preserve meaning",
"Building an operator expression through any sequence of constructors and Python operators (+, -, *, /, **, scalar multiplication, commutator, adjoint, ket-bra, local sigma, ladder, phase, displace, squeeze) yields an expression that represents exactly the operator obtained by doing the same arithmetic on matrices. Automatic simplification on creation may change the form, never the represented operator, and it never fails on type-correct input.",
["inputs","programs"],"every type-correct operator construction over any mix of Hilbert spaces (finite, Fock, labelled), symbols, scalars and symbolic labels",W,
[C+"operator_algebra.py",C+"algebraic_properties.py","src/qnet/algebra/_rules.py",C+"abstract_quantum_algebra.py","src/qnet/algebra/library/fock_operators.py","src/qnet/algebra/library/pauli_matrices.py"],
"Expression.create with per-class simplifications and binary rule tables R001-R015 of OperatorTimes etc.",observe="the expression returned by the public constructors/operators")
p("A02","Spin algebra is a faithful representation of angular momentum",
"For every SpinSpace (integer or half-integer spin) products, powers, adjoints and commutators of Jz, J+, J-, projectors and spin basis states evaluate to the matrices/vectors of the standard (2s+1)-dimensional representation, including at the ladder ends. Basis labels, dimensions, next-label arithmetic and the basis kets are consistent with m=-s..s.",
["inputs"],"every spin 1/2..7/2, every label, every product/commutator of spin operators and sigma operators/kets on it","Tests fix one or two spins and a few products; off-by-one errors in ladder coefficients show only for specific (s, m).",
["src/qnet/algebra/library/spin_algebra.py","src/qnet/algebra/_rules.py","src/qnet/utils/indices.py"],"Jpjmcoeff/Jzjmcoeff/Jmjmcoeff and the spin rules",observe="numeric matrix of the result")
p("A03","State algebra preserves meaning",
"Building kets, bras, inner products, outer products, tensor products and operator-on-state products from any type-correct inputs yields expressions that represent exactly the corresponding vectors, dual vectors, numbers and matrices. This includes basis, coherent, symbolic, trivial and zero kets and the rules for operators acting on them.",
["inputs","programs"],"every type-correct composition of states, bras, operators and scalars over any mix of Hilbert spaces",W,
[C+"state_algebra.py","src/qnet/algebra/_rules.py",C+"algebraic_properties.py"],"state rules (OperatorTimesKet R001-R020, BraKet, KetBra, TensorKet) and State.__mul__ dispatch",observe="expression returned by *, +, .dag(), create")
p("A04","Scalar arithmetic agrees with complex arithmetic",
"Every arithmetic operation (+,-,*,/,//,%,**, reflected versions, conjugate, real, imag, sqrt, int/float/complex conversion, comparison with numbers) on QNET scalars, mixed with Python, numpy and sympy numbers in either operand position, gives the value ordinary complex arithmetic gives. The result is a scalar again and the neutral elements Zero and One behave as 0 and 1.",
["inputs","programs"],"every operator, operand order and operand kind combination (Zero, One, ScalarValue, symbolic, indexed, compound, native numbers)","Operand kind x operator x position x value is a large table in which each class implements each dunder separately; tests fill in a few cells.",
[C+"scalar_algebra.py",C+"abstract_quantum_algebra.py"],"ScalarValue/Zero/One/Scalar dunders, ScalarPlus/Times/Power rules",observe="numeric value of the result")
p("A05","Superoperator algebra preserves meaning",
"Sums, products, scalar multiples, adjoints and applications of superoperators built from SPre, SPost, symbols, commutator, anti_commutator, lindblad and liouvillian act on every operator exactly as the corresponding linear maps on matrices. A Liouvillian acts as -i[H,.] plus the sum of Lindblad dissipators, and its action is trace free and Hermiticity preserving.",
["inputs","programs"],"every type-correct superoperator expression over any mix of finite Hilbert spaces, and every operator it is applied to",W,
[C+"super_operator_algebra.py","src/qnet/algebra/_rules.py"],"SuperOperatorTimes(SPre,SPost) rules, SuperOperatorTimesOperator rules, commutator/lindblad/liouvillian builders",observe="numeric Liouville matrix / action on random operators")
p("A06","liouvillian_normal_form preserves the generator",
"For every Liouvillian built from a Hamiltonian and collapse operators, liouvillian_normal_form returns a Hermitian H and collapse operators Ls whose Liouvillian is the same linear map as the input.",
["inputs"],"every Liouvillian of a finite-dimensional system with numeric coefficients, including linearly dependent and scalar-shifted collapse operators","One test with one specific Liouvillian; the decomposition involves an eigen-decomposition whose degenerate/complex cases vary.",
[C+"super_operator_algebra.py"],"liouvillian_normal_form coefficient matrix diagonalisation",observe="numeric Liouville matrix of the rebuilt Liouvillian")
p("A07","Partial traces are evaluated correctly",
"Tracing any operator expression over any subspace (local, product or the complete space) yields an expression representing the partial trace of its matrix, including cyclic permutation, factorisation and the dimension factor for absent spaces. Symbols and inner products obey the same linear functional.",
["inputs"],"every operator expression on 1-3 local spaces and every subspace to trace over","Trace simplification reorders factors depending on the shape of the operand; the test matrix covers few shapes.",
[C+"operator_algebra.py","src/qnet/algebra/_rules.py"],"OperatorTrace rules R001-R012, factor_for_trace, decompose_space",observe="numeric matrix of the traced expression")
p("A08","Pseudo-inverse and null-space projector satisfy their defining identities",
"X.pseudo_inverse() represents the Moore-Penrose inverse of X and NullSpaceProjector(X) the projector on its kernel, for every operator X for which QNET evaluates them. Unevaluated forms obey the same identities under adjoint and further pseudo-inversion.",
["inputs"],"every operator expression over finite spaces","Tests assert a handful of shapes (symbol, sigma, scalar multiple).",
[C+"operator_algebra.py","src/qnet/algebra/_rules.py"],"_pseudo_inverse methods and rules of NullSpaceProjector",observe="numeric matrix")
p("A09","Indexed sums denote the explicit sum",
"Every indexed sum over operators, states or scalars and any combination of ranges (lists, integer ranges with step, Fock/spin spaces), with nesting, products of sums and index renaming, represents the finite sum of its terms. doit (full, partial over indices, or with max_terms), Kronecker-delta elimination and make_disjunct_indices all preserve the represented object, and indices are never captured.",
["inputs","programs"],"every term, range kind, nesting and index naming, including the same index symbol used in both factors","Index capture and range boundaries depend on names and ranges; each test uses one.",
[C+"indexed_operations.py",C+"abstract_quantum_algebra.py","src/qnet/utils/indices.py",C+"algebraic_properties.py"],"IndexedSum, Sum(), assoc_indexed, indexed_sum_over_const/kronecker, IndexRange iteration and substitution",observe="numeric value against own iteration")
p("A10","Explicit transformations preserve meaning",
"expand, simplify_scalar, doit, expand_in_basis, rewrite_with_operator_pm_cc, expand_commutators_leibniz, get_coeffs, rebuild and adjoint-of-adjoint return objects that represent the same operator, state, superoperator or scalar as their input.",
["inputs"],"every expression of every algebra and every transformation applicable to it","Each transformation recurses over all node types; tests exercise a few node types per transformation.",
[C+"abstract_algebra.py",C+"abstract_quantum_algebra.py",C+"operator_algebra.py",C+"state_algebra.py","src/qnet/algebra/toolbox/commutator_manipulation.py"],"per-class _expand/_simplify_scalar/_doit and helper functions",observe="numeric value before and after")
p("A11","Substitution commutes with evaluation and respects binding",
"Substituting symbols or subexpressions in any expression gives an expression whose value equals that of the original under the substituted assignment; all_symbols splits into free and bound symbols, free_symbols is exactly the set the value can depend on syntactically, and substitution never captures or alters bound indices.",
["inputs"],"every expression of every algebra and every simultaneous substitution of scalar symbols, operator/ket symbols or scalar values","Substitution walks every node type through generic reconstruction, including kwargs, ranges, labels and matrices.",
[C+"abstract_algebra.py",C+"abstract_quantum_algebra.py",C+"indexed_operations.py",C+"matrix_algebra.py"],"Expression.substitute, free_symbols, bound_symbols",observe="numeric value and symbol sets")
p("A12","Differentiation is the derivative",
"expr.diff(x, n) represents the n-th derivative of the represented object with respect to the real symbol x for every expression (product, chain, sum, trace, commutator, adjoint, state, superoperator and indexed-sum rules), including unevaluated derivatives of symbols with arguments.",
["inputs"],"every expression depending on a real scalar symbol in any position, orders 1-2","Each node class has its own _diff; tests cover common ones with symbols.",
[C+"abstract_quantum_algebra.py",C+"scalar_algebra.py",C+"operator_algebra.py",C+"state_algebra.py",C+"super_operator_algebra.py"],"per-class _diff and QuantumDerivative",observe="numeric finite-difference derivative")
p("A13","Series expansion gives Taylor coefficients",
"expr.series_expand(x, about, order) returns exactly order+1 objects that represent the Taylor coefficients of the expression at about, for every expression analytic there.",
["inputs"],"every expression depending analytically on x, every expansion point and order 0-3","Per-class _series_expand implementations; tests cover a few.",
[C+"abstract_quantum_algebra.py",C+"operator_algebra.py",C+"state_algebra.py",C+"scalar_algebra.py",C+"super_operator_algebra.py",C+"matrix_algebra.py"],"per-class _series_expand and Cauchy products",observe="numeric Taylor coefficients")
p("A14","Adjoint laws",
"adjoint() is an involution and represents the Hermitian conjugate: anti-linear and product-reversing for operators and states, swapping kets and bras, entrywise conjugate-transposed for matrices, and the Hilbert-Schmidt-dual used by QNET for superoperators; the Hilbert space is unchanged.",
["inputs"],"every expression of every algebra","Every class implements _adjoint separately and rules intercept some of them.",
[C+"operator_algebra.py",C+"state_algebra.py",C+"super_operator_algebra.py",C+"scalar_algebra.py",C+"matrix_algebra.py"],"QuantumAdjoint and per-class _adjoint",observe="numeric value, .space, equality of double adjoint")
p("B01","Canonical form is independent of construction order",
"Sums (and products of operators on disjoint spaces) built from the same terms in any order or association are equal, have equal hashes and print identically.",
["inputs","schedules"],"every multiset of terms and every permutation/association of them","Ordering keys must form a total order on arbitrary mixed terms; tests permute two or three simple symbols.",
["src/qnet/utils/ordering.py",C+"algebraic_properties.py",C+"abstract_quantum_algebra.py"],"orderby, collect_summands, expr_order_key, DisjunctCommutativeHSOrder",observe="== , hash, str of results")
p("B02","Equality, hashing, immutability and caching are transparent",
"Equal expressions have equal hashes, any expression is reconstructed exactly from its class, args and kwargs (also by copying and pickling), expressions that differ in an argument are unequal, expressions stay unchanged by any public call on them, and results are the same with the instance cache enabled, disabled, cleared or polluted by earlier constructions.",
["inputs","histories"],"every expression and every history of earlier constructions and cache states","The cache is global mutable state; its failure needs a particular earlier history.",
[C+"abstract_algebra.py","src/qnet/utils/singleton.py",C+"matrix_algebra.py",C+"circuit_algebra.py",C+"hilbert_space_algebra.py"],"Expression.create/_get_instance_key/_instances, __eq__/__hash__",state="Expression._instances",observe="==, hash, str, srepr before/after")
p("B03","Context managers restore global state on every exit",
"no_instance_caching, temporary_instance_cache, temporary_rules and configure_printing restore the exact prior global state (cache flags, caches, rule tables, printers) after normal exit, after exceptions and under arbitrary nesting, and rule add/delete/show behave as an ordered map. Inside, they have exactly the documented effect.",
["histories","fault_sequences"],"every nesting and sequence of these managers and rule operations, with exceptions raised at any point","Global state leaks show only for particular nestings with faults.",
["src/qnet/algebra/toolbox/core.py",C+"abstract_algebra.py","src/qnet/printing/__init__.py"],"context managers saving/restoring class attributes and printer instances",state="class _rules/_binary_rules/_instances, printing.init_printing printers",observe="state snapshots at quiescent points")
p("B04","Pattern matching is sound and complete",
"A pattern matches an expression exactly when an assignment of its wildcards satisfying heads, conditions, modes and repeated-name consistency exists under left-to-right matching, and the returned bindings reproduce the matched arguments; findall returns exactly the matching subexpressions.",
["inputs"],"every pattern (nested, repeated names, single/one-or-more/zero-or-more wildcards, heads, conditions) against every expression or argument list","Tests list specific pattern/expression pairs; interactions of multi wildcards and repeated names are combinatorial.",
["src/qnet/algebra/pattern_matching/__init__.py"],"Pattern.match, match_pattern, MatchDict",observe="MatchDict against a brute-force reference")
p("B05","Applying rules rewrites exactly the matching nodes",
"expr.apply_rule and apply_rules with value-preserving rules never change what an expression represents, terminate in a fix-point for terminating rules, and leave non-matching subexpressions (with their kwargs, labels and ranges) unchanged.",
["inputs"],"every expression of every algebra and every sound rule","Recursive rebuilding must handle every node type.",
[C+"abstract_algebra.py","src/qnet/algebra/pattern_matching/__init__.py"],"Expression.apply_rule/_apply_rules/rebuild",observe="numeric value and structure against a reference rewriter")
p("C01","Hilbert spaces form a consistent lattice",
"Products, quotients, intersections, subset order, disjointness, dimension and local factors of Hilbert spaces behave as those of finite sets of labelled local factors with TrivialSpace and FullSpace as bottom and top; basis labels, basis states, next labels and dimensions are mutually consistent.",
["inputs","programs"],"every combination of local, spin, product, trivial and full spaces, every basis","Pairwise operation tables over mixed kinds of spaces; tests sample simple pairs.",
[C+"hilbert_space_algebra.py","src/qnet/algebra/library/spin_algebra.py"],"HilbertSpace/LocalSpace/TrivialSpace/FullSpace/ProductSpace methods",observe="results against a set model")
p("C02","Type-incorrect compositions are rejected",
"Adding kets of different spaces, tensoring overlapping kets, inner products across different spaces, invalid basis labels, incompatible circuit dimensions, wrong matrix shapes, invalid permutations and similar type errors always raise the documented exceptions, and valid compositions never do.",
["inputs"],"every combination of operand spaces, labels, dimensions and shapes near the validity border","Guards are tested once each with one operand shape; validity predicates range over all spaces.",
[C+"state_algebra.py",C+"hilbert_space_algebra.py",C+"circuit_algebra.py",C+"matrix_algebra.py",C+"abstract_quantum_algebra.py",C+"exceptions.py"],"_check_kets, ensure_local_space, _check_basis_label_type, IncompatibleBlockStructures, WrongCDimError, BadPermutationError",observe="raised vs. returned against an independent validity predicate")
p("D01","SLH composition follows the Gough-James rules",
"Series, concatenation, feedback and series inverse of SLH triples produce the (S, L, H) given by the Gough-James composition formulas, for all channel counts and port choices; H stays Hermitian and S unitary when inputs are.",
["inputs","programs"],"every network of SLH triples with operator-valued L, H and S, all feedback port pairs","Tests check symbolic forms of 1-2 channel systems.",
[C+"circuit_algebra.py",C+"matrix_algebra.py"],"SLH.series_with_slh/concatenate_slh/_feedback/_series_inverse",observe="numeric SLH of the result")
p("D02","Circuit expressions keep their meaning under simplification",
"Building circuits with <<, +, feedback, series inverse, permutations, identities and named components and then letting QNET simplify, reorder, split into blocks or render them never changes the SLH model they convert to, nor their channel dimension.",
["inputs","programs"],"every circuit expression over symbols, components, permutations and SLH triples","Circuit rules act on combinations of permutations, blocks and feedback with index arithmetic; tests use specific small networks.",
[C+"circuit_algebra.py","src/qnet/algebra/_rules.py",C+"algebraic_properties.py"],"SeriesProduct/Concatenation/Feedback/SeriesInverse rules, CPermutation factorisation, try_fully_series etc.",observe="toSLH() numeric model against an independently composed model")
p("D03","Permutation and block utilities obey the permutation group laws",
"invert, compose, concatenate, cycle and block decompositions and full_block_perm of permutations satisfy their mathematical definitions, CPermutation series/feedback/blocks agree with the action on channels, and the block structure of a circuit is additive and consistent with get_blocks.",
["inputs"],"every permutation up to size 7 (exhaustive for small sizes) and every block structure","Index permutation code is wrong only for non-involutions and specific block shapes.",
["src/qnet/utils/permutations.py",C+"circuit_algebra.py"],"permutation helpers, CPermutation.permute/block_perms/_factorize_permutation/_feedback, map_channels, extract_channel, pad_with_identity",observe="results against direct permutation arithmetic")
p("D04","connect() builds the requested network",
"connect(components, connections) yields a circuit whose SLH model equals concatenating the components and closing every listed connection, independent of the order of components and connections, with the remaining external ports in the documented order.",
["inputs","programs"],"every set of components and every acyclic or cyclic wiring by index or port name","The channel bookkeeping is index arithmetic over all remaining ports; tests wire few networks.",
["src/qnet/algebra/toolbox/circuit_manipulation.py",C+"circuit_algebra.py"],"connect, map_channels, FB",observe="numeric SLH against direct algebraic reduction")
p("D05","SLH dynamics and drive transformations are physically consistent",
"coherent_input, move_drive_to_H, symbolic_liouvillian, symbolic_master_eqn and symbolic_heisenberg_eom of an SLH agree with the textbook formulas on matrices; coherent_input equals feeding a displacement, and move_drive_to_H leaves the Liouvillian unchanged.",
["inputs"],"every SLH with operator-valued L and H and any complex drive amplitudes and channel subsets","Tests check single symbolic outputs.",
[C+"circuit_algebra.py",C+"super_operator_algebra.py"],"SLH.coherent_input/move_drive_to_H/symbolic_* methods",observe="numeric matrices")
p("D06","getABCD returns the state-space model",
"For every linear passive or squeezing SLH built from bosonic modes, getABCD returns A, B, C, D, a0, c such that the linear Heisenberg-Langevin equations and input-output relation hold, in doubled-up and (for passive systems) single form.",
["inputs"],"every linear (quadratic H, affine L) SLH on 1-3 modes","One or two fixed systems tested.",
[C+"circuit_algebra.py"],"getABCD",observe="coefficients vs numerically computed commutators")
p("D07","Adiabatic elimination matches the matrix formula",
"prepare_adiabatic_limit and eval_adiabatic_limit implement the Bouten-Silberfarb limit: the (S,L,H) returned equals the limit formula evaluated on matrices, with the structural conditions satisfied by its inputs.",
["inputs"],"every two-time-scale SLH on finite spaces with known null space","One test system.",
[C+"circuit_algebra.py"],"prepare_adiabatic_limit, eval_adiabatic_limit",observe="numeric Y, A, B, F, G, N and limit S, L, H")
p("D08","Component library models and Component interface",
"CoherentDriveCC, PhaseCC, Beamsplitter and user-defined Components convert to their documented SLH models for every parameter value, carry parameters and labels consistently, accept port names or indices equivalently, and enforce argument and channel checks.",
["inputs","configurations"],"every parameter assignment, label, port-name use and network position","Defaults only in tests.",
["src/qnet/algebra/library/circuit_components.py",C+"circuit_algebra.py","src/qnet/utils/properties_for_args.py"],"Component.__init__/_toSLH/port lookup",observe="numeric SLH, args/kwargs")
p("E01","Operator-valued matrices obey matrix algebra",
"Arithmetic, transpose, adjoint, conjugate, trace, blocks, indexing, stacking, diag, expand, substitution and series expansion of Matrix objects agree entrywise with the same operation on arrays of operators/scalars, and never alias or mutate their operands.",
["inputs","programs"],"every shape, entry type (scalars, sympy, operators) and operation sequence","Tests use 2x2 symbolic matrices.",
[C+"matrix_algebra.py"],"Matrix methods and block_matrix/vstackm/hstackm/diagm/permutation_matrix",observe="numeric entries")
p("F01","srepr round-trips",
"eval(srepr(expr)) in the documented namespace (also the indented form) gives an expression equal to expr, for every expression of every algebra, every label and symbol kind.",
["inputs"],"every expression","Node types x keyword arguments x label kinds.",
["src/qnet/printing/sreprprinter.py","src/qnet/printing/_render_head_repr.py"],"QnetSReprPrinter, IndentedSReprPrinter, SympySReprPrinter",observe="equality after eval")
p("F02","Printing is total, pure and history independent",
"ascii, unicode, latex, srepr, tree and str/repr rendering succeed for every expression, are deterministic, and do not depend on what was printed before, on printer caches or on unrelated settings; configured settings have exactly their documented effect.",
["inputs","histories","configurations"],"every expression, print history and settings combination","Printers dispatch per class with keyword arguments threading through; printer instances and caches are global.",
["src/qnet/printing/base.py","src/qnet/printing/__init__.py","src/qnet/printing/asciiprinter.py","src/qnet/printing/unicodeprinter.py","src/qnet/printing/latexprinter.py","src/qnet/printing/treeprinting.py"],"QnetBasePrinter caching/emptyPrinter, init_printing/configure_printing",state="printer _print_level/cache, global printers",observe="rendered strings")
p("F03","Printed ASCII form denotes the printed expression",
"Reading the ASCII (and unicode) rendering back with standard operator precedence yields an object of the same value: parentheses, signs, coefficients, exponents, daggers and tensor products are placed so that the text is an unambiguous faithful rendering.",
["inputs"],"every operator, state and scalar expression in the renderable fragment","Parenthesisation depends on pairs of nested node kinds; tests compare fixed strings.",
["src/qnet/printing/asciiprinter.py","src/qnet/printing/_precedence.py","src/qnet/printing/sympy.py"],"precedence, parenthesize, _print_Quantum*",observe="value of independently parsed text")
p("F04","Tree and dot renderings reflect the expression structure",
"print_tree/tree and dotprint output contain exactly one node per (sub)expression occurrence with parent-child edges as in the argument structure, for every expression.",
["inputs"],"every expression","Tests compare a couple of fixed outputs.",
["src/qnet/printing/treeprinting.py","src/qnet/printing/dot.py"],"tree, dotprint",observe="parsed tree/graph vs args")
p("G01","Conversion to QuTiP preserves the represented object",
"convert_to_qutip of any convertible operator, state or superoperator with numeric coefficients returns a Qobj whose matrix equals the represented object in the basis order of the full space, with the correct dims, also with full_space larger than the expression and with mappings for symbols.",
["inputs"],"every convertible expression, full_space ordering and mapping","Tests convert a few operators; embedding order, basis order and node coverage vary.",
["src/qnet/convert/to_qutip.py"],"_convert_*_to_qutip",observe="Qobj data")
p("G02","Conversion to sympy matrices preserves the represented object",
"convert_to_sympy_matrix of any convertible operator returns a sympy matrix whose numeric value equals the represented operator on the full space.",
["inputs"],"every convertible operator and full_space","Few operators tested.",
["src/qnet/convert/to_sympy_matrix.py"],"convert_to_sympy_matrix",observe="matrix entries")
p("G03","SLH_to_qutip preserves H and L including time dependence",
"SLH_to_qutip returns H and Ls that, with the time symbol evaluated at any time (string or callable format), equal the matrices of H and L of the SLH.",
["inputs"],"every numeric or time-dependent SLH, both formats and times","Tests one Hamiltonian.",
["src/qnet/convert/to_qutip.py"],"SLH_to_qutip, _time_dependent_to_qutip",observe="evaluated Qobj lists")
p("H01","Equation toolbox preserves equality",
"Every Eq transformation (apply, apply_mtd, apply_to_lhs/rhs, arithmetic, substitute, set_tag, copy) applies the same operation to the sides it documents, keeps the history, leaves the original Eq unchanged and maps a true equation to a true equation.",
["programs"],"every chain of Eq operations","Tests use one or two chains.",
["src/qnet/algebra/toolbox/equation.py"],"Eq.apply*/__add__/... and lazy history",observe="lhs/rhs/tag/history and numeric values")
p("H02","The flat API exposes exactly the public names",
"qnet and every package level exposes each documented public name as the identical object of the defining module, without duplicates or missing names, importing qnet works in any fresh process, also without the optional dependencies, and init_algebra decides the class of every implicitly created Hilbert space.",
["configurations"],"every module and public name","Tests compare a frozen listing of some modules.",
["src/qnet/_flat_api_tools.py","src/qnet/__init__.py","src/qnet/algebra/__init__.py"],"_import_submodules, __all__",observe="module namespaces")
p("I01","Results are independent of process and hash seed",
"The same program gives the same canonical expressions, orderings and printed forms in any fresh process, for any PYTHONHASHSEED.",
["schedules","configurations"],"every program and hash seed","Set/dict ordering and identity-based ordering only vary between processes; the suite runs in one.",
["src/qnet/utils/ordering.py",C+"algebraic_properties.py",C+"abstract_algebra.py","src/qnet/printing/asciiprinter.py"],"ordering keys, sets of symbols, caches",observe="digest of printed results across processes")
p("J01","Circuit drawings are geometrically consistent",
"draw_circuit_canvas of any circuit returns a canvas whose number of input and output port positions equals the circuit's channel dimension, with all ports inside the reported dimensions and series/concatenated parts connected port by port.",
["inputs"],"every circuit expression","Tests only draw a few circuits without checking geometry.",
["src/qnet/visualization/circuit_pyx.py"],"draw_circuit_canvas",observe="returned dims and port coordinates, path segments")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), [x['id'] for x in P if len(x['title'])>80])
