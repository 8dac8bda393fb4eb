#!/usr/bin/env python3
"""Regenerates known_findings.json

`known` entries are genuine defects that are recorded, not repaired: the id is
assigned to a failing case by the `classify` function of the property module,
which identifies the specific mechanism.  `fixed` entries suppress nothing.
"""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
FIXED = [
    ('A01', 'e52da9e', 'sorting the operands of a product moved non-commuting'
     ' factors past each other'),
    ('B01', 'e52da9e', 'the same product had different canonical forms'),
    ('A03', '87b4962', 'outer product with a ZeroKet was not the zero'
     ' operator'),
    ('A03', 'b9cfcd9', 'infinite recursion when applying a product of'
     ' operators to a local state'),
    ('A05', '7987fd1', 'adjoint of a scaled superoperator was None'),
    ('A03', 'ba8b1eb', 'the zero bra was not recognized as zero'),
    ('A02', 'e17c0b8', 'ladder operators on labels and symbolic spin indices'
     ' used wrong coefficients'),
]
FIXED += [
    ('F02', '0513cc9', 'printing bras applied to operators raised a TypeError'),
]
FIXED.append(('A03', 'e859075',
              'Phase applied to a basis state with a string label raised or used the label instead of the index'))
FIXED.append(('A04', '510e96c',
              '3.5 % One was 0, 3.5 // One failed, <Psi|Phi> // 1 recursed forever, <Psi|Phi> % 1 was 0'))
FIXED.append(('A04', '72c7f63',
              'One - x, x - One and One / x fell back to the wrong base class method (__add__, __radd__, __floordiv__)'))
FIXED.append(('A04', '6d1af7d',
              'Zero/0 gave nan, alpha/0 gave zoo*alpha, numpy values raised ValueError or gave inf instead of ZeroDivisionError'))
FIXED.append(('A04', '6844d2d',
              'x + Sum worked, Sum + x and Sum - x (even Sum + 0) raised NotImplementedError'))
FIXED.append(('A09', '8af5430',
              "make_disjunct_indices renamed i to i' even when i' was another index of the sum, free in or bound inside its term: (Sum**2)**2 raised ValueError"))
FIXED.append(('A09', '48ae268',
              'Sum * (2*A) raised AttributeError; factors with free index symbols were captured by the sum'))
FIXED.append(('A09', '32ec12b',
              '<sum|ket>, |ket><sum| and products of two sums captured free or bound indices of the other factor'))
FIXED.append(('A04', '7ec905a',
              "x**2.0, x**ScalarValue(2) for operators and sums raised TypeError ('float' object cannot be interpreted as an integer)"))
FIXED.append(('A04', 'adafc25',
              'sqrt(-0.5) was nan'))
FIXED.append(('A04', '88d6ef7',
              'ScalarValue(2.5) != ScalarValue(np.float64(2.5)) was True although they are equal'))
FIXED.append(('A04', '3e172aa',
              'sqrt(<a|b>**2) was <a|b>, (<a|b>**2)**x was <a|b>**(2*x), wrong for complex values'))
FIXED.append(('B02', 'c0c1730',
              "comparing expressions could raise 'truth value of an array' if one had a numpy scalar where the other had a tuple"))
FIXED.append(('B01', '4c5b36e',
              '(A+B).dag() kept the order of the summands of A+B, and was not equal to the same sum built directly'))
FIXED.append(('A07', 'ee68ae0',
              'expand() of an adjoint whose operand expands to a sum raised AttributeError (adjoin)'))
FIXED.append(('C01', '439a679',
              'LocalSpace / ProductSpace and LocalSpace / FullSpace returned the local space, LocalSpace & FullSpace and FullSpace.isdisjoint raised AlgebraError'))
FIXED.append(('A07', '447925a',
              'factor_for_trace moved non-commuting operators (on several spaces) out of the trace and cyclically permuted operators acting beyond the traced space'))
FIXED.append(('A03', '837a866',
              'TensorKet.create() without operands (e.g. from factor_for_space when every factor is on the space) recursed infinitely'))
FIXED.append(('A10', '74bf2a5',
              "BasisKet(n, hs=LocalSpace('x')).simplify_scalar() raised BasisNotSetError"))
FIXED.append(('A10', 'b110c86',
              'expand_commutators_leibniz([A B, C]) with a product of exactly two operators raised TypeError'))
FIXED.append(('B02', '2732e2d',
              'Singletons were kept in the replaceable instance cache of Expression: inside temporary_instance_cache, ZeroOperator.rebuild() was a second object that equals nothing'))
FIXED.append(('A12', '3eebda1',
              'OperatorPlusMinusCC.diff raised AttributeError'))
FIXED.append(('A12', 'dfeedd8',
              'SPre/SPost.diff raised TypeError'))
FIXED.append(('A12', 'dc25ac7',
              'printing a product or sum containing a derivative of a superoperator raised TypeError'))
FIXED.append(('A12', '9fb2198',
              'QuantumDerivative.create(expr, derivs, vals) for an explicit derivative passed a tuple to substitute: x**2 kept x, numpy coefficients raised ValueError'))
FIXED.append(('A12', 'b64d833',
              'substituting the differentiation symbol in an unevaluated derivative gave the derivative of a constant (0) or ValueError; the derivative with respect to symbols in the evaluation point was wrong; free_symbols failed for plain numbers'))
FIXED.append(('A12', '3017da5',
              'the derivative of a CoherentStateKet with complex amplitude had a wrong phase term; the adjoint of a StateDerivative claimed to be a ket'))
FIXED.append(('A13', 'd052297',
              'Matrix.series_expand raised AttributeError for entries that are plain numbers or sympy expressions'))
FIXED.append(('A13', 'bd2b561',
              'series of KetBra/OperatorTimesKet had the wrong number of items, SuperOperatorTimesOperator ignored the superoperator, sums/plus-minus-cc dropped ranges/sign, PseudoInverse/NullSpaceProjector were treated as linear'))
FIXED.append(('B01', 'd07de84',
              "sums and products of objects with both symbolic and string labels (e.g. LocalSigma(FockIndex(i), FockIndex(l)) + LocalSigma('e', 'g')) had no stable order, rebuilding such a sum changed it and doit() recursed infinitely"))
FIXED.append(('B02', '69c15a7',
              'SpinSpace.kwargs omitted a custom basis: spaces differing only in basis labels compared equal, and rebuild/substitute/srepr lost the basis; srepr failed (OverflowError) after rebuild with the default order_index'))
FIXED.append(('F02', '6dd5f29',
              "printing float('inf') (e.g. the order_index of a rebuilt space) raised OverflowError"))
FIXED.append(('A09', '572c250',
              'IndexOverFockSpace(i, hs).piecewise_one(x) was 1 for x equal to the dimension'))
FIXED.append(('A11', 'cf22071',
              'substituting into an indexed sum replaced bound indices by values (TypeError) and let substituted index symbols be captured by the sum (Sum_i A_i B_j with j->i)'))
FIXED.append(('A09', 'dbe0bfe',
              'doit() of an indexed sum over an empty range returned None or dropped the remaining indices'))
FIXED.append(('A09', '0e0f36c',
              'simplify_scalar of an indexed sum dropped the ranges; substitution in a scalar multiple evaluated undefined terms with vanishing coefficient'))
FIXED.append(('A09', 'fd0a3a9',
              'scalar times indexed sum captured a free index of the scalar; Kronecker-delta expansion lost the coefficient'))
FIXED.append(('A09', '367a6ba',
              'an operator with a free index applied to an indexed sum of kets had its index captured'))
FIXED.append(('F02', 'ab2a35c',
              'printing an indexed sum over a range with step > 1 raised'))
FIXED.append(('B01', '4829d7f',
              'comparing nested order keys took a time exponential in their depth'))
FIXED.append(('A09', '481f752',
              'doit(indices=...) of a scalar indexed sum that evaluates to a number raised AttributeError'))
FIXED.append(('A11', 'fc93bd4',
              'substitution in ScalarTimes evaluated undefined factors multiplied by a vanishing coefficient'))
FIXED.append(('B02', 'e95063d',
              'Feedback of one circuit with different ports compared equal and shared cached results'))
FIXED.append(('D02', '5932583',
              'CPermutation.get_blocks raised a bare Exception for incompatible structures; feedback of a one-channel block of a concatenation (A + B).feedback() raised ValueError'))
FIXED.append(('D02', '6c19d2d',
              'Feedback.create of a series containing an SLH triple with inexact or symbolic entries recursed endlessly (double series inverse is not syntactically identical)'))
FIXED.append(('D03', '75a0b1c',
              'map_channels silently accepted negative channel indices'))
FIXED.append(('D03', '2d0514d',
              'permutation_to_disjoint_cycles raised TypeError instead of BadPermutationError for malformed tuples'))
FIXED.append(('D04', 'c60a05b',
              'connect silently accepted an output port used in two connections, dropping one of them'))
FIXED.append(('D04', '6911499',
              'feedback of some series products (e.g. connect of [A, B, Z] with Z1->A0, A1->Z1) recursed endlessly'))
FIXED.append(('D05', 'ef77baa',
              'symbolic_heisenberg_eom without X raised TypeError (Hilbert spaces joined with |)'))
FIXED.append(('D05', '9c518c7',
              'symbolic_heisenberg_eom with noises subtracted X from all entries of S^+ X S instead of the diagonal only'))
FIXED.append(('C01', '39b22bf',
              'TrivialSpace.basis_state of an unknown label raised TypeError (bad format) instead of KeyError'))
FIXED.append(('C01', '997181a',
              'ProductSpace.basis_state(-1) returned the last state instead of raising IndexError'))
FIXED.append(('C01', 'a4cf3c8',
              "SpinSpace(basis=['up','down']) was not rejected when given as a list"))
FIXED.append(('C02', '7412e17',
              'Feedback of a non-existing port (e.g. out_port=5 or -1 of a two-channel symbol) was accepted'))
FIXED.append(('C02', 'ee8132c',
              'SLH with a non-square S (1x2) was accepted'))
FIXED.append(('C02', 'ff8e954',
              'SeriesProduct.create(A, circuit_identity(3)) with A.cdim == 2 silently returned A'))
FIXED.append(('C02', 'a1257e0',
              'get_blocks of a Concatenation for another number of channels raised StopIteration or dropped blocks'))
FIXED.append(('C02', '53e4a4c',
              '<1|_(1) |1>_(2) gave One (and outer products of different spaces could loop forever) instead of UnequalSpaces'))
FIXED.append(('C02', '3b8fcf1',
              'BasisKet.create(0, hs=1) raised AttributeError although BasisKet(0, hs=1) is valid'))
FIXED.append(('C02', 'ac9772c',
              '(A_B * C_1) * (Phi_2 * |1>_B) looped forever instead of raising SpaceTooLargeError'))
FIXED.append(('E01', '5521e63',
              'changing the numpy array a Matrix was made from changed the (hashed, cached) Matrix'))
FIXED.append(('E01', '2b0caf5',
              'Matrix.conjugate of operators raised TypeError instead of NoConjugateMatrix'))
FIXED.append(('E01', '326c3ff',
              'ScalarValue(x) * Matrix and ScalarValue(x) + Matrix raised ValueError'))
FIXED.append(('E01', 'c61cf3b',
              '_get_blocks of a column vector raised ValueError'))
FIXED.append(('E01', '61b5d77',
              'Matrix + ScalarValue(numpy.int64(2)) raised IndexError'))
FIXED.append(('E01', 'a661e1f',
              'Zero * Matrix gave the scalar Zero instead of a matrix'))
FIXED.append(('B02', 'd3cba04',
              'copy/deepcopy/pickle of anything containing a ScalarValue: RecursionError'))
FIXED.append(('B02', '4c99887',
              '2*IdentityOperator == ScalarValue(2) with different hashes; x*IdentityOperator == x but not x == x*IdentityOperator'))
FIXED.append(('B01', '872214c',
              'A+A+B != 2*A+B: summands collected to a new coefficient were not re-ordered'))
FIXED.append(('B02', 'be0bc54',
              'srepr of LocalSpace/SpinSpace shows default keywords after substitute/doit/rebuild (and then for equal cached expressions)'))
FIXED.append(('B01', '3ffd841',
              'Commutator.adjoint/diff built non-canonical commutators ([B,A] instead of -[A,B], [0,B])'))
FIXED.append(('F01', '80d1f85',
              'srepr(4*A) with hs of dimension 4 gives dimension=ScalarValue(4); Zero in place of 0'))
FIXED.append(('B01', 'e1476e5',
              'the derivative of a multiple of the identity could be the cached derivative of an equal scalar'))
FIXED.append(('B01', '98921dd',
              'ScalarPlus.create(1, exp(i kappa)) was not combined, unlike 1 + exp(i kappa)'))
FIXED.append(('B01', '43ba7cc',
              'the adjoint of a multiple of a Commutator had nested coefficients that were not collected in sums'))
FIXED.append(('B01', 'd583055',
              'products of equal scalars, e.g. <A|B> * <A|B>**2, depended on the order of the factors'))
FIXED.append(('F02', '6b28db6',
              'latex() of the adjoint of I*|0> raised a TypeError'))
FIXED.append(('F01', '7b2d77f',
              'srepr((circuit,), indented=True) printed the scattering matrices etc. of circuits inside tuples/lists via str'))
FIXED.append(('B03', 'c92b0d6',
              'configure_printing left the global SymPy settings, the display hook and (in a fresh process) the printers changed, as well as everything if it failed on entry'))
FIXED.append(('B03', 'b37dedc',
              'temporary_rules/temporary_instance_cache left attributes shadowing those of the base class, restored the wrong state for repeated/related classes, and nothing if one of the classes was invalid'))
FIXED.append(('F02', '108711c',
              "latex(bra, show_hs_label='subscript') rendered the label as a superscript"))
FIXED.append(('F02', 'b9c8895',
              'ScalarPower and SLH had no print methods; they were rendered like srepr, with str of the matrices also in ascii/latex'))
FIXED.append(('F02', '431ca5f',
              'the precedence of products was determined with str, so that e.g. ascii depended on the str_format'))
FIXED.append(('F02', '5186990',
              'a printed multiple of the identity was taken from the cached equal scalar (-1 instead of -Identity)'))
FIXED.append(('F02', 'f19d2b3',
              'latex with a cache added the primes of an index symbol twice'))
FIXED.append(('F02', '849a14c',
              'rendering nested expressions took exponential time: the sign of coefficients was rendered anew at every level'))
FIXED.append(('B04', 'ab8410a',
              'UnboundLocalError for an expression without arguments'))
FIXED.append(('B04', 'db8b347',
              'Pattern accepted a multi-argument wildcard both as first and as last argument'))
FIXED.append(('B04', '28fe0a2',
              'lists bound by nested sub-patterns with the same name were merged'))
FIXED.append(('G01', '3e3517c',
              'AttributeError; Squeeze was converted to a displacement'))
FIXED.append(('G01', '1af9d7d',
              'spin operators in the order of decreasing m, all other operators of the space in the order of increasing m'))
FIXED.append(('G01', '7c8ed64',
              'objects supplied through mapping were not embedded in the full space'))
FIXED.append(('G01', '1f71807',
              'Adjoint: TypeError; PseudoInverse/NullSpaceProjector: AttributeError, zero operator'))
FIXED.append(('G01', '9e1ff3c',
              'KetBra/Bra not dispatched, OperatorTimesKet: AttributeError, product states in larger spaces'))
FIXED.append(('G01', '82c6782',
              'super-operators in larger spaces, zero, identity, applied to operators'))
FIXED.append(('B04', 'd4d83a6',
              'match_pattern called the match method of SymPy expressions (an unrelated dict counted as a match)'))
FIXED.append(('G01', 'a5354e4',
              'Phase(1), Displace(1, ..) used complex(One)=1j'))
FIXED.append(('G01', '6bc1918',
              'FullSpace.local_factors raised for objects given through mapping'))
FIXED.append(('A12', '1a7a6d6',
              'the second derivative of x*A was an unevaluated derivative of A'))
FIXED.append(('G02', '699d970',
              'Jz, Jplus converted to the creation operator, Jminus to the annihilation operator'))
FIXED.append(('G02', 'f5ae4a0',
              'IndexError for Displace and Squeeze'))
FIXED.append(('D06', 'ce4f909',
              'coefficients of unexpanded L were missing in C, c'))
FIXED.append(('G03', 'e964fcf',
              'TypeError for coefficients like cos(w*t); args with names of real symbols ignored'))
FIXED.append(('G03', '122fda4',
              'every letter I was replaced by the imaginary unit'))
FIXED.append(('D07', '802fcb3',
              'AttributeError instead of CannotEliminateAutomatically'))
FIXED.append(('H02', '294d528',
              'import qnet failed with an ImportError if PyX (an optional dependency) is not installed'))
FIXED.append(('H02', 'd261c9e',
              'after init_algebra(default_hs_cls=...), create() returned cached expressions on implicit spaces of the previous default class'))
FIXED.append(('H02', '4ea95a6',
              'Destroy(hs=0) ignored init_algebra(default_hs_cls=...), unlike Destroy.create(hs=0)'))
FIXED.append(('A11', '5fd5543',
              'Matrix([[Sum_k A_k]]).bound_symbols was empty (also for SLH), so that bound indices were missing from all_symbols'))
FIXED.append(('F04', '4a3d9b8',
              "tree(expr, exclude_type=[A, B]) raised TypeError although a list of types is documented; tree(expr, padding='  ') did not indent the root line, contrary to its documentation"))
FIXED.append(('A08', '994b5a4',
              '(A * B).pseudo_inverse() gave B^+ A^+ for operators A, B on the same space, which is not the pseudo-inverse of A B'))
FIXED.append(('A09', 'e77f252',
              'Sum_l l * KroneckerDelta(l, k) raised AssertionError'))
FIXED.append(('F04', 'ee6ebca',
              'tree(Matrix([[x**2], [y]])) broke the node over two lines; dotprint(..., repeat=False) merged different subexpressions of the same hash, e.g. the coefficients -1 and -2'))
FIXED.append(('A06', '634b6b5',
              'liouvillian_normal_form returned [ZeroOperator] for a collapse operator of rate 1, raised TypeError for two different collapse operators, LinAlgError for none, nan for dependent ones, BadLiouvillianError for constant terms'))
FIXED.append(('F03', '1c58001',
              "Adjoint of OperatorSymbol('A', 'x', hs=0) was printed as A^(0)H (the same for superoperator symbols)"))
FIXED.append(('F03', '0bff2f0',
              "(-1 + a) * |2> was printed as '-1 + a^(x1) |2>^(x1)' (the same for sums of superoperators applied to an operator)"))
FIXED.append(('F03', '4046a64',
              "(-1 + <Phi|Chi>) * A was printed as '-1 + <Phi|Chi>^(0) * A^(0)', and <..| * (2 - 2*I) without parentheses"))
FIXED.append(('F03', '4f212f1',
              'with sig_as_ketbra=False, the bra of |g><e| |Phi> was printed as <Phi| sigma_e,g^H (both swapped and daggered)'))
FIXED.append(('F03', '78d3d25',
              "C + (-A + B + c.c.) was printed as 'C - (A + B + c.c.)'"))
FIXED.append(('F03', '6bb1f04',
              "d[j+1] was printed as 'd_j + 1', the same as d[j] + 1"))
FIXED.append(('F03', 'e5b0627',
              "SPre(A)*M*SPre(B) with A*B = 0 stayed a product '0 * M'; applied to an operator it was printed as 'M * 0[1]'"))
FIXED.append(('F03', '69c7efe',
              "the indexed sum over k of (c_k + 1) times the identity was printed as 'Sum_{k} c_k + 1'"))
FIXED.append(('I01', 'c2beb09',
              'a negative scalar was printed with or without parentheses depending on whether -1 or Integer(-1) had been created first'))
FIXED.append(('F03', 'c2bdc9e',
              'the symbol with indices j, 1 was printed like one with the single index j1 (LaTeX: F_{j_{1}})'))
KNOWN = [
    ('A04', 'A04-complex-One',
     'complex(One) returns 1j instead of 1+0j (an existing test asserts it)',
     'One.__complex__'),
    ('A09', 'A09-scalar-sum-capture',
     'ScalarIndexedSum times a scalar with a free index of the same name '
     'binds the wrong index: i * Sum_i i is Sum_i i*i\' (an existing test '
     'asserts it)', 'ScalarIndexedSum.__mul__, __rmul__'),
    ('F02', 'F02-Braket-script',
     'the superscript of \\Braket is not in braces: \\Braket{a | b}^(q1) with '
     'tex_use_braket=True (an existing test asserts it)',
     'QnetLatexPrinter._braket_fmt'),
    ('H01', 'H01-scalar-left',
     'a QNET scalar plus or times an Eq whose right side is 0 or 1 loses the '
     'equation: ScalarValue(alpha) * Eq(x, One) is alpha (Scalar compares '
     'the other operand with 0 and 1, Eq equals a number that equals its '
     'right side)', 'Scalar.__add__, Scalar.__mul__'),
]
out = [dict(property=p, status='fixed', commit=c, what=w,
            line='fixed: property=%s %s %s' % (p, c, w)) for p, c, w in FIXED]
out += [dict(property=p, status='known', id=i, what=w, where=s)
        for p, i, w, s in KNOWN]
(ROOT / 'known_findings.json').write_text(json.dumps(out, indent=1) + '\n')
