PREAMBLE = '''# Runtime monitoring of QNET — design

(generated by `tools/mkdesign.py` from `tools/design_texts.py`, the check
modules, `known_findings.json` and `seeded/`)

QNET is a single-threaded pure-Python computer algebra system.  There is no
native code, no shared-memory concurrency and no I/O protocol, so compiler
sanitizers, race detectors and linearizability checkers have nothing to watch.
What remains of the runtime-monitoring family, and what is used here for every
property, is **reference-model monitoring**: the real code is driven by large,
seeded, type-directed random workloads (plus exhaustive enumeration of small
finite workloads), every observable result is captured at the public API
boundary, and an independent executable oracle decides whether the observation
satisfies the property.  A test samples a handful of expressions and compares
with an expected *form*; the monitors compare *meaning* on thousands of
expressions per run, so that they do not depend on how a result is written.

The only "schedules" of this system are the histories of global state (instance
caches, printer settings, rule tables, hash seeds, import order).  They are
explored as random histories in one process (B02, B03, F02) and by running the
same programs in different processes (H02, I01); exceptions injected at random
points are the fault model (B03).

## Core machinery

* `qv/num.py`   labelled numeric tensors (scalars, kets, bras, operators,
  superoperators), written only with numpy.
* `qv/den.py`   *denotational evaluator*: maps any QNET expression to the tensor
  it represents, using only its public structure (class, args, kwargs).  Each
  symbol is a random matrix/vector/map derived from its name; infinite Fock
  spaces are modelled by a large truncation with comparison restricted to a low
  excitation window (W = 4; truncation fitted to the number of ladder operators
  of the program, +20 for displaced/squeezed/coherent states).
* `qv/recipes.py` random typed programs with two independent interpretations:
  `build` runs the program on QNET, `val` runs it on numpy.  The main monitor is
  `den(build(r)) == val(r)`.
* `qv/symeval.py` evaluates SymPy scalars at random assignments of the symbols.
* `qv/sums.py`, `qv/slh.py`, `qv/conv.py`, `qv/anyexpr.py` the same for indexed
  sums, circuits/SLH networks (Gough-James reference), node-by-node conversion
  references, and "any expression of any algebra" for the structural
  properties.
* `qv/runner.py` runs `N` cases of a module on 8 processes, each case with its
  own seed derived from (property, VERIF_SEED, index).  A case that fails is
  re-run alone, reduced to a message, stored under `replays/` and reported as
  `VIOLATION property=<id> replay=<path>`; `check.py <ID> --replay FILE`
  repeats it.  An exception raised by QNET where the reference is defined is a
  violation; an exception of the harness itself ends the check with exit code 2
  (never a VIOLATION).  A timeout is only a violation if it recurs alone with
  75 s and the stack is inside of QNET.
* evidence: the number of cases decided, skipped (by reason), distinct and
  non-trivial, and counters of what the monitors saw (node types, operations,
  outcomes).  Modules declare `REQUIRED` counters; if one stays at zero the run
  fails as harness error, so that a workload which silently stops producing the
  interesting situation cannot pass.
* `tools/selftest.py` (setup_cmd) checks the reference model against itself
  (e.g. commutation relations, known matrices) and that `/repo` is imported
  from its working tree.

Conventions of the oracle: the super-adjoint is the one with
Tr[M (L N)] = Tr[(L* M) N] (no conjugation, as pinned by the documentation);
ket symbols denote normalized vectors; a partial trace over a space on which the
operator acts trivially multiplies by the dimension; superoperator checks use
finite spaces of total dimension <= 6; Create/Destroy only on Fock spaces
(except for conversions, where QNET itself truncates); derivatives only with
respect to real or positive symbols.  `np.asscalar` (removed in the installed
numpy, used by QNET) is provided by a shim inside the harness.

No hooks were needed in /repo: everything is observed at the public API (J01
replaces the LaTeX text of PyX by a stand-in inside of the check's process).
'''

ORACLE = dict(
    A01='the tensor of the constructed operator equals the numpy value of the program',
    A02='the tensors of spin operators equal the (2s+1)-dimensional angular momentum matrices; histories of SpinSpace calls are compared with a list model',
    A03='the tensor of the constructed ket/bra/inner product equals the numpy value of the program',
    A04='the value of the scalar equals exact rational/complex arithmetic, including which exception Python arithmetic would raise',
    A05='the tensor of the superoperator (as a map on matrices) equals the numpy value of the program',
    A06='the generator matrix computed from the returned H, Ls equals the one of the input; H is Hermitian; the number of Ls is the rank',
    A07='numpy partial trace of the tensor of the operand',
    A08='numerical Moore-Penrose inverse and kernel projector, and the four Penrose identities on products built by QNET',
    A09='explicit summation over the reference tensors, Python list model of index ranges',
    A10='every intermediate object of a chain of transformations has the value of the program',
    A11='value of the program under the substituted assignment, structural walker for free/bound symbols, and independence of all other symbols',
    A12='11-point finite differences of the reference value',
    A13='Taylor coefficients from finite differences of the reference value',
    A14='conjugate transpose of the reference value',
    B01='all constructions of one family give ==, hash, srepr, text and value identical objects',
    B02='pairwise consistency of ==, !=, hash on pools; structural snapshots before and after public calls; result with cache == result without',
    B03='complete snapshot of the global state at entry and exit of each context; ordered-map model of the rule tables',
    B04='an independent recursive matcher that tries all splits of the arguments and collects all bindings',
    B05='value of the program with replaced leaves; an independent recursive rewriter recording calls, order and bindings',
    C01='finite-set model of factors, dimensions and basis labels',
    C02='an independent validity predicate on the operand types, spaces, shapes and channels',
    D01='Gough-James formulas evaluated on matrices, unitarity of S and hermiticity of H',
    D02='structural evaluation of the circuit with random unitary SLH models of the symbols against the Gough-James value of the program',
    D03='definitions on image tuples',
    D04='simultaneous elimination of all internal channels of the concatenated numeric models',
    D05='matrix formulas for master equation, Heisenberg equation with noise, displaced models; trace conservation and duality',
    D06='state-space matrices computed from the coefficients of the construction by the Heisenberg-Langevin equations',
    D07='Bouten-Silberfarb formula on matrices, and convergence of propagators for growing k on the slow subspace',
    D08='documented SLH models and a record of the constructor arguments',
    E01='the same operation on object arrays of numeric values, entry by entry; aliasing is monitored by re-reading all earlier matrices',
    F01='evaluation of the text in the documented namespace gives an equal object, hash, structure, symbols and value',
    F02='output of a fresh printer without caching; textual transformations for the documented settings; structural snapshot of the printed object',
    F03='an own recursive-descent parser of the documented ASCII notation (unicode text is first rewritten character by character by Unicode tables) evaluates the printed text to a tensor',
    F04='own parser of the rendered tree / DOT text against a structural walker',
    G01='tensor computed node by node in the factor order of the full space against the data of the Qobj',
    G02='as G01 for SymPy matrices',
    G03='matrices at several times computed from the construction',
    H01='own model of an equation with history; both sides keep the value of the program',
    H02='an own AST parser of the `__all__` lists; a model of the import helper; fresh processes',
    I01='identical printed results in processes with different hash seed, order of evaluation and caching',
    J01='netlist reconstructed from the recorded strokes against the netlist of the expression')

TECH = dict(
    B03='runtime monitoring with fault injection: snapshots of the complete global state at every context entry/exit under random nested programs with injected exceptions; ordered-map model of rule tables',
    H02='runtime monitoring in fresh processes with faulted imports and random hash seeds; namespaces judged against an independent parser of the sources of __all__',
    I01='runtime monitoring across processes: offline comparison of recorded result logs under different hash seeds, orders and cache states',
    J01='runtime monitoring: all drawing calls recorded as an event log, netlist reconstructed offline from the log and compared with the expression')

COST = dict(D07='Quick: 75 s.', D06='Quick: 60 s.', I01='Quick: 30-60 s.', A06='Quick: 30 s.')

LIMITS = dict(
    A04='Excluded: numpy negative integer powers, SymPy Rational floor division, hashes of Rational/float pairs, wrong SymPy roots of numeric complex powers.',
    A06='The rank statement is only checked when the pool values and the identity are linearly independent; symbolic rates only with at most 2 operators (cost of SymPy).',
    A08='Ill-conditioned values are skipped (absolute cutoff), as are coefficients that vanish for some value of a summation index.',
    A09='All indices of one expression run over the same full set of basis states (documented limitation of the Kronecker-delta resolution). `substitute({bound: IdxSym})` renames the bound index (pinned by a test). `doit` limited to 1000 terms.',
    A10='The second `expand_in_basis` of a chain is only done for dimension <= 4.',
    A11='`substitute` with a dict is sequential for labels and SymPy symbols: only non-overlapping maps are generated. Objects that are not canonical to begin with (substitute({}) != e) are compared by value only. Substituting the symbol of a derivative evaluates it; a bound index may be renamed.',
    A13='Rationals instead of floats inside exponentials.',
    B01='Exact dyadic coefficients. Association and order of products are only compared for factors on mutually disjoint spaces. Symbols of one name with different assumptions, sums with ScalarIndexedSum coefficients and identity multiples as factors are excluded (SymPy itself does not order/distribute these consistently).',
    B02='Numbers of equal value and different type are interchangeable; hashes are not compared after the cache was polluted with floats; copies (deepcopy/pickle) of expressions with SymPy symbols excluded.',
    B03='State modified under the protection of an outer context is excluded when inner contexts are compared; a custom printer class first imported inside of configure_printing is not snapshotted; IPython formatters are out of scope.',
    B04='Bindings are compared by ==; conditions raising AttributeError count as mismatch; equality of patterns with different heads is not judged (pinned by a test).',
    B05='One post-order pass; kets are replaced by (normalized) kets only; superoperators/circuits not in canonical form and sums with captured indices (known finding A09) are skipped.',
    C02='Composite operands may raise any of AlgebraError/TypeError/ValueError; products that vanish may be accepted.',
    D01='Associativity of the series product is only required for unitary S (it fails mathematically otherwise).',
    D02='Ill-posed networks (algebraic loops with eigenvalue one) are skipped; feedback of a one-channel circuit is unsupported by QNET.',
    D03='Closed loops may be rejected, removed or left.',
    D04='Ill-posed networks are skipped.',
    D05='Noise formula: Gough-James QSDE with the gauge processes modelled as dA_j^dag dA_k on a separate space.',
    D07='L0 must not map slow to fast states (structural condition of the theorem); results on an eliminated mode are compared below the truncation only.',
    E01='numpy scalars to the left of a Matrix are excluded (numpy dispatch).',
    F01='Namespace: `from sympy import *`, numpy names, `from qnet import *`; spaces that compare equal (dimension vs basis) are interchangeable; skipped if SymPy\'s own srepr does not round-trip for the scalars contained.',
    F02='repr of singletons is their name (pinned).',
    F03='Matrices, and scalars with notation outside of the fragment (Piecewise, oo), are skipped. A descending `Sum_{j=3}^{0}` is read with step -1. Subscripts with several digits and no comma are read digit by digit. Circuits with one label for different numbers of channels are skipped (the text does not contain them).',
    F04='Graphs with and without shared nodes are accepted as documented by `repeat`; identity multiples that equal scalars are skipped.',
    G01='A ket in a larger space is the isometry ket (x) identity; superoperator symbols can only be mapped on the full space; abstract scalar coefficients are skipped; unsupported classes may raise. A mismatch is only reported if the truncated matrix algebra itself is exact for the expression.',
    G02='As G01.',
    G03='Drives are moved to H in the reference; `E`/`conjugate` inside of generated string coefficients are not generated.',
    H01='Tags that are non-integer floats are excluded; substitution of label names is not valued for sums.',
    I01='Equal spaces, Integer(3) vs 3 and whitespace in indented srepr are normalized; directly instantiated (non-canonical) circuit operations are excluded.')

SEEDTEXT = ''
FINAL = ''
NA = {}
