"""which contracts decide which property"""
BUNDLES = {
    'matrix': [('raw', 'prelude_e.rs'), ('raw', 'prelude_common.rs'), ('verify', 'matrix.vc'), ('raw', 'matrix_spec.rs'), ('verify', 'approx.vc')],
    'real': [('raw', 'prelude_r.rs'), ('raw', 'prelude_common.rs'), ('verify', 'matrix.vc'), ('raw', 'matrix_spec.rs'), ('raw', 'sums.rs'), ('raw', 'linalg.rs'), ('raw', 'perm.rs'), ('raw', 'det.rs'), ('raw', 'refl.rs'), ('verify', 'norms.vc'), ('verify', 'lu.vc'), ('verify', 'matrix_lin.vc'), ('verify', 'chol.vc'), ('verify', 'qr.vc'), ('verify', 'pinv.vc')],
    'svd': [('raw', 'prelude_r.rs'), ('raw', 'prelude_common.rs'), ('verify', 'matrix.vc'), ('raw', 'matrix_spec.rs'), ('raw', 'sums.rs'), ('raw', 'linalg.rs'), ('raw', 'refl.rs'), ('raw', 'rot.rs'), ('raw', 'svdl.rs'), ('raw', 'svdp.rs'), ('raw', 'svdq.rs'), ('verify', 'hypot.vc'), ('verify', 'svd.vc')],
    'eig': [('raw', 'prelude_r.rs'), ('raw', 'prelude_common.rs'), ('verify', 'matrix.vc'), ('raw', 'matrix_spec.rs'), ('raw', 'sums.rs'), ('raw', 'linalg.rs'), ('raw', 'refl.rs'), ('raw', 'rot.rs'), ('raw', 'svdl.rs'), ('raw', 'eigt.rs'), ('raw', 'eigq.rs'), ('raw', 'eigw.rs'), ('raw', 'eigr.rs'), ('verify', 'hypot.vc'), ('verify', 'eig.vc')],
    'geig': [('raw', 'prelude_r.rs'), ('raw', 'prelude_common.rs'), ('verify', 'matrix.vc'), ('raw', 'matrix_spec.rs'), ('raw', 'sums.rs'), ('raw', 'linalg.rs'), ('raw', 'refl.rs'), ('raw', 'rot.rs'), ('raw', 'svdl.rs'), ('raw', 'svdp.rs'), ('raw', 'eigt.rs'), ('raw', 'eigq.rs'), ('raw', 'eigw.rs'), ('raw', 'eigr.rs'), ('raw', 'hes.rs'), ('raw', 'hqr.rs'), ('raw', 'bsub.rs'), ('raw', 'qrs.rs'), ('raw', 'schur.rs'), ('raw', 'gfin.rs'), ('verify', 'geig.vc')],
    'csv': [('raw', 'prelude_e.rs'), ('raw', 'prelude_common.rs'), ('verify', 'matrix.vc'), ('raw', 'matrix_spec.rs'), ('verify', 'csv.vc')],
    'lits': [('raw', 'prelude_e.rs'), ('raw', 'prelude_common.rs'), ('verify', 'matrix.vc'), ('raw', 'matrix_spec.rs'), ('verify', 'lits.vc')],
    'shape': [('raw', 'prelude_e.rs'), ('raw', 'prelude_common.rs'), ('verify', 'matrix.vc'), ('raw', 'matrix_spec.rs'), ('verify', 'shape.vc')],
}
BUNDLE_OF = {p: 'matrix' for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C12')}
BUNDLE_OF.update({p: 'real' for p in ('C11', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21')})
BUNDLE_OF.update({p: 'svd' for p in ('C22', 'C23', 'C24')})
BUNDLE_OF['C25'] = 'eig'
BUNDLE_OF['C26'] = 'geig'
BUNDLE_OF['C27'] = 'shape'
BUNDLE_OF['C28'] = 'csv'
BUNDLE_OF['C29'] = 'lits'
OPAQUE = ('matrix', 'shape', 'csv', 'lits')  # bundles over an opaque element type: hold whatever the element operations do
ALL = ['C%02d' % i for i in range(1, 30)]
PARTIAL = {}
LEVEL = {p: ('proof' if p in BUNDLE_OF and p not in PARTIAL else 'exploration') for p in ALL}
SEARCH_SECS = {'quick': 12, 'thorough': 240}
HUNT_SECS = 40
RLIMIT = 60
SHARDS = 6
VERUS_TIMEOUT = 500
COST = {'decomp/eigen.rs::EigenDecomposition::hqr2': 1000}
SKIP = {}
BOUNDED = {}

BASE_TRUST = [
    'Verus 0.2026.09.13 and Z3 (the verifier and its solver)',
    '/verif/extract: the mechanical edits listed in DESIGN.md ("What the extraction changes")',
    'vstd specifications of Vec, slices, ranges, Option and the operator traits; slice::swap as in contracts/prelude_common.rs',
]


def trusted(prop, rep):
    t = list(BASE_TRUST)
    if rep['bundle'] in OPAQUE:
        t.append('contracts/prelude_e.rs: the element type is an opaque Copy type whose operations are uninterpreted pure functions that do not panic')
    if rep['bundle'] and rep['bundle'] not in OPAQUE:
        t.append('contracts/prelude_r.rs: the element type is the real numbers, every operation exact (machine arithmetic treated as mathematical: no rounding, overflow, NaN or infinity); division by zero unspecified')
        t.append('axiom rsqrt_def: every non-negative real has a non-negative square root, which sqrt returns')
    if rep['bundle'] == 'shape':
        t.append('axiom sqrt_sign: sqrt(x) is never below zero, its negation never above zero, and zero is neither (true of every float, NaN included)')
    if rep['bundle'] in ('svd', 'eig', 'geig'):
        t.append('axiom eps_pos: the machine epsilon and the smallest positive normal number are positive')
    if rep['bundle'] == 'csv':
        t.append('contracts/csv.vc, the standard library as read_csv sees it: opening a path succeeds exactly when disk(name) exists, lines() gives its lines in order (None for an unreadable one), split(",") the maximal pieces between commas, trim() an unspecified function of the text')
        t.append('axiom vec_bound: a Vec never holds more than isize::MAX elements')
    if rep['bundle'] == 'lits':
        t.append('the text of src/macros.rs is put in front of the verified code as it is (attributes dropped, assert!/panic! replaced by their checked stand-ins); rustc expands it for the 273 literals of fixed shape')
        t.append('extract/src/sym.rs: the expansion of m! on rows of any number and length, worked out from the macro rules (a repetition becomes a loop over its index, vec![..] pushes in order); what it does not cover is reported as undecided')
    if rep['bundle'] in ('svd', 'shape'):
        t.append('the contracts write in the derived Clone of Matrix (element-wise copy), which the compiler generates and the extractor does not see')
    if rep['bundle']:
        t.append('contracts/prelude_common.rs: alloc_dirty_vec returns arbitrary contents of the requested length; assert!/panic!/unwrap do not return when their condition fails')
    t += ['assumed contract (body not verified): ' + a for a in rep['assumed']]
    return t


def assumptions(prop):
    a = ['the element type is Copy and its clone() and arithmetic are pure and do not panic',
         'a Vec never holds more than isize::MAX bytes (guaranteed by the standard library)']
    if BUNDLE_OF.get(prop, 'matrix') not in OPAQUE:
        a.append('"up to rounding" is decided as "exactly, in real arithmetic": rounding error itself is not bounded by any proof, only sampled by the executable contracts')
    if prop in ('C22', 'C23'):
        a.append('termination of the outer QR iteration (while p > 0) is not proved: the contract holds for every call that returns')
        a.append('the product may differ from A by what setting negligible elements to zero costs: at most 3*min(m,n) times the largest element the code itself treats as negligible (slack() in contracts/svdl.rs)')
    if prop == 'C25':
        a.append('termination of the QL iteration (the inner loop) is not proved: the contract holds for every call that returns')
        a.append('A may differ from V*D*V\' by what setting negligible elements to zero costs: at most 4*n times the largest element the code itself treats as negligible (eslack() in contracts/eigq.rs); A*V from V*D by n times that')
        a.append('orthes and hqr2 are assumed with the precondition false: the caller is shown never to reach them for a symmetric matrix')
    if prop == 'C26':
        a.append('termination of the QR iteration is not proved: the contract holds for every call that returns, and assumes fewer than 2^31 iterations for one eigenvalue (the i32 counter of hqr2; assume() in the contract)')
        a.append('A*V may differ from V*D by what setting negligible elements to zero costs: in each column, by gew(A) (contracts/gfin.rs: a multiple of the thresholds the code itself uses, and of nothing else) times the sum of the absolute values of the eigenvector the column belongs to (the column itself, or both columns of a complex pair)')
        a.append('tred2 and tql2 are assumed with the precondition false: the caller is shown never to reach them for a matrix that is not symmetric')
    if prop == 'C27':
        a.append('hqr2 takes fewer than 2^31 iterations for one eigenvalue (its i32 counter; assume() in the contract)')
        a.append('the square factors fit: rows*rows and cols*cols do not exceed isize::MAX (the code allocates them)')
        a.append('the contract holds for every call that returns: termination of the iterations is not proved here')
        a.append('not under these contracts, sampled only: that QR solve refuses a matrix with fewer rows than columns (it does so by an index panic); SVD::direct and QR is_full_rank on wide matrices are outside the property')
    if prop == 'C28':
        a.append('the parser may be called on any text (it may panic in the real code; then read_csv panics too)')
    if prop == 'C29':
        a.append('no row of the literal is empty, and it has no more than isize::MAX expressions')
    if prop in PARTIAL:
        a.append('bounded: ' + PARTIAL[prop])
    elif LEVEL[prop] == 'exploration':
        a.append('bounded: decided on the generated inputs only, not proved')
    return a


NOT_APPLICABLE = {}


def TECHNIQUE(p):
    if p == 'C29':
        return 'Verus contract on the symbolic expansion of the macros of /repo/src (any number of rows and columns), cross-checked on literals expanded by rustc, failed obligations replayed on the real crate'
    if p in PARTIAL:
        return 'Verus contracts on part of the functions extracted from /repo/src, over real arithmetic; the rest a bounded stand-in: executable contracts on generated inputs'
    if p in BUNDLE_OF:
        return 'Verus contracts on the functions extracted from /repo/src%s, failed obligations replayed on the real crate' % (', over real arithmetic' if BUNDLE_OF[p] not in OPAQUE else '')
    return 'bounded stand-in: executable contracts on generated inputs (no obligation within the verifier\'s reach)'


def NOTE(p):
    if p == 'C29':
        return ('All literals, rectangular and ragged, all values and effects of the expressions: Verus discharges the contract of the expansion of m! on R rows of lens[r] expressions, worked out from the macros of /repo on each run, repetitions becoming loops. '
                'Trusts that expansion (extract/src/sym.rs), which 273 shapes expanded by rustc itself and verified to the same contract cross-check. If the macros leave what it can expand, those shapes and the executable contracts decide alone (bounded).')
    if p in PARTIAL:
        return 'Partial: ' + PARTIAL[p] + '. Nothing is claimed as proved for the property as a whole.'
    if p in BUNDLE_OF:
        return ('All inputs and all iterations: every obligation of the functions the property depends on is discharged by Verus on code extracted from /repo on each run. '
                'Trusts the extractor\'s edits, the element-type prelude%s and vstd. Executable contracts replay failures, and decide alone (bounded) if a changed function leaves the verified subset.'
                % (' (exact real arithmetic in place of floating point)' if BUNDLE_OF[p] not in OPAQUE else ''))
    return 'Bounded: generated inputs against independent oracles (exact rational arithmetic where possible); nothing is proved.'
