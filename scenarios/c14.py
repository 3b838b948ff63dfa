"""C14: the test for positive semi-definiteness."""
from symk.scen import Registry
from .lib import *

R = Registry()
lookup = R.lookup

TOL = 1e-6


def det2(a, b, c, d):
    return a * d - b * c


def minors(M, n):
    """All principal minors."""
    out = [M[i][i] for i in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            out.append(det2(M[i][i], M[i][j], M[j][i], M[j][j]))
    if n == 3:
        out.append(M[0][0] * det2(M[1][1], M[1][2], M[2][1], M[2][2])
                   - M[0][1] * det2(M[1][0], M[1][2], M[2][0], M[2][2])
                   + M[0][2] * det2(M[1][0], M[1][1], M[2][0], M[2][1]))
    return out


def shifted(M, n, t):
    return [[M[i][j] + (t if i == j else 0) for j in range(n)] for i in range(n)]


def verdict(env, M, n, tol, delta):
    """True / False by the definition, assuming no eigenvalue within delta of the limit."""
    if env.pick('psd', [True, False]):
        env.assume(env.all_([m >= 0 for m in minors(shifted(M, n, tol - delta), n)]))
        return True
    bad = [m < 0 for m in minors(shifted(M, n, tol + delta), n)]
    env.assume(bad[env.choice('minor', len(bad))])
    return False


def check(env, A, want, label, *a, **k):
    out = env.call(env.mod('operations').is_PSD, A, *a, **k)
    if env.expect_ok(out, label + ' succeeds'):
        env.prove(bool(out.val) == want, label)


@R.add(variants=lambda t: [dict(n=n) for n in ((1, 2) if t == 'quick' else (1, 2, 3))], wits=8, budget={'thorough': 900})
def exact(env, n):
    """PSD exactly when all principal minors are nonnegative (up to the tolerance)."""
    M = env.symm('M', n, lo=-5, hi=5)
    tol = env.pick('tol', [None, 0.5, 1e-6, 2.0, 0.0])
    want = verdict(env, M, n, TOL if tol is None else tol, 1e-7 if tol in (None, 1e-6) else 1e-4)
    check(env, env.np.array(M), want, 'verdict', **({} if tol is None else dict(tolerance=tol)))


@R.add(wits=6)
def exact_small(env):
    """Matrices with small entries: still decided by the sign of the eigenvalues."""
    M = env.symm('M', 2, lo=-0.001, hi=0.001)
    want = verdict(env, M, 2, TOL, 1e-8)
    check(env, env.np.array(M), want, 'verdict')


@R.add(wits=6)
def symbolic_tolerance(env):
    """Any tolerance."""
    M = env.symm('M', 2, lo=-5, hi=5)
    t = env.real('t', lo=0, hi=4)
    want = verdict(env, M, 2, t, 1e-3)
    check(env, env.np.array(M), want, 'verdict', t)


@R.add(variants=lambda t: [dict(n=n) for n in ((1, 2, 3, 4) if t == 'quick' else (1, 2, 3, 4, 6))], wits=6)
def diagonal(env, n):
    """Diagonal matrices: exact at the tolerance itself, wherever the smallest entry is."""
    d = [env.real('d_%d' % i, lo=-1, hi=1) for i in range(n)]
    A = env.np.array([[d[i] if i == j else 0.0 for j in range(n)] for i in range(n)])
    tol = env.pick('tol', [None, 0.5, 0.25])
    want = env.is_true(env.all_([x >= -(TOL if tol is None else tol) for x in d]))
    if tol is None:          # 1e-6 is not exactly a machine number
        env.assume(env.all_([env.any_([x >= -TOL * 0.99, x <= -TOL * 1.01]) for x in d]))
    check(env, A, want, 'verdict', **({} if tol is None else dict(tolerance=tol)))


@R.add(wits=4)
def at_tolerance(env):
    """An eigenvalue equal to minus the tolerance is accepted."""
    t = env.real('t', lo=0.25, hi=4)
    d = env.real('d', lo=0, hi=4)
    check(env, env.np.array([[-t, 0.0], [0.0, d]]), True, 'at the limit', tolerance=t)
    check(env, env.np.array([[d, 0.0], [0.0, -t - 0.01]]), False, 'below the limit', tolerance=t)


@R.add(variants=[dict(n=n) for n in (4, 5)], wits=4)
def blocks(env, n):
    """A 2x2 block at any place of a larger matrix."""
    B = env.symm('B', 2, lo=-5, hi=5)
    p = env.pick('p', [(i, j) for i in range(n) for j in range(i + 1, n)][:6])
    A = [[(1.0 if i == j else 0.0) for j in range(n)] for i in range(n)]
    for a in range(2):
        for b in range(2):
            A[p[a]][p[b]] = B[a][b]
    want = verdict(env, B, 2, TOL, 1e-7)
    check(env, env.np.array(A), want, 'verdict')


@R.add(variants=[dict(n=n) for n in (2, 3)], wits=5)
def asymmetric(env, n):
    """A matrix which is not symmetric is never PSD, whichever triangle differs; a warning says so."""
    M = env.symm('M', n, lo=-5, hi=5, diag_lo=None)
    i, j = env.pick('p', [(i, j) for i in range(n) for j in range(n) if i != j])
    d = env.real('d', lo=0.01, hi=5)
    M = [list(r) for r in M]
    M[i][j] = M[i][j] + d
    for r in range(n):
        M[r][r] = M[r][r] + 20
    out = env.call(env.mod('operations').is_PSD, env.np.array(M))
    if env.expect_ok(out, 'succeeds'):
        env.prove(not out.val, 'not PSD')
        env.prove(len(out.warns) > 0, 'with a warning')


@R.add(variants=[dict(n=n) for n in (2, 3, 4)], wits=6)
def asymmetric_free(env, n):
    """All off-diagonal entries free: not PSD as soon as one mirrored pair differs, whatever the sums."""
    M = [[env.real('m_%d_%d' % (i, j), lo=-3, hi=3) if i != j else env.const(20 + i) for j in range(n)] for i in range(n)]
    i, j = env.pick('p', [(i, j) for i in range(n) for j in range(i + 1, n)])
    env.assume(env.any_([M[i][j] - M[j][i] >= 0.01, M[j][i] - M[i][j] >= 0.01]))
    out = env.call(env.mod('operations').is_PSD, env.np.array(M))
    if env.expect_ok(out, 'succeeds'):
        env.prove(not out.val, 'not PSD')


@R.add(wits=4)
def nonsquare(env):
    """Nor is one which is not square."""
    r, c = env.pick('s', [(1, 2), (2, 1), (2, 3), (3, 2), (1, 3)])
    A = [[env.real('a_%d_%d' % (i, j), lo=-5, hi=5) for j in range(c)] for i in range(r)]
    out = env.call(env.mod('operations').is_PSD, env.np.array(A))
    if env.expect_ok(out, 'succeeds'):
        env.prove(not out.val, 'not PSD')
        env.prove(len(out.warns) > 0, 'with a warning')


@R.add(wits=5)
def nonfinite(env):
    """Infinite or undefined entries: never PSD."""
    v = env.pick('v', [env.nan, env.inf, -env.inf])
    a, b = env.real('a', lo=1, hi=5), env.real('b', lo=1, hi=5)
    A = env.pick('where', ['diag', 'off', 'last'])
    M = {'diag': [[v, 0.0], [0.0, b]], 'off': [[a, v], [v, b]], 'last': [[a, 0.0], [0.0, v]]}[A]
    check(env, env.np.array(M), False, 'verdict')


@R.add(wits=5)
def not_matrices(env):
    """Anything other than an array is refused."""
    base = env.mod('base')
    x = env.pick('x', ['list', 'none', 'str', 'int', 'km', 'tuple'])
    a = env.real('a', lo=1, hi=2)
    v = {'list': [[a]], 'none': None, 'str': 'abc', 'int': 3, 'tuple': ((a,),),
         'km': base.KernelMatrix(env.mod('numeric_kernels').LinearKernel())}[x]
    out = env.call(env.mod('operations').is_PSD, v)
    env.prove(out.raised(TypeError), 'refused', soft=out)


@R.add(wits=4)
def unmodified(env):
    """The matrix is left as it was, and asking twice gives the same."""
    M = env.symm('M', 2, lo=-5, hi=5)
    A = env.np.array(M)
    ops = env.mod('operations')
    want = verdict(env, M, 2, TOL, 1e-7)
    v = env.pick('verbose', [False, True])
    check(env, A, want, 'first', verbose=v)
    env.expect_matrix(A, M, 'matrix')
    check(env, A, want, 'second')
    env.prove(ops.is_positive_semidefinite(A) == want, 'both names')


@R.add(variants=lambda t: [dict(n=n) for n in sizes(t, quick_limit=60, thorough_limit=110, new_limit=130)], wits=1)
def size_sweep(env, n):
    """One negative eigenvalue among n, at either end."""
    s = env.real('s', lo=0.5, hi=2)
    neg = env.pick('neg', [None, 0, 'mid', 'last'])
    d = [1.0 + i for i in range(n)]
    if neg is not None:
        d[{0: 0, 'mid': n // 2, 'last': n - 1}[neg]] = -s
    A = env.np.array([[d[i] if i == j else 0.0 for j in range(n)] for i in range(n)])
    check(env, A, neg is None, 'verdict')


@R.add(wits=4)
def of_kernel(env):
    """A kernel function reports whether its matrices are PSD."""
    base = env.mod('base')
    c = env.pick('c', [0.0, 0.5, -0.5, 2.0, 1.0])

    class K(base.BaseKernelFunction):
        def __init__(self):
            super().__init__(name='k')

        def __call__(self, x, y):
            return 1.0 if (x == y).all() else c

        def __str__(self):
            return self.name
    out = env.call(K().is_psd)
    if env.expect_ok(out, 'succeeds'):
        env.prove(bool(out.val) == (0 <= c <= 1), 'verdict')


@R.add(wits=6)
def small_tolerances(env):
    """Tolerances down to 1e-9, and eigenvalues just beyond them."""
    t, hi = env.pick('t', [(1e-9, 1e-6), (1e-7, 1e-4), (1e-4, 1.0), (1e-9, 1e-8)])
    d = env.real('d', lo=0, hi=4)
    e = env.real('e', lo=2 * t, hi=hi)
    check(env, env.np.array([[-e, 0.0], [0.0, d]]), False, 'beyond', tolerance=t)
    check(env, env.np.array([[d, 0.0], [0.0, -t / 2]]), True, 'within', tolerance=t)
    check(env, env.np.array([[d, 0.0], [0.0, e]]), True, 'positive', tolerance=t)


@R.add(variants=[dict(s=s) for s in (1e-3, 1.0, 1e3, 1e6)], wits=5)
def magnitudes(env, s):
    """The tolerance is absolute: whatever the size of the other entries."""
    big = env.real('big', lo=s / 2, hi=s)
    e = env.real('e', lo=1e-4, hi=1)
    check(env, env.np.array([[big, 0.0], [0.0, -e]]), False, 'negative', tolerance=1e-6)
    check(env, env.np.array([[big, 0.0], [0.0, e]]), True, 'positive')
    check(env, env.np.array([[-e, 0.0, 0.0], [0.0, big, 0.0], [0.0, 0.0, big]]), False, 'negative', tolerance=1e-5)
