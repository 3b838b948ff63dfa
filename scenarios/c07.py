"""C07: centering."""
from symk.scen import Registry
from .lib import *

R = Registry()
lookup = R.lookup


def hkh(K):
    n = len(K)
    rs = [sum(r[1:], r[0]) for r in K]
    cs = [sum([K[i][j] for i in range(1, n)], K[0][j]) for j in range(n)]
    t = sum(rs[1:], rs[0])
    return [[K[i][j] - rs[i] / n - cs[j] / n + t / (n * n) for j in range(n)] for i in range(n)]


@R.add(variants=lambda t: [dict(n=n, sym=s) for n in (range(1, 6) if t == 'quick' else range(1, 9)) for s in (True, False)], wits=2)
def function(env, n, sym):
    """center_km(K) = (I - 11'/n) K (I - 11'/n); rows and columns sum to 0; centering again changes nothing."""
    ops = env.mod('operations')
    K = env.symm('K', n) if sym else env.reals('K', (n, n))
    A = env.np.array(K)
    out = env.call(ops.center_km, A)
    if not env.expect_ok(out, 'succeeds'):
        return
    C = out.val
    env.expect_matrix(C, hkh(K), 'centered')
    z = env.const(0)
    for i in range(n):
        env.expect_close(sum([C[i, j] for j in range(n)]), z, 'row sums vanish')
        env.expect_close(sum([C[j, i] for j in range(n)]), z, 'column sums vanish')
        if sym:
            for j in range(i):
                env.expect_close(C[i, j], C[j, i], 'symmetric')
    env.expect_matrix(A, K, 'the input is not modified')
    out = env.call(ops.center_km, C)
    if env.expect_ok(out, 'again'):
        env.expect_matrix(out.val, [[C[i, j] for j in range(n)] for i in range(n)], 'idempotent')


@R.add(variants=[dict(dt=d) for d in ('int64', 'int8', 'uint8', 'float32', 'bool')], wits=2)
def other_dtypes(env, dt):
    """Integer, boolean and single precision matrices are centered like any other."""
    ops = env.mod('operations')
    n = 3
    lo, hi = {'bool': (0, 1), 'uint8': (0, 255), 'int8': (-128, 127)}.get(dt, (-50, 50))
    K = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            K[i][j] = K[j][i] = env.int('K_%d_%d' % (i, j), lo, hi)
    out = env.call(ops.center_km, env.typed(K, dt))
    if env.expect_ok(out, 'succeeds'):
        env.expect_matrix(out.val, hkh([[v * env.const(1) for v in r] for r in K]), 'centered')


@R.add(wits=2)
def refused(env):
    """Non-square inputs and things that are not arrays are refused."""
    ops = env.mod('operations')
    what = env.pick('what', ['wide', 'tall', 'list', 'none', 'scalar', 'str'])
    K = env.np.array(env.reals('K', (3, 3)))
    x = {'wide': lambda: K[:2, :], 'tall': lambda: K[:, :1], 'list': lambda: [[1.0, 2.0], [2.0, 1.0]], 'none': lambda: None,
         'scalar': lambda: 3.0, 'str': lambda: 'KM'}[what]()
    out = env.call(ops.center_km, x)
    env.prove(out.raised(ValueError), 'refused: ' + what, soft=out)


@R.add(variants=lambda t: [dict(n=n, norm=nm) for n in ((1, 2, 3) if t == 'quick' else (1, 2, 3, 4)) for nm in (False, True)], wits=2)
def matrix_object(env, n, norm):
    """.centered of a kernel matrix is the centered raw matrix, after any other reads, and changes no other view."""
    base = env.mod('base')
    ids = list(range(n))
    T = sym_table(env, ids)
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=norm)
    km.attach_to(id_sample(env, ids))
    O = Oracle(env, T, ids)
    for t in range(2):
        nm = env.pick('op%d' % t, ['centered', 'full', 'sparse', 'normed', 'elem', '[:,:]', 'frob', 'center()'])
        if nm == 'center()':
            env.expect_ok(env.call(km.center), 'center() succeeds')
        else:
            OP[nm](env, km, O, norm, nm)
    OP['centered'](env, km, O, norm, 'finally')
    OP['full'](env, km, O, norm, 'after centering')
    OP['centered'](env, km, O, norm, 'again')


@R.add(wits=2)
def two_samples(env):
    """Centering across two samples is refused, before and after other reads, and after re-attaching it works."""
    base, cfg = env.mod('base'), env.mod('config')
    s = env.pick('shape', [(2, 2), (3, 2), (2, 3)])
    i1, i2 = list(range(s[0])), list(range(3, 3 + s[1]))
    T = sym_table(env, range(6))
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=False)
    pre1 = env.pick('first_one_sample', [False, True])
    if pre1:
        km.attach_to(id_sample(env, i1))
        OP['centered'](env, km, Oracle(env, T, i1), False, 'one sample')
    km.attach_to(id_sample(env, i1), sample_two=id_sample(env, i2))
    O = Oracle(env, T, i1, i2)
    pre = env.pick('pre', [None, 'full', 'sparse'])
    if pre:
        OP[pre](env, km, O, False, pre)
    env.prove(env.call(lambda: km.centered).raised(cfg.KMAccessError), '.centered refused')
    env.prove(env.call(km.center).raised(NotImplementedError), 'center() refused')
    OP['full'](env, km, O, False, 'still readable')
    km.attach_to(id_sample(env, i2))
    OP['centered'](env, km, Oracle(env, T, i2), False, 'one sample again')


@R.add(variants=lambda t: [dict(n=n) for n in sizes(t, quick_limit=60, thorough_limit=130, new_limit=130)], wits=1)
def size_sweep(env, n):
    """Sizes around every integer constant of the source."""
    ops = env.mod('operations')
    s = env.real('s', lo=0.5, hi=4)
    K = [[s * ((min(i, j) * 31 + max(i, j) * 17) % 101 + 1) for j in range(n)] for i in range(n)]
    A = env.np.array(K)
    out = env.call(ops.center_km, A)
    if env.expect_ok(out, 'succeeds'):
        env.expect_matrix(out.val, hkh(K), 'centered')
    env.expect_matrix(A, K, 'the input is not modified')


@R.add(variants=[dict(unit=u, n=n) for u in UNITS for n in (2, 3)], wits=3)
def magnitudes(env, unit, n):
    """Centering however small or large all values are."""
    ops = env.mod('operations')
    env.unit = unit
    K = env.symm('K', n)
    K = [[x * unit for x in r] for r in K]
    out = env.call(ops.center_km, env.np.array(K))
    if env.expect_ok(out, 'succeeds'):
        env.expect_matrix(out.val, hkh(K), 'centered')
