"""C08: Frobenius product/norm and centered alignment."""
from symk.scen import Registry
from .lib import *
from .c07 import hkh

R = Registry()
lookup = R.lookup


def fro(A, B):
    s = 0
    for ra, rb in zip(A, B):
        for a, b in zip(ra, rb):
            s = s + a * b
    return s


@R.add(variants=lambda t: [dict(s=s) for s in ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 3)) + (((4, 4), (2, 5)) if t != 'quick' else ())], wits=3)
def product_norm(env, s):
    """<A,B> = sum of elementwise products, symmetric in its arguments; |A|^2 = <A,A>; inputs untouched."""
    ops = env.mod('operations')
    A, B = env.reals('a', s), env.reals('b', s)
    MA, MB = env.np.array(A), env.np.array(B)
    out = env.call(ops.frobenius_product, MA, MB)
    if env.expect_ok(out, 'product succeeds'):
        env.expect_close(out.val, fro(A, B), 'product')
    out = env.call(ops.frobenius_product, MB, MA)
    if env.expect_ok(out, 'swapped product succeeds'):
        env.expect_close(out.val, fro(A, B), 'product is symmetric')
    out = env.call(ops.frobenius_norm, MA)
    if env.expect_ok(out, 'norm succeeds'):
        env.prove(out.val >= 0, 'norm is nonnegative')
        env.expect_close(out.val * out.val, fro(A, A), 'squared norm')
    env.expect_matrix(MA, A, 'first input unmodified')
    env.expect_matrix(MB, B, 'second input unmodified')


@R.add(variants=[dict(n=2, m=2), dict(n=3, m=2)], wits=3)
def bilinear(env, n, m):
    """<A + tB, C> = <A,C> + t<B,C> and |tA| = |t||A|."""
    ops = env.mod('operations')
    A, B, C = env.reals('a', (n, m)), env.reals('b', (n, m)), env.reals('c', (n, m))
    t = env.real('t')
    S = [[A[i][j] + t * B[i][j] for j in range(m)] for i in range(n)]
    arr = env.np.array
    l = ops.frobenius_product(arr(S), arr(C))
    env.expect_close(l, ops.frobenius_product(arr(A), arr(C)) + t * ops.frobenius_product(arr(B), arr(C)), 'bilinear')
    nt = ops.frobenius_norm(arr([[t * x for x in r] for r in A]))
    n1 = ops.frobenius_norm(arr(A))
    env.expect_close(nt * nt, t * t * n1 * n1, 'homogeneous')


@R.add(wits=4)
def shape_mismatch(env):
    """Different shapes are refused (also when numpy would broadcast them)."""
    ops = env.mod('operations')
    sa = env.pick('sa', [(2, 2), (1, 2), (3, 3), (2, 3), (1, 1)])
    sb = env.pick('sb', [(2, 2), (2, 1), (3, 3), (3, 2), (1, 3)])
    env.assume(sa != sb)
    A, B = env.np.array(env.reals('a', sa)), env.np.array(env.reals('b', sb))
    out = env.call(ops.frobenius_product, A, B)
    env.prove(out.raised(ValueError), 'product of different shapes refused', soft=out)
    ca = env.pick('centered', [False, True])
    out = env.call(ops.alignment_centered, A, B, centered_already=ca)
    env.prove(out.raised(ValueError), 'alignment of different shapes refused', soft=out)


@R.add(wits=4)
def not_arrays(env):
    """Alignment wants arrays."""
    ops, base = env.mod('operations'), env.mod('base')
    T = sym_table(env, [0, 1])
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=False)
    km.attach_to(id_sample(env, [0, 1]))
    A = env.np.array(env.symm('a', 2))
    which = env.pick('which', ['first', 'second', 'both'])
    args = {'first': (km, A), 'second': (A, km), 'both': (km, km)}[which]
    out = env.call(ops.alignment_centered, *args, value_if_zero_division=env.pick('v', ['raise', 0.0]))
    env.prove(out.raised(TypeError), 'objects that are not arrays are refused', soft=out)


def check_align(env, ops, A, B, CA, CB, already, tag):
    aa, bb, ab = fro(CA, CA), fro(CB, CB), fro(CA, CB)
    kw = dict(centered_already=True) if already else {}
    out = env.call(ops.alignment_centered, env.np.array(A), env.np.array(B), **kw)
    if not env.expect_ok(out, tag + ' succeeds'):
        return
    v = out.val
    env.expect_close(v * v * aa * bb, ab * ab, tag + ': squared alignment')
    env.prove(v * ab >= 0, tag + ': sign')
    out = env.call(ops.alignment_centered, env.np.array(B), env.np.array(A), **kw)
    if env.expect_ok(out, tag + ' swapped succeeds'):
        env.expect_close(out.val, v, tag + ' is symmetric in its arguments')


@R.add(variants=lambda t: [dict(n=n) for n in ((2, 3) if t == 'quick' else (2, 3, 4))], wits=3)
def alignment(env, n):
    """Centered alignment = <HAH,HBH> / (|HAH| |HBH|), whenever the norms do not vanish."""
    ops = env.mod('operations')
    A, B = env.symm('a', n, lo=-20, hi=20), env.symm('b', n, lo=-20, hi=20)
    CA, CB = hkh(A), hkh(B)
    env.assume(fro(CA, CA) >= 1e-3)
    env.assume(fro(CB, CB) >= 1e-3)
    check_align(env, ops, A, B, CA, CB, False, 'alignment')


@R.add(variants=lambda t: [dict(n=n) for n in ((1, 2, 3) if t == 'quick' else (1, 2, 3, 4))], wits=3)
def alignment_no_centering(env, n):
    """With centered_already the matrices are used as they are."""
    ops = env.mod('operations')
    A, B = env.symm('a', n, lo=-20, hi=20), env.symm('b', n, lo=-20, hi=20)
    env.assume(fro(A, A) >= 1e-3)
    env.assume(fro(B, B) >= 1e-3)
    check_align(env, ops, A, B, A, B, True, 'alignment')


@R.add(variants=[dict(n=n) for n in (2, 3)], wits=3)
def self_alignment(env, n):
    """A matrix is perfectly aligned with itself and its positive multiples, and opposite to negative ones."""
    ops = env.mod('operations')
    A = env.symm('a', n, lo=-20, hi=20)
    CA = hkh(A)
    env.assume(fro(CA, CA) >= 1e-2)
    t = env.pick('t', [1, 3, -2])
    out = env.call(ops.alignment_centered, env.np.array(A), env.np.array([[t * x for x in r] for r in A]))
    if env.expect_ok(out, 'succeeds'):
        env.expect_close(out.val, env.const(1 if t > 0 else -1), 'self alignment')


@R.add(variants=[dict(already=a) for a in (False, True)], wits=4)
def scales(env, already):
    """Small and large (but not vanishing) matrices: scaling either by a positive number changes no alignment."""
    ops = env.mod('operations')
    P = env.pick('pair', [([[1.0, -1.0], [-1.0, 1.0]], [[2.0, -2.0], [-2.0, 2.0]]),
                          ([[3.0, 1.0], [1.0, 1.0]], [[1.0, 0.0], [0.0, 2.0]]),
                          ([[1.0, 2.0], [2.0, 1.0]], [[4.0, 1.0], [1.0, 0.0]])])
    A, B = P
    CA, CB = (A, B) if already else (hkh(A), hkh(B))
    aa, bb, ab = fro(CA, CA), fro(CB, CB), fro(CA, CB)
    lo, hi = env.pick('scale', [(1e-6, 1e-4), (1e-4, 1), (1, 1e4), (1e4, 1e6), (1e100, 1e101)] +
                       [(v / 4, v * 4) for v in source_numbers() if 1e6 < v < 1e110 and v not in KNOWN_MAGNITUDES])
    lo2, hi2 = env.pick('scale2', [(1e-6, 1e-4), (1, 1e4)])
    s, t = env.real('s', lo=lo, hi=hi), env.real('t', lo=lo2, hi=hi2)
    kw = dict(centered_already=True) if already else {}
    X = env.np.array([[s * x for x in r] for r in A])
    Y = env.np.array([[t * x for x in r] for r in B])
    X0, Y0 = X.copy(), Y.copy()
    out = env.call(ops.alignment_centered, X, Y, **kw)
    env.prove(env.all_([a == b for p, q in ((X, X0), (Y, Y0)) for a, b in zip(list(p.ravel()), list(q.ravel()))]),
              'the matrices are left as they were')
    if env.expect_ok(out, 'scaled alignment succeeds'):
        env.expect_close(out.val * out.val, ab * ab / (aa * bb), 'scaled alignment, squared')
        env.prove(out.val * ab >= 0, 'scaled alignment: sign')


@R.add(variants=[dict(n=n, already=a) for n in (1, 2, 3) for a in (False, True)], wits=6)
def zero_norm(env, n, already):
    """A vanishing norm raises by default, and yields the requested value with a warning otherwise."""
    ops = env.mod('operations')
    c = env.real('c', lo=0.5, hi=3)
    z = env.const(0) if already else c          # constant matrices centre to zero
    Z = [[z] * n for _ in range(n)]
    A = env.symm('a', n, diag_lo=1)
    which = env.pick('which', ['first', 'second', 'both'])
    X, Y = {'first': (Z, A), 'second': (A, Z), 'both': (Z, Z)}[which]
    val = env.pick('val', ['default', 'raise', 'Exception', 'zero', 'minus', 'sym', 'one', 'none'])
    kw = dict(centered_already=True) if already else {}
    v = {'default': None, 'raise': 'raise', 'Exception': Exception, 'zero': 0.0, 'minus': -1.0, 'one': 1,
         'sym': env.real('v', lo=-1, hi=1), 'none': None}[val]
    if val != 'default':
        kw['value_if_zero_division'] = v
    out = env.call(ops.alignment_centered, env.np.array(X), env.np.array(Y), **kw)
    if val in ('default', 'raise', 'Exception'):
        env.prove(out.raised(ValueError), 'refused by default', soft=out)
    elif env.expect_ok(out, 'requested value instead'):
        if val == 'none':
            env.prove(out.val is None, 'the requested value')
        else:
            env.expect_close(out.val, v, 'the requested value')
        env.prove(len(out.warns) > 0, 'with a warning')


@R.add(variants=[dict(n=n) for n in (2, 3)], wits=3)
def matrix_objects(env, n):
    """.frob_norm of a kernel matrix is the norm of the raw matrix; alignment of two kernel matrices' .full"""
    base, ops = env.mod('base'), env.mod('operations')
    ids = list(range(n))
    T = sym_table(env, ids)
    norm = env.pick('norm', [False, True])
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=norm)
    km.attach_to(id_sample(env, ids))
    O = Oracle(env, T, ids)
    for t in range(2):
        nm = env.pick('op%d' % t, ['full', 'sparse', 'normed', 'centered', 'frob', 'elem', 'normalize'])
        OP[nm](env, km, O, norm, nm)
    OP['frob'](env, km, O, norm, 'finally')


@R.add(wits=3)
def matrix_objects_two(env):
    """.frob_norm across two samples."""
    from .c02 import two_table
    base = env.mod('base')
    s = env.pick('shape', [(1, 2), (2, 1), (2, 3), (3, 2), (2, 2)])
    i1, i2 = list(range(s[0])), list(range(10, 10 + s[1]))
    T = two_table(env, i1, i2)
    norm = env.pick('norm', [False, True])
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=norm)
    km.attach_to(id_sample(env, i1), sample_two=id_sample(env, i2))
    O = Oracle(env, T, i1, i2)
    nm = env.pick('op', ['full', 'sparse', 'frob', 'elem', 'normalize'])
    OP[nm](env, km, O, norm, nm)
    OP['frob'](env, km, O, norm, 'finally')


@R.add(variants=lambda t: [dict(n=n) for n in sizes(t, quick_limit=60, thorough_limit=130, new_limit=130)], wits=1)
def size_sweep(env, n):
    """Sizes around every integer constant of the source."""
    ops = env.mod('operations')
    s = env.real('s', lo=0.5, hi=4)
    A = [[s * ((min(i, j) * 31 + max(i, j) * 17) % 101 - 40) for j in range(n)] for i in range(n)]
    B = [[s * ((i * 13 + j * 7) % 89 - 30) for j in range(n)] for i in range(n)]
    out = env.call(ops.frobenius_product, env.np.array(A), env.np.array(B))
    if env.expect_ok(out, 'product'):
        env.expect_close(out.val, fro(A, B), 'product')
    out = env.call(ops.frobenius_norm, env.np.array(A))
    if env.expect_ok(out, 'norm'):
        env.expect_close(out.val * out.val, fro(A, A), 'norm')
    if 2 <= n <= 40:
        Bs = [[B[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
        CA, CB = hkh(A), hkh(Bs)
        out = env.call(ops.alignment_centered, env.np.array(A), env.np.array(Bs))
        if env.expect_ok(out, 'alignment'):
            ab = fro(CA, CB)
            env.expect_close(out.val * out.val * fro(CA, CA) * fro(CB, CB), ab * ab, 'alignment')
            env.prove(out.val * ab >= 0, 'alignment sign')
