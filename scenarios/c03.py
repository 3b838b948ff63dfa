"""C03: invalid indices are refused and leave the matrix intact."""
from symk.scen import Registry
from .lib import *
from .c02 import two_table

R = Registry()
lookup = R.lookup


def _km(env, two, norm=False):
    base = env.mod('base')
    i1 = [0, 1, 2]
    i2 = [10, 11] if two else None
    T = two_table(env, i1, i2) if two else sym_table(env, i1)
    log = []
    km = base.KernelMatrix(table_kernel(env, base, T, log), normalized=norm)
    if two:
        km.attach_to(id_sample(env, i1), sample_two=id_sample(env, i2))
    else:
        km.attach_to(id_sample(env, i1))
    return km, Oracle(env, T, i1, i2), log


def refused(env, km, ix, label, any_error=False):
    out = env.call(lambda: km[ix])
    if any_error:
        env.prove(not out.ok, label, soft=out)
    else:
        env.prove(out.raised(env.mod('config').KMAccessError), label, soft=out)


def _pre(env, km, O, norm):
    pre = env.pick('pre', [None, 'full', 'sparse', 'elem', 'normed'])
    if pre:
        OP[pre](env, km, O, norm, pre)


def _after(env, km, O, norm):
    nm = env.pick('after', ['full', 'elem', '[:,:]', 'sparse'])
    OP[nm](env, km, O, norm, 'after the refused read: ' + nm)


@R.add(variants=[dict(two=t, dim=d) for t in (False, True) for d in (0, 1)], wits=4)
def out_of_range(env, two, dim):
    """Any integer outside [0, dimension) is refused, in either position and in any form."""
    km, O, log = _km(env, two)
    _pre(env, km, O, False)
    b = env.int('bad', -12, 12)
    n = O.shape[dim]
    env.assume(env.any_([b < 0, b >= n]))
    good = env.pick('good', [0, O.shape[1 - dim] - 1])
    form = env.pick('form', ['scalar', 'list', 'mixed', 'np'])
    if form == 'scalar':
        x = b
    elif form == 'list':
        x = [b]
    elif form == 'mixed':
        x = [0, b]
    else:
        x = env.npint(b, 'int64')
    ix = (x, good) if dim == 0 else (good, x)
    before = len(log)
    refused(env, km, ix, 'an out-of-range index is refused with the access error')
    env.prove(len(log) == before, 'nothing is evaluated for a refused read')
    _after(env, km, O, False)


@R.add(variants=[dict(two=t) for t in (False, True)], wits=3)
def flat_out_of_range(env, two):
    """Flat positions outside the matrix are refused."""
    km, O, log = _km(env, two)
    m = O.shape[0] * O.shape[1]
    p = env.int('p', -12, 24)
    env.assume(env.any_([p < 0, p >= m]))
    out = env.call(lambda: km[p])
    env.prove(not out.ok, 'a flat position outside the matrix is refused', soft=out)
    _after(env, km, O, False)


def _bad(env):
    np_ = env.np
    return [('string', 'ab'), ('string3', 'abc'), ('none', None), ('float', 1.0), ('arity1', (0,)), ('arity3', (0, 0, 0)),
            ('empty tuple', ()), ('list1', [0]), ('set', {0, 1, 2})]


def _badpart(env):
    return [('string', 'a'), ('none', None), ('float', 0.0), ('float in range', 1.0), ('floats', [0.0, 1.0]),
            ('half', [0.5]), ('nan', [float('nan')]), ('strings', ['a']), ('empty list', []), ('empty tuple', ()),
            ('none in list', [None]), ('nested', [[0]]), ('empty slice', slice(2, 2)), ('beyond', slice(5, 9)),
            ('float array', env.np.array([0.0, 1.0])), ('complex', 1j), ('mixed', [0, 'a']), ('bools', [True, False])]


@R.add(variants=[dict(two=t) for t in (False, True)], wits=3)
def malformed(env, two):
    """Index objects that are not a pair are refused."""
    km, O, log = _km(env, two)
    bad = _bad(env)
    nm, ix = bad[env.choice('bad', len(bad))]
    refused(env, km, ix, 'malformed index refused: ' + nm)
    _after(env, km, O, False)


@R.add(variants=[dict(two=t, norm=nm) for t in (False, True) for nm in (False, True)], wits=3)
def malformed_part(env, two, norm):
    """Non-integer, empty or otherwise malformed selections along a dimension are refused."""
    km, O, log = _km(env, two, norm)
    _pre(env, km, O, norm)
    bad = _badpart(env)
    nm, x = bad[env.choice('bad', len(bad))]
    dim = env.choice('dim', 2)
    ix = (x, 0) if dim == 0 else (slice(None), x)
    before = len(log)
    refused(env, km, ix, 'malformed selection refused: ' + nm)
    env.prove(len(log) == before, 'nothing is evaluated for a refused read')
    _after(env, km, O, norm)


@R.add(wits=2)
def symbolic_float(env):
    """No real number that is not an integer type may select anything."""
    km, O, log = _km(env, False)
    v = env.real('v', lo=-3, hi=5)
    dim = env.choice('dim', 2)
    form = env.pick('form', ['scalar', 'list'])
    x = v if form == 'scalar' else [v]
    refused(env, km, (x, 0) if dim == 0 else (0, x), 'a real number is not an index')
    _after(env, km, O, False)


@R.add(variants=[dict(n=n) for n in (1, 2, 5)], wits=2)
def boundaries(env, n):
    """The first index past the end, and -1, for several sizes."""
    base = env.mod('base')
    ids = list(range(n))
    T = sym_table(env, ids)
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=False)
    km.attach_to(id_sample(env, ids))
    O = Oracle(env, T, ids)
    for b in (n, -1, -n, n + 1, 10 ** 6, -10 ** 6):
        for ix in ((b, 0), (0, b), (b, b), ([b], [0]), ([0, b], 0), (0, (b,)), (slice(n, None), 0), (0, slice(n, n + 3))):
            refused(env, km, ix, 'index %r refused' % (ix,))
    OP['full'](env, km, O, False, 'after')


@R.add(variants=[dict(two=t) for t in (False, True)], wits=4)
def valid(env, two):
    """Selections in range are answered, with what they select, however often an index is repeated."""
    km, O, log = _km(env, two)
    pre = env.pick('pre', [None, 'full', 'sparse'])
    if pre:
        OP[pre](env, km, O, False, pre)
    nr, nc = O.shape
    m = env.pick('m', [nr, nr + 1] if env.tier == 'quick' else [1, 2, nr, nr + 1])
    r = [int(env.int('r%d' % t, 0, nr - 1)) for t in range(2)]
    rows = [r[t % 2] for t in range(m)]
    c = int(env.int('c', 0, nc - 1))
    cols = env.pick('cols', [[c], [c] * nc, [c] * (nc + 2), [c, 0, c]])
    form = env.pick('form', [list, env.np.array] if env.tier == 'quick' else [list, tuple, env.np.array])
    R_, C_ = sorted(set(rows)), sorted(set(cols))
    expect_block(env, km, (form(rows), form(cols)), R_, C_, O, 'km[rows,cols]')
    if not two:
        expect_block(env, km, (form(cols), form(rows)), C_, R_, O, 'km[cols,rows]')
    expect_block(env, km, (form(rows), slice(None)), R_, list(range(nc)), O, 'km[rows,:]')
