"""C15: the match-count kernel."""
from symk.scen import Registry
from .lib import *

R = Registry()
lookup = R.lookup

TABLE = ['a', 'b', 'ab', 'A']
TABLE2 = ['', ' ', 'a ', 'nan', '1', '1.0', 'b']


def cats(env, name, n, table=TABLE):
    return [env.string('%s_%d' % (name, i), table) for i in range(n)]


def kernel(env, perc, **k):
    return env.mod('categorical').MatchCountKernel(return_perc=perc, **k)


def count(env, x, y):
    """Number of agreeing positions; forks on each."""
    return sum(1 for a, b in zip(x, y) if env.is_true(a == b))


def form(env, v, f):
    if f == 'array':
        return env.strarray(v)
    return list(v) if f == 'list' else tuple(v)


def expect(env, out, n, m, perc, label):
    if env.expect_ok(out, label + ' succeeds'):
        env.expect_close(out.val, env.const(m) / n if perc else env.const(m), label)


def _v(t):
    return [dict(n=n, perc=p, tab=b) for n in ((1, 2, 3) if t == 'quick' else (1, 2, 3, 4, 5))
            for p in (True, False) for b in (0, 1)]


@R.add(variants=_v, wits=5)
def counting(env, n, perc, tab):
    """The number (or fraction) of agreeing positions, for all lists; symmetric; full for equal lists."""
    table = (TABLE, TABLE2)[tab]
    x, y = cats(env, 'x', n, table), cats(env, 'y', n, table)
    skip = env.pick('skip', [False, True])
    k = kernel(env, perc, skip_input_checks=skip)
    m = count(env, x, y)
    X, Y = env.strarray(x), env.strarray(y)
    expect(env, env.call(k, X, Y), n, m, perc, 'count')
    expect(env, env.call(k, Y, X), n, m, perc, 'count swapped')
    expect(env, env.call(k, X, X), n, n, perc, 'with itself')
    for i in range(n):
        env.prove(X[i] == x[i], 'inputs unmodified')


@R.add(variants=[dict(perc=p) for p in (True, False)], wits=6)
def forms(env, perc):
    """Lists, tuples and arrays are the same; a single variable too."""
    n = env.pick('n', [1, 2])
    x, y = cats(env, 'x', n), cats(env, 'y', n)
    fx, fy = env.pick('fx', ['list', 'tuple', 'array']), env.pick('fy', ['list', 'tuple', 'array'])
    m = count(env, x, y)
    expect(env, env.call(kernel(env, perc), form(env, x, fx), form(env, y, fy)), n, m, perc, 'count')


@R.add(wits=2)
def defaults(env):
    """The default is the fraction, and names tell which."""
    c = env.mod('categorical')
    x, y = cats(env, 'x', 2), cats(env, 'y', 2)
    m = count(env, x, y)
    expect(env, env.call(c.MatchCountKernel(), env.strarray(x), env.strarray(y)), 2, m, True, 'default')
    a, b = c.MatchCountKernel(return_perc=True), c.MatchCountKernel(return_perc=False)
    env.prove(str(a) == 'MatchPerc' and str(b) == 'MatchCount', 'names')
    expect(env, env.call(a, env.strarray(x), env.strarray(y)), 2, m, True, 'fraction')
    expect(env, env.call(b, env.strarray(x), env.strarray(y)), 2, m, False, 'number')


@R.add(variants=[dict(perc=p) for p in (True, False)], wits=5)
def lengths(env, perc):
    """Lists of different lengths are refused."""
    n, m = int(env.int('n', 1, 3)), int(env.int('m', 1, 3))
    env.assume(n != m)
    x, y = cats(env, 'x', n), cats(env, 'y', m)
    k = kernel(env, perc, skip_input_checks=env.pick('skip', [False, True]))
    fx, fy = env.pick('fx', ['list', 'array']), env.pick('fy', ['list', 'array'])
    out = env.call(k, form(env, x, fx), form(env, y, fy))
    env.prove(out.raised(ValueError), 'refused', soft=out)


@R.add(variants=[dict(perc=p) for p in (True, False)], wits=5)
def types(env, perc):
    """Numbers, booleans and matrices are refused, in either position."""
    k = kernel(env, perc)
    y = env.strarray(cats(env, 'y', 2))
    r = env.real('r', lo=1, hi=2)
    bad = env.pick('bad', ['floats', 'ints', 'bools', 'list of floats', 'list of ints', '2d', 'bytes', '2d list', 'scalar'])
    np = env.np
    v = {'floats': lambda: np.array([r, 2.0]), 'ints': lambda: np.array([1, 2]), 'bools': lambda: np.array([True, False]),
         'list of floats': lambda: [1.0, 2.0], 'list of ints': lambda: [1, 2],
         '2d': lambda: np.array([['a', 'b'], ['a', 'b']]), 'bytes': lambda: np.array([b'a', b'b']),
         '2d list': lambda: [['a', 'b'], ['a', 'b']], 'scalar': lambda: np.array('a')}[bad]()
    out = env.call(k, v, y) if env.pick('pos', [0, 1]) == 0 else env.call(k, y, v)
    env.prove(out.raised(TypeError, ValueError), 'refused', soft=out)
    x, z = cats(env, 'x', 1), cats(env, 'z', 1)
    expect(env, env.call(k, env.strarray(x), env.strarray(z)), 1, count(env, x, z), perc, 'afterwards')


@R.add(variants=[dict(perc=p, two=t) for p in (True, False) for t in (False, True)], wits=3)
def through_matrix(env, perc, two):
    """Kernel matrices over categorical samples."""
    base = env.mod('base')
    X = [cats(env, 'x%d' % i, 2, ['a', 'b']) for i in range(2)]
    Y = [cats(env, 'y%d' % i, 2, ['a', 'b']) for i in range(1)] if two else X
    km = base.KernelMatrix(kernel(env, perc), normalized=False)

    def mat(rows):
        flat = env.strarray([v for r in rows for v in r])
        return flat.reshape(len(rows), 2)
    out = env.call(km.attach_to, mat(X), sample_two=mat(Y) if two else None)
    if not env.expect_ok(out, 'attach'):
        return
    out = env.call(lambda: km.full)
    if env.expect_ok(out, 'full'):
        W = [[env.const(count(env, a, b)) / (2 if perc else 1) for b in Y] for a in X]
        env.expect_matrix(out.val, W, 'matrix')


@R.add(variants=lambda t: [dict(n=n) for n in sizes(t, quick_limit=110)], wits=1)
def length_sweep(env, n):
    """Long lists: one differing position anywhere counts, no other does."""
    v = ['c%d' % (i % 7) for i in range(n)]
    p = env.pick('p', sorted({0, n // 2, n - 1}))
    s = env.string('s', ['c0', 'c1', 'c2', 'c3', 'c4', 'c5', 'c6', 'x'])
    w = list(v)
    w[p] = s
    m = n if env.is_true(s == v[p]) else n - 1
    for perc in (True, False):
        expect(env, env.call(kernel(env, perc), env.strarray(v), env.strarray(w)), n, m, perc, 'count')


@R.add(wits=3)
def independent(env):
    """Two kernels do not influence one another, and calls leave no trace."""
    x, y, z = (cats(env, c, 2, ['a', 'b']) for c in 'xyz')
    a, b = kernel(env, True), kernel(env, False)
    pairs = [(x, y), (y, z), (x, z)]
    for t in range(2):
        p, q = pairs[env.choice('p%d' % t, 3)]
        k = env.choice('k%d' % t, 2)
        expect(env, env.call((a, b)[k], env.strarray(p), env.strarray(q)), 2, count(env, p, q), k == 0, 'count')


@R.add(variants=[dict(perc=p) for p in (True, False)], wits=5)
def widths(env, perc):
    """Arrays whose text has different widths: one category being the beginning of another is no match."""
    wx, wy = env.pick('wx', [1, 2, 4]), env.pick('wy', [1, 2, 4])
    full = ['a', 'ab', 'abcd', 'b', 'abc']
    x = cats(env, 'x', 2, [c for c in full if len(c) <= wx])
    y = cats(env, 'y', 2, [c for c in full if len(c) <= wy])
    m = count(env, x, y)
    k = kernel(env, perc, skip_input_checks=env.pick('skip', [False, True]))
    expect(env, env.call(k, env.strarray(x, wx), env.strarray(y, wy)), 2, m, perc, 'count')


ALPHABETS = [['é', 'è', 'e', 'e\u0301', 'E', 'É', 'ß', 'ss', 'ı', 'i', 'İ', 'I', 'ſ', 's', 'µ', 'μ', '中', '丰', '😀', '😁', ''],
             ['a', ' a', 'a\t', 'a\n', 'a ', '\ta', 'a b', 'ab', 'a  b', 'a-b', 'a_b', 'A', '"a"', "'a'", '\\a', 'a\r', 'a.', 'a,'],
             ['1', '01', '1.0', '1e0', ' 1', '+1', '-1', '0', '-0', '', 'nan', 'NaN', 'None', 'none', 'True', 'true', 'inf', '1.00', '１'],
             ['abcdefghijklmnopqrstuvwxyz', 'abcdefghijklmnopqrstuvwxyZ', 'Abcdefghijklmnopqrstuvwxyz', 'abcdefghijklmnopqrstuvwxy',
              'bacdefghijklmnopqrstuvwxyz', 'abcdefghijklm', 'abcdefghijklmnopqrstuvwxyza', 'x' * 40, 'x' * 41, 'x' * 39 + 'y'],
             ['a' * k + t for k in (0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 65, 71, 127, 128, 135, 255, 256, 300) for t in ('', 'b')]]


@R.add(variants=[dict(tab=t, perc=p) for t in range(len(ALPHABETS)) for p in (True, False)], wits=6)
def alphabets(env, tab, perc):
    """Two categories match exactly when they are the same text, of any alphabet, spacing, case and length."""
    table = ALPHABETS[tab]
    a = table[env.choice('a', len(table))]
    b = env.string('b', table)
    m = 1 if env.is_true(a == b) else 0
    w = max(map(len, table))
    k = kernel(env, perc)
    expect(env, env.call(k, env.strarray([a, 'z'], w), env.strarray([b, 'z'], w)), 2, m + 1, perc, 'count')
    expect(env, env.call(k, env.strarray([b], w), env.strarray([a], w)), 1, m, perc, 'count')
