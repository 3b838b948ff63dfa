"""C24: user-defined attributes."""
from symk.scen import Registry
from .lib import *

R = Registry()
lookup = R.lookup

NAMES = ['weight', 'full', '_KM', 'name', 7, ('a', 1), '', None]


def new(env, ids=(0, 1), attach=True, name='t'):
    base = env.mod('base')
    T = sym_table(env, list(ids) + [2, 3], name='K' + name)
    km = base.KernelMatrix(table_kernel(env, base, T, name=name), normalized=False)
    if attach:
        km.attach_to(id_sample(env, list(ids)))
    return km, T


def value(env, name, kind):
    if kind == 'real':
        return env.real(name, lo=-9, hi=9)
    if kind == 'text':
        return 'text ' + name
    if kind == 'none':
        return None
    if kind == 'false':
        return [False, 0, ''][env.choice('f' + name, 3)]
    return [name]


def same(env, got, want):
    if want is None or isinstance(want, (str, list, bool)):
        return got is want or (type(got) is type(want) and got == want)
    return got == want


class Model:
    """A dictionary."""

    def __init__(self):
        self.d = {}


@R.add(variants=[dict(attached=b) for b in (True, False)], wits=4)
def one(env, attached):
    """Any name, any value; the others unset."""
    km, T = new(env, attach=attached)
    nm = env.pick('nm', NAMES)
    v = value(env, 'v', env.pick('kind', ['real', 'text', 'none', 'false', 'list']))
    d = env.pick('d', [None, 0, 'zz'])
    before = env.call(km.get_attr, nm, d)
    env.prove(before.ok and same(env, before.val, d), 'not set before', soft=before)
    env.prove(env.call(km.get_attr, nm).val is None, 'None by default')
    out = env.call(km.set_attr, nm, v)
    env.expect_ok(out, 'set')
    for t in range(2):
        got = env.call(km.get_attr, nm, 'other')
        env.prove(got.ok and same(env, got.val, v), 'returned', soft=got)
    for other in NAMES:
        if other != nm:
            got = env.call(km.get_attr, other, d)
            env.prove(got.ok and same(env, got.val, d), 'others unset', soft=got)
    a = km.attributes()
    env.prove(len(a) == 1 and nm in a and same(env, a[nm], v), 'all attributes')
    if attached:
        env.expect_matrix(km.full, Oracle(env, T, [0, 1]).raw(), 'the matrix is unaffected')


@R.add(variants=[dict(k=k) for k in (3, 4)], wits=5)
def histories(env, k):
    """Any sequence of setting, attaching and computing: a dictionary emptied on attaching."""
    km, T = new(env)
    d = {}
    ids = [0, 1]
    for t in range(k):
        op = env.pick('op%d' % t, ['set a', 'set b', 'attach', 'attach 2', 'read'])
        if op.startswith('set'):
            v = env.real('v%d' % t, lo=-9, hi=9)
            km.set_attr(op[-1], v)
            d[op[-1]] = v
        elif op == 'attach':
            ids = [2, 3] if ids != [2, 3] else [0, 1]
            km.attach_to(id_sample(env, ids))
            d = {}
        elif op == 'attach 2':
            km.attach_to(id_sample(env, [0, 1]), sample_two=id_sample(env, [2]))
            ids = None
            d = {}
        else:
            km.full
            km.normed_km
        for nm in ('a', 'b', 'c'):
            got = env.call(km.get_attr, nm, 'unset')
            env.prove(got.ok and same(env, got.val, d.get(nm, 'unset')), 'step %d: %s' % (t, nm), soft=got)
        env.prove(sorted(km.attributes()) == sorted(d), 'step %d: names' % t)


@R.add(wits=4)
def any_name(env):
    """Names that the source itself uses are like all others: set, read, overwritten, emptied on attaching."""
    km, T = new(env)
    names = source_str_literals() + list(vars(km)) + [a for a in dir(type(km)) if not a.startswith('__')]
    names = sorted(set(names))
    v = env.real('v', lo=-9, hi=9)
    for t, nm in enumerate(names):
        km.set_attr(nm, v + t)
    for t, nm in enumerate(names):
        env.prove(same(env, km.get_attr(nm), v + t), 'attribute %s' % nm)
    env.prove(sorted(km.attributes()) == names, 'names')
    for t, nm in enumerate(names):
        km.set_attr(nm, v - t)
        env.prove(same(env, km.get_attr(nm, 1), v - t), 'attribute %s overwritten' % nm)
    env.expect_matrix(km.full, Oracle(env, T, [0, 1]).raw(), 'the matrix is unaffected')
    km.attach_to(id_sample(env, [2, 3]), env.pick('nm', ['x', 'name', None]))
    for nm in names:
        env.prove(km.get_attr(nm, 'unset') == 'unset', 'attribute %s emptied' % nm)
    env.expect_matrix(km.full, Oracle(env, T, [2, 3]).raw(), 'the matrix of the new sample')


@R.add(wits=4)
def rejected_attach(env):
    """An attachment that is refused leaves the attributes."""
    km, T = new(env)
    v = env.real('v', lo=-9, hi=9)
    km.set_attr('a', v)
    out = env.call(km.attach_to, env.pick('bad', [env.np.array([[[1.0]]]), 'abc', None]))
    if not out.ok:
        got = env.call(km.get_attr, 'a')
        env.prove(got.ok and same(env, got.val, v), 'kept', soft=got)


@R.add(wits=4)
def separate(env):
    """Matrices do not share attributes."""
    a, _ = new(env, name='a')
    b, _ = new(env, name='b')
    v, w = env.real('v', lo=-9, hi=9), env.real('w', lo=-9, hi=9)
    a.set_attr('x', v)
    env.prove(b.get_attr('x') is None and len(b.attributes()) == 0, 'not on another')
    b.set_attr('x', w)
    env.prove(same(env, a.get_attr('x'), v) and same(env, b.get_attr('x'), w), 'each its own')
    if env.pick('re', [0, 1]):
        a.attach_to(id_sample(env, [2, 3]))
        env.prove(a.get_attr('x') is None and same(env, b.get_attr('x'), w), 'each its own lifetime')


def kset(env, n, attach=True):
    base = env.mod('base')
    kms = [new(env, name='m%d' % t, attach=attach)[0] for t in range(n)]
    return base.KernelSet(kms), kms


@R.add(variants=[dict(n=n) for n in (1, 2, 3)], wits=5)
def sets(env, n):
    """One value for all, or one for each, in order; wrong numbers are refused and change nothing."""
    ks, kms = kset(env, n)
    cur = [None] * n
    for t in range(2):
        how = env.pick('how%d' % t, ['scalar', 'text', 'none', 'list', 'tuple', 'array', 'single', 'short', 'long'])
        vs = [env.real('v%d_%d' % (t, i), lo=-9, hi=9) for i in range(n)]
        if how in ('scalar', 'text', 'none'):
            x = {'scalar': vs[0], 'text': 'name%d' % t, 'none': None}[how]
            new_, arg = [x] * n, x
        elif how == 'single':
            new_, arg = [vs[0]] * n, [vs[0]]
        elif how in ('short', 'long'):
            arg = [1] * (n - 1 if how == 'short' else n + 1)
            if len(arg) == 1:
                continue
            new_ = None
        else:
            new_, arg = vs, {'list': list(vs), 'tuple': tuple(vs), 'array': env.np.array(vs)}[how]
        out = env.call(ks.set_attr, 'x', arg)
        if new_ is None:
            env.prove(out.raised(ValueError), 'refused', soft=out)
        else:
            env.expect_ok(out, 'set')
            cur = new_
        got = env.call(ks.get_attr, 'x')
        if env.expect_ok(got, 'read'):
            env.prove(len(got.val) == n, 'one per member')
            for i in range(n):
                env.prove(same(env, got.val[i], cur[i]), 'member %d' % i)
                env.prove(same(env, ks[i].get_attr('x'), cur[i]), 'on member %d itself' % i)
        d = env.call(ks.get_attr, 'y', 'dflt')
        env.prove(d.ok and list(d.val) == ['dflt'] * n, 'others unset', soft=d)


@R.add(wits=4)
def mixed(env):
    """Setting on members shows on the set; defaults fill the rest; attaching the set empties all."""
    n = 3
    ks, kms = kset(env, n)
    vs = [env.real('v%d' % i, lo=-9, hi=9) for i in range(n)]
    have = []
    for i in range(n):
        b = env.pick('b%d' % i, [False, True])
        have.append(b)
        if b:
            ks[i].set_attr('x', vs[i])
    got = ks.get_attr('x', 'unset')
    for i in range(n):
        env.prove(same(env, got[i], vs[i] if have[i] else 'unset'), 'member %d' % i)
    if env.pick('attach', [False, True]):
        ks.attach_to(id_sample(env, [2, 3]))
        env.prove(list(ks.get_attr('x', 'unset')) == ['unset'] * n, 'emptied')


@R.add(variants=lambda t: [dict(n=n) for n in sizes(t, quick_limit=34)], wits=1)
def many(env, n):
    """Any number of names and members."""
    base = env.mod('base')
    s = env.real('s', lo=0.5, hi=2)
    T = {(0, 0): s, (0, 1): s, (1, 1): s}
    ks = base.KernelSet([base.KernelMatrix(table_kernel(env, base, T)) for _ in range(n)])
    ks.attach_to(id_sample(env, [0, 1]))
    vs = [s * i for i in range(n)]
    ks.set_attr('x', vs)
    got = ks.get_attr('x')
    env.prove(len(got) == n, 'one per member')
    for i in range(n):
        env.prove(same(env, got[i], vs[i]), 'member %d' % i)
    km = ks[0]
    for i in range(n):
        km.set_attr('a%d' % i, s * i)
    for i in range(n):
        env.prove(same(env, km.get_attr('a%d' % i), s * i), 'name %d' % i)
    env.prove(len(km.attributes()) == n + 1, 'all of them')


@R.add(variants=[dict(where=w) for w in ('matrix', 'set', 'set of several')], wits=4)
def replaced(env, where):
    """The value last set is the one returned, the very object, even where it equals the former one."""
    n = 2 if where == 'set of several' else 1
    ks, kms = kset(env, n)
    vals = [1, True, 1.0, 0, False, 0.0, '', None, Odd(), 'a', (1, 2), (), 10 ** 30]
    for t in range(3):
        v = vals[env.choice('v%d' % t, len(vals)) if t < 2 else 0]
        nm = env.pick('nm', ['a', 'weight'])
        if where == 'matrix':
            out = env.call(ks[0].set_attr, nm, v)
        elif isinstance(v, tuple):
            out = env.call(ks.set_attr, nm, [v] * n)
        else:
            out = env.call(ks.set_attr, nm, v)
        env.expect_ok(out, 'set')
        for i in range(n):
            env.prove(ks[i].get_attr(nm, 'other') is v, 'the very value')
            env.prove(ks.get_attr(nm, 'other')[i] is v, 'the very value, from the set')


@R.add(variants=[dict(where=w) for w in ('matrix', 'set', 'each')], wits=3)
def any_value(env, where):
    """Values of any kind are returned, the very objects, in whatever order they are set, and are gone after attaching."""
    ks, kms = kset(env, 2)
    vals = odd_values(env)
    order = env.pick('order', ['forward', 'backward'])
    seq = list(enumerate(vals))
    if order == 'backward':
        seq = seq[::-1]
    same_name = env.pick('same_name', [False, True])
    for t, v in seq:
        nm = 'x' if same_name else 'x%d' % t
        if where == 'matrix':
            out = env.call(ks[0].set_attr, nm, v)
        elif where == 'each':
            out = env.call(ks.set_attr, nm, [v, v])
        elif hasattr(v, '__len__') or hasattr(v, '__iter__'):
            continue
        else:
            out = env.call(ks.set_attr, nm, v)
        env.expect_ok(out, 'set %d' % t)
        for i in range(1 if where == 'matrix' else 2):
            env.prove(ks[i].get_attr(nm, ks) is v, 'value %d' % t)
            env.prove(ks.get_attr(nm, ks)[i] is v, 'value %d, from the set' % t)
            env.prove(ks[i].attributes()[nm] is v, 'value %d, among all' % t)
    for t, v in seq:
        env.prove(ks[0].get_attr('y%d' % t, v) is v, 'default %d' % t)
    ks.attach_to(id_sample(env, [2, 3]))
    for i in range(2):
        env.prove(len(ks[i].attributes()) == 0, 'emptied')


@R.add(variants=[dict(n=n) for n in (1, 3)], wits=4)
def set_on_attaching(env, n):
    """A set attached with an attribute keeps exactly that attribute, of whatever name and value, on all members."""
    ks, kms = kset(env, n, attach=env.pick('before', [False, True]))
    vals = odd_values(env)
    ks[0].set_attr('old', 1)
    v = vals[env.choice('v', len(vals))]
    nm = env.pick('nm', ['a', '', 0, ('a', 1), 'old'])
    out = env.call(ks.attach_to, id_sample(env, [2, 3]), attr_name=nm, attr_value=v)
    if env.expect_ok(out, 'attached'):
        for i in range(n):
            a = ks[i].attributes()
            env.prove(len(a) == 1 and nm in a and a[nm] is v, 'the attribute given, only')
            env.prove(ks.get_attr(nm, ks)[i] is v, 'read from the set')
            env.prove(ks.get_attr('other', v)[i] is v, 'default')
    out = env.call(ks.attach_to, id_sample(env, [0, 1]))
    if env.expect_ok(out, 'attached again'):
        for i in range(n):
            env.prove(len(ks[i].attributes()) == 0, 'emptied')
