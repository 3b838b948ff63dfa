"""C04: every pair is evaluated at most once, and only when needed."""
from symk.scen import Registry
from .lib import *
from .c02 import two_table

R = Registry()
lookup = R.lookup

ALL = [n for n, _ in OPS]


def canon(p, two):
    return p if two else (min(p), max(p))


def at_most_once(env, log, two, tag, allow_self=()):
    seen = set()
    for p in log:
        c = canon(p, two)
        if c in seen and not (c[0] == c[1] and c[0] in allow_self):
            env.prove(False, tag + ': a pair is never evaluated twice')
            return
        seen.add(c)
    env.prove(True, tag + ': a pair is never evaluated twice')


def _setup(env, two, n, norm):
    base = env.mod('base')
    i1 = list(range(n))
    i2 = list(range(10, 12)) if two else None
    T = two_table(env, i1, i2) if two else sym_table(env, i1)
    log = []
    km = base.KernelMatrix(table_kernel(env, base, T, log), normalized=norm)
    X1 = id_sample(env, i1)
    if two:
        km.attach_to(X1, sample_two=id_sample(env, i2))
    else:
        km.attach_to(X1)
    return km, Oracle(env, T, i1, i2), log


def _variants(tier):
    out = []
    for two in (False, True):
        for norm in (False, True):
            for f in ALL:
                out.append(dict(two=two, norm=norm, n=3, length=3, first=f))
            out.append(dict(two=two, norm=norm, n=1, length=2, first='elem'))
    if tier == 'thorough':
        out += [dict(o, length=4) for o in out if o['n'] == 3]
    return out


@R.add(variants=_variants, wits=2)
def histories(env, two, norm, n, length, first):
    """Over every history of reads the kernel is called at most once per distinct pair."""
    km, O, log = _setup(env, two, n, norm)
    env.prove(len(log) == 0, 'attaching evaluates nothing')
    OP[first](env, km, O, norm, first)
    for t in range(length - 1):
        nm = env.pick('op%d' % t, ALL)
        OP[nm](env, km, O, norm, nm)
    cross = [p for p in log if p[0] != p[1]] if two else log
    at_most_once(env, cross, two, 'history')
    if two:
        # self similarities are needed for normalization only: once for each point
        selfs = [p for p in log if p[0] == p[1]]
        at_most_once(env, selfs, two, 'self similarities')
        env.prove(len(selfs) <= O.shape[0] + O.shape[1], 'one self similarity per point')
    env.prove(len(cross) <= (O.shape[0] * O.shape[1] if two else n * (n + 1) // 2), 'number of evaluations is bounded')


@R.add(variants=[dict(two=t) for t in (False, True)], wits=3)
def only_what_is_read(env, two):
    """Reading a part evaluates only the pairs in that part."""
    km, O, log = _setup(env, two, 3, env.pick('norm', [False, True]))
    n1, n2 = O.shape
    i, j = env.int('i', 0, n1 - 1), env.int('j', 0, n2 - 1)
    form = env.pick('form', ['elem', 'row', 'col', 'list', 'flat', 'slice', 'diag'])
    if form == 'elem':
        out, rows, cols = env.call(lambda: km[i, j]), [int(i)], [int(j)]
    elif form == 'row':
        out, rows, cols = env.call(lambda: km[int(i), :]), [int(i)], range(n2)
    elif form == 'col':
        out, rows, cols = env.call(lambda: km[:, int(j)]), range(n1), [int(j)]
    elif form == 'list':
        out, rows, cols = env.call(lambda: km[[int(i), 0], [int(j)]]), {int(i), 0}, [int(j)]
    elif form == 'flat':
        out, rows, cols = env.call(lambda: km[int(i) * n2 + int(j)]), [int(i)], [int(j)]
    elif form == 'slice':
        out, rows, cols = env.call(lambda: km[int(i):, :int(j) + 1]), range(int(i), n1), range(int(j) + 1)
    else:
        out = env.call(km.diagonal)
        allowed = set() if two else {(a, a) for a in O.a}
        env.prove(all(canon(p, two) in allowed for p in log), 'diagonal() evaluates only the diagonal')
        return
    env.expect_ok(out, 'read succeeds')
    allowed = {canon((O.a[r], O.b[c]), two) for r in rows for c in cols}
    env.prove(all(canon(p, two) in allowed for p in log), 'only the requested pairs are evaluated')
    at_most_once(env, log, two, form)


@R.add(variants=[dict(two=t) for t in (False, True)], wits=2)
def rereads_are_free(env, two):
    """Once everything was computed, no read evaluates the kernel again."""
    norm = env.pick('norm', [False, True])
    km, O, log = _setup(env, two, 3, norm)
    OP['full'](env, km, O, norm, 'full')
    OP['normed'](env, km, O, norm, 'normed')
    before = len(log)
    for t in range(2):
        nm = env.pick('op%d' % t, ALL)
        OP[nm](env, km, O, norm, nm)
    env.prove(len(log) == before, 'no further evaluation')


@R.add(wits=2)
def reports_do_not_evaluate(env):
    """Asking for shape, size, text or attributes, and refused reads, evaluate nothing."""
    km, O, log = _setup(env, env.pick('two', [False, True]), 3, env.pick('norm', [False, True]))
    km.shape, km.size, len(km), km.num_samples, str(km), repr(km), '{}'.format(km)
    km.set_attr('a', 1)
    km.get_attr('a')
    km.attributes()
    env.call(lambda: km[7, 0])
    env.call(lambda: km['ab'])
    env.prove(len(log) == 0, 'nothing is evaluated')


@R.add(variants=[dict(two=t) for t in (False, True)], wits=2)
def duplicate_rows(env, two):
    """Repeated rows: the number of calls is bounded by the number of index pairs."""
    base = env.mod('base')
    ids = [0, 1, 0]
    T = sym_table(env, ids)
    log = []
    km = base.KernelMatrix(table_kernel(env, base, T, log), normalized=False)
    X = id_sample(env, ids)
    km.attach_to(X, sample_two=id_sample(env, ids) if two else None)
    for t in range(3):
        nm = env.pick('op%d' % t, ['full', 'elem', '[:,:]', 'sparse', 'lists'])
        OP[nm](env, km, Oracle(env, T, ids, ids if two else None), False, nm)
    env.prove(len(log) <= (9 if two else 6), 'calls are bounded by the number of index pairs')


def _sz(tier):
    return [dict(n=n, two=t) for n in sizes(tier, quick_limit=60) for t in (False, True)]


@R.add(variants=_sz, wits=1)
def size_sweep(env, n, two):
    """Evaluation counts for sizes around every integer constant of the source."""
    base = env.mod('base')
    ids = list(range(n))
    T = scaled_table(env, ids)
    log = []
    km = base.KernelMatrix(table_kernel(env, base, T, log), normalized=False)
    X = id_sample(env, ids)
    km.attach_to(X, sample_two=id_sample(env, ids) if two else None)
    env.prove(not log, 'attaching evaluates nothing')
    env.call(lambda: km[n - 1, 0])
    env.prove(len(log) == 1, 'one element, one evaluation')
    env.call(lambda: km[:, 0])
    env.prove(len(log) == n, 'one column, n evaluations')
    m = n * n if two else n * (n + 1) // 2
    if n > 1:
        env.call(lambda: km[:n - 1, :])
        env.prove(len(log) == (m - n + 1 if two else m - 1), 'all rows but one')
    env.call(lambda: km.full)
    env.prove(len(log) == m, 'the full matrix evaluates each pair once')
    env.call(lambda: km.full_sparse)
    env.call(lambda: km[:, :])
    env.call(lambda: km[0, :])
    env.prove(len(log) == m, 'no further evaluation')


@R.add(wits=2)
def reattach_counts_anew(env):
    """After re-attaching, again at most once per pair."""
    km, O, log = _setup(env, False, 3, False)
    OP['full'](env, km, O, False, 'full')
    km.attach_to(id_sample(env, [0, 1]))
    del log[:]
    O2 = Oracle(env, O.T, [0, 1])
    for t in range(2):
        nm = env.pick('op%d' % t, ALL)
        OP[nm](env, km, O2, False, nm)
    at_most_once(env, log, False, 'second sample')
    env.prove(len(log) <= 3, 'bounded')


@R.add(variants=[dict(two=t) for t in (False, True)], wits=4)
def index_types(env, two):
    """Whatever integer types the positions are of, a pair is evaluated once."""
    km, O, log = _setup(env, two, 3, False)
    types = ['int', 'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64']
    i, j = env.pick('ij', [(0, 1), (2, 0), (1, 1)])
    form = env.pick('form', ['scalar', 'list'])
    ta, tb = types[env.choice('a', len(types))], types[env.choice('b', len(types))]
    for t in range(3):
        a, b = (ta, tb) if t != 1 else ('int', 'int64')
        ix = (env.npint(i, a), env.npint(j, b))
        if form == 'list':
            ix = ([ix[0]], [ix[1]])
        out = env.call(lambda: km[ix])
        if env.expect_ok(out, 'read'):
            env.expect_matrix(out.val, O.sub([i], [j]), 'value')
        env.prove(len(log) == 1, 'evaluated once')
    OP['full'](env, km, O, False, 'then')
    at_most_once(env, log, two, 'a pair is never evaluated twice')


@R.add(variants=lambda t: [dict(n=n, m=m) for n, m in (((4, None), (5, None), (5, 4), (4, 6)) if t == 'quick' else
                                                       ((4, None), (5, None), (6, None), (8, None), (5, 4), (4, 6), (7, 7)))], wits=2)
def parts_of_any_extent(env, n, m):
    """A selection of any number of rows and columns evaluates its own pairs only, each once."""
    base = env.mod('base')
    two = m is not None
    i1, i2 = list(range(n)), list(range(20, 20 + m)) if two else None
    T = {}
    s = env.real('s', lo=0.5, hi=4)
    for a in i1 + (i2 or []):
        for b in i1 + (i2 or []):
            T[a, b] = s * (1 + min(a, b) * 7 + max(a, b) * 3)
    log = []
    norm = env.pick('norm', [False, True])
    km = base.KernelMatrix(table_kernel(env, base, T, log), normalized=norm)
    km.attach_to(id_sample(env, i1), sample_two=id_sample(env, i2) if two else None)
    O = Oracle(env, T, i1, i2)
    n1, n2 = O.shape
    r, c = 1 + env.choice('r', n1), 1 + env.choice('c', n2)
    if r == n1 and c == n2:
        return
    form = env.pick('form', ['front', 'back', 'mixed'])
    rows = list(range(r)) if form == 'front' else list(range(n1 - r, n1))
    cols = list(range(c)) if form != 'back' else list(range(n2 - c, n2))
    ix = (slice(rows[0], rows[-1] + 1), slice(cols[0], cols[-1] + 1)) if form == 'front' else (rows, cols)
    out = env.call(lambda: km[ix])
    if env.expect_ok(out, 'read'):
        env.expect_matrix(out.val, O.sub(rows, cols), 'part')
    allowed = {canon((O.a[x], O.b[y]), two) for x in rows for y in cols}
    env.prove(all(canon(p, two) in allowed for p in log), 'only the requested pairs are evaluated')
    at_most_once(env, log, two, 'part')
