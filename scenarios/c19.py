"""C19: a kernel function that fails part-way."""
from symk.scen import Registry
from .lib import *
from .c02 import two_table

R = Registry()
lookup = R.lookup

READS = {
    'full': lambda km: km.full, '[:,:]': lambda km: km[:, :], 'sparse': lambda km: km.full_sparse,
    'normed': lambda km: km.normed_km, 'normalize': lambda km: km.normalize(), 'centered': lambda km: km.centered,
    'center': lambda km: km.center(), 'frob': lambda km: km.frob_norm, 'diag': lambda km: km.diagonal(),
    'elem': lambda km: km[km.shape[0] - 1, 0], 'lists': lambda km: km[[0, km.shape[0] - 1], [0, 1]],
    'rows': lambda km: km[1:, :], 'flat': lambda km: km[km.shape[1] + 0],
}
AFTER = ['full', '[:,:]', 'elem', 'sparse', 'normed', 'centered', 'diag', 'lists', 'frob', 'all']


class Fault:
    """Raises at the k-th evaluation counted from when it was armed, once."""

    def __init__(self, exc):
        self.exc, self.left, self.struck = exc, None, 0

    def arm(self, k):
        self.left, self.struck = k, 0

    def __call__(self, i, j):
        if self.left is None:
            return
        if self.left == 0:
            self.left = None
            self.struck += 1
            raise self.exc('injected')
        self.left -= 1

    def disarm(self):
        self.left = None


class Injected(Exception):
    pass


EXCS = {'own': Injected, 'value': ValueError, 'key': KeyError, 'index': IndexError, 'attr': AttributeError,
        'zero': ZeroDivisionError, 'type': TypeError, 'memory': MemoryError, 'runtime': RuntimeError,
        'overflow': OverflowError, 'float': FloatingPointError, 'assert': AssertionError, 'notimpl': NotImplementedError,
        'os': OSError, 'eof': EOFError, 'warning': UserWarning}


def make(env, n, two, norm, exc='own'):
    base = env.mod('base')
    f = Fault(EXCS[exc])
    i1 = list(range(n))
    i2 = list(range(10, 10 + two)) if two else None
    T = two_table(env, i1, i2) if two else sym_table(env, i1)
    km = base.KernelMatrix(table_kernel(env, base, T, fail=f), normalized=norm)
    if two:
        km.attach_to(id_sample(env, i1), sample_two=id_sample(env, i2))
    else:
        km.attach_to(id_sample(env, i1))
    return km, Oracle(env, T, i1, i2), f


def faulty(env, km, O, norm, f, k, nm, tag):
    """Read with a fault armed: the fault, if it strikes, reaches the caller; else all is well."""
    f.arm(k)
    out = env.call(READS[nm], km)
    struck = f.struck
    f.disarm()
    if struck:
        env.prove(not out.ok, tag + ': the failure reaches the caller', soft=out)
        return True
    if nm in ('centered', 'center', 'diag') and O.two:
        env.prove(not out.ok, tag + ': refused for two samples')
    else:
        env.expect_ok(out, tag)
    return False


def name_set(t, quick, thorough):
    return quick if t == 'quick' else thorough


@R.add(variants=[dict(nm=nm, norm=b) for nm in READS for b in (False, True)], wits=3)
def one_fault(env, nm, norm):
    """A fault at any evaluation during any read, then two reads of any kind."""
    n = 3
    km, O, f = make(env, n, 0, norm)
    k = env.pick('k', list(range(n * (n + 1) // 2)))
    if not faulty(env, km, O, norm, f, k, nm, nm):
        return
    a = env.pick('a', AFTER)
    OP[a](env, km, O, norm, 'then ' + a)
    OP['full'](env, km, O, norm, 'then full')
    OP['elem'](env, km, O, norm, 'then elem')


@R.add(variants=[dict(nm=nm, norm=b) for nm in READS if nm not in ('centered', 'center', 'diag') for b in (False, True)], wits=3)
def one_fault_two_samples(env, nm, norm):
    """The same between two samples."""
    shape = env.pick('shape', [(2, 3), (3, 2)])
    km, O, f = make(env, shape[0], shape[1], norm)
    k = env.pick('k', list(range(6 if nm not in ('normed', 'normalize') and not norm else 11)))
    if not faulty(env, km, O, norm, f, k, nm, nm):
        return
    a = env.pick('a', ['full', '[:,:]', 'elem', 'sparse', 'normed', 'lists', 'frob', 'all'])
    OP[a](env, km, O, norm, 'then ' + a)
    OP['full'](env, km, O, norm, 'then full')
    OP['elem'](env, km, O, norm, 'then elem')


@R.add(variants=[dict(pre=p, norm=b) for p in ('sparse', 'elem', 'full', 'diag', 'lists', 'normed') for b in (False, True)], wits=3)
def fault_after_reads(env, pre, norm):
    """A fault in a later read leaves what was read before right."""
    km, O, f = make(env, 3, 0, norm)
    OP[pre](env, km, O, norm, pre)
    nm = env.pick('nm', ['full', '[:,:]', 'normed', 'centered', 'frob', 'sparse', 'rows', 'diag'])
    k = env.pick('k', [0, 1, 2, 4])
    faulty(env, km, O, norm, f, k, nm, nm)
    OP[pre](env, km, O, norm, 'again ' + pre)
    OP['full'](env, km, O, norm, 'then full')
    OP['[:,:]'](env, km, O, norm, 'then [:,:]')


@R.add(variants=[dict(norm=b, two=t) for b in (False, True) for t in (0, 2)], wits=5)
def two_faults(env, norm, two):
    """Faults in two reads in turn, then reads that succeed."""
    km, O, f = make(env, 2, two, norm)
    for t in range(2):
        nm = env.pick('nm%d' % t, ['full', 'sparse', '[:,:]', 'normed', 'rows'] + ([] if two else ['centered']))
        k = env.pick('k%d' % t, [0, 1, 2, 3] if two else [0, 1, 2])
        faulty(env, km, O, norm, f, k, nm, nm)
    OP['sparse' if env.pick('a', [0, 1]) else 'frob'](env, km, O, norm, 'then')
    OP['full'](env, km, O, norm, 'then full')
    OP['normed'](env, km, O, norm, 'then normed')


@R.add(variants=[dict(exc=e) for e in EXCS], wits=3)
def kinds(env, exc):
    """Whatever the kind of error."""
    two = env.pick('two', [0, 2])
    norm = env.pick('norm', [False, True])
    km, O, f = make(env, 2, two, norm, exc)
    nm = env.pick('nm', [n for n in READS if not (two and n in ('centered', 'center', 'diag'))])
    k = env.pick('k', [0, 1, 2, 3, 5])
    faulty(env, km, O, norm, f, k, nm, nm)
    OP['full'](env, km, O, norm, 'then full')


@R.add(wits=4)
def persistent(env):
    """A kernel that fails for one pair always: reads not needing the pair go on, the others fail each time."""
    base = env.mod('base')
    ids = [0, 1, 2]
    T = sym_table(env, ids)
    bad = env.pick('bad', [(i, j) for i in ids for j in ids if i <= j])

    def fail(i, j):
        if (min(i, j), max(i, j)) == bad:
            raise Injected('injected')
    km = base.KernelMatrix(table_kernel(env, base, T, fail=fail), normalized=False)
    km.attach_to(id_sample(env, ids))
    O = Oracle(env, T, ids)
    for t in range(2):
        nm = env.pick('nm%d' % t, ['full', 'sparse', '[:,:]', 'frob', 'centered'])
        out = env.call(READS[nm], km)
        env.prove(not out.ok, 'fails: ' + nm, soft=out)
    for i in ids:
        for j in ids:
            out = env.call(lambda: km[i, j])
            if (min(i, j), max(i, j)) == bad:
                env.prove(not out.ok, 'this pair fails', soft=out)
            elif env.expect_ok(out, 'pair (%d,%d)' % (i, j)):
                env.expect_matrix(out.val, [[O.k(i, j)]], 'pair (%d,%d)' % (i, j))


@R.add(wits=4)
def reattach_after_fault(env):
    """After a fault the matrix may be attached to another sample, and is of that one alone."""
    base = env.mod('base')
    T = sym_table(env, range(5))
    f = Fault(Injected)
    norm = env.pick('norm', [False, True])
    km = base.KernelMatrix(table_kernel(env, base, T, fail=f), normalized=norm)
    km.attach_to(id_sample(env, [0, 1, 2]))
    nm = env.pick('nm', ['full', 'sparse', 'normed', 'elem', 'diag'])
    k = env.pick('k', [0, 1, 3])
    faulty(env, km, Oracle(env, T, [0, 1, 2]), norm, f, k, nm, nm)
    ids = env.pick('ids', [[3, 4], [4, 3, 0], [0, 1, 2]])
    km.attach_to(id_sample(env, ids))
    O = Oracle(env, T, ids)
    a = env.pick('a', ['full', 'sparse', 'diag', '[:,:]', 'normed'])
    OP[a](env, km, O, norm, 'then ' + a)
    OP['full'](env, km, O, norm, 'then full')


@R.add(wits=4)
def derived(env):
    """Composites, sets and machines: the failure reaches the caller, and all is right afterwards."""
    base = env.mod('base')
    TA, TB = sym_table(env, range(3), name='A'), sym_table(env, range(3), name='B')
    f = Fault(Injected)
    a = base.KernelMatrix(table_kernel(env, base, TA, name='a'), normalized=False)
    b = base.KernelMatrix(table_kernel(env, base, TB, fail=f, name='b'), normalized=False)
    ids = [0, 1]
    what = env.pick('what', ['sum', 'product', 'average', 'machine'])
    k = env.pick('k', [0, 1, 2])
    if what == 'machine':
        alg = env.mod('algorithms')
        m = alg.KernelMachineRegressor(table_kernel(env, base, TB, fail=f, name='b'))
        f.arm(k)
        out = env.call(m.fit, id_sample(env, ids), env.np.array([1.0, 2.0]))
        env.prove(not out.ok, 'fit fails', soft=out)
        f.disarm()
        env.svm_log.clear()
        out = env.call(m.fit, id_sample(env, ids), env.np.array([1.0, 2.0]))
        if env.expect_ok(out, 'fit again'):
            env.expect_matrix(env.svm_log[0]['X'], Oracle(env, TB, ids).raw(), 'training matrix')
            f.arm(k)
            out = env.call(m.predict, id_sample(env, [2, 0]))
            if f.struck:
                env.prove(not out.ok, 'predict fails', soft=out)
            f.disarm()
            env.svm_log.clear()
            out = env.call(m.predict, id_sample(env, [2, 0]))
            if env.expect_ok(out, 'predict again'):
                env.expect_matrix(env.svm_log[-1]['X'], Oracle(env, TB, [2, 0], ids).raw(), 'cross matrix')
        return
    ks = base.KernelSet([a, b])
    ks.attach_to(id_sample(env, ids))
    cls = {'sum': 'SumKernel', 'product': 'ProductKernel', 'average': 'AverageKernel'}[what]
    c = getattr(base, cls)(ks)
    f.arm(k)
    out = env.call(c.fit)
    if f.struck:
        env.prove(not out.ok, 'fails', soft=out)
    f.disarm()
    out = env.call(c.fit)
    A, B = Oracle(env, TA, ids).raw(), Oracle(env, TB, ids).raw()
    fn = {'sum': lambda x, y: x + y, 'product': lambda x, y: x * y, 'average': lambda x, y: (x + y) / 2}[what]
    if env.expect_ok(out, 'works again'):
        env.expect_matrix(c.composite_KM, [[fn(A[i][j], B[i][j]) for j in range(2)] for i in range(2)], what)


@R.add(variants=lambda t: [dict(n=n) for n in sizes(t, quick_limit=24, thorough_limit=60, new_limit=130)], wits=1)
def size_sweep(env, n):
    """Matrices of any size: a fault at the first, a middle and the last evaluation."""
    base = env.mod('base')
    ids = list(range(n))
    T = scaled_table(env, ids)
    f = Fault(Injected)
    km = base.KernelMatrix(table_kernel(env, base, T, fail=f), normalized=False)
    km.attach_to(id_sample(env, ids))
    O = Oracle(env, T, ids)
    m = n * (n + 1) // 2
    k = env.pick('k', sorted({0, 1 % m, n % m, m // 2, m - 1}))
    nm = env.pick('nm', ['full', 'sparse'])
    faulty(env, km, O, False, f, k, nm, nm)
    OP['full'](env, km, O, False, 'then full')
