"""C10: sets of kernel matrices."""
from symk.scen import Registry
from .lib import *
from .c02 import two_table

R = Registry()
lookup = R.lookup


def mk(env, n, kind='km', tag='a', sample=None):
    """One kernel matrix over n points (None: not attached)."""
    base = env.mod('base')
    if kind == 'pre':
        return base.KernelMatrixPrecomputed(env.np.array(env.symm(tag, n)))
    if kind == 'const':
        return base.ConstantKernelMatrix(n, 2.0)
    ids = list(range(6))
    T = sym_table(env, ids, name=tag)
    km = base.KernelMatrix(table_kernel(env, base, T, name=tag), normalized=False)
    if n is not None:
        km.attach_to(id_sample(env, ids[:n]))
    km.oracle_T = T
    return km


def same(env, ks, want, label):
    """ks holds exactly these objects, in this order, however it is read."""
    env.prove(ks.size == len(want), label + ': size')
    env.prove(len(ks) == len(want), label + ': len')
    got = list(ks)
    env.prove(len(got) == len(want), label + ': number of elements when iterating')
    for i, w in enumerate(want):
        env.prove(got[i] is w, '%s: element %d when iterating' % (label, i))
        env.prove(ks[i] is w, '%s: element %d when indexing' % (label, i))


@R.add(variants=lambda t: [dict(k=k) for k in ((0, 1, 2, 3) if t == 'quick' else (0, 1, 2, 3, 5))], wits=4)
def membership(env, k):
    """Order, size, iteration and indexing; every index."""
    base = env.mod('base')
    how = env.pick('how', ['list', 'tuple', 'append', 'generator'])
    kinds = ['km', 'pre', 'km', 'pre', 'km']
    kms = [mk(env, 2, kinds[t], 'm%d' % t) for t in range(k)]
    if how == 'append':
        ks = base.KernelSet()
        for m in kms:
            ks.append(m)
    else:
        ks = base.KernelSet({'list': list, 'tuple': tuple, 'generator': iter}[how](kms))
    same(env, ks, kms, 'set')
    env.prove(ks.num_samples == (2 if k else None), 'number of samples')
    i = env.int('i', -4, 7)
    ty = env.pick('ty', ['int', 'int64', 'int32', 'uint8'])
    if env.is_true(env.all_([i >= 0, i < k])):
        out = env.call(lambda: ks[env.npint(i, ty)])
        if env.expect_ok(out, 'valid index'):
            env.prove(out.val is kms[int(i)], 'the member at that index')
    else:
        env.assume(env.any_([i >= 0, ty != 'uint8']))
        out = env.call(lambda: ks[env.npint(i, ty)])
        env.prove(out.raised(IndexError), 'index out of range refused', soft=out)
    same(env, ks, kms, 'set afterwards')


@R.add(wits=4)
def bad_index(env):
    """Indices that are not integers are refused."""
    base = env.mod('base')
    kms = [mk(env, 2, 'km', 'm%d' % t) for t in range(2)]
    ks = base.KernelSet(kms)
    x = env.pick('x', [0.0, 1.5, '0', None, slice(0, 1)])
    out = env.call(lambda: ks[x])
    env.prove(out.raised(ValueError), 'refused', soft=out)
    same(env, ks, kms, 'set')


@R.add(wits=4)
def duplicates(env):
    """The same matrix may be added more than once, and a set may be extended by itself."""
    base = env.mod('base')
    a, b = mk(env, 2, 'km', 'a'), mk(env, 2, 'pre', 'b')
    ks = base.KernelSet([a, b, a])
    same(env, ks, [a, b, a], 'with a duplicate')
    ks.append(b)
    same(env, ks, [a, b, a, b], 'appended twice')
    ks.extend(ks)
    same(env, ks, [a, b, a, b] * 2, 'extended by itself')


@R.add(variants=[dict(first=f) for f in ('km', 'pre', 'num', 'two', 'unattached')], wits=6)
def compatibility(env, first):
    """Only matrices over the same number of samples get in; a refused one leaves no trace."""
    base, cfg = env.mod('base'), env.mod('config')
    kms = []
    if first == 'num':
        ks, size = base.KernelSet(num_samples=2), 2
    elif first == 'two':
        ids = list(range(6))
        T = sym_table(env, ids)
        m = base.KernelMatrix(table_kernel(env, base, T), normalized=False)
        m.attach_to(id_sample(env, [0, 1]), sample_two=id_sample(env, [2, 3, 4]))
        kms, size = [m], (2, 3)
        ks = base.KernelSet(kms)
    elif first == 'unattached':
        kms, size = [mk(env, None, 'km', 'u')], None
        ks = base.KernelSet(kms)
    else:
        kms, size = [mk(env, 2, first, 'f')], 2
        ks = base.KernelSet(kms)
    for t in range(2):
        n = env.pick('n%d' % t, [1, 2, 3, None, (2, 3), (3, 2)])
        if isinstance(n, tuple):
            ids = list(range(6))
            T = sym_table(env, ids, name='t%d' % t)
            x = base.KernelMatrix(table_kernel(env, base, T), normalized=False)
            x.attach_to(id_sample(env, ids[:n[0]]), sample_two=id_sample(env, ids[:n[1]]))
        elif n is None:
            x = mk(env, None, 'km', 'x%d' % t)
        else:
            x = mk(env, n, 'pre' if t else 'km', 'x%d' % t)
        out = env.call(ks.append, x)
        if n == size:
            env.expect_ok(out, 'compatible matrix accepted')
            kms.append(x)
        else:
            env.prove(out.raised(cfg.KMSetAdditionError), 'incompatible matrix refused', soft=out)
        same(env, ks, kms, 'step %d' % (t + 1))
        env.prove(ks.num_samples == size, 'number of samples unchanged')


@R.add(wits=6)
def arrays(env):
    """Plain arrays and nested lists become precomputed matrices; invalid ones are refused and leave no trace."""
    base = env.mod('base')
    M = env.symm('M', 2, lo=-50, hi=50)
    ks = base.KernelSet()
    pre = env.pick('pre', [False, True])
    kms = []
    if pre:
        kms = [mk(env, 2, 'km', 'm')]
        ks.append(kms[0])
    form = env.pick('form', ['array', 'list', 'asym', 'wide', '1d'])
    if form == 'array':
        x = env.np.array(M)
    elif form == 'list':
        x = M
    elif form == 'asym':
        d = env.real('d', lo=1, hi=9)
        x = env.np.array([[M[0][0], M[0][1] + d], [M[0][1], M[1][1]]])
    elif form == 'wide':
        x = env.np.array([M[0]])
    else:
        x = env.np.array(M[0])
    out = env.call(ks.append, x)
    if form in ('array', 'list'):
        if env.expect_ok(out, 'accepted'):
            env.prove(ks.size == len(kms) + 1, 'size')
            env.expect_matrix(ks[len(kms)].full, M, 'the matrix itself')
            env.prove(ks.num_samples == 2, 'number of samples')
    else:
        env.prove(out.raised(ValueError), 'refused', soft=out)
        same(env, ks, kms, 'afterwards')
        y = mk(env, 2 if pre else 3, 'pre', 'y')
        out = env.call(ks.append, y)
        if env.expect_ok(out, 'a refused matrix does not fix the size'):
            same(env, ks, kms + [y], 'next one')


@R.add(wits=2)
def constructor(env):
    """One matrix, none, or nonsense."""
    base = env.mod('base')
    case = env.pick('case', ['one', 'pre', 'none', 'str', 'int', 'mismatch'])
    if case in ('one', 'pre'):
        m = mk(env, 2, 'km' if case == 'one' else 'pre', 'm')
        same(env, base.KernelSet(m), [m], 'single')
    elif case == 'none':
        same(env, base.KernelSet(), [], 'empty')
    elif case == 'mismatch':
        out = env.call(base.KernelSet, [mk(env, 2, 'km', 'm'), mk(env, 3, 'pre', 'p')])
        env.prove(out.raised(env.mod('config').KMSetAdditionError), 'mismatch refused', soft=out)
    else:
        out = env.call(base.KernelSet, 'abc' if case == 'str' else 5)
        env.prove(out.raised(TypeError), 'refused', soft=out)


def _forms(env, ix, form):
    return {'list': list, 'tuple': tuple, 'array': lambda v: env.np.array(v, dtype='int64')}[form](ix)


@R.add(variants=[dict(k=k, m=m) for k in (1, 3) for m in (1, 2, 3)], wits=5)
def take(env, k, m):
    """take / get_kernel_funcs: the members asked for, in the order asked, with repeats; the set is unchanged."""
    base = env.mod('base')
    kms = [mk(env, 2, 'km', 'm%d' % t) for t in range(k)]
    ks = base.KernelSet(kms)
    ix = [env.int('i%d' % t, -1, k) for t in range(m)]
    form = env.pick('form', ['list', 'tuple', 'array'])
    ok = env.is_true(env.all_([c for i in ix for c in (i >= 0, i < k)]))
    out = env.call(ks.take, _forms(env, ix, form))
    o2 = env.call(ks.get_kernel_funcs, _forms(env, ix, form))
    if ok:
        want = [kms[int(i)] for i in ix]
        if env.expect_ok(out, 'take succeeds'):
            same(env, out.val, want, 'taken')
            env.prove(isinstance(out.val, base.KernelSet), 'a set')
            env.prove(out.val is not ks, 'a new set')
            out.val.append(kms[0])
        if env.expect_ok(o2, 'get_kernel_funcs succeeds'):
            for rnd in range(2):
                fs = list(o2.val)
                env.prove(len(fs) == len(want), 'number of functions')
                for f, w in zip(fs, want):
                    env.prove(f is w.kernel, 'kernel functions in that order')
    else:
        env.prove(out.raised(IndexError), 'take out of range refused', soft=out)
        env.prove(o2.raised(IndexError), 'get_kernel_funcs out of range refused', soft=o2)
    same(env, ks, kms, 'the set itself')


@R.add(wits=3)
def take_scalar(env):
    """A single index."""
    base = env.mod('base')
    kms = [mk(env, 2, 'km', 'm%d' % t) for t in range(3)]
    ks = base.KernelSet(kms)
    i = env.int('i', 0, 2)
    out = env.call(ks.take, i)
    if env.expect_ok(out, 'take'):
        same(env, out.val, [kms[int(i)]], 'taken')
    out = env.call(ks.get_kernel_funcs, i)
    if env.expect_ok(out, 'get_kernel_funcs'):
        env.prove(list(out.val)[0] is kms[int(i)].kernel and len(list(out.val)) == 1, 'its function')
    nm = env.pick('nm', ['x', 'other'])
    env.prove(ks.take([0], name=nm).name == nm, 'the name given')


@R.add(wits=4)
def extend(env):
    """extend appends all members of the other set, in order; incompatible ones are refused with no trace."""
    base, cfg = env.mod('base'), env.mod('config')
    na, nb = env.pick('na', [1, 2]), env.pick('nb', [1, 2])
    ka, kb = env.pick('ka', [0, 1, 2]), env.pick('kb', [0, 1, 2])
    A = [mk(env, na, 'km', 'a%d' % t) for t in range(ka)]
    B = [mk(env, nb, 'pre', 'b%d' % t) for t in range(kb)]
    a = base.KernelSet(A, num_samples=na)
    b = base.KernelSet(B, num_samples=nb)
    out = env.call(a.extend, b)
    if na == nb:
        env.expect_ok(out, 'extend succeeds')
        same(env, a, A + B, 'extended')
    else:
        env.prove(out.raised(cfg.KMSetAdditionError), 'incompatible set refused', soft=out)
        same(env, a, A, 'not extended')
    same(env, b, B, 'the other set')
    x = env.pick('x', ['list', 'km', 'none'])
    out = env.call(a.extend, {'list': A[:1], 'km': (A + [mk(env, na, 'km', 'z')])[0], 'none': None}[x])
    env.prove(out.raised(cfg.KMSetAdditionError), 'only sets', soft=out)
    A = A + B if na == nb else A
    same(env, a, A, 'finally')
    more = mk(env, na, 'km', 'more')
    env.expect_ok(env.call(a.append, more), 'append')
    same(env, a, A + [more], 'appended to')
    same(env, b, B, 'the other set stays')
    more2 = mk(env, nb, 'km', 'more2')
    env.expect_ok(env.call(b.append, more2), 'append to the other')
    same(env, a, A + [more], 'stays')
    same(env, b, B + [more2], 'the other set appended to')


@R.add(variants=[dict(bucket=b) for b in (False, True)], wits=4)
def attach(env, bucket):
    """attach_to attaches every member to the sample; a wrong size is refused, and changes no member."""
    base = env.mod('base')
    kms = [mk(env, None, 'km', 'm%d' % t) for t in range(2)]
    if bucket:
        ks = env.mod('sampling').KernelBucket(poly_degree_values=None, rbf_sigma_values=None,
                                              laplace_gamma_values=None, sigmoid_gamma_values=None,
                                              sigmoid_offset_values=None, normalize_kernels=False)
        for m in kms:
            ks.append(m)
        lin = [ks[0]]
    else:
        ks = base.KernelSet(kms)
        lin = []

    def check(ids, tag):
        for m in lin:
            S = id_sample(env, ids)
            env.expect_matrix(m.full, [[S[i].dot(S[j]) for j in range(len(ids))] for i in range(len(ids))],
                              tag + ': linear')
        for t, m in enumerate(kms):
            env.expect_matrix(m.full, Oracle(env, m.oracle_T, ids).raw(), '%s: member %d' % (tag, t))
        env.prove(ks.num_samples == len(ids), tag + ': number of samples')
        same(env, ks, lin + kms, tag)
    env.prove(ks.num_samples is None, 'not attached')
    cur = [1, 0]
    ks.attach_to(id_sample(env, cur))
    check(cur, 'first')
    for t in range(2):
        ids = env.pick('ids%d' % t, [[2, 3], [0, 4], [5], [0, 1, 2]])
        form = env.pick('early%d' % t, [False, True])
        if form:
            kms[0].full_sparse
        out = env.call(ks.attach_to, id_sample(env, ids))
        if len(ids) == 2:
            env.expect_ok(out, 'attach succeeds')
            cur = ids
        else:
            env.prove(out.raised(ValueError), 'wrong number of samples refused', soft=out)
        check(cur, 'after %d' % (t + 1))


@R.add(variants=[dict(two=b) for b in (False, True)], wits=3)
def attach_in_place(env, two):
    """The same array, changed in place, attached again: every member follows the new contents, also members
    that were attached to it before joining the set."""
    base = env.mod('base')
    kms = [mk(env, None, 'km', 'm%d' % t) for t in range(2)]
    X = id_sample(env, [0, 1])
    pre = env.pick('pre', [False, True])
    if pre:
        for m in kms:
            m.attach_to(X)
    ks = base.KernelSet(kms)
    if not pre:
        ks.attach_to(X)
    for t, m in enumerate(kms):
        rd = env.pick('rd%d' % t, ['none', 'full', 'elem', 'sparse'])
        if rd != 'none':
            OP[rd](env, m, Oracle(env, m.oracle_T, [0, 1]), False, 'before')
    X[1, 0] = 4.0
    ids = [0, 4]
    if two:
        X[0, 0] = 2.0
        ids = [2, 4]
    ks.attach_to(X)
    for m in kms:
        for nm in ('full', 'elem'):
            OP[nm](env, m, Oracle(env, m.oracle_T, ids), False, 'after')


@R.add(wits=2)
def attach_attr(env):
    """attach_to may set an attribute on all members."""
    base = env.mod('base')
    kms = [mk(env, None, 'km', 'm%d' % t) for t in range(2)]
    ks = base.KernelSet(kms)
    val = env.pick('val', ['v', 0, None, 2.5])
    ks.attach_to(id_sample(env, [0, 1]), name='nm', attr_name='tag', attr_value=val)
    for m in kms:
        env.prove(m.get_attr('tag', 'missing') == val, 'attribute set')
    ks.attach_to(id_sample(env, [2, 1]))
    for m in kms:
        env.prove(m.get_attr('tag', 'missing') == 'missing', 'gone after attaching again')


@R.add(variants=lambda t: [dict(k=k) for k in sizes(t, quick_limit=110)], wits=1)
def many(env, k):
    """As many members as any integer constant of the source."""
    base = env.mod('base')
    s = env.real('s', lo=1, hi=2)
    kms = [base.KernelMatrixPrecomputed(env.np.array([[s + t, s], [s, s]])) for t in range(k)]
    ks = base.KernelSet()
    for m in kms:
        ks.append(m)
    same(env, ks, kms, 'set')
    i = env.int('i', 0, k - 1) if k <= 12 else k - 1
    env.prove(ks[i] is kms[int(i)], 'index')
    ix = list(range(k))[::-1]
    same(env, ks.take(ix), [kms[i] for i in ix], 'taken in reverse')
    other = base.KernelSet([kms[0]])
    other.extend(ks)
    same(env, other, [kms[0]] + kms, 'extended')
    for t in (0, k - 1):
        env.expect_close(ks[t].full[0, 0], s + t, 'value')


@R.add(variants=[dict(n=n) for n in range(1, 5)], wits=3)
def many_samples(env, n):
    """Compatibility is decided by the exact number of samples."""
    base, cfg = env.mod('base'), env.mod('config')
    m = env.int('m', 1, 5)
    mm = int(m)
    ks = base.KernelSet(num_samples=n)
    x = base.KernelMatrixPrecomputed(env.np.array(env.symm('x', mm)))
    out = env.call(ks.append, x)
    if mm == n:
        env.expect_ok(out, 'accepted')
        same(env, ks, [x], 'set')
    else:
        env.prove(out.raised(cfg.KMSetAdditionError), 'refused', soft=out)
        same(env, ks, [], 'set')
