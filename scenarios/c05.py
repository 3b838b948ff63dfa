"""C05: re-attaching starts from a clean slate; a rejected attachment changes nothing."""
from symk.scen import Registry
from .lib import *
from .c02 import two_table

R = Registry()
lookup = R.lookup

ALL = [n for n, _ in OPS]
CORE = ['full', 'sparse', 'normed', 'centered', 'frob', 'elem']
KINDS = {'one3': ([0, 1, 2], None), 'one3b': ([3, 4, 5], None), 'one2': ([3, 4], None), 'one1': ([5], None),
         'two32': ([0, 1, 2], [3, 4]), 'two33': ([3, 4, 5], [0, 1, 2]), 'two23': ([4, 5], [0, 1, 2]),
         'one3perm': ([2, 0, 1], None), 'two12': ([0], [3, 4])}


def attach(env, km, T, kind, nm=''):
    i1, i2 = KINDS[kind]
    km.attach_to(id_sample(env, i1), 's1' + nm, None if i2 is None else id_sample(env, i2), None if i2 is None else 's2' + nm)
    return Oracle(env, T, i1, i2)


def facts(env, km, O):
    env.prove(tuple(km.shape) == O.shape, 'shape follows the sample')
    env.prove((tuple(km.num_samples) == O.shape) if O.two else (km.num_samples == O.shape[0]), 'num_samples follows the sample')
    env.prove(km.size == O.shape[0] * O.shape[1] and len(km) == km.size, 'size follows the sample')


def _v(tier):
    out = []
    pairs = [('one3', 'one3b'), ('one3', 'one3perm'), ('one3', 'one2'), ('one2', 'one3'), ('one3', 'two33'),
             ('one3', 'two32'), ('two32', 'one3'), ('two33', 'one3'), ('two32', 'two23'), ('two33', 'two32'),
             ('one1', 'one3'), ('one3', 'one1'), ('two32', 'one1'), ('two12', 'one1')]
    for a, b in pairs:
        for norm in (False, True):
            out.append(dict(a=a, b=b, norm=norm, la=1, lb=1 if tier == 'quick' else 2))
    for norm in (False, True):
        for a, b in pairs[:2] + pairs[5:8]:
            out.append(dict(a=a, b=b, norm=norm, la=2, lb=1))
    return out


@R.add(variants=_v, wits=2)
def histories(env, a, b, norm, la, lb):
    """Reads, then another attachment, then reads: only the latest sample matters."""
    base = env.mod('base')
    i1, i2 = KINDS[a]
    T = sym_table(env, range(6))
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=norm)
    O = attach(env, km, T, a, 'a')
    pre = ALL if la == 1 or env.tier == 'thorough' else CORE
    for t in range(la):
        nm = env.pick('pre%d' % t, pre)
        OP[nm](env, km, O, norm, 'before (%s)' % nm)
    km.set_attr('tag', 1)
    env.call(lambda: km[9, 9])
    O2 = attach(env, km, T, b, 'b')
    facts(env, km, O2)
    env.prove(len(km.attributes()) == 0, 'attributes of the previous sample are gone')
    env.prove(km.get_attr('tag', 'none') == 'none', 'attribute of the previous sample is gone')
    for t in range(lb):
        nm = env.pick('post%d' % t, pre)
        OP[nm](env, km, O2, norm, 'after (%s)' % nm)
    facts(env, km, O2)


@R.add(variants=[dict(norm=nm) for nm in (False, True)], wits=2)
def same_sample_again(env, norm):
    """Re-attaching to the same array whose contents changed in between."""
    base = env.mod('base')
    T = sym_table(env, range(6))
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=norm)
    X = id_sample(env, [0, 1, 2])
    km.attach_to(X)
    O = Oracle(env, T, [0, 1, 2])
    nm = env.pick('pre', ALL)
    OP[nm](env, km, O, norm, 'before')
    X[0, 0] = 3.0
    X[2, 0] = 5.0
    km.attach_to(X)
    O2 = Oracle(env, T, [3, 1, 5])
    for t in range(2):
        nm = env.pick('post%d' % t, ['full', '[:,:]', 'elem', 'sparse', 'normed', 'centered', 'frob', 'diag'])
        OP[nm](env, km, O2, norm, 'after (%s)' % nm)


def _rej(tier):
    return [dict(a=a, norm=norm) for a in ('one3', 'two32') for norm in (False, True)]


@R.add(variants=_rej, wits=3)
def rejected(env, a, norm):
    """A rejected attachment raises and leaves results, shape and attributes as they were."""
    base = env.mod('base')
    T = sym_table(env, range(6))
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=norm)
    O = attach(env, km, T, a)
    nm = env.pick('pre', CORE)
    OP[nm](env, km, O, norm, 'before (%s)' % nm)
    km.set_attr('tag', 5)
    text = str(km)
    np_ = env.np
    bad = env.choice('bad', 5)
    good = id_sample(env, [3, 4])
    if bad == 0:
        out = env.call(km.attach_to, good, 'x', id_sample(env, [0, 1], ncol=3))
    elif bad == 1:
        out = env.call(km.attach_to, np_.zeros((4,)))
    elif bad == 2:
        out = env.call(km.attach_to, np_.zeros((2, 2, 2)))
    elif bad == 3:
        out = env.call(km.attach_to, good, 'x', np_.zeros((4,)))
    else:
        out = env.call(km.attach_to, good, 'x', np_.zeros((2, 2, 3)))
    env.prove(out.raised(ValueError), 'the attachment is rejected', soft=out)
    facts(env, km, O)
    env.prove(km.get_attr('tag') == 5, 'attributes survive')
    env.prove(str(km) == text, 'description survives')
    for t in range(1 if env.tier == 'quick' else 2):
        nm = env.pick('post%d' % t, ['full', '[:,:]', 'elem', 'sparse', 'normed', 'centered', 'frob', 'slices'])
        OP[nm](env, km, O, norm, 'after (%s)' % nm)


@R.add(wits=4)
def attribute_names(env):
    """Attributes of any name, also names the source itself uses, are gone after attaching again."""
    base = env.mod('base')
    T = sym_table(env, range(6))
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=False)
    names = source_str_literals() + list(vars(km)) + [a for a in dir(type(km)) if not a.startswith('__')] + \
        [0, 1, None, (), ('a', 1), '']
    named = env.pick('named', [False, True])
    first = env.pick('first', ['one3', 'two32', None])
    if first is not None:
        attach(env, km, T, first, 'n')
        if env.pick('read', [False, True]):
            km.full
    for t, nm in enumerate(names):
        km.set_attr(nm, t)
    env.prove(len(km.attributes()) == len(set(names)), 'all attributes set')
    ids = KINDS['one3b'][0]
    if named:
        km.attach_to(id_sample(env, ids), 'name')
    else:
        km.attach_to(id_sample(env, ids))
    env.prove(len(km.attributes()) == 0, 'attributes of the previous sample are gone')
    for nm in names:
        env.prove(km.get_attr(nm, 'unset') == 'unset', 'attribute %r is gone' % (nm,))
    OP['full'](env, km, Oracle(env, T, ids), False, 'after')


@R.add(wits=3)
def several_times(env):
    """Three attachments in a row, with a read in between each."""
    base = env.mod('base')
    norm = env.pick('norm', [False, True])
    T = sym_table(env, range(6))
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=norm)
    for t in range(3):
        kind = env.pick('kind%d' % t, ['one3', 'one3b', 'two32', 'two33'] if t != 1 or env.tier == 'thorough' else ['one3b', 'two33'])
        O = attach(env, km, T, kind)
        facts(env, km, O)
        nm = env.pick('op%d' % t, ['full', 'sparse'] if t < 2 else ['full', 'normed', '[:,:]', 'elem'])
        OP[nm](env, km, O, norm, 'attachment %d (%s)' % (t + 1, nm))


@R.add(variants=[dict(norm=nm) for nm in (False, True)], wits=2)
def independent_matrices(env, norm):
    """Two matrices of the same kernel do not influence each other."""
    base = env.mod('base')
    T = sym_table(env, range(6))
    k = table_kernel(env, base, T)
    A_, B_ = base.KernelMatrix(k, normalized=norm), base.KernelMatrix(k, normalized=norm)
    OA = attach(env, A_, T, 'one3')
    OB = attach(env, B_, T, env.pick('kb', ['one3b', 'two32']))
    A_.set_attr('t', 1)
    env.prove(len(B_.attributes()) == 0, 'attributes are not shared')
    for t in range(2):
        nm = env.pick('op%d' % t, ['full', 'elem', 'sparse', 'normed', 'frob'])
        OP[nm](env, A_, OA, norm, 'A')
        OP[nm](env, B_, OB, norm, 'B')


@R.add(wits=2)
def fresh_matrix(env):
    """Before any attachment there is nothing to read, and no sample count."""
    base = env.mod('base')
    T = sym_table(env, range(2))
    norm = env.pick('norm', [False, True])
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=norm)
    env.prove(km.num_samples is None, 'no samples yet')
    out = env.call(lambda: km.full)
    env.prove(not out.ok, 'reading before attaching is refused')
    env.prove(len(km.attributes()) == 0, 'no attributes')
    km.attach_to(id_sample(env, [0, 1]))
    OP['full'](env, km, Oracle(env, T, [0, 1]), norm, 'first attachment')


@R.add(wits=4)
def attribute_values(env):
    """Attributes of any value are gone after attaching again, and survive a rejected attachment."""
    base = env.mod('base')
    T = sym_table(env, range(6))
    norm = env.pick('norm', [False, True])
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=norm)
    O = attach(env, km, T, env.pick('first', ['one3', 'two32']), 'v')
    vals = odd_values(env)
    for t, v in enumerate(vals):
        km.set_attr('v%d' % t, v)
    env.call(km.attach_to, env.np.zeros((2, 2, 2)))
    for t, v in enumerate(vals):
        env.prove(km.get_attr('v%d' % t, km) is v, 'attribute %d survives a rejected attachment' % t)
    if env.pick('read', [False, True]):
        OP['full'](env, km, O, norm, 'before')
    O2 = attach(env, km, T, env.pick('second', ['one3', 'one3b', 'two33']), 'w')
    env.prove(len(km.attributes()) == 0, 'attributes of the previous sample are gone')
    for t, v in enumerate(vals):
        env.prove(km.get_attr('v%d' % t, km) is km, 'attribute %d is gone' % t)
    OP['full'](env, km, O2, norm, 'after')


@R.add(variants=[dict(norm=nm) for nm in (False, True)], wits=3)
def parts_of_one_array(env, norm):
    """Attached to one part of an array, then to another part of the same array."""
    base = env.mod('base')
    T = sym_table(env, range(6))
    Z = id_sample(env, list(range(6)))
    parts = [('head', slice(0, 3)), ('tail', slice(3, 6)), ('even', slice(0, 6, 2)), ('back', slice(2, None, -1)),
             ('all', slice(None)), ('none', None)]
    ids = list(range(6))
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=norm)
    p = env.pick('first', parts)
    q = env.pick('second', parts)
    km.attach_to(Z if p[1] is None else Z[p[1]])
    nm = env.pick('pre', ['full', 'sparse', 'elem', 'normed', 'centered', None])
    if nm is not None:
        OP[nm](env, km, Oracle(env, T, ids if p[1] is None else ids[p[1]]), norm, 'before (%s)' % p[0])
    km.attach_to(Z if q[1] is None else Z[q[1]])
    O = Oracle(env, T, ids if q[1] is None else ids[q[1]])
    facts(env, km, O)
    nm = env.pick('post', ['full', '[:,:]', 'sparse'])
    OP[nm](env, km, O, norm, 'after (%s to %s)' % (p[0], q[0]))
