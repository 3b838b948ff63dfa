"""Shared by the symbolic and the concrete environment (no solver import here)."""


class Outcome:
    """What a call did: returned `val`, or raised `exc`; plus the warnings it issued."""

    def __init__(self, val=None, exc=None, warns=()):
        self.val, self.exc, self.warns = val, exc, list(warns)

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types)

    def describe(self):
        if self.exc is None:
            return 'returned %s' % (type(self.val).__name__,)
        return 'raised %s: %s' % (type(self.exc).__name__, str(self.exc)[:160])


class Skip(BaseException):
    """The concrete inputs do not satisfy the scenario's assumptions."""


class Violated(BaseException):
    def __init__(self, label, detail=''):
        self.label, self.detail = label, detail


class EnvBase:
    concrete = False
    unit = 1.0          # magnitude below which replayed numbers count as equal (times 1e-9)

    # ---- things shared by both environments, in terms of the primitives
    def reals(self, name, shape, **k):
        """An array of independent symbolic reals."""
        import itertools
        out = []
        if isinstance(shape, int):
            shape = (shape,)
        if len(shape) == 1:
            return [self.real('%s_%d' % (name, i), **k) for i in range(shape[0])]
        return [[self.real('%s_%d_%d' % (name, i, j), **k) for j in range(shape[1])] for i in range(shape[0])]

    def symm(self, name, n, diag_lo=None, **k):
        """A symmetric matrix of symbolic reals, as nested lists."""
        v = {}
        for i in range(n):
            for j in range(i, n):
                if i == j and diag_lo is not None:
                    v[i, j] = self.real('%s_%d_%d' % (name, i, j), lo=diag_lo, **k)
                else:
                    v[i, j] = self.real('%s_%d_%d' % (name, i, j), **k)
        return [[v[min(i, j), max(i, j)] for j in range(n)] for i in range(n)]

    def expect_matrix(self, got, want, label, dense=True):
        """got is a (dense) 2-d array equal to the nested list `want`."""
        if dense:
            self.prove(self.is_dense(got), label + ': dense array')
        shp = (len(want), len(want[0]) if want else 0)
        self.prove(tuple(self.shape_of(got)) == shp, label + ': shape')
        if dense and not self.is_dense(got):
            return
        for i in range(shp[0]):
            for j in range(shp[1]):
                self.expect_close(got[i, j], want[i][j], '%s [%d,%d]' % (label, i, j))

    def expect_vector(self, got, want, label):
        self.prove(tuple(self.shape_of(got)) == (len(want),), label + ': shape')
        for i in range(len(want)):
            self.expect_close(got[i], want[i], '%s [%d]' % (label, i))

    def expect_raises(self, out, types, label):
        if not isinstance(types, tuple):
            types = (types,)
        self.prove(out.raised(*types), label + ' (%s)' % out.describe() if self.concrete else label,
                   soft=out)

    def expect_ok(self, out, label):
        self.prove(out.ok, label, soft=out)
        return out.ok


class Section:
    pass


# --------------------------------------------------------------- test kernels (rows carry ids)
def table_kernel(env, base, table, log=None, fail=None, name='tab'):
    """A kernel function that looks its value up by the row ids found in column 0.

    `table` maps unordered id pairs to values; `log` receives every evaluation; `fail(i, j)`
    may raise."""

    class TableKernel(base.BaseKernelFunction):
        def __init__(self):
            super().__init__(name=name)

        def __call__(self, x, y):
            i, j = int(x[0]), int(y[0])
            if log is not None:
                log.append((i, j))
            if fail is not None:
                fail(i, j)
            return table[i, j] if (i, j) in table else table[j, i]

        def __str__(self):
            return self.name

        def __deepcopy__(self, memo):
            return self

    return TableKernel()


def id_sample(env, ids, ncol=2):
    """A sample whose rows are identified by their first feature."""
    return env.np.array([[float(i)] + [float(7 * i % 5) + c for c in range(ncol - 1)] for i in ids])
