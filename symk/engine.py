"""Path exploration and proof obligations.

The scenario (harness + real code) is executed once per path.  `bool()` of a symbolic
condition asks the solver which outcomes are possible under the path condition; if both are,
the untaken one is queued and the scenario is re-executed for it.  Obligations are decided by
the solver over all values on the path.
"""
import random
import time
from fractions import Fraction

import z3

from . import num as N
from .num import Atom, Ctl, Num, P1, Poly, SymBool, Unmodelled, s_not

z3.set_param('parallel.enable', False)

FEAS_MS = 3000
PROVE_MS = 20000


class EndPath(BaseException):
    """The path is closed (assumption failed, or enough is known)."""


class Stats:
    FIELDS = ('paths', 'branches', 'forks', 'feas_queries', 'feas_unknown', 'obligations',
              'discharged', 'discharged_syntactic', 'queries', 'unknown', 'solver_s', 'abandoned',
              'infeasible', 'concretisations', 'batch_queries', 'batched')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['solver_s'] = round(self.solver_s, 3)
        return d


class Ctx:
    """State of one path."""

    def __init__(self, eng, prefix):
        self.eng = eng
        self.st = eng.st
        self.prefix = prefix
        self.dec = []
        self.atoms = []
        self.by_kind = {}
        self.defkeys = {}
        self.inputs = {}          # name -> ('num', Num, kind) | ('val', python value)
        self.pc = []              # (z3 formula, atom set)
        self.seen = {}            # z3 ast id -> bool decided on this path
        self.keep = []            # keeps asts alive so that ids stay unique
        self.poison = None
        self.solver = z3.SolverFor('QF_NRA') if False else z3.Solver()
        self.solver.set('timeout', FEAS_MS)
        self.asserted_atoms = set()
        self.fixed = {}
        self.notes = []
        self.batch = []           # equalities that already have one normal form

    # ------------------------------------------------------------- atoms
    def new_atom(self, name, kind, isint=False):
        a = Atom(len(self.atoms), name, kind, isint)
        self.atoms.append(a)
        self.by_kind.setdefault(kind, []).append(a)
        return a

    def defined(self, kind, key, isint=False):
        k = (kind, key)
        a = self.defkeys.get(k)
        if a is None:
            a = self.new_atom('%s!%d' % (kind.replace(':', '_'), len(self.atoms)), kind, isint)
            self.defkeys[k] = a
        return a

    def zpoly_of(self, x, owner):
        owner.deps |= x.atoms()
        return x.z()

    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False, isint=False):
        if name in self.inputs:
            return self.inputs[name][1]
        a = self.new_atom(name, 'in', isint)
        v = Num(Poly.atom(a.id), P1, isint)
        a.meta = {'pos': lo is not None and (lo > 0 or (lo == 0))}
        if isint and lo is not None and hi is not None:
            a.meta['range'] = (int(lo), int(hi))
        if lo is not None:
            l = z3.RealVal(str(Fraction(lo))) if not isint else z3.IntVal(int(lo))
            a.defs.append(a.zv > l if lo_strict else a.zv >= l)
        if hi is not None:
            h = z3.RealVal(str(Fraction(hi))) if not isint else z3.IntVal(int(hi))
            a.defs.append(a.zv < h if hi_strict else a.zv <= h)
        self.inputs[name] = ('num', v, 'int' if isint else 'real')
        return v

    def known_sign(self, a):
        """+1/-1 when the sign follows from the form alone (nonnegative atoms), else None."""
        if not a.d.is_const():
            sd = self._psign(a.d)
            sn = self._psign(a.n)
            return None if sd is None or sn is None else sd * sn
        return self._psign(a.n)

    def _psign(self, p):
        s = None
        for m, c in p.t.items():
            for x, e in m:
                if e % 2 == 0:
                    continue
                at = self.atoms[x]
                if at.kind in ('sqrt', 'exp', 'abs', 'pow', 'b2i') or \
                        (at.kind == 'in' and at.meta and at.meta['pos']):
                    continue
                return None
            t = 1 if c > 0 else -1
            if s is None:
                s = t
            elif s != t:
                return None
        return s if s is not None else 1

    # ------------------------------------------------------------- constraints
    def closure(self, atoms):
        todo, out = list(atoms), set()
        while todo:
            i = todo.pop()
            if i in out:
                continue
            out.add(i)
            todo.extend(self.atoms[i].deps)
        return out

    def defs_for(self, atoms):
        cl = self.closure(atoms)
        fs = []
        exps = []
        rounds = {}
        for i in sorted(cl):
            a = self.atoms[i]
            fs.extend(a.defs)
            if a.kind == 'exp':
                exps.append(a)
        for i, a in enumerate(exps):
            for b in exps[:i]:
                if len(exps) > 6:
                    break
                d = (a.arg - b.arg)
                za = d.n.z() if d.d.is_const() else d.n.mul(d.d).z()
                fs.append((za > 0) == (a.zv > b.zv))
                fs.append((za < 0) == (a.zv < b.zv))
        return fs, cl

    def _sync(self, atoms):
        """Make the path solver know the definitions of these atoms."""
        for i in self.closure(atoms):
            if i not in self.asserted_atoms:
                self.asserted_atoms.add(i)
                for f in self.atoms[i].defs:
                    self.solver.add(f)

    def add(self, z, atoms):
        self.keep.append(z)
        self.pc.append((z, frozenset(atoms)))
        self._sync(atoms)
        self.solver.add(z)

    def feasible(self, z, atoms):
        self._sync(atoms)
        t = time.perf_counter()
        self.solver.push()
        self.solver.add(z)
        r = self.solver.check()
        self.solver.pop()
        self.st.solver_s += time.perf_counter() - t
        self.st.feas_queries += 1
        if r == z3.unknown:
            self.st.feas_unknown += 1
            return True
        return r == z3.sat

    # ------------------------------------------------------------- decisions
    def _replayed(self):
        i = len(self.dec)
        return self.prefix[i] if i < len(self.prefix) else None

    def branch(self, sb):
        self.eng.tick()
        b = sb.b
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        neg = z3.is_not(b)
        core = b.arg(0) if neg else b
        k = core.get_id()
        if k in self.seen:
            v = self.seen[k]
            return (not v) if neg else v
        self.keep.append(core)
        self.st.branches += 1
        e = self._replayed()
        if e is not None:
            v = e[1]
            assert e[0] == 'b', (e, 'decision replay out of step')
        else:
            t = self.feasible(core, sb.at)
            f = self.feasible(z3.Not(core), sb.at)
            if t and f:
                v = True
                self.st.forks += 1
                self.eng.push(self.dec + [('b', False)])
            elif t:
                v = True
            elif f:
                v = False
            else:
                self.st.infeasible += 1
                raise EndPath('infeasible')
        self.dec.append(('b', v))
        self.seen[k] = v
        self.add(core if v else z3.Not(core), sb.at)
        return (not v) if neg else v

    def choice(self, name, k):
        """A symbolic selector in range(k)."""
        self.eng.tick()
        e = self._replayed()
        if e is not None:
            assert e[0] == 'c', (e, 'decision replay out of step')
            v = e[1]
        else:
            v = 0
            for j in range(k - 1, 0, -1):
                self.st.forks += 1
                self.eng.push(self.dec + [('c', j)])
        self.dec.append(('c', v))
        self.inputs[name] = ('val', v)
        return v

    def concretize_int(self, x):
        self.st.concretisations += 1
        at = x.atoms()
        z = x.z()
        tried = set()
        one = None
        if len(at) == 1 and x.key() == N.Num(N.Poly.atom(next(iter(at))), N.P1, True).key():
            one = self.atoms[next(iter(at))]
            if one.id in self.fixed:
                return self.fixed[one.id]
        for _ in range(400):
            e = self._replayed()
            if e is not None:
                assert e[0] == 'v', (e, 'decision replay out of step')
                v, take = e[1], e[2]
            else:
                self._sync(at)
                r = self.solver.check()
                self.st.feas_queries += 1
                if r != z3.sat:
                    if r == z3.unsat:
                        self.st.infeasible += 1
                        raise EndPath('infeasible')
                    # undecided: every value of the declared range that is left
                    rng = (one.meta or {}).get('range') if one is not None else None
                    left = [v for v in range(rng[0], rng[1] + 1) if v not in tried] if rng and rng[1] - rng[0] < 64 else None
                    if left is None:
                        N.unmodelled('solver could not enumerate an integer')
                    if not left:
                        self.st.infeasible += 1
                        raise EndPath('infeasible')
                    v = left[0]
                else:
                    mv = self.solver.model().eval(z, model_completion=True)
                    v = int(mv.as_fraction()) if z3.is_rational_value(mv) else int(mv.as_long())
                take = True
                if self.feasible(z != v, at):
                    self.st.forks += 1
                    self.eng.push(self.dec + [('v', v, False)])
            self.dec.append(('v', v, take))
            tried.add(v)
            if take:
                self.add(z == v, at)
                if one is not None:
                    self.fixed[one.id] = v
                return v
            self.add(z != v, at)
        return N.unmodelled('integer concretisation did not terminate')

    def assume(self, cond):
        c = SymBool.of(cond)
        if c is True:
            return
        if c is False:
            self.st.infeasible += 1
            raise EndPath('assumption')
        if not self.feasible(c.b, c.at):
            self.st.infeasible += 1
            raise EndPath('assumption')
        self.add(c.b, c.at)

    # ------------------------------------------------------------- obligations
    def check_sat(self, forms, timeout, want_model=False):
        t = time.perf_counter()
        self.st.queries += 1
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*forms)
        r = s.check()
        if r == z3.unknown:
            try:
                s2 = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith',
                             'qfnra-nlsat').solver()
                s2.set('timeout', timeout)
                s2.add(*forms)
                r2 = s2.check()
                if r2 != z3.unknown:
                    r, s = r2, s2
            except z3.Z3Exception:
                pass
        self.st.solver_s += time.perf_counter() - t
        return r, (s if r == z3.sat else None)

    def slice_pc(self, atoms):
        cl = self.closure(atoms)
        changed = True
        used = set()
        while changed:
            changed = False
            for i, (z, a) in enumerate(self.pc):
                if i in used:
                    continue
                if not a or (self.closure(a) & cl):
                    used.add(i)
                    new = self.closure(a)
                    if not new <= cl:
                        cl |= new
                        changed = True
        return [self.pc[i][0] for i in sorted(used)], cl

    def prove(self, cond, label, margins=()):
        """Obligation: `cond` holds for every value on this path."""
        self.eng.tick()
        self.st.obligations += 1
        c = SymBool.of(cond)
        if c is True:
            self.st.discharged += 1
            self.st.discharged_syntactic += 1
            return True
        if c is False:
            if not self.pc:
                return self.eng.candidate(self, [], label)
            return self.eng.candidate(self, [], label)
        neg = z3.Not(c.b)
        # 1. with only the definitions of the symbols in the claim, 2. with the whole path condition
        d0, cl0 = self.defs_for(c.at)
        r, _ = self.check_sat([neg] + d0, 4000)
        if r == z3.unsat:
            self.st.discharged += 1
            return True
        sl, cl = self.slice_pc(c.at)
        ds, _ = self.defs_for(cl)
        r, s = self.check_sat([neg] + sl + ds, PROVE_MS)
        if r == z3.unsat:
            self.st.discharged += 1
            return True
        if r == z3.unknown:
            r = self.cvc5([neg] + sl + ds)
            if r == 'unsat':
                self.st.discharged += 1
                return True
            if r == 'unknown':
                self.st.unknown += 1
                return self.eng.undecided(self, [(neg, c.at)], label)
        return self.eng.candidate(self, [(neg, c.at)] , label, margins)

    def flush(self):
        """One query per path for the equalities whose two sides have the same normal form."""
        todo, self.batch = self.batch, []
        seen, fs, ats = set(), [], set()
        for a, b in todo:
            k = (id(a.n), id(a.d), id(b.n), id(b.d))
            if k in seen:
                continue
            seen.add(k)
            # a.n/a.d == b.n/b.d with nonzero denominators
            l, r = a.n.z(), b.n.z()
            if not (a.d.is_const() and a.d.cval() == 1):
                r = r * a.d.z()
            if not (b.d.is_const() and b.d.cval() == 1):
                l = l * b.d.z()
            fs.append(l != r)
            ats |= a.atoms() | b.atoms()
        if not fs:
            return
        r, _ = self.check_sat([z3.Or(fs)], 20000)
        if r == z3.unsat:
            self.st.batch_queries += 1
            self.st.batched += len(todo)
        elif r == z3.sat:
            raise AssertionError('normal form disagrees with the solver')

    def cvc5(self, forms, timeout=30000):
        from .solve2 import cvc5_check
        t = time.perf_counter()
        r = cvc5_check(forms, timeout)
        self.st.solver_s += time.perf_counter() - t
        self.st.queries += 1
        return r

    # ------------------------------------------------------------- models
    def find_models(self, extra=(), rounds=3, seed=0, budget=12.0):
        """Concrete inputs on this path (with `extra` constraints), generic where possible."""
        t0 = time.perf_counter()
        ats = set()
        for _, (k, v, *_) in self.inputs.items():
            if k == 'num':
                ats |= v.atoms()
        for _, a in self.pc:
            ats |= a
        for _, a in extra:
            ats |= a
        ds, _ = self.defs_for(ats)
        forms = [z for z, _ in self.pc] + ds + [z for z, _ in extra]
        ins = [(n, v, kind) for n, (k, v, *r) in self.inputs.items() if k == 'num'
               for kind in r]
        out = []
        for rd in range(rounds):
            rng = random.Random('%s/%s' % (seed, rd))
            s = z3.Solver()
            s.set('timeout', 2500)
            s.add(*forms)
            if s.check() == z3.unsat:
                return out
            order = list(ins)
            rng.shuffle(order)
            last = None
            if s.check() == z3.sat:
                last = s.model()
            s.set('timeout', 400)
            # keep values in a moderate range when possible
            box = []
            for n, v, kind in order:
                box += [v.z() <= 8, v.z() >= -8]
            if order:
                s.push()
                s.add(*box)
                if s.check() == z3.sat:
                    last = s.model()
                else:
                    s.pop()
            for n, v, kind in order:
                if time.perf_counter() - t0 > budget * (rd + 1) / rounds:
                    break
                vz = v.z()
                if kind == 'int':
                    continue
                cand = [Fraction(str(round(rng.uniform(0.15, 2.9), 2))), Fraction(str(round(rng.uniform(-2.9, -0.15), 2)))]
                if last is not None:
                    # another magnitude: away from the limits the solver likes
                    f = value_of(last, vz, kind)
                    if f and not 0.1 < abs(f) < 3 and abs(f) < 1e300:
                        cand += [Fraction(f * rng.uniform(1.05, 1.6)), Fraction(f * rng.uniform(0.6, 0.95))]
                for g in cand:
                    gz = z3.RealVal(str(g))
                    s.push()
                    s.add(vz == gz)
                    if s.check() == z3.sat:
                        last = s.model()
                        break
                    s.pop()
            if last is None:
                continue
            out.append(self.extract(last))
        return out

    def extract(self, model):
        d = {}
        for n, (k, v, *r) in self.inputs.items():
            if k == 'val':
                d[n] = v
            else:
                d[n] = value_of(model, v.z(), r[0])
        return d


def value_of(model, z, kind):
    mv = model.eval(z, model_completion=True)
    mv = z3.simplify(mv)
    if z3.is_int_value(mv):
        return int(mv.as_long())
    if z3.is_rational_value(mv):
        f = mv.as_fraction()
        f = Fraction(f.numerator, f.denominator)
        return int(f) if kind == 'int' else float(f)
    if z3.is_algebraic_value(mv):
        f = mv.approx(20).as_fraction()
        return float(Fraction(f.numerator, f.denominator))
    return 0.0


class OutOfBudget(BaseException):
    pass


class Engine:
    """Explores one scenario."""

    def __init__(self, fn, sink, time_s=120.0, max_paths=20000, seed=1, witnesses=3):
        self.fn = fn
        self.sink = sink            # receives candidates / witnesses for replay on the real code
        self.st = Stats()
        self.stack = [[]]
        self.t0 = time.perf_counter()
        self.time_s = time_s
        self.max_paths = max_paths
        self.seed = seed
        self.nwit = witnesses
        self.exhausted = True
        self.unreproduced = []
        self.undecided_l = []
        self.abandoned = []
        self.violation = None
        self.tried = {}
        self.reached = 0
        self.wit_sent = 0
        self.rng = random.Random(seed)

    def tick(self):
        if time.perf_counter() - self.t0 > self.time_s:
            self.exhausted = False
            raise OutOfBudget()

    def push(self, prefix):
        self.stack.append(prefix)

    def candidate(self, ctx, extra, label, margins=()):
        """The solver found a violation (or the claim is false on the path): replay it."""
        n = self.tried.get(label, 0)
        self.tried[label] = n + 1
        if n >= 4 or sum(self.tried.values()) > 120:
            self.unreproduced.append(label)
            return False
        tries = []
        for m in list(margins) + [None]:
            ex = list(extra) + ([m] if m is not None else [])
            got = ctx.find_models(ex, rounds=3 if m is None else 2, seed=self.seed * 7 + n)
            for vals in got:
                r = self.sink.replay(vals, 'candidate', label)
                tries.append(r)
                if r.get('violated'):
                    self.violation = {'label': label, 'inputs': vals, 'replay': r,
                                      'found_by': 'solver counterexample'}
                    raise EndPath('violation')
        self.unreproduced.append(label)
        return False

    def undecided(self, ctx, extra, label):
        """Solver said unknown: record it, and use any model we can get as a concrete probe."""
        self.undecided_l.append(label)
        for vals in ctx.find_models([], rounds=1, seed=self.seed):
            r = self.sink.replay(vals, 'probe', label)
            if r.get('violated'):
                self.violation = {'label': label, 'inputs': vals, 'replay': r,
                                  'found_by': 'probe on an undecided obligation'}
                raise EndPath('violation')
        return False

    def run(self):
        while self.stack and self.violation is None:
            if self.st.paths >= self.max_paths:
                self.exhausted = False
                break
            prefix = self.stack.pop()
            ctx = Ctx(self, prefix)
            Ctl.cur = ctx
            self.st.paths += 1
            done = False
            try:
                self.fn(self.sink.env(ctx))
                ctx.flush()
                done = True
            except EndPath:
                pass
            except OutOfBudget:
                Ctl.cur = None
                break
            except Unmodelled as e:
                ctx.poison = ctx.poison or str(e)
            except Exception as e:     # the harness itself failed on this path
                if ctx.poison is None:
                    ctx.poison = 'harness: %s: %s' % (type(e).__name__, e)
                    import os
                    if os.environ.get('SYMK_TRACE'):
                        import traceback
                        traceback.print_exc()
            try:
                if ctx.poison is not None and self.violation is None:
                    self.st.abandoned += 1
                    self.abandoned.append(ctx.poison)
                    if len(self.abandoned) <= 12:
                        self._witness(ctx, 'probe', 3)
                elif done and self.violation is None:
                    self.reached += 1
                    if self._want_witness():
                        self._witness(ctx, 'witness', 1)
            except EndPath:
                pass
            except OutOfBudget:
                Ctl.cur = None
                break
            Ctl.cur = None
        return self

    def _want_witness(self):
        if self.nwit <= 0 or self.wit_sent >= self.nwit:
            return False
        if self.reached <= max(1, self.nwit // 3):
            return True
        return self.rng.random() < 0.25

    def _witness(self, ctx, why, rounds):
        for vals in ctx.find_models([], rounds=rounds, seed=self.seed + self.wit_sent, budget=4.0):
            self.wit_sent += 1
            r = self.sink.replay(vals, why, ctx.poison or 'path witness')
            if r.get('violated'):
                self.violation = {'label': r.get('label') or why, 'inputs': vals, 'replay': r,
                                  'found_by': 'replay of a path witness (%s)' % why}
                raise EndPath('violation')
