"""Path explorer, obligations and solver interface of the verifier.

The real code of the repository is executed natively by CPython on symbolic
proxies (values.py).  A branch on a symbolic condition is a *decision*: the
explorer re-executes the unit deterministically once per sequence of decisions,
depth first, until every feasible path has been executed.  Obligations are
discharged by an SMT solver under the path condition.
"""
import os
import subprocess
import tempfile
import time
from collections import OrderedDict

import z3

z3.set_param('model.completion', True)


INSTANTIATE = not os.environ.get('PV_NO_INST')


def abstracted(c):
    """The formula with its quantified parts replaced by atoms (the same atom for the same body)."""
    if z3.is_quantifier(c):
        if not c.is_forall() and not c.is_exists():
            return c
        return z3.Bool('q!{}!{}!{}'.format('A' if c.is_forall() else 'E', ''.join(c.var_sort(i).name() for i in range(c.num_vars())), c.body().get_id()))
    if z3.is_app(c) and z3.is_bool(c) and c.num_args():
        k = c.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_ITE, z3.Z3_OP_XOR) or k == z3.Z3_OP_EQ and z3.is_bool(c.arg(0)):
            if has_quant(c):
                args = [abstracted(x) for x in c.children()]
                if k == z3.Z3_OP_AND:
                    return z3.And(*args)
                if k == z3.Z3_OP_OR:
                    return z3.Or(*args)
                return c.decl()(*args)
    return c


class EngineSignal(BaseException):
    pass


class PathEnd(EngineSignal):
    """The path is finished (infeasible, assumed away, or a loop back edge)."""


class NeedLoop(EngineSignal):
    """A loop head was reached for which no invariants were inferred yet."""

    def __init__(self, loop):
        self.loop = loop


class Restart(EngineSignal):
    """Global knowledge changed (e.g. a while loop must be cut): start again."""


class PoisonUsed(EngineSignal):
    """A value lost at a loop head was used: the first iteration must be peeled."""

    def __init__(self, loc, why):
        super().__init__(why)
        self.loc = loc


class Unsupported(EngineSignal):
    """The construct is outside the reach of the verifier."""


class Failed(EngineSignal):
    pass


class Obligation:
    __slots__ = ('name', 'status', 'solver', 'time', 'model', 'detail', 'inputs')

    def __init__(self, name, status, solver, t, inputs=None, detail=''):
        self.name = name
        self.status = status      # proved | refuted | unknown
        self.solver = solver
        self.time = t
        self.inputs = inputs
        self.detail = detail


QUICK_MS = 1500
PROVE_MS = int(os.environ.get('PV_PROVE_MS', '10000'))
EXT_S = int(os.environ.get('PV_EXT_S', '20'))


_QF = set()      # ids of terms known to be free of quantifiers, kept alive by _QF_KEEP
_QF_KEEP = []


def has_quant(t):
    i = t.get_id()
    if i in _QF:
        return False
    seen = []
    new = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in _QF or i in new:
            continue
        if z3.is_quantifier(x):
            return True
        new.add(i)
        seen.append(x)
        stack.extend(x.children())
    if len(_QF) > 300000:
        _QF.clear()
        del _QF_KEEP[:]
    _QF.update(new)
    _QF_KEEP.append(t)
    return False


class Engine:
    def __init__(self):
        self.reset_unit()

    # ------------------------------------------------------------------ unit
    def reset_unit(self):
        self.obligations = OrderedDict()      # key -> Obligation
        self.covers = {}
        self.loops = {}                       # trail -> LoopRec
        self.cut_whiles = set()
        self.functions = set()
        self.contracts_used = set()
        self.assumed = set()
        self.notes = set()
        self.paths = 0
        self.solver_time = 0.0
        self.queries = 0
        self.stop_on_fail = True
        self.infer_depth = 0
        self.unit_name = '?'
        self.deadline = None
        self.fork_cache = {}
        self.hints = []
        self.bounded_notes = set()
        self.branches = set()
        self.peel_locs = {}
        self.sizes = []
        self.inv_hints = []
        self._begin_path(())

    def _begin_path(self, prefix):
        self.prefix = prefix
        self.trail = []
        self.pc = []
        self.qpc = []
        self.ctr = 0
        self.obj_ctr = 0
        self.oblig_ctr = 0
        self.solver = None
        self.solver_n = 0
        self.inputs = OrderedDict()
        self.local = []
        self.loop_stack = []
        self.path_hints = []
        self.pure = 0
        self.infeasible = False
        self.memo = {}
        self.keys = {}
        self.symdicts = {}
        self.loop_ks = []
        self.loop_path = ()
        self.loop_count = 0
        self.objs = {}
        self.touch_log = []
        self.births = {}
        self.facts = set()
        self.fact_of = {}
        if not hasattr(self, "fact_ids"):
            self.fact_ids, self.fact_keep, self.axiom_ids = set(), [], set()
        self.fmt = {}
        self.prove_index = {}

    # --------------------------------------------------------------- symbols
    def fresh_name(self, base):
        self.ctr += 1
        if self.loop_path:
            return '{}!L{}!{}'.format(base, '.'.join(map(str, self.loop_path)), self.ctr)
        return '{}!{}'.format(base, self.ctr)

    def const(self, base, sort=None):
        """A fresh constant; inside a loop body a fresh function of the iteration."""
        sort = sort if sort is not None else z3.IntSort()
        if self.loop_ks:
            f = z3.Function(self.fresh_name(base), *([z3.IntSort()] * len(self.loop_ks) + [sort]))
            return f(*self.loop_ks)
        return z3.Const(self.fresh_name(base), sort)

    def register(self, obj):
        self.objs[obj.oid] = obj

    def touched(self, obj):
        if self.touch_log:
            for log in self.touch_log:
                log.add(obj.oid)

    def born(self, o):
        if self.loop_ks:
            self.births[id(o)] = (o, self.loop_path)
        return o

    def attr_written(self, o, what):
        """State of an object which is not modelled is changed inside a loop of symbolic length."""
        if not self.loop_ks:
            return
        b = self.births.get(id(o))
        if b is not None and b[1][:len(self.loop_path)] == self.loop_path:
            return
        raise Unsupported('{} of {} written in a loop of symbolic length'.format(what, type(o).__name__))

    def add_fact(self, term, cond, axiom=False):
        """A universally valid fact about a term (axiom: an instance of a quantified one in qpc)."""
        if self.local:
            self.add(cond)
            return
        i = term.get_id()
        if i in self.facts:
            return
        self.facts.add(i)
        self.fact_of[i] = cond
        self.keep = getattr(self, 'keep', [])
        self.keep.append(term)
        if cond.get_id() not in self.fact_ids:
            self.fact_ids.add(cond.get_id())
            self.fact_keep.append(cond)
            if axiom:
                self.axiom_ids.add(cond.get_id())
        self.pc.append(cond)

    def add_global(self, cond):
        self.qpc.append(cond)

    def func(self, base, *sorts):
        return z3.Function(self.fresh_name(base), *sorts)

    def next_obj(self):
        self.obj_ctr += 1
        return self.obj_ctr

    # -------------------------------------------------------- path condition
    def add(self, cond):
        if z3.is_true(cond):
            return
        if z3.is_and(cond):
            for c in cond.children():
                self.add(c)
            return
        if self.local:
            self.local[-1].conds.append(cond)
        if has_quant(cond):
            self.qpc.append(cond)
        else:
            self.pc.append(cond)

    def _solver(self):
        if self.solver is None:
            self.solver = z3.SimpleSolver() if False else z3.Solver()
            self.solver.set('timeout', QUICK_MS)
            self.solver_n = 0
        if self.solver_n > len(self.pc):
            self.solver = z3.Solver()
            self.solver.set('timeout', QUICK_MS)
            self.solver_n = 0
        for c in self.pc[self.solver_n:]:
            self.solver.add(c)
        self.solver_n = len(self.pc)
        return self.solver

    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported('time budget of the unit exhausted')

    def feasible(self, cond):
        """False only if cond contradicts the quantifier-free path condition."""
        self.check_deadline()
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        s = self._solver()
        t0 = time.time()
        r = s.check(cond)
        self.solver_time += time.time() - t0
        self.queries += 1
        return r != z3.unsat

    def valid_quick(self, cond):
        """True if cond follows from the quantifier-free path condition."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        s = self._solver()
        t0 = time.time()
        r = s.check(z3.Not(cond))
        self.solver_time += time.time() - t0
        self.queries += 1
        return r == z3.unsat

    # ------------------------------------------------------------- decisions
    def decide(self, conds, tag=''):
        """Choose one of the alternatives (exhaustive by construction)."""
        if self.local:
            return self.local[-1].decide(conds, tag)
        pos = len(self.trail)
        if pos < len(self.prefix):
            choice = self.prefix[pos]
        else:
            feas = [i for i, c in enumerate(conds) if c is None or self.feasible(c)]
            if not feas:
                raise PathEnd('no feasible alternative')
            choice = feas[0]
            if len(feas) > 1:
                base = tuple(self.trail)
                for i in reversed(feas[1:]):
                    self.worklist.append(base + (i,))
        self.trail.append(choice)
        c = conds[choice]
        if c is not None:
            self.add(c)
        return choice

    def fork(self, cond):
        """Python truth value of a symbolic condition."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pure and not self.local:
            if self.valid_quick(cond):
                return True
            if self.valid_quick(z3.Not(cond)):
                return False
            raise Unsupported('branch inside a specification')
        return self.decide((cond, z3.Not(cond))) == 0

    def assume(self, cond):
        if type(cond) is bool:
            if not cond:
                raise PathEnd('assumed away')
            return
        cond = getattr(cond, 't', cond)
        if z3.is_false(cond):
            raise PathEnd('assumed away')
        self.add(cond)

    def concretize(self, term, limit=4096, what='value'):
        """Complete enumeration of the values of an integer term."""
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return term.as_long()
        if self.local:
            return self.local[-1].concretize(term, limit)
        pos = len(self.trail)
        if pos < len(self.prefix):
            v = self.prefix[pos]
        else:
            vals = self._enumerate(term, limit, what)
            if not vals:
                raise PathEnd('infeasible')
            base = tuple(self.trail)
            for w in reversed(vals[1:]):
                self.worklist.append(base + (w,))
            v = vals[0]
        self.trail.append(v)
        self.add(term == v)
        return v

    def _enumerate(self, term, limit, what='value'):
        s = z3.Solver()
        s.set('timeout', 5000)
        for c in self.pc:
            s.add(c)
        vals = []
        while True:
            self.check_deadline()
            r = s.check()
            if r == z3.unsat:
                break
            if r != z3.sat:
                raise Unsupported('cannot enumerate {}: solver returned unknown'.format(what))
            v = s.model().eval(term, model_completion=True).as_long()
            vals.append(v)
            if len(vals) > limit:
                raise Unsupported('more than {} possible values for {}'.format(limit, what))
            s.add(term != v)
        vals.sort()
        return vals

    def unique_value(self, term):
        """The value of term if the path condition determines it, else None."""
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return term.as_long()
        s = self._solver()
        if s.check() != z3.sat:
            return None
        v = s.model().eval(term, model_completion=True)
        if not z3.is_int_value(v):
            return None
        if s.check(term != v) == z3.unsat:
            return v.as_long()
        return None

    # ----------------------------------------------------------- obligations
    def solve(self, goal, timeout=None, want_model=True, ext=True):
        """Returns (status, model, solver name)."""
        self.check_deadline()
        t0 = time.time()
        neg = z3.Not(goal)
        quant = bool(self.qpc) or has_quant(goal)
        if not has_quant(goal):
            # most obligations follow from the quantifier-free path condition
            q = self._solver()
            if q.check(neg) == z3.unsat:
                self.queries += 1
                self.solver_time += time.time() - t0
                return 'proved', None, 'z3-5.3.2'
        else:
            # quantified formulas as atoms
            s = z3.Solver()
            s.set('timeout', 2000)
            for c in self.pc:
                s.add(abstracted(c))
            for c in self.qpc:
                if not z3.is_quantifier(c):
                    s.add(abstracted(c))
            s.add(abstracted(neg))
            if s.check() == z3.unsat:
                self.queries += 1
                self.solver_time += time.time() - t0
                return 'proved', None, 'z3-5.3.2'
        if quant and INSTANTIATE:
            from .inst import follows
            if follows(self.pc, self.qpc, neg, 2000):
                self.queries += 1
                self.solver_time += time.time() - t0
                return 'proved', None, 'z3-5.3.2 (instances)'
        s = z3.Solver()
        s.set('timeout', timeout or PROVE_MS)
        for c in self.pc:
            s.add(c)
        for c in self.qpc:
            s.add(c)
        s.add(neg)
        r = s.check()
        self.queries += 1
        self.solver_time += time.time() - t0
        if r == z3.unsat:
            return 'proved', None, 'z3-5.3.2'
        if r == z3.sat:
            return 'refuted', self.small_model(s), 'z3-5.3.2'
        if r == z3.unknown and z3.is_eq(goal) and z3.is_bool(goal.arg(0)):
            # an equivalence: both directions separately
            a, b = goal.arg(0), goal.arg(1)
            if all(self.solve(z3.Implies(x, y), timeout, False, ext)[0] == 'proved' for x, y in ((a, b), (b, a))):
                return 'proved', None, 'z3-5.3.2'
        if ext:
            smt = s.to_smt2()
            for name, cmd in (('cvc5-1.1.2', ['cvc5', '--tlimit={}'.format(EXT_S * 1000), '--full-saturate-quant']),
                              ('z3-4.8.12', ['z3', '-T:{}'.format(EXT_S)])):
                t1 = time.time()
                out = run_external(cmd, smt, EXT_S + 5)
                self.solver_time += time.time() - t1
                self.queries += 1
                if out == 'unsat':
                    return 'proved', None, name
                if out == 'sat' and not quant:
                    return 'refuted', None, name
        # a model of the quantifier-free part is a candidate for replay
        model = None
        if want_model:
            s2 = z3.Solver()
            s2.set('timeout', 3000)
            for c in self.pc:
                s2.add(c)
            if not has_quant(neg):
                s2.add(neg)
            if s2.check() == z3.sat:
                model = self.small_model(s2)
        return 'unknown', model, 'z3-5.3.2,cvc5-1.1.2,z3-4.8.12'

    def small_model(self, s):
        m = s.model()
        for top in (3, 12, 200):
            if not self.sizes:
                break
            s.push()
            s.set('timeout', 2000)
            for t in self.sizes:
                s.add(t <= top)
            try:
                if s.check() == z3.sat:
                    return s.model()
            finally:
                s.pop()
        return m

    def by_facts(self, c):
        """Whether c follows from the facts about its own terms"""
        s = z3.SimpleSolver()
        s.set('timeout', 1500)
        seen, stack = set(), [c]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            f = self.fact_of.get(i)
            if f is not None:
                s.add(f)
                stack.append(f)
            stack.extend(x.children())
        s.add(z3.Not(c))
        t0 = time.time()
        r = s.check()
        self.solver_time += time.time() - t0
        self.queries += 1
        return r == z3.unsat

    def prove(self, cond, name, alone=False):
        """Discharge an obligation at this point of the path (alone: first try without the path condition)."""
        if self.infer_depth:
            c = getattr(cond, 't', cond)
            if type(c) is bool:
                if not c:
                    raise PathEnd('obligation false during inference')
                return True
            self.add(c)
            return True
        self.oblig_ctr += 1
        key = (tuple(self.trail), name, self.oblig_ctr)
        if key in self.obligations:
            ob = self.obligations[key]
            c = getattr(cond, 't', cond)
            if type(c) is not bool and not alone:
                self.add(c)
            if ob.status != 'proved' and self.stop_on_fail:
                raise PathEnd('already failed')
            return ob.status == 'proved'
        t0 = time.time()
        inputs = None
        detail = ''
        if type(cond) is bool:
            if cond:
                status, solver = 'proved', 'evaluation'
            else:
                # the path itself may be infeasible
                st, model, solver = self.solve(z3.BoolVal(False))
                status = st
                inputs = self.extract(model)
        else:
            c = z3.simplify(getattr(cond, 't', cond))
            if z3.is_true(c):
                status, solver = 'proved', 'simplifier'
            elif alone and not has_quant(c) and self.by_facts(c):
                status, solver = 'proved', 'z3-5.3.2'
            else:
                status, model, solver = self.solve(c)
                if status != 'proved':
                    inputs = self.extract(model)
                    detail = str(c)[:2000]
        ob = Obligation(name, status, solver, time.time() - t0, inputs, detail)
        self.obligations[key] = ob
        if os.environ.get('PV_TRACE'):
            print('   [{}] {} {} {:.2f}s'.format(status, name, solver, ob.time), flush=True)
        if status == 'proved':
            c = getattr(cond, 't', cond)
            if type(c) is not bool:
                if not alone:
                    self.add(c)
            elif not c:
                raise PathEnd('infeasible path')
            return True
        if self.stop_on_fail:
            raise Failed(name)
        raise PathEnd('failed')

    def cover(self, name):
        """Reachability witness: the path condition must be satisfiable."""
        if self.infer_depth or self.covers.get(name) in ('sat', 'sat-qf'):
            return
        s = z3.Solver()
        s.set('timeout', 4000)
        for c in self.pc:
            s.add(c)
        for c in self.qpc:
            s.add(c)
        r = s.check()
        if r == z3.sat:
            self.covers[name] = 'sat'
        elif r == z3.unsat:
            self.covers.setdefault(name, None)
        else:
            s2 = z3.Solver()
            for c in self.pc:
                s2.add(c)
            s2.set('timeout', 3000)
            r = s2.check()
            # undecided: the driver asks the bounded search for an input which gets here
            self.covers[name] = 'sat-qf' if r == z3.sat else self.covers.get(name) if r == z3.unsat else 'unknown'

    def extract(self, model):
        if model is None:
            return None
        out = {}
        for name, (kind, conc) in self.inputs.items():
            try:
                out[name] = conc(model)
            except Exception as e:  # noqa
                out[name] = None
        return out

    # ---------------------------------------------------------------- driver
    def explore(self, fn, root=()):
        """Execute fn along every feasible decision sequence extending root."""
        saved = getattr(self, 'worklist', None)
        self.worklist = [root]
        try:
            while self.worklist:
                prefix = self.worklist.pop()
                self.run_path(fn, prefix)
        finally:
            self.worklist = saved

    def run_path(self, fn, prefix):
        while True:
            self.check_deadline()
            self._begin_path(prefix)
            try:
                fn()
                self.paths += 1
                return
            except PathEnd:
                self.paths += 1
                return
            except NeedLoop as n:
                trail = tuple(self.trail)
                n.loop.infer(self, fn, trail)
                self.touch_log = []
                # drop worklist duplicates created by this path before the loop:
                # the prefix is re-executed as it was, now up to the loop head
                prefix = trail
                continue

    # ----------------------------------------------------------- summaries
    def summarize(self, fn):
        """Execute a pure closure along all its branches: [(cond, value)]."""
        out = []
        work = [()]
        while work:
            prefix = work.pop()
            loc = Local(self, prefix, work)
            n, q = len(self.pc), len(self.qpc)
            self.local.append(loc)
            try:
                v = fn()
                out.append((list(loc.conds), v))
            except PathEnd:
                pass
            finally:
                self.local.pop()
                del self.pc[n:]
                del self.qpc[q:]
                if self.solver_n > n:
                    self.solver = None
                    self.solver_n = 0
            if len(out) > 600:
                raise Unsupported('summary too large')
        return out


class Local:
    """Decision bookkeeping of one path of a summarised closure."""

    def __init__(self, eng, prefix, work):
        self.eng = eng
        self.prefix = prefix
        self.work = work
        self.trail = []
        self.conds = []

    def decide(self, conds, tag=''):
        pos = len(self.trail)
        if pos < len(self.prefix):
            choice = self.prefix[pos]
        else:
            feas = [i for i, c in enumerate(conds) if c is None or self.eng.feasible(c)]
            if not feas:
                raise PathEnd('infeasible')
            choice = feas[0]
            for i in reversed(feas[1:]):
                self.work.append(tuple(self.trail) + (i,))
        self.trail.append(choice)
        if conds[choice] is not None:
            self.eng.add(conds[choice])
        return choice

    def concretize(self, term, limit):
        pos = len(self.trail)
        if pos < len(self.prefix):
            v = self.prefix[pos]
        else:
            vals = self.eng._enumerate(term, limit)
            if not vals:
                raise PathEnd('infeasible')
            v = vals[0]
            for w in reversed(vals[1:]):
                self.work.append(tuple(self.trail) + (w,))
        self.trail.append(v)
        self.eng.add(term == v)
        return v


def run_external(cmd, smt, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        if cmd[0] == 'cvc5':
            f.write('(set-logic ALL)\n')
        f.write(smt)
        name = f.name
    try:
        r = subprocess.run(cmd + [name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        out = r.stdout.decode(errors='replace').strip().splitlines()
        return out[0].strip() if out else 'error'
    except Exception:
        return 'timeout'
    finally:
        try:
            os.unlink(name)
        except OSError:
            pass


E = Engine()
