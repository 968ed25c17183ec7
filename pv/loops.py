"""Loop rule: inference and proof of loop invariants.

A loop over a series of symbolic length is executed once at a generic iteration k from a
head state given by closed forms of k ("slots"): affine forms, ghost functions supplied by
the unit, or the function V defined by the recurrence which the body itself computes.
Lists grow by an element function derived from the body.  The forms are guessed by probing
the body and are then proved: they hold at entry, and every path through the body leads
from the form at k to the form at k + 1.  What every completed iteration j < k implies
(its path condition) is available as a quantified fact.
"""
import z3
from .core import E, Unsupported, PathEnd, NeedLoop, Restart, PoisonUsed, has_quant
from .values import (SymInt, SymBool, SymReal, SymFloat, mk_bool, mk_int, tm, bt, is_sym, is_intlike, is_conc_int, subst, consts_of,
                     term_consts, simp, merge, rng, real, And, Or, Not, is_struct, struct_fields)
from .seq import (Seq, VList, TplSeq, FnSeq, ConcSeq, SliceSeq, Poison, as_seq, SymIter, concat, conc_len, veq, pure, retyped,
                  InfSeq, Cell)

I = z3.IntVal
UNROLL = 16


class _Unbound:
    def __repr__(self):
        return '<unbound>'


UNBOUND = _Unbound()


class LPoison(Poison):
    def __init__(self, loc, name):
        self.__dict__['loc'] = loc
        self.__dict__['why'] = '{} at {}'.format(name, loc)

    def _bad(self, *a, **k):
        raise PoisonUsed(self.__dict__['loc'], self.__dict__['why'])

    def _pv_subst(self, pairs):
        return self


for _n in ('add radd sub rsub mul rmul lt le gt ge eq ne bool iter len getitem call hash contains and rand or ror xor rxor '
           'lshift rshift floordiv mod truediv neg int index float').split():
    setattr(LPoison, '__%s__' % _n, LPoison._bad)


def is_poison(x):
    return isinstance(type(x), type) and issubclass(type(x), Poison)


def shape(v):
    t = type(v)
    if t is SymBool or t is bool:
        return 'bool'
    if t is SymReal or t is SymFloat or t is float:
        return 'real'
    if is_intlike(v):
        return 'int'
    if t is VList:
        return ('obj', id(v))
    if t is tuple:
        return ('tuple',) + tuple(shape(x) for x in v)
    if isinstance(t, type) and issubclass(t, Seq):
        return ('seq', v.pt)
    if t in (bytes, str):
        return ('seq', t)
    return ('obj', id(v))


def generic(v, base):
    """A fresh value of the same shape."""
    t = type(v)
    if t is SymBool or t is bool:
        return SymBool(E.const(base, z3.BoolSort()))
    if t is SymReal or t is float:
        return SymReal(E.const(base, z3.RealSort()))
    if is_intlike(v):
        return SymInt(E.const(base))
    if t is tuple:
        return tuple(generic(x, base) for x in v)
    return None


def same(a, b):
    """Syntactic identity of values."""
    if a is b:
        return True
    if is_poison(a) or is_poison(b):
        return False
    if is_intlike(a) and is_intlike(b):
        if (type(a) is SymBool or type(a) is bool) != (type(b) is SymBool or type(b) is bool):
            return False
        return z3.is_true(z3.simplify(tm(a) == tm(b)))
    if type(a) is SymReal or type(b) is SymReal:
        try:
            return z3.is_true(z3.simplify(real(a) == real(b)))
        except Unsupported:
            return False
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    if not is_sym(a) and not is_sym(b) and type(a) is type(b) and isinstance(a, (str, bytes, float, type(None))):
        return a == b
    return False


# ------------------------------------------------------------------ forms
class Unchanged:
    def head(self, k):
        return self.entry


class Lin:
    def __init__(self, d):
        self.d = d

    def value(self, entry, k, start):
        return simp(entry + self.d * (k - start)) if is_sym(entry + self.d * (k - start)) else entry + self.d * (k - start)


class Same(Lin):
    """Assigned, but always to the value it had."""

    def __init__(self):
        self.d = 0

    def value(self, entry, k, start):
        return entry


class Hint:
    def __init__(self, f):
        self.f = f

    def value(self, entry, k, start):
        return self.f(k)


class Rec:
    """V(k), defined by the recurrence of the body."""

    def __init__(self, proto, name):
        self.fns = None
        self.proto = proto
        self.name = name

    def value(self, entry, k, start):
        return self._val(self.proto, self.name, k)

    def _val(self, p, name, k):
        if type(p) is tuple:
            return tuple(self._val(x, '{}.{}'.format(name, i), k) for i, x in enumerate(p))
        sort = {'bool': z3.BoolSort(), 'int': z3.IntSort(), 'real': z3.RealSort()}[shape(p)]
        n = len(E.loop_ks)
        f = z3.Function(name, *([z3.IntSort()] * (n + 1) + [sort]))
        t = f(*(list(E.loop_ks) + [tm(k)]))
        return {'bool': SymBool, 'int': SymInt, 'real': SymReal}[shape(p)](t)


class Lost:
    def __init__(self, loc, name):
        self.p = LPoison(loc, name)

    def value(self, entry, k, start):
        return self.p


class Grow:
    """List: entry ++ per-iteration blocks of constant size."""

    def __init__(self, templates=None, kc=None):
        self.templates = templates
        self.kc = kc


def form_name(f):
    return type(f).__name__


class LoopRec:
    def __init__(self, key, loc):
        self.key = key
        self.loc = loc
        self.mode = 'probe'
        self.round = 0
        self.names = []
        self.heap = []            # oids
        self.forms = {}           # slot -> form
        self.tried = {}           # slot -> list of rejected form kinds
        self.hist = None          # list of (list of conds) per back-edge path, in terms of kc
        self.kc = None
        self.collected = []
        self.touched = set()
        self.invs = []


class Loop:
    def __init__(self, loc, it, names):
        self.loc = loc
        self.names = names
        self.symbolic = False
        self.cur = None
        self.count = 0
        self.start = 0
        self.src = None
        self.rec = None
        self.state = 'head'
        self.locs = None
        self.native = True
        if it is WHILE:
            self.seq = InfSeq(lambda i: i)
            self.native = loc not in E.cut_whiles
            if self.native:
                self.pyit = iter(int, 1)
            self.trail0 = len(E.trail)
            self.is_while = True
            if not self.native:
                self._open()
            return
        self.is_while = False
        t = type(it)
        if is_sym(it) or hasattr(t, '__iter__') and not isinstance(it, NATIVE_ITERABLES):
            if t is VList and it.base is None:
                self.pyit = iter(it)
                return
            if type(it) is SymIter:
                self.src = it
                self.pos0 = it.pos
                s = it.rest()
            else:
                s = as_seq(it)
            if s.n is not None:
                k = conc_len(s)
                if k is not None:
                    self.pyit = (s.at(i) for i in range(k)) if self.src is None else it
                    return
            self.native = False
            self.seq = s
            self._open()
            return
        self.pyit = iter(it)

    def _open(self):
        if E.local or E.pure:
            raise Unsupported('loop of symbolic length inside a specification')
        E.loop_count += 1
        self.path = E.loop_path + (E.loop_count,)
        self.outer = (list(E.loop_ks), E.loop_path, E.loop_count)

    # ------------------------------------------------------------ runtime
    def next(self, locs):
        if self.native:
            if self.is_while:
                self.count += 1
                if self.count > UNROLL and len(E.trail) - self.trail0 >= 12:
                    E.cut_whiles.add(self.loc)
                    raise Restart('while loop cut')
                return True
            try:
                self.cur = next(self.pyit)
                return True
            except StopIteration:
                return False
        if self.state == 'body':
            self.backedge(locs)
        if self.state == 'peeled':
            self.start += 1
            E.loop_ks, E.loop_path, E.loop_count = list(self.outer[0]), self.outer[1], self.outer[2] + self.start
            self.path = self.outer[1] + (E.loop_count,)
            self.state = 'head'
        n = self.seq.n
        if self.start < E.peel_locs.get(self.loc, 0):
            # execute one iteration for real
            if n is not None:
                if E.decide((tm(n) <= self.start, tm(n) > self.start)) == 0:
                    self.symbolic = False
                    return False
            self.k = self.start
            self.symbolic = False
            self.state = 'peeled'
            E.loop_path = self.path
            E.loop_count = 0
            return True
        key = (tuple(E.trail), self.path)
        rec = E.loops.get(key)
        if rec is None:
            raise NeedLoop(self)
        self.rec = rec
        self.locs = dict(locs)
        return self.enter(rec)

    def slots(self, rec):
        return [('n', x) for x in self.names] + [('h', o) for o in rec.heap]

    def get(self, slot, locs=None):
        if slot[0] == 'n':
            return (self.locs if locs is None else locs).get(slot[1], UNBOUND)
        return obj_by_oid(slot[1])

    def enter(self, rec):
        n = self.seq.n
        start = self.start
        self.n = n
        self.entry = {}
        for s in self.slots(rec):
            v = self.get(s)
            if s[0] == 'h':
                v = heap_state(v)
            self.entry[s] = v
        if rec.mode == 'probe':
            E.trail.append(('P', rec.round))
            it = True
        else:
            self.check_entry(rec)
            if n is None:
                it = True
                E.trail.append('I')
            else:
                kx = None
                # exit first, then the generic iteration
                it = E.decide((tm(n) >= start, tm(n) > start), 'loop') == 1
        kt = E.const('k')
        if it:
            k = SymInt(kt, start)
            E.add(kt >= start)
            if n is not None:
                E.add(kt < tm(n))
            hi = None if n is None else rng(n)[1]
            if hi is not None:
                k = SymInt(kt, start, hi - 1)
        else:
            k = n
            if not z3.is_expr(tm(n)) or True:
                pass
        self.k = k
        self.vals_ = []
        self.head_vals = {}
        for s in self.slots(rec):
            v = self.head_value(rec, s, k)
            self.head_vals[s] = v
            if s[0] == 'n':
                self.vals_.append(v)
            else:
                set_heap_state(obj_by_oid(s[1]), v)
        self.symbolic = True
        self.head_base = {s: heap_state(obj_by_oid(s[1])) for s in self.slots(rec) if s[0] == 'h'}
        self.assume_rec(rec, k)
        if it:
            self.state = 'body'
            E.loop_ks = list(self.outer[0]) + [kt]
            E.loop_path = self.path
            E.loop_count = 0
            self.pc0 = len(E.pc)
            self.qpc0 = len(E.qpc)
            self.oid0 = E.obj_ctr
            if rec.mode == 'probe':
                self.log = set()
                E.touch_log.append(self.log)
            return True
        self.state = 'done'
        if self.src is not None:
            self.src.pos = self.pos0 + n
        return False

    def head_value(self, rec, s, k):
        entry = self.entry[s]
        f = rec.forms.get(s)
        if f is None:
            return entry
        if isinstance(f, Grow):
            return self.grow_state(rec, f, entry, k)
        return f.value(entry, k, self.start)

    def grow_state(self, rec, f, entry, k):
        if f.templates is None:
            m = E.const('m')
            E.add(m >= 0)
            p = LPoison(rec.loc, 'element of a growing list')
            return concat([entry, FnSeq(SymInt(m, 0), lambda i: p)], entry.pt)
        c = len(f.templates)
        if c == 0:
            return entry
        cnt = simp(k - self.start) if type(k) is SymInt else k - self.start
        start = self.start
        if c == 1:
            body = TplSeq(cnt, f.kc, f.templates[0]) if start == 0 else \
                FnSeq(cnt, lambda i: subst(f.templates[0], [(f.kc, tm(i + start))]))
        else:
            def at(i):
                q, r = i // c, i % c
                v = subst(f.templates[c - 1], [(f.kc, tm(q + start))])
                for x in range(c - 2, -1, -1):
                    v = merge(bt(veq(r, x)), subst(f.templates[x], [(f.kc, tm(q + start))]), v)
                return v
            body = FnSeq(cnt * c, at)
        body.run = (cnt, lambda q: [subst(t, [(f.kc, tm(q + start))]) for t in f.templates])
        return concat([entry, body], entry.pt)

    def assume_rec(self, rec, k):
        """V(start) == entry; history of the completed iterations; invariants."""
        for s in self.slots(rec):
            f = rec.forms.get(s)
            if isinstance(f, Rec):
                E.assume(veq_strict(f.value(None, self.start, self.start), self.entry[s]))
        if rec.hist is not None and rec.hist_term is not None:
            j = z3.Int(E.fresh_name('h'))
            b = z3.substitute(rec.hist_term, (rec.kc, j))
            E.add(z3.ForAll([j], z3.Implies(z3.And(j >= self.start, j < tm(k)), b)))
        for name, g in rec.invs:
            E.assume(g(self, k))

    def vals(self):
        return tuple(self.vals_)

    def item(self):
        if self.native:
            return self.cur
        if self.src is not None:
            self.src.pos = self.pos0 + self.k + 1
        return self.seq.at(self.k)

    def brk(self):
        """The loop is left by break, return or raise."""
        if not self.native and self.rec is not None and self.rec.mode == 'probe' and self.state == 'body':
            raise PathEnd('left the probed loop')

    # ------------------------------------------------------------ back edge
    def backedge(self, locs):
        rec = self.rec
        if rec.mode == 'probe':
            after = {}
            for s in self.slots(rec):
                v = locs.get(s[1], UNBOUND) if s[0] == 'n' else heap_delta(obj_by_oid(s[1]), self.head_base[s])
                after[s] = v
            heads = dict(self.head_vals)
            rec.collected.append(dict(pc=list(E.pc[self.pc0:]), qpc=list(E.qpc[self.qpc0:]), after=after, heads=heads,
                                      k=self.k, start=self.start, entry=self.entry, pcs=list(E.pc)))
            for o in self.log:
                if o <= self.oid0:
                    rec.touched.add(o)
            E.loop_ks = list(self.outer[0])
            self.assume_step(rec, after)
            # are closed forms preserved on this path?
            rec.preserved = getattr(rec, 'preserved', {})
            for s in self.slots(rec):
                f = rec.forms.get(s)
                if isinstance(f, (Lin, Hint)):
                    want = f.value(self.entry[s], self.k + 1, self.start)
                    ok = False
                    try:
                        c = veq_strict(after[s], want)
                        ok = c is True or (type(c) is not bool and (E.valid_quick(bt(c)) or
                                                                       E.solve(bt(c), timeout=3000, want_model=False, ext=False)[0] == 'proved'))
                    except (Unsupported, PoisonUsed):
                        ok = False
                    if not ok:
                        rec.preserved[s] = False
            for i, (name, g) in enumerate(rec.invs):
                c = g(self, self.k + 1)
                if not (c is True or (type(c) is not bool and
                                      E.solve(bt(c), timeout=3000, want_model=False, ext=False)[0] == 'proved')):
                    rec.preserved[('inv', name)] = False
            raise PathEnd('probe')
        for s in self.slots(rec):
            f = rec.forms.get(s)
            if s[0] == 'n':
                v = locs.get(s[1], UNBOUND)
            else:
                v = heap_delta(obj_by_oid(s[1]), self.head_base[s])
            self.prove_preserved(rec, s, f, v)
        if rec.invs:
            E.loop_ks = list(self.outer[0])
            self.assume_step(rec, {s: locs.get(s[1], UNBOUND) if s[0] == 'n' else heap_delta(obj_by_oid(s[1]), self.head_base[s])
                                   for s in self.slots(rec)})
        for name, g in rec.invs:
            E.prove(g(self, self.k + 1), 'loop {}: invariant {} preserved'.format(self.loc, name))
        raise PathEnd('back edge')

    def assume_step(self, rec, after):
        """V(k + 1) is the value after iteration k, by definition."""
        for s, f in rec.forms.items():
            if isinstance(f, Rec):
                try:
                    E.assume(veq_strict(f.value(None, self.k + 1, None), after[s]))
                except Unsupported:
                    pass

    def prove_preserved(self, rec, s, f, v):
        what = 'loop {}: value of {} after an iteration'.format(self.loc, s[1] if s[0] == 'n' else 'object')
        if f is None:
            if s[0] == 'n':
                if not same(v, self.entry[s]) and v is not self.entry[s]:
                    E.prove(veq_strict(v, self.entry[s]), what)
            elif is_cell(s):
                if not same(v, self.entry[s]):
                    E.prove(veq_strict(v, self.entry[s]), what)
            elif v is not None and v != []:
                E.prove(False, what)
            return
        if isinstance(f, Lost):
            return
        if isinstance(f, Grow):
            if v is None or len(v) != len(f.templates):
                E.prove(False, what)
                return
            for x, t in zip(v, f.templates):
                w = subst(t, [(f.kc, tm(self.k))])
                if same(x, w):
                    E.prove(True, what)
                else:
                    E.prove(deep_eq(x, w), what)
            return
        if isinstance(f, Rec):
            E.prove(rec_covered(rec, self), what + ' (recurrence)') if False else None
            return
        E.prove(veq_strict(v, f.value(self.entry[s], self.k + 1, self.start)), what)

    def check_entry(self, rec):
        for s in self.slots(rec):
            f = rec.forms.get(s)
            if isinstance(f, (Lin, Hint)):
                E.prove(veq_strict(self.entry[s], f.value(self.entry[s], self.start, self.start)),
                        'loop {}: initial value'.format(self.loc))
        for s in self.slots(rec):
            f = rec.forms.get(s)
            if isinstance(f, Rec):
                E.assume(veq_strict(f.value(None, self.start, self.start), self.entry[s]))     # by definition
        for name, g in rec.invs:
            E.prove(g(self, self.start), 'loop {}: invariant {} initially'.format(self.loc, name))

    # ------------------------------------------------------------ inference
    def infer(self, eng, fn, trail):
        key = (trail, self.path)
        rec = LoopRec(key, self.loc)
        eng.loops[key] = rec
        saved_path = None
        eng.infer_depth += 1
        try:
            self._infer(eng, rec, fn, trail)
        finally:
            eng.infer_depth -= 1
        rec.mode = 'final'

    def probe(self, eng, rec, fn, trail):
        rec.round += 1
        rec.collected = []
        rec.preserved = {}
        eng.explore(fn, trail + (('P', rec.round),))
        eng.loop_ks = list(self.outer[0])

    def _infer(self, eng, rec, fn, trail):
        locs_entry = None
        rec.hist = None
        rec.hist_term = None
        rec.keep_hist = False
        # round 1: everything assigned in the body is unknown of the shape it has at entry
        entry = self._entry_values(eng, rec, fn, trail)
        rec.forms = {s: self._first_form(rec, s, v) for s, v in entry.items()}
        hints = list(eng.hints)
        rejected = {}
        for rnd in range(60):
            n_heap = len(rec.heap)
            rec.hist = None
            rec.hist_term = None
            self.probe(eng, rec, fn, trail)
            new = [o for o in sorted(rec.touched) if o not in rec.heap]
            if new:
                rec.heap += new
                entry = self._entry_values(eng, rec, fn, trail)
                for o in new:
                    rec.forms[('h', o)] = self._first_form(rec, ('h', o), entry.get(('h', o)))
                continue
            changed = False
            for s in list(rec.forms):
                nf = self._next_form(eng, rec, s, rejected.setdefault(s, set()), hints)
                if nf is not KEEP:
                    rec.forms[s] = nf
                    changed = True
                    break_all = isinstance(nf, Rec)
            bad = [nm for nm, g in rec.invs if rec.preserved.get(('inv', nm)) is False]
            if bad:
                rec.invs = [(nm, g) for nm, g in rec.invs if nm not in bad]
                changed = True
            if not changed:
                if rnd < 50 and not getattr(rec, 'invs_added', False):
                    rec.invs_added = True
                    cand = self._candidates(eng, rec)
                    if cand:
                        rec.invs = cand
                        self._build_history(rec)       # history is needed to prove invariants
                        self._houdini(eng, rec, fn, trail)
                        names = {nm for nm, g in rec.invs}
                        same = [s for s in rec.forms if '{} == entry'.format(s) in names or
                                '{} >= entry'.format(s) in names and '{} <= entry'.format(s) in names]
                        if same:
                            invs, forms = rec.invs, dict(rec.forms)
                            for s in same:
                                rec.forms[s] = Same()
                            rec.invs = [(nm, g) for nm, g in invs if not any(nm.startswith('{} '.format(s)) for s in same)]
                            self.probe(eng, rec, fn, trail)
                            if any(v is False for v in rec.preserved.values()):
                                rec.invs, rec.forms = invs, forms
                                self.probe(eng, rec, fn, trail)
                break
        else:
            raise Unsupported('loop at {}: no stable invariants'.format(self.loc))
        rec.keep_hist = True
        self._build_history(rec)

    def _houdini(self, eng, rec, fn, trail):
        # entry
        def at_entry(loop, invs):
            ok = []
            for nm, g in invs:
                try:
                    c = g(loop, loop.start)
                    if c is True or (type(c) is not bool and E.solve(bt(c), timeout=2000, want_model=False, ext=False)[0] == 'proved'):
                        ok.append((nm, g))
                except (Unsupported, PoisonUsed):
                    pass
            return ok
        rec.entry_filter = at_entry
        self._entry_values(eng, rec, fn, trail)
        rec.entry_filter = None
        for _ in range(12):
            if not rec.invs:
                return
            h, t = rec.hist, rec.hist_term
            self.probe(eng, rec, fn, trail)
            bad = {nm for nm, g in rec.invs if rec.preserved.get(('inv', nm)) is False}
            if not bad:
                return
            rec.invs = [(nm, g) for nm, g in rec.invs if nm not in bad]

    def _candidates(self, eng, rec):
        out = []
        for s, f in rec.forms.items():
            if isinstance(f, Rec) and shape(f.proto) == 'int':
                def mk(s, f):
                    ent = lambda lp: lp.entry[s]
                    v = lambda k: f.value(None, k, None)
                    out.append(('{} >= entry'.format(s), lambda lp, k: v(k) >= ent(lp)))
                    out.append(('{} <= entry'.format(s), lambda lp, k: v(k) <= ent(lp)))
                    out.append(('{} >= 0'.format(s), lambda lp, k: v(k) >= 0))
                    out.append(('{} >= k'.format(s), lambda lp, k: v(k) >= k))
                    out.append(('{} increases'.format(s), lambda lp, k: monotone(lp, v, k, lambda a, b: a <= b)))
                    src = self._sources(rec, s, f)
                    if src:
                        out.append(('{} is its entry value or one of the iterations'.format(s), lambda lp, k: one_of(lp, ent(lp), v, k, src)))
                    out.append(('{} decreases'.format(s), lambda lp, k: monotone(lp, v, k, lambda a, b: a >= b)))
                mk(s, f)
            if isinstance(f, Rec) and shape(f.proto) == 'bool':
                def mk3(s, f):
                    out.append(('{} == entry'.format(s), lambda lp, k: veq_strict(f.value(None, k, None), lp.entry[s])))
                mk3(s, f)
            if isinstance(f, Rec) and shape(f.proto) == 'real':
                def mk2(s, f):
                    v = lambda k: f.value(None, k, None)
                    out.append(('{} >= entry'.format(s), lambda lp, k: v(k) >= lp.entry[s]))
                    out.append(('{} <= 1'.format(s), lambda lp, k: v(k) <= 1))
                mk2(s, f)
        for nm, g in eng.inv_hints if hasattr(eng, 'inv_hints') else []:
            out.append((nm, g))
        return out

    def _sources(self, rec, s, f):
        """Terms of the iteration which may become the value of the variable (if these are the only changes of it)."""
        out = []
        for p in rec.collected:
            a = p['after'].get(s)
            if not is_intlike(a):
                return None
            kt = p['k'].t
            stack = [tm(a)]
            while stack:
                t = stack.pop()
                if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                    stack += t.children()[1:]
                    continue
                if t.eq(tm(p['heads'][s])):
                    continue
                names = set()
                term_consts(t, names)
                if any(isinstance(g, Rec) and any(n == g.name or n.startswith(g.name + '.') for n in names) for g in rec.forms.values()):
                    return None
                if not any(t.eq(x) and kt.eq(y) for x, y in out):
                    out.append((t, kt))
        return out if 0 < len(out) <= 3 else None

    def _entry_values(self, eng, rec, fn, trail):
        """Replay to the loop head and capture the entry values."""
        box = {}
        rec.capture = box

        def go():
            fn()
        old = rec.mode
        rec.mode = 'capture'
        try:
            eng._begin_path(trail)
            try:
                Loop._capturing = (rec, box)
                fn()
            except Captured:
                pass
            finally:
                Loop._capturing = None
        finally:
            rec.mode = old
        if 'entry' not in box:
            raise Unsupported('loop head not reached again')
        return box['entry']

    def _first_form(self, rec, s, v):
        if s[0] == 'h' and not is_cell(s):
            if isinstance(v, Seq):
                return Grow()
            return None
        if is_poison(v) or v is UNBOUND or v is None:
            return Lost(rec.loc, s[1])
        try:
            simple = shape_ok(v)
        except Unsupported:
            simple = False
        if simple:
            return Rec(v, 'V!{}!{}!{}'.format(s[1], '.'.join(map(str, self.path)), abs(hash(rec.key)) % 10 ** 9))
        return MAYBE_SAME

    def _next_form(self, eng, rec, s, rejected, hints):
        f = rec.forms[s]
        paths = rec.collected
        if not paths:
            return KEEP
        if isinstance(f, Grow):
            lens = {None if p['after'][s] is None else len(p['after'][s]) for p in paths}
            if lens == {0}:
                return None if s[0] == 'h' and False else (KEEP if f.templates == [] else Grow([], None))
            if None in lens:
                raise Unsupported('loop at {}: list modified other than by appending'.format(self.loc))
            if len(lens) > 1:
                raise Unsupported('loop at {}: list grows by a varying number of elements'.format(self.loc))
            kc = z3.Int('kc!{}'.format('.'.join(map(str, self.path))))
            tpl = []
            m = lens.pop()
            for x in range(m):
                vals = [(p, subst(p['after'][s][x], [(p['k'].t, kc)])) for p in paths]
                tpl.append(merge_paths(vals, kc))
            if f.templates is not None and len(f.templates) == m and all(same_deep(a, b) for a, b in zip(f.templates, tpl)):
                return KEEP
            f.rounds = getattr(f, 'rounds', 0) + 1
            if f.rounds > 6:
                if f.templates is not None and len(f.templates) == m:
                    return KEEP        # equality is proved at the back edge
                raise Unsupported('loop at {}: element function does not stabilise'.format(self.loc))
            g = Grow(tpl, kc)
            g.rounds = f.rounds
            return g
        afters = [p['after'][s] for p in paths]
        heads = [p['heads'].get(s) for p in paths]
        if f is None:
            return KEEP
        if f is MAYBE_SAME:
            if all(a is p['entry'][s] or same(a, p['entry'][s]) for a, p in zip(afters, paths)):
                return None
            return Lost(rec.loc, s[1])
        if isinstance(f, Lost):
            e = paths[0]['entry'][s]
            if e is not UNBOUND and not is_poison(e) and 'same' not in rejected and \
                    all(a is e or a is p['heads'][s] for a, p in zip(afters, paths)):
                return None
            return KEEP
        if isinstance(f, (Lin, Hint)):
            if rec.preserved.get(s) is False:
                rejected.add(id(f) if isinstance(f, Hint) else 'lin')
                return self._guess(rec, s, rejected, hints, paths)
            return KEEP
        if isinstance(f, Rec):
            if any(shape(a) != shape(f.proto) for a in afters):
                return Lost(rec.loc, s[1])
            if all(same(a, h) for a, h in zip(afters, heads)):
                return None
            if getattr(f, 'final', False):
                return KEEP
            g = self._guess(rec, s, rejected, hints, paths)
            return g
        return KEEP

    def _guess(self, rec, s, rejected, hints, paths):
        proto = paths[0]['entry'][s]
        if shape(proto) == 'int':
            f = rec.forms[s]
            if 'lin' not in rejected and isinstance(f, Rec):
                ds = []
                for p in paths:
                    d = z3.simplify(tm(p['after'][s]) - tm(p['heads'][s]))
                    ds.append(d)
                d0 = ds[0]
                if all(z3.is_true(z3.simplify(d == d0)) for d in ds):
                    cs = term_consts(d0, set())
                    kn = paths[0]['k'].t
                    if closed(cs, rec, paths[0], kn):
                        rejected.add('lin')
                        return Lin(mk_int(d0))
            for h in hints:
                if id(h) in rejected:
                    continue
                rejected.add(id(h))
                hf = Hint(h)
                return hf
        r = Rec(proto, 'V!{}!{}!{}'.format(s[1], '.'.join(map(str, self.path)), abs(hash(rec.key)) % 10 ** 9))
        r.final = True
        if isinstance(rec.forms[s], Rec):
            rec.forms[s].final = True
            return KEEP
        return r

    def _build_history(self, rec):
        paths = rec.collected
        rec.hist = True
        kc = z3.Int('kh!{}'.format('.'.join(map(str, self.path))))
        rec.kc = kc
        alts = []
        for p in paths:
            kt = p['k'].t
            cs = []
            for c in p['pc'] + p['qpc']:
                if c.get_id() not in E.axiom_ids:
                    cs.append(c)
            for s, f in rec.forms.items():
                if isinstance(f, Rec):
                    try:
                        eq = veq_strict(f.value(None, p['k'] + 1, None), p['after'][s])
                    except Unsupported:
                        continue
                    if type(eq) is not bool:
                        cs.append(bt(eq))
            for nm, g in rec.invs:
                if rec.keep_hist:
                    cs.append(bt(g(_Entry(p['entry'], p['start']), p['k'])))
            # remove bounds on k, which the quantifier supplies
            cs = [z3.simplify(c) for c in cs]
            cs = [c for c in cs if not z3.is_true(c)]
            cs = [z3.substitute(c, (kt, kc)) for c in cs]
            alts.append(z3.And(*cs) if len(cs) > 1 else (cs[0] if cs else z3.BoolVal(True)))
        if not alts:
            rec.hist_term = z3.BoolVal(False)      # no iteration is ever completed
            return
        t = alts[0] if len(alts) == 1 else z3.Or(*alts)
        rec.hist_term = None if z3.is_true(t) else t


def monotone(lp, v, k, le):
    """All values before the k-th compare to it."""
    j = z3.Int('j!mono')
    return SymBool(z3.ForAll([j], z3.Implies(z3.And(j >= lp.start, j < tm(k)), bt(pure(lambda: le(v(SymInt(j)), v(k)))))))


def one_of(lp, entry, v, k, src):
    j = z3.Int('j!source')
    vk = tm(v(k))
    return SymBool(z3.Or(vk == tm(entry), z3.Exists([j], z3.And(j >= lp.start, j < tm(k),
                                                                z3.Or([vk == z3.substitute(t, (kt, j)) for t, kt in src])))))


class _Entry:
    def __init__(self, entry, start):
        self.entry = entry
        self.start = start


KEEP = object()


class _MaybeSame:
    def value(self, entry, k, start):
        return entry


MAYBE_SAME = _MaybeSame()
WHILE = object()
NATIVE_ITERABLES = (list, tuple, dict, set, frozenset, str, bytes, range, bytearray, map, zip, filter, enumerate, reversed)


class Captured(PathEnd):
    pass


Loop._capturing = None
_old_enter = Loop.enter


def _enter(self, rec):
    if rec.mode == 'capture':
        ent = {}
        for s in self.slots(rec):
            v = self.get(s)
            ent[s] = heap_state(v) if s[0] == 'h' else v
        self.entry = ent
        rec.capture['entry'] = ent
        if getattr(rec, 'entry_filter', None):
            # evaluate the candidate invariants at entry
            for s in self.slots(rec):
                f = rec.forms.get(s)
                if isinstance(f, Rec):
                    E.assume(veq_strict(f.value(None, self.start, self.start), self.entry[s]))
            rec.invs = rec.entry_filter(self, rec.invs)
        raise Captured()
    return _old_enter(self, rec)


Loop.enter = _enter


def shape_ok(v):
    sh = shape(v)
    if sh in ('bool', 'int', 'real'):
        return True
    if type(v) is tuple:
        return all(shape_ok(x) for x in v)
    return False


def closed(cs, rec, p, kn):
    """Only symbols which exist before the loop."""
    names = set()
    term_consts(kn, names)
    for c in cs:
        if c in names:
            return False
        if c.startswith('V!') and any(isinstance(f, Rec) and c.startswith(f.name) for f in rec.forms.values()):
            return False
        if '!L' in c and c.split('!L')[1].split('!')[0].startswith('.'.join(map(str, rec.key[1]))):
            return False
        if c.startswith('kc!') or c.startswith('kh!'):
            return False
    return True


def merge_paths(vals, kc):
    v0 = vals[0][1]
    if all(same_deep(v, v0) for _, v in vals[1:]):
        return v0
    # a decision tree over the path conditions
    out = vals[-1][1]
    # in every completed iteration one of the conditions holds: what they share need not be asked
    pcs = [[z3.substitute(x, (p['k'].t, kc)) for x in p['pc']] for p, _ in vals]
    shared = set.intersection(*[{x.get_id() for x in pc} for pc in pcs])
    for (p, v), pc in reversed(list(zip(vals[:-1], pcs))):
        facts = E.fact_ids
        pc = [x for x, x0 in zip(pc, p['pc']) if x.get_id() not in shared and x0.get_id() not in facts]
        c = z3.And(*pc) if len(pc) > 1 else pc[0] if pc else z3.BoolVal(True)
        out = strict_merge(c, v, out)
    return out


def strict_merge(c, a, b):
    if same_deep(a, b):
        return a
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        return tuple(strict_merge(c, x, y) for x, y in zip(a, b))
    if type(a) is slice and type(b) is slice:
        return slice(*strict_merge(c, (a.start, a.stop, a.step), (b.start, b.stop, b.step)))
    E.pure += 1
    try:
        return merge(c, a, b)
    finally:
        E.pure -= 1


def same_deep(a, b):
    if same(a, b):
        return True
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        return all(same_deep(x, y) for x, y in zip(a, b))
    if isinstance(a, Seq) and isinstance(b, Seq) or (type(a) is VList and type(b) is VList):
        sa, sb = as_seq(a), as_seq(b)
        if not same(sa.n, sb.n):
            return False
        if is_conc_int(sa.n) and int(sa.n) <= 400:
            return all(same_deep(sa.at(i), sb.at(i)) for i in range(int(sa.n)))
        c = SymInt(z3.Int('sd!probe'), 0)
        return same_deep(pure(lambda: sa.at(c)), pure(lambda: sb.at(c)))
    if type(a) is slice and type(b) is slice:
        return same_deep((a.start, a.stop, a.step), (b.start, b.stop, b.step))
    if type(a) is type(b) and is_struct(a):
        fa, fb = struct_fields(a), struct_fields(b)
        return fa.keys() == fb.keys() and all(same_deep(x, fb[k]) for k, x in fa.items())
    return False


def deep_eq(a, b):
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        return And(*[deep_eq(x, y) for x, y in zip(a, b)])
    if type(a) is type(b) and is_struct(a):
        fa, fb = struct_fields(a), struct_fields(b)
        if fa.keys() != fb.keys():
            return False
        return And(*[deep_eq(x, fb[k]) for k, x in fa.items()])
    return veq_strict(a, b)


def veq_strict(a, b):
    if is_poison(a) or is_poison(b):
        return a is b
    r = veq(a, b)
    return r


def is_cell(s):
    return s[0] == 'h' and type(obj_by_oid(s[1])) is Cell


def obj_by_oid(oid):
    o = E.objs.get(oid)
    if o is None:
        raise Unsupported('object not found')
    return o


def heap_state(o):
    if type(o) is VList:
        return o.snap()
    m = getattr(type(o), '_pv_heap_get', None)
    if m is not None:
        return m(o)
    raise Unsupported('modification of {} in a loop of symbolic length'.format(type(o).__name__))


def set_heap_state(o, v):
    if type(o) is VList:
        o.base = v
        o.tail = []
        return
    o._pv_heap_set(v)


def heap_delta(o, head):
    """What was appended since the head (None if changed otherwise)."""
    if type(o) is VList:
        if o.base is head:
            return list(o.tail)
        return None
    return o._pv_heap_delta(head)
