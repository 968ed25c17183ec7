"""Proof of one verification unit: run by the driver in its own process."""
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PV_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.append('/opt/venv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)

import z3  # noqa
from pv.core import E, PathEnd, Restart, PoisonUsed, Unsupported, Failed, NeedLoop  # noqa
from pv import values, seq, loops, shims, files  # noqa
from pv.values import SymInt, SymBool, SymFloat, mk_bool, tm, bt, simp, is_conc_int  # noqa
from pv.seq import FnSeq, as_seq, sym_bytes  # noqa
from pv.transform import Finder  # noqa
from pv.conc import Base, Outcome, encode, known_ids, load_units  # noqa

FINDER = Finder({'segpy': os.path.join(REPO, 'segpy'),
                 'segpy_numpy': os.path.join(REPO, 'segpy-ext/segpy_numpy/segpy_numpy'),
                 'units': os.path.join(HERE, 'units')}, shims.HELPERS)
sys.meta_path.insert(0, FINDER)


FUNCTION = type(lambda: 0)


class LinesText:
    """A text known by its lines: the contract of str.splitlines"""
    _pv_sym = True

    def __init__(self, lines):
        self.lines = lines

    def splitlines(self, keepends=False):
        if keepends:
            raise Unsupported('splitlines(keepends=True)')
        return seq.VList(self.lines) if type(self.lines) is list else seq.VList(base=as_seq(self.lines))


class ProveEnv(Base):
    proving = True

    def __init__(self, tier):
        self.tier = tier

    def _int_input(self, name, t):
        E.inputs[name] = ('int', lambda m: m.eval(t, model_completion=True).as_long())

    def int(self, name, lo=None, hi=None):
        t = z3.Int(name)
        if lo is not None:
            E.add(t >= tm(lo))
        if hi is not None:
            E.add(t <= tm(hi))
        self._int_input(name, t)
        lo_ = int(lo) if lo is not None and is_conc_int(lo) else None
        hi_ = int(hi) if hi is not None and is_conc_int(hi) else None
        if lo_ is None and lo is not None and type(lo) is SymInt:
            lo_ = lo.lo
        if hi_ is None and hi is not None and type(hi) is SymInt:
            hi_ = hi.hi
        return SymInt(t, lo_, hi_)

    def size(self, name, lo=0, hi=None):
        v = self.int(name, lo, hi)
        E.sizes.append(v.t)
        return v

    def bool(self, name):
        t = z3.Bool(name)
        E.inputs[name] = ('bool', lambda m: z3.is_true(m.eval(t, model_completion=True)))
        return SymBool(t)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            i = 0
        else:
            i = E.decide([None] * len(options), name)
        E.inputs[name] = ('choice', lambda m, i=i: i)
        return options[i]

    def _elements(self, name, n, conv, limit=5000):
        f = z3.Function(name, z3.IntSort(), z3.IntSort())

        def conc(m):
            k = n if is_conc_int(n) else m.eval(tm(n), model_completion=True).as_long()
            if k > limit:
                raise ValueError('too long')
            return conv([m.eval(f(z3.IntVal(i)), model_completion=True).as_long() for i in range(int(k))])
        return conc

    def seq(self, name, n, lo=None, hi=None):
        f = z3.Function(name, z3.IntSort(), z3.IntSort())
        E.inputs[name] = ('seq', self._elements(name, n, list))
        if lo is None and hi is None:
            return FnSeq(n, lambda i: SymInt(f(tm(i))), list)
        return sym_bytes(name, n, lo, hi, list)

    def bytes(self, name, n, lo=0, hi=255):
        E.inputs[name] = ('bytes', self._elements(name, n, lambda xs: bytes(min(hi, max(lo, x)) for x in xs)))
        return sym_bytes(name, n, lo, hi, bytes)

    def str(self, name, n, lo=32, hi=126):
        E.inputs[name] = ('str', self._elements(name, n, lambda xs: ''.join(chr(min(hi, max(lo, x))) for x in xs)))
        return sym_bytes(name, n, lo, hi, str)

    def strs(self, name, n, least=0, most=None, lo=32, hi=126):
        """n strings of length least .. most (prove mode: any length from least on unless most is given for both modes)"""
        f = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.IntSort())
        g = z3.Function('len ' + name, z3.IntSort(), z3.IntSort())

        def conc(m):
            k = n if is_conc_int(n) else m.eval(tm(n), model_completion=True).as_long()
            if k > 500:
                raise ValueError('too long')
            out = []
            for i in range(int(k)):
                c = m.eval(g(z3.IntVal(i)), model_completion=True).as_long()
                if c > 5000:
                    raise ValueError('too long')
                out.append(''.join(chr(min(hi, max(lo, m.eval(f(z3.IntVal(i), z3.IntVal(j)), model_completion=True).as_long())))
                                   for j in range(c)))
            return out
        E.inputs[name] = ('strs', conc)
        i, j = z3.Ints('i!strs j!strs')
        E.add_global(z3.ForAll([i, j], z3.And(f(i, j) >= lo, f(i, j) <= hi), patterns=[f(i, j)]))
        E.add_global(z3.ForAll([i], g(i) >= least if most is None else z3.And(g(i) >= least, g(i) <= most), patterns=[g(i)]))

        def line(k):
            t = g(tm(k))
            if not E.pure:
                E.add_fact(t, t >= least if most is None else z3.And(t >= least, t <= most), True)
            c = SymInt(t, least, most) if most != least else least

            def char(q):
                u = f(tm(k), tm(q))
                if not E.pure:
                    E.add_fact(u, z3.And(u >= lo, u <= hi), True)
                return SymInt(u, lo, hi)
            return FnSeq(c, char, str)
        return FnSeq(n, line, list)

    def text(self, n, f, ghost=None):
        """The text of n characters whose code points are f(0), f(1), ..."""
        s = FnSeq(n, f, str)
        s.ghost = ghost
        return s

    def blocks(self, n, f, given=None):
        """n pieces of content f(0), f(1), ... (given: what is known of each of them, shown here)"""
        if given is not None:
            E.prove(bt(seq.forall(n, given)), 'what is known of each block')
        return files.Blocks(n, f, given)

    def flat(self, n, size, f):
        """The bytes f(0, 0), f(0, 1), ..., f(0, size - 1), f(1, 0), ..."""
        return shims.FlatSeq(n, lambda q: FnSeq(size, lambda j: f(q, j), bytes), size, bytes)

    def same_content(self, fh, parts):
        return files.same_content(fh, parts)

    def check_content(self, fh, parts, name):
        """fh consists of the parts"""
        files.same_content(fh, parts, name)

    def joined_lines(self, lines):
        """The text of the given lines (none of which holds a line boundary)"""
        return LinesText(lines)

    def ghost(self, x):
        return getattr(x, 'ghost', None)

    def define(self, name, f):
        """A predicate of an integer with a name of its own, defined as f"""
        P = z3.Function(name, z3.IntSort(), z3.BoolSort())
        j = z3.Int('j!def')
        body = bt(seq.pure(lambda: f(SymInt(j))))
        E.add_global(z3.ForAll([j], P(j) == body, patterns=[P(j)]))
        return lambda t: SymBool(P(tm(t)))

    def pages(self, name, n, lo=32, hi=126, proper=False):
        """n lists of any number of texts of any length, or of 40 texts of 80 characters each"""
        I = z3.IntSort()
        f = z3.Function(name, I, I, I, I)
        g = z3.Function('len ' + name, I, I, I)
        h = z3.Function('lines of ' + name, I, I)

        def conc(m):
            ev = lambda t: m.eval(t, model_completion=True).as_long()
            size = lambda t: ev(t) if ev(t) <= 300 else 1 / 0
            return [[''.join(chr(min(hi, max(lo, ev(f(p, l, j))))) for j in range(80 if proper else size(g(z3.IntVal(p), z3.IntVal(l)))))
                     for l in range(40 if proper else size(h(z3.IntVal(p))))] for p in range(size(tm(n)))]
        E.inputs[name] = ('pages', conc)
        i, j, k = z3.Ints('i!pages j!pages k!pages')
        E.add_global(z3.ForAll([i, j, k], z3.And(f(i, j, k) >= lo, f(i, j, k) <= hi), patterns=[f(i, j, k)]))
        E.add_global(z3.ForAll([i, j], g(i, j) >= 0, patterns=[g(i, j)]))
        E.add_global(z3.ForAll([i], h(i) >= 0, patterns=[h(i)]))

        def number(t, lo, hi=None):
            if not E.pure:
                E.add_fact(t, t >= lo if hi is None else z3.And(t >= lo, t <= hi), True)
            return SymInt(t, lo, hi)

        def line(p, l):
            return FnSeq(80 if proper else number(g(tm(p), tm(l)), 0), lambda j: number(f(tm(p), tm(l), tm(j)), lo, hi), str)
        return FnSeq(n, lambda p: FnSeq(40 if proper else number(h(tm(p)), 0), lambda l: line(p, l), list), list)

    def encoded(self, c, encoding):
        """The code of a character (given by its code point) in an encoding"""
        return shims.enc_char(c, shims.norm_encoding(encoding))

    def decoded(self, b, encoding):
        return shims.dec_byte(b, shims.norm_encoding(encoding))

    def assume(self, c):
        E.assume(c)

    def check(self, c, name, detail=''):
        if not isinstance(c, bool) and type(c) is not SymBool:
            c = bool(c)
        E.prove(c, name)

    def fail(self, name):
        E.prove(False, name)

    def cover(self, name):
        E.cover(name)

    def known(self, fid):
        return fid in known_ids()

    def call(self, f, *a, **k):
        try:
            return Outcome(shims.pv_call(f, *a, **k))
        except Exception as e:
            if os.environ.get('PV_DEBUG') == '3' and not E.infer_depth:
                traceback.print_exc()
            return Outcome(exc=e)

    And = staticmethod(values.And)
    Or = staticmethod(values.Or)
    Not = staticmethod(values.Not)
    Iff = staticmethod(values.Iff)
    def If(self, c, a, b):
        if type(c) is bool:
            r = a if c else b
            return r() if type(r) is FUNCTION else r
        return values.If(c, a() if type(a) is FUNCTION else a, b() if type(b) is FUNCTION else b)

    def Implies(self, a, b):
        if callable(b) and type(b) is not SymBool:
            if a is False:
                return True
            b = b()
        return values.Implies(a, b)

    def forall(self, n, f):
        return seq.forall(n, f)

    def exists(self, n, f):
        return values.Not(seq.forall(n, lambda i: values.Not(f(i))))

    def at(self, s, i):
        return as_seq(s).at(i)

    def ord(self, s, i):
        return shims.ordv(as_seq(s).at(i))

    def length(self, s):
        return as_seq(s).n

    def eq(self, a, b):
        return seq.veq(a, b)

    def same_seq(self, a, b):
        a, b = as_seq(a), as_seq(b)
        e = seq.veq(a.n, b.n)
        if e is False:
            return False
        return values.And(e, seq.forall(a.n, lambda i: seq.veq(a.at(i), b.at(i))))

    def some(self, name, n, f):
        w = E.const('w')
        if E.decide((z3.And(w >= 0, w < tm(n), bt(seq.pure(lambda: f(SymInt(w, 0))))),
                     bt(seq.forall(n, lambda j: values.Not(f(j)))))) == 0:
            return SymInt(w, 0)
        return None

    def sum(self, n, f):
        from pv.loops import Rec
        S = z3.Function(E.fresh_name('sum'), z3.IntSort(), z3.IntSort())
        j = z3.Int('j!sum')
        term = lambda t: tm(seq.pure(lambda: f(SymInt(t, 0))))
        E.add(S(0) == 0)
        E.add(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < tm(n)), S(j + 1) == S(j) + term(j)), patterns=[S(j + 1)]))
        # a loop which adds up the same terms has the same sum (induction)
        for rec in list(E.loops.values()):
            if rec.mode != 'final' or tuple(E.trail[:len(rec.key[0])]) != rec.key[0]:
                continue
            for s, r in rec.forms.items():
                if isinstance(r, Rec) and type(r.proto) is int:
                    v = lambda t: tm(r.value(None, SymInt(t), None))
                    goal = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < tm(n)), v(j + 1) - v(j) == term(j)))
                    if E.solve(goal, timeout=3000, want_model=False, ext=False)[0] == 'proved':
                        E.add(z3.Implies(tm(n) >= 0, v(tm(n)) - v(z3.IntVal(0)) == S(tm(n))))
        # as have two sums of the same terms; sums of lesser terms are less
        sums = E.memo.setdefault('sums', [])
        for n1, term1, S1 in sums:
            c = E.const('j')
            here = z3.And(c >= 0, c < tm(n))
            if not E.valid_quick(tm(n1) == tm(n)):
                continue
            le, ge = (E.valid_quick(z3.Implies(here, p)) for p in (term1(c) <= term(c), term1(c) >= term(c)))
            if le:
                E.add(S1(tm(n1)) <= S(tm(n)))
            if ge:
                E.add(S1(tm(n1)) >= S(tm(n)))
            if not le and not ge and E.valid_quick(z3.Implies(here, term1(c) + term(c) <= 1)):
                E.add(z3.Implies(tm(n) >= 0, S1(tm(n1)) + S(tm(n)) <= tm(n)))
        sums.append((n, term, S))
        return SymInt(S(tm(n)))

    def fix(self, x):
        return E.concretize(tm(x)) if values.is_sym(x) else x

    def word(self, *parts):
        return seq.concat([as_seq(seq.SymBytes.of([x])) if values.is_intlike(x) else as_seq(x) for x in parts], bytes)

    def double(self, neg, m, e):
        if is_conc_int(e) and e < -1021:
            E.assume(m % (1 << (-1021 - int(e))) == 0)
        return SymFloat.normal(neg, m, e)

    def real(self, name, kind='float'):
        """Any real number, presented as a float or a Fraction"""
        from fractions import Fraction
        t = z3.Real(name)
        E.inputs[name] = ('real', lambda m: [m.eval(t, model_completion=True).as_fraction().numerator,
                                             m.eval(t, model_completion=True).as_fraction().denominator])
        return values.SymReal(t, Fraction if kind == 'fraction' else float)

    def word_number(self, w):
        """The number denoted by an IBM word, as an uninterpreted function of its bytes with its sign known:
        the contract of IBMFloat.__float__ and IBMFloat.as_integer_ratio"""
        b = [z3.simplify(tm(as_seq(w).at(i))) for i in range(4)]
        known = E.memo.setdefault('words', [])
        for b2, v in known:
            if all(x.eq(y) for x, y in zip(b, b2)):
                return values.SymReal(v)
        v = E.const('number', z3.RealSort())
        E.add_fact(v, z3.And([z3.Implies(z3.And([x == y for x, y in zip(b, b2)]), v == v2) for b2, v2 in known]))
        known.append((b, v))
        zero = z3.And(b[1] == 0, b[2] == 0, b[3] == 0)
        E.add_fact(zero, z3.And((v == 0) == zero, z3.Implies(z3.Not(zero), (v < 0) == (b[0] >= 128))))
        return values.SymReal(v)

    def is_value(self, x, n, q):
        if isinstance(x, (int, float)) and not values.is_sym(x):
            from fractions import Fraction
            f = Fraction(x)
            if f == 0:
                return seq.veq(n, 0)
            d = f.denominator.bit_length() - 1
            return SymFloat(f.numerator, -d) == SymFloat(n, q)
        if type(x) is SymInt:
            x = SymFloat(x, 0)
        if type(x) is not SymFloat:
            raise Unsupported('not a float')
        return x == SymFloat(n, q)

    def hint(self, f):
        E.hints.append(f)

    def inv(self, name, g):
        E.inv_hints.append((name, g))

    def stub(self, holder, name, contract):
        """Represent a callee by its contract from here on (restored after the path)."""
        E.stubs.append((holder, name, holder.__dict__[name]))
        E.contracts_used.add('{}.{}'.format(getattr(holder, '__qualname__', holder.__name__), name))
        if isinstance(holder.__dict__[name], classmethod):
            contract = classmethod(contract)
        elif isinstance(holder.__dict__[name], staticmethod):
            contract = staticmethod(contract)
        setattr(holder, name, contract)

    def is_single(self, x, bs):
        if type(x) is not shims.SymF32:
            if isinstance(x, float):
                raise Unsupported('not a float read from its bytes')
            return False
        return values.And(*[seq.veq(a, b) for a, b in zip(x.bs, bs)])

    def file(self, content=b'', name=None, mode='rb'):
        from pv.files import SymFile
        return SymFile(content, name, mode)


class Timeout(BaseException):
    pass


def prove(u, tier, budget):
    E.peel_locs = {}
    peel, cut = {}, set()
    t0 = time.time()
    res = dict(unit=u.id, status='?', detail='')
    restarts = 0
    E.stubs = []

    def body():
        while E.stubs:
            h, n, v = E.stubs.pop()
            setattr(h, n, v)
        E.hints, E.inv_hints, E.sizes = [], [], []
        try:
            u.fn(ProveEnv(tier))
        except Exception as ex:
            if os.environ.get('PV_DEBUG') == '2' or os.environ.get('PV_DEBUG') and not E.infer_depth:
                traceback.print_exc()
            E.last_tb = traceback.format_exc()[-1500:]
            E.prove(False, 'no unexpected {}'.format(type(ex).__name__))

    def on_alarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(budget) + 20)
    try:
        for attempt in range(60):
            E.reset_unit()
            E.unit_name = u.id
            E.peel_locs, E.cut_whiles = peel, cut
            E.deadline = t0 + budget
            try:
                E.explore(body)
                res['status'] = 'proved'
                break
            except PoisonUsed as p:
                peel[p.loc] = peel.get(p.loc, 0) + 1
                restarts += 1
                if peel[p.loc] > 2:
                    res['status'] = 'unsupported'
                    res['detail'] = 'value lost at a loop head is used: {}'.format(p)
                    break
            except Restart:
                restarts += 1
        else:
            res['status'] = 'unsupported'
            res['detail'] = 'too many restarts'
    except Failed as f:
        ob = [o for o in E.obligations.values() if o.status != 'proved'][-1]
        res['status'] = 'failed'
        res['obligation'] = ob.name
        res['verdict'] = ob.status
        res['solver'] = ob.solver
        res['goal'] = ob.detail
        res['inputs'] = None if ob.inputs is None else {k: encode(v) for k, v in ob.inputs.items() if v is not None}
        if ob.name.startswith('no unexpected'):
            res['detail'] = getattr(E, 'last_tb', '')
    except Unsupported as x:
        res['status'] = 'unsupported'
        res['detail'] = str(x)
        if os.environ.get('PV_DEBUG'):
            traceback.print_exc()
    except Timeout:
        res['status'] = 'unsupported'
        res['detail'] = 'time budget of the unit exhausted'
    except (PathEnd, NeedLoop) as x:
        res['status'] = 'unsupported'
        res['detail'] = 'engine: {!r}'.format(x)
        if os.environ.get('PV_DEBUG'):
            traceback.print_exc()
    except Exception as x:
        res['status'] = 'unsupported'
        res['detail'] = 'engine error: {!r} {}'.format(x, traceback.format_exc()[-800:])
    signal.alarm(0)
    obs = list(E.obligations.values())
    res['obligations'] = len(obs)
    res['discharged'] = sum(o.status == 'proved' for o in obs)
    by = {}
    names = {}
    for o in obs:
        if o.status == 'proved':
            by[o.solver] = by.get(o.solver, 0) + 1
        names[o.name] = names.get(o.name, 0) + 1
    res['by_solver'] = by
    res['names'] = names
    res['covers'] = E.covers
    res['paths'] = E.paths
    res['functions'] = sorted(f for f in E.functions if not f.startswith('units.'))
    res['assumed'] = sorted(E.assumed)
    res['contracts_used'] = sorted(E.contracts_used)
    res['bounded_notes'] = sorted(E.bounded_notes)
    res['solver_s'] = round(E.solver_time, 2)
    res['queries'] = E.queries
    res['wall'] = round(time.time() - t0, 2)
    res['restarts'] = restarts
    res['loops'] = len(E.loops)
    if res['status'] == 'proved':
        if not obs:
            res['status'] = 'vacuous'
            res['detail'] = 'no obligations generated'
        dead = [c for c, v in E.covers.items() if not v]
        if dead:
            res['status'] = 'vacuous'
            res['detail'] = 'unreachable: {}'.format(dead)
    return res


def main():
    sys.modules.setdefault('pv.prove', sys.modules['__main__'])
    uid, tier, budget = sys.argv[1], sys.argv[2], float(sys.argv[3])
    try:
        units = load_units()
        u = units[uid]
    except Exception:
        print('\n@@' + json.dumps(dict(unit=uid, status='unsupported', detail='loading: ' + traceback.format_exc()[-1500:],
                                       obligations=0, discharged=0)))
        return
    res = prove(u, tier, budget)
    print('\n@@' + json.dumps(res, default=str))


if __name__ == '__main__':
    main()
