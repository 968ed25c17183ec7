"""Symbolic sequences of unbounded length: views over element functions."""
import z3
from .core import E, Unsupported, PathEnd
from .values import (SymInt, SymBool, SymReal, SymFloat, And, Or, Not, If, Implies, mk_bool, mk_int, tm, bt, rng, is_sym,
                     is_intlike, is_conc_int, subst, consts_of, merge, simp, plain, term_consts)

I = z3.IntVal


class Poison:
    """A value about which nothing is known at a loop head; using it is an error of the verifier."""
    _pv_sym = True

    def __init__(self, why):
        self.__dict__['why'] = why

    def _bad(self, *a, **k):
        raise Unsupported('use of a value lost at a loop head: ' + self.__dict__['why'])

    def __getattr__(self, name):
        if name.startswith('_pv_') or (name.startswith('__') and name.endswith('__')):
            raise AttributeError(name)
        self._bad()


for _n in ('add radd sub rsub mul rmul lt le gt ge eq ne bool iter len getitem call hash contains and rand or ror xor rxor '
           'lshift rshift floordiv mod truediv neg int index float').split():
    setattr(Poison, '__%s__' % _n, Poison._bad)


def conc_len(s):
    n = s.n
    if is_conc_int(n):
        return int(n)
    u = E.unique_value(n.t) if not E.pure else None
    return u


def range_fact(cond):
    E.add(bt(cond)) if type(cond) is not bool else None


class Seq:
    """Immutable sequence.  n: length (int or SymInt >= 0); at(i): element for 0 <= i < n."""
    _pv_sym = True
    pt = list
    n = 0
    __hash__ = None

    @property
    def __class__(self):
        return self.pt

    def at(self, i):
        raise NotImplementedError

    # ------------------------------------------------------------ protocol
    def __len__(self):
        k = conc_len(self)
        if k is None:
            raise Unsupported('native len() of a sequence of symbolic length')
        return k

    def __bool__(self):
        return bool(self.n != 0)

    def __iter__(self):
        k = conc_len(self)
        if k is None:
            raise Unsupported('native iteration over a sequence of symbolic length')
        for i in range(k):
            yield self.at(i)

    def _index(self, i):
        if not is_intlike(i):
            if hasattr(i, '__index__'):
                i = i.__index__()
            else:
                raise TypeError('sequence indices must be integers or slices, not {}'.format(type(i).__name__))
        if i < 0:
            i = i + self.n
            if i < 0:
                raise IndexError('index out of range')
        if i >= self.n:
            raise IndexError('index out of range')
        return i

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        return self.at(self._index(i))

    def _slice(self, s):
        start, n, step = slice_bounds(s, self.n)
        return self.wrap(SliceSeq(self, start, n, step))

    def wrap(self, s):
        s.pt = self.pt
        return s

    def __contains__(self, x):
        return bool(seq_contains(self, x))

    def __eq__(self, o):
        o2 = as_seq(o, exact=True)
        if o2 is None or not compatible(self, o2):
            return NotImplemented
        return seq_eq(self, o2)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __add__(self, o):
        o2 = as_seq(o, exact=True)
        if o2 is None:
            return NotImplemented
        return self.wrap(concat([self, o2]))

    def __radd__(self, o):
        o2 = as_seq(o, exact=True)
        if o2 is None:
            return NotImplemented
        return self.wrap(concat([o2, self]))

    def __mul__(self, k):
        kk = conc_len(self)
        if kk == 1:
            v = self.at(0)
            return self.wrap(FnSeq(maxi(k, 0), lambda i, v=v: v))
        if is_conc_int(k):
            return self.wrap(concat([self] * max(0, int(k))))
        raise Unsupported('symbolic repetition of a sequence')

    __rmul__ = __mul__

    def __lt__(self, o):
        return lex_lt(self, as_seq(o), True)

    def __le__(self, o):
        return Not(lex_lt(as_seq(o), self, True))

    def __gt__(self, o):
        return lex_lt(as_seq(o), self, True)

    def __ge__(self, o):
        return Not(lex_lt(self, as_seq(o), True))

    def index(self, x, *a):
        k = conc_len(self)
        if a:
            raise Unsupported('index with bounds')
        if k is not None and k <= 64:
            for i in range(k):
                if self.at(i) == x:
                    return i
            raise ValueError('not in sequence')
        # first occurrence
        if not seq_contains(self, x):
            raise ValueError('not in sequence')
        w = SymInt(E.const('idx'), 0)
        E.add(z3.And(w.t >= 0, w.t < tm(self.n)))
        E.add(bt(veq(self.at(w), x)))
        j = z3.Int(E.fresh_name('j'))
        e = pure(lambda: veq(self.at(SymInt(j, 0)), x))
        E.add(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w.t), z3.Not(bt(e)))))
        return w

    def count(self, x):
        k = conc_len(self)
        if k is None:
            if not seq_contains(self, x):
                return 0
            raise Unsupported('count over a sequence of symbolic length')
        r = 0
        for i in range(k):
            e = veq(self.at(i), x)
            r = r + (If(e, 1, 0) if type(e) is not bool else int(e))
        return r

    # ------------------------------------------------------------ engine
    def _pv_subst(self, pairs):
        return self.wrap(SubstSeq(self, list(pairs)))

    def _pv_consts(self, out):
        consts_of(self.n, out)
        k = self.n if is_conc_int(self.n) else None
        if k is not None and k <= 8:
            for i in range(k):
                consts_of(self.at(i), out)
        else:
            c = SymInt(z3.Int('cc!probe'), 0)
            consts_of(pure(lambda: self.at(c)), out)
            out.discard('cc!probe')

    @staticmethod
    def _pv_merge(c, a, b):
        a2, b2 = as_seq(a, exact=True), as_seq(b, exact=True)
        if a2 is None or b2 is None or pt_of(a) is not pt_of(b):
            return NotImplemented
        if type(a) is VList or type(b) is VList:
            return NotImplemented

        return IteSeq(c, a2, b2, pt_of(a))


def pt_of(x):
    return x.pt if isinstance(type(x), type) and issubclass(type(x), Seq) else type(x) if type(x) is not VList else list


def compatible(a, b):
    pa, pb = a.pt, b.pt
    if pa is pb:
        return True
    return {pa, pb} <= {bytes, bytearray, memoryview} or False


def pure(fn):
    E.pure += 1
    try:
        return fn()
    finally:
        E.pure -= 1


def maxi(a, b):
    if is_conc_int(a) and is_conc_int(b):
        return max(int(a), int(b))
    la, ha = rng(a)
    lb, hb = rng(b)
    if la is not None and hb is not None and la >= hb:
        return a
    if lb is not None and ha is not None and lb >= ha:
        return b
    if not E.pure:
        if E.valid_quick(tm(a) >= tm(b)):
            return a
        if E.valid_quick(tm(a) <= tm(b)):
            return b
    r = If(mk_bool(tm(a) >= tm(b)), a, b)
    if type(r) is SymInt:
        los = [x for x in (la, lb) if x is not None]
        r = SymInt(r.t, max(los) if los else None, r.hi)
    return r


def mini(a, b):
    return -maxi(-a, -b)


def norm_len(n):
    if type(n) is SymInt:
        n = simp(n)
        if type(n) is SymInt and (n.lo is None or n.lo < 0):
            n = SymInt(n.t, 0, n.hi)
    return n


class FnSeq(Seq):
    def __init__(self, n, fn, pt=list):
        self.n = norm_len(n)
        self.fn = fn
        self.pt = pt
        self.cache = {}

    def at(self, i):
        key = int(i) if is_conc_int(i) else None
        if key is not None and not E.pure:
            if key in self.cache:
                return self.cache[key]
            v = self.fn(i)
            self.cache[key] = v
            return v
        return self.fn(i)


class TplSeq(Seq):
    """Elements given by a template value in the z3 constant c."""

    def __init__(self, n, c, value, pt=list):
        self.n = norm_len(n)
        self.c = c
        self.value = value
        self.pt = pt

    def at(self, i):
        return subst(self.value, [(self.c, tm(i))])


class SubstSeq(Seq):
    def __init__(self, s, pairs):
        self.s = s
        self.pairs = pairs
        self.n = subst(s.n, pairs)

    def at(self, i):
        if is_conc_int(i):
            return subst(self.s.at(i), self.pairs)
        c = z3.Int(E.fresh_name('sub'))
        v = self.s.at(SymInt(c, i.lo, i.hi))
        return subst(subst(v, self.pairs), [(c, tm(i))])


class IteSeq(Seq):
    """a if c else b"""
    def __init__(self, c, a, b, pt):
        self.c = c
        self.a = a
        self.b = b
        self.n = If(mk_bool(c), a.n, b.n)
        self.pt = pt

    def at(self, i):
        try:
            x = self.a.at(i)
        except IndexError:          # beyond the end of one: then it is the other
            return self.b.at(i)
        try:
            y = self.b.at(i)
        except IndexError:
            return x
        return merge(self.c, x, y)

    def _pv_subst(self, pairs):
        c = z3.substitute(self.c, *pairs)
        return IteSeq(c, subst(self.a, pairs), subst(self.b, pairs), self.pt)


def resolved(s):
    """s on paths which decide its conditions"""
    while type(s) is IteSeq:
        s = s.a if E.fork(s.c) else s.b
    if type(s) is ConcatSeq:
        return concat([resolved(p) for p in s.parts], s.pt)
    return s


class ConcSeq(Seq):
    def __init__(self, items, pt=list):
        self.items = items
        self.n = len(items)
        self.pt = pt

    def at(self, i):
        if not is_conc_int(i):
            u = None if E.pure else E.unique_value(tm(i))
            if u is not None:
                return self.items[u]
            if not self.items:
                return 0
            lo, hi = rng(i)
            lo = max(lo or 0, 0)
            hi = self.n - 1 if hi is None else min(hi, self.n - 1)
            v = self.items[hi]
            for j in range(hi - 1, lo - 1, -1):
                v = merge(tm(i) == I(j), self.items[j], v)
            return v
        return self.items[int(i)]


class RangeSeq(Seq):
    def __init__(self, start, n, step, pt=list):
        self.start = start
        self.n = norm_len(n)
        self.step = step
        self.pt = pt

    def at(self, i):
        return self.start + i * self.step

    def _pv_subst(self, pairs):
        return RangeSeq(subst(self.start, pairs), subst(self.n, pairs), subst(self.step, pairs), self.pt)


class SliceSeq(Seq):
    def __init__(self, s, start, n, step=1):
        while type(s) is SliceSeq and s.step == 1 and step == 1 and not isinstance(s.start, SymBool):
            start = s.start + start
            s = s.s
        self.s = s
        self.start = start
        self.n = norm_len(n)
        self.step = step
        self.pt = s.pt

    def at(self, i):
        if is_conc_int(self.step) and self.step == 1:
            return self.s.at(simp(self.start + i))
        return self.s.at(simp(self.start + i * self.step))


class ConcatSeq(Seq):
    def __init__(self, parts, pt=list):
        self.parts = parts
        n = 0
        self.offs = []
        for p in parts:
            self.offs.append(n)
            n = n + p.n
        self.n = norm_len(n)
        self.pt = pt
        self.misses = 0

    def at(self, i):
        # choose the part; use the path condition where it decides
        for k, p in enumerate(self.parts):
            end = self.offs[k] + p.n
            c = i < end
            if k == len(self.parts) - 1:
                c = True
            elif E.pure and type(i) is SymInt and i.t.get_id() in BOUNDS:
                d = z3.simplify(tm(end) - BOUNDS[i.t.get_id()][1])
                if z3.is_int_value(d) and d.as_long() >= 0:
                    c = True
            if type(c) is not bool and not E.pure and self.misses < 1 and E.memo.get('misses', 0) < 12 \
                    and not (len(E.pc) > 400 and (self.pt is bytes or self.pt is str)):
                if E.valid_quick(bt(c)):
                    c = True
                elif E.valid_quick(z3.Not(bt(c))):
                    c = False
                elif self.pt is bytes or self.pt is str:
                    self.misses += 1        # seldom decided: leave it to the prover
                    E.memo['misses'] = E.memo.get('misses', 0) + 1
            if c is True:
                return p.at(simp(i - self.offs[k]))
            if c is False:
                continue
            rest = ConcatSeq(self.parts[k + 1:], self.pt)
            # an index is within the sequence: a part which cannot be reached by it does not count
            try:
                x = p.at(simp(i - self.offs[k]))
            except IndexError:
                return rest.at(simp(i - end))
            try:
                y = rest.at(simp(i - end))
            except IndexError:
                return x
            return merge(bt(c), x, y)
        raise IndexError

    def _pv_subst(self, pairs):
        return ConcatSeq([subst(p, pairs) for p in self.parts], self.pt)


def concat(parts, pt=None):
    ps = []
    for p in parts:
        if type(p) is ConcatSeq:
            ps.extend(p.parts)
        else:
            ps.append(p)
    ps = [p for p in ps if not (is_conc_int(p.n) and int(p.n) == 0)]
    # fuse adjacent concrete parts and adjacent slices
    out = []
    for p in ps:
        if out and type(p) is ConcSeq and type(out[-1]) is ConcSeq:
            out[-1] = ConcSeq(list(out[-1].items) + list(p.items), p.pt)
        elif out and type(p) is SliceSeq and type(out[-1]) is SliceSeq and p.s is out[-1].s and is_conc_int(p.step) \
                and p.step == 1 and is_conc_int(out[-1].step) and out[-1].step == 1 \
                and z3.is_true(z3.simplify(tm(out[-1].start) + tm(out[-1].n) == tm(p.start))):
            out[-1] = SliceSeq(p.s, out[-1].start, out[-1].n + p.n)
        else:
            out.append(p)
    if not out:
        return ConcSeq([], pt or (parts[0].pt if parts else list))
    if len(out) == 1:
        r = out[0]
    else:
        r = ConcatSeq(out, pt or parts[0].pt)
    if pt is not None and r.pt is not pt:
        r = retyped(r, pt)
    return r


def retyped(s, pt):
    r = SliceSeq(s, 0, s.n, 1) if type(s) is not SliceSeq else SliceSeq(s.s, s.start, s.n, s.step)
    r.pt = pt
    return r


def slice_bounds(s, n):
    """(start, count, step) of the slice of a sequence of length n (all possibly symbolic)."""
    step = 1 if s.step is None else s.step
    if not is_conc_int(step):
        raise Unsupported('slice with a symbolic step')
    step = int(step)
    if step == 0:
        raise ValueError('slice step cannot be zero')

    def clamp(x, default, lo, hi):
        if x is None:
            return default
        if is_conc_int(x):
            x = int(x)
            x = x + n if x < 0 else x
        elif x < 0:
            x = x + n
        return maxi(mini(x, hi), lo)
    if step > 0:
        a = clamp(s.start, 0, 0, n)
        b = clamp(s.stop, n, 0, n)
        cnt = maxi(b - a, 0)
        if step != 1:
            cnt = (cnt + (step - 1)) // step
    else:
        a = clamp(s.start, n - 1, -1, n - 1)
        b = clamp(s.stop, -1, -1, n - 1)
        cnt = maxi(a - b, 0)
        if step != -1:
            cnt = (cnt + (-step - 1)) // (-step)
    return a, simp(cnt) if type(cnt) is SymInt else cnt, step


# ---------------------------------------------------------------------------
class VList:
    """Mutable list: immutable symbolic base followed by a concrete tail."""
    _pv_sym = True
    __class__ = property(lambda self: list)
    __slots__ = ('base', 'tail', 'oid', '__weakref__')
    __hash__ = None

    def __init__(self, items=(), base=None):
        self.base = base
        self.tail = list(items)
        self.oid = E.next_obj()
        E.register(self)

    @property
    def n(self):
        if self.base is None:
            return len(self.tail)
        return simp(self.base.n + len(self.tail))

    pt = list

    def touch(self):
        E.touched(self)

    def snap(self):
        """Immutable snapshot of the content."""
        if self.base is None:
            return ConcSeq(list(self.tail))
        if not self.tail:
            return retyped(self.base, list) if self.base.pt is not list else self.base
        return concat([self.base, ConcSeq(list(self.tail))], list)

    def at(self, i):
        if self.base is None and is_conc_int(i):
            return self.tail[int(i)]
        return self.snap().at(i)

    def append(self, x):
        self.touch()
        self.tail.append(x)

    def extend(self, xs):
        self.touch()
        s = as_seq(xs)
        k = conc_len(s)
        if k is not None:
            self.tail.extend(s.at(i) for i in range(k))
        else:
            self.base = concat([self.snap(), s], list)
            self.tail = []

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def _conc(self):
        k = conc_len(self)
        if k is None:
            raise Unsupported('mutation of a list of symbolic length')
        if self.base is not None:
            s = self.snap()
            self.tail = [s.at(i) for i in range(k)]
            self.base = None

    def insert(self, i, x):
        self.touch()
        self._conc()
        self.tail.insert(i, x)

    def pop(self, i=-1):
        self.touch()
        if self.tail and is_conc_int(i) and i == -1:
            return self.tail.pop()
        self._conc()
        return self.tail.pop(i)

    def remove(self, x):
        self.touch()
        self._conc()
        self.tail.remove(x)

    def clear(self):
        self.touch()
        self.base = None
        self.tail = []

    def reverse(self):
        self.touch()
        s = self.snap()
        k = conc_len(s)
        if k is not None:
            self.tail = [s.at(i) for i in range(k - 1, -1, -1)]
            self.base = None
        else:
            self.base = SliceSeq(s, s.n - 1, s.n, -1)
            self.tail = []

    def copy(self):
        return VList(base=self.snap())

    def sort(self, key=None, reverse=False):
        from .shims import sorted_view
        self.touch()
        s = sorted_view(self.snap(), key, reverse)
        if isinstance(s, list):
            self.base, self.tail = None, list(s)
        else:
            self.base, self.tail = s, []

    def __setitem__(self, i, v):
        self.touch()
        if isinstance(i, slice):
            self._conc()
            self.tail[i] = list(v)
            return
        s = self.snap()
        i = s._index(i)
        k = conc_len(s)
        if k is not None and is_conc_int(i):
            self._conc()
            self.tail[int(i)] = v
            return
        self.base = FnSeq(s.n, lambda j: merge(tm(j) == tm(i), v, s.at(j)))
        self.tail = []

    def __delitem__(self, i):
        self.touch()
        self._conc()
        del self.tail[i]

    def __len__(self):
        k = conc_len(self)
        if k is None:
            raise Unsupported('native len() of a list of symbolic length')
        return k

    def __bool__(self):
        if self.tail:
            return True
        return bool(self.n != 0)

    def __iter__(self):
        if self.base is None:
            i = 0
            while i < len(self.tail):
                yield self.tail[i]
                i += 1
                if self.base is not None:
                    raise Unsupported('mutation during iteration')
            return
        yield from self.snap()

    def __reversed__(self):
        return iter(SliceSeq(self.snap(), self.n - 1, self.n, -1))

    def __getitem__(self, i):
        if isinstance(i, slice):
            s = self.snap()._slice(i)
            k = s.n if is_conc_int(s.n) else None
            if k is not None:
                return VList([s.at(j) for j in range(int(k))])
            return VList(base=retyped(s, list))
        s = self.snap()
        return s.at(s._index(i))

    def __contains__(self, x):
        return bool(seq_contains(self.snap(), x))

    def __eq__(self, o):
        if type(o) is VList or isinstance(o, list):
            return seq_eq(self.snap(), as_seq(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __lt__(self, o):
        return lex_lt(self.snap(), as_seq(o), True)

    def __add__(self, o):
        if type(o) is VList or isinstance(o, list):
            return VList(base=concat([self.snap(), as_seq(o)], list))
        return NotImplemented

    def __radd__(self, o):
        return VList(base=concat([as_seq(o), self.snap()], list))

    def __mul__(self, k):
        s = self.snap() * k
        if is_conc_int(s.n):
            return VList([s.at(i) for i in range(int(s.n))])
        return VList(base=s)

    __rmul__ = __mul__

    def index(self, x, *a):
        return self.snap().index(x, *a)

    def count(self, x):
        return self.snap().count(x)

    def __repr__(self):
        return '<vlist>'

    def _pv_subst(self, pairs):
        r = VList.__new__(VList)
        r.base = None if self.base is None else subst(self.base, pairs)
        r.tail = [subst(x, pairs) for x in self.tail]
        r.oid = E.next_obj()
        return r

    def _pv_consts(self, out):
        consts_of(self.snap(), out)


# ---------------------------------------------------------------------------
class SymBytes:
    """Constructors of byte strings."""

    @staticmethod
    def of(items):
        if all(is_conc_int(x) for x in items):
            return bytes(int(x) for x in items)
        return ConcSeq(list(items), bytes)


def sym_bytes(name, n, lo=0, hi=255, pt=bytes):
    """An arbitrary byte string as an uninterpreted function of the index."""
    f = z3.Function(name, z3.IntSort(), z3.IntSort())
    return FnSeq(n, byte_at(f, lo, hi), pt)


def byte_at(f, lo=0, hi=255):
    declare_range(f, lo, hi)

    def at(i):
        t = f(tm(i))
        v = SymInt(t, lo, hi)
        if not E.pure:
            E.add_fact(t, z3.And(t >= lo, t <= hi), True)
        return v
    return at


def declare_range(f, lo, hi):
    key = ('range', f.name())
    if E.memo.get(key):
        return
    E.memo[key] = True
    j = z3.Int('j!rng')
    E.add_global(z3.ForAll([j], z3.And(f(j) >= lo, f(j) <= hi), patterns=[f(j)]))


# ---------------------------------------------------------------------------
def as_seq(x, exact=False):
    """View of an iterable as a Seq (None if it is not one and exact is set)."""
    t = type(x)
    if t is VList:
        return x.snap()
    if isinstance(t, type) and issubclass(t, Seq):
        return x
    if t is list:
        return ConcSeq(x, list)
    if t is tuple or (issubclass(t, tuple) and not exact):
        return ConcSeq(x, tuple)
    if t is bytes or t is bytearray or t is memoryview:
        return ConcSeq(x, bytes)
    if t is str:
        if '\ue000' in x:
            raise Unsupported('text of a symbolic number')
        return StrSeq(x)
    if exact:
        return None
    if t is range:
        return RangeSeq(x.start, len(x), x.step, range)
    conv = getattr(t, '_pv_seq', None)
    if conv is not None:
        return conv(x)
    if t in (dict, set, frozenset) or isinstance(x, (dict, set, frozenset)):
        return ConcSeq(list(x))
    it = getattr(x, '__iter__', None)
    if it is not None:
        r = it()
        if r is x:
            return ConcSeq(list(x))
        return as_seq(r)
    if getattr(t, '__getitem__', None) is not None and not is_sym(x):
        return ConcSeq(list(x))
    raise TypeError("'{}' object is not iterable".format(t.__name__))


class RepSeq(Seq):
    """A character repeated."""
    pt = str

    def __init__(self, ch, n):
        self.ch = ch
        self.n = norm_len(maxi(n, 0))

    def at(self, i):
        return self.ch


class StrSeq(Seq):
    pt = str

    def __init__(self, s):
        self.str = s
        self.n = len(s)

    def at(self, i):
        if is_conc_int(i):
            return self.str[int(i)]
        return ConcSeq(list(self.str)).at(i)


class SymIter:
    """Iterator over a Seq with an explicit position."""
    _pv_sym = True

    def __init__(self, seq, pos=0):
        self.seq = seq
        self.pos = pos
        self.oid = E.next_obj()
        E.register(self)

    def __iter__(self):
        return self

    def __next__(self):
        if self.seq.n is not None and not (self.pos < self.seq.n):
            raise StopIteration
        E.touched(self)
        v = self.seq.at(self.pos)
        self.pos = self.pos + 1
        return v

    def rest(self):
        if self.seq.n is None:
            return SliceInf(self.seq, self.pos)
        if is_conc_int(self.pos) and self.pos == 0:
            return self.seq
        return SliceSeq(self.seq, self.pos, maxi(self.seq.n - self.pos, 0))

    def _pv_seq(self):
        r = self.rest()
        E.touched(self)
        if r.n is not None:
            self.pos = self.seq.n
        return r


class Cell:
    """A mutable variable which lives in an object (for example the position of a file)."""
    _pv_sym = True
    __hash__ = None

    def __init__(self, v):
        self.v = v
        self.oid = E.next_obj()
        E.register(self)

    def get(self):
        return self.v

    def set(self, v):
        E.touched(self)
        self.v = v

    def _pv_heap_get(self):
        return self.v

    def _pv_heap_set(self, v):
        self.v = v

    def _pv_heap_delta(self, head):
        return self.v


class InfSeq(Seq):
    """An infinite series (count, repeat): n is None."""
    n = None

    def __init__(self, fn):
        self.fn = fn

    def at(self, i):
        return self.fn(i)

    def __bool__(self):
        return True

    def _pv_consts(self, out):
        pass


class SliceInf(InfSeq):
    def __init__(self, s, start):
        self.fn = lambda i: s.at(start + i)


# ---------------------------------------------------------------------------
def veq(a, b):
    """Equality of values as a boolean (or SymBool), without branching where possible."""
    if a is b:
        return True
    if is_sym(a) or is_sym(b):
        r = NotImplemented
        if type(a) in (Seq,) or True:
            m = getattr(type(a), '__eq__', None)
            r = m(a, b) if m is not None and is_sym(a) else NotImplemented
            if r is NotImplemented and is_sym(b):
                r = type(b).__eq__(b, a)
            if r is NotImplemented:
                r = type(a).__eq__(a, b)
        if r is NotImplemented:
            return False
        return r
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return False
        return And(*[veq(x, y) for x, y in zip(a, b)])
    if type(a) is slice and type(b) is slice:
        return veq((a.start, a.stop, a.step), (b.start, b.stop, b.step))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and And(*[veq(x, y) for x, y in zip(a, b)])
    r = a == b
    return r


def lex_lt(a, b, top=False):
    """a < b lexicographically, for sequences of concrete length"""
    ka, kb = conc_len(a), conc_len(b)
    if ka is None or kb is None:
        raise Unsupported('ordering of sequences of symbolic length')
    r = ka < kb
    for i in range(min(ka, kb) - 1, -1, -1):
        x, y = a.at(i), b.at(i)
        r = Or(vlt(x, y), And(veq(x, y), r))
    return r


def vlt(a, b):
    if type(a) is tuple and type(b) is tuple:
        r = len(a) < len(b)
        for i in range(min(len(a), len(b)) - 1, -1, -1):
            r = Or(vlt(a[i], b[i]), And(veq(a[i], b[i]), r))
        return r
    return a < b


def qvar(name='j'):
    return z3.Int(E.fresh_name('q' + name))


BOUNDS = {}       # variables of specifications and their bounds


def forall(n, f, name='j'):
    """For all 0 <= j < n: f(j), as a SymBool; f is evaluated without branching."""
    if is_conc_int(n) and int(n) <= 24:
        return And(*[f(i) for i in range(int(n))])
    j = qvar(name)
    hi = rng(n)[1]
    BOUNDS[j.get_id()] = (j, tm(n))
    body = pure(lambda: f(SymInt(j, 0, None if hi is None else hi - 1)))
    if type(body) is bool:
        if body:
            return True
        return mk_bool(tm(n) <= 0)
    b = z3.simplify(bt(body))
    if z3.is_true(b):
        return True
    return SymBool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < tm(n)), b)))


def truth(v):
    if type(v) is bool or type(v) is SymBool:
        return v
    if type(v) is SymInt:
        return v != 0
    return bool(v)


def seq_all(s):
    """all() over a sequence; branches on the outcome."""
    k = conc_len(s) if s.n is not None else None
    if k is not None and k <= 64:
        for i in range(k):
            if not s.at(i):
                return False
        return True
    j = qvar()
    e = bt(truth(pure(lambda: s.at(SymInt(j, 0)))))
    allq = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < tm(s.n)), e))
    if E.pure:
        return SymBool(allq)
    w = E.const('w')
    ew = z3.substitute(e, (j, w))
    neg = z3.And(w >= 0, w < tm(s.n), z3.Not(ew))
    return E.decide((allq, neg)) == 0


def seq_any(s):
    k = conc_len(s) if s.n is not None else None
    if k is not None and k <= 64:
        for i in range(k):
            if s.at(i):
                return True
        return False
    return not seq_all(FnSeq(s.n, lambda i: Not(truth(s.at(i)))))


def seq_eq(a, b):
    if a is b:
        return True
    na, nb = a.n, b.n
    ne = veq(na, nb)
    if ne is False:
        return False
    if type(a) is SliceSeq and type(b) is SliceSeq and a.s is b.s and veq(a.step, b.step) is True:
        d = z3.simplify(tm(a.start) == tm(b.start))
        if z3.is_true(d):
            return ne
    k = na if is_conc_int(na) else nb if is_conc_int(nb) else None
    if k is not None:
        if int(k) > 20000:
            raise Unsupported('comparison of very long sequences')
        if int(k) > 64:
            return And(ne, forall(SymInt(I(int(k)), int(k), int(k)), lambda j: veq(a.at(j), b.at(j)))) \
                if not (type(a) is ConcSeq or type(b) is ConcSeq) else \
                And(ne, *[veq(a.at(i), b.at(i)) for i in range(int(k))])
        return And(ne, *[veq(a.at(i), b.at(i)) for i in range(int(k))])
    return And(ne, forall(na, lambda j: veq(a.at(j), b.at(j))))


def seq_contains(s, x):
    k = conc_len(s)
    if k is not None and k <= 64:
        return Or(*[veq(s.at(i), x) for i in range(k)])
    if type(s) is RangeSeq and is_intlike(x):
        return range_contains(s, x)
    j = qvar()
    e = bt(pure(lambda: veq(s.at(SymInt(j, 0)), x)))
    if E.pure:
        return SymBool(z3.Exists([j], z3.And(j >= 0, j < tm(s.n), e)))
    w = E.const('w')
    pos = z3.And(w >= 0, w < tm(s.n), z3.substitute(e, (j, w)))
    neg = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < tm(s.n)), z3.Not(e)))
    return E.decide((pos, neg)) == 0


def range_contains(s, x):
    d = x - s.start
    if is_conc_int(s.step):
        st = int(s.step)
        if st == 1:
            return And(d >= 0, d < s.n)
        if st < 0:
            d, st = -d, -st
        return And(d % st == 0, d // st >= 0, d // st < s.n)
    if s.step > 0:
        return And(d >= 0, veq(d % s.step, 0), d // s.step < s.n)
    d = -d
    st = -s.step
    return And(d >= 0, veq(d % st, 0), d // st < s.n)


class SymRange(RangeSeq):
    """A range object with symbolic bounds."""
    pt = range

    def __init__(self, start, stop, step):
        self.start = start
        self.stop = stop
        self.step = step
        if is_conc_int(step):
            st = int(step)
            if st == 0:
                raise ValueError('range() arg 3 must not be zero')
            if st > 0:
                d = stop - start
                n = maxi(d, 0) if st == 1 else maxi((d + (st - 1)) // st, 0)
            else:
                d = start - stop
                n = maxi((d + (-st - 1)) // (-st), 0) if st != -1 else maxi(d, 0)
        else:
            if step == 0:
                raise ValueError('range() arg 3 must not be zero')
            if step > 0:
                n = maxi((stop - start + step - 1) // step, 0)
            else:
                n = maxi((start - stop - step - 1) // (-step), 0)
        self.n = norm_len(n)

    def _slice(self, s):
        a, cnt, step = slice_bounds(s, self.n)
        st = self.step * step
        start = self.start + a * self.step
        r = SymRange.__new__(SymRange)
        r.start, r.step, r.n = start, st, cnt
        r.stop = start + cnt * st
        return r

    def __eq__(self, o):
        if type(o) in (SymRange, range):
            o = as_seq(o)
            return And(veq(self.n, o.n), Or(self.n == 0, And(veq(self.start, o.start),
                                                            Or(self.n == 1, veq(self.step, o.step)))))
        return NotImplemented

    def __contains__(self, x):
        if not is_intlike(x):
            return False
        return bool(range_contains(self, x))

    def index(self, x):
        if not range_contains(self, x):
            raise ValueError('not in range')
        if is_conc_int(self.step) or self.step > 0:
            if is_conc_int(self.step) and int(self.step) < 0:
                return (self.start - x) // -int(self.step)
            return (x - self.start) // self.step
        return (self.start - x) // (-self.step)

    def count(self, x):
        return If(range_contains(self, x), 1, 0)

    def __repr__(self):
        return '<symrange>'

    def _pv_subst(self, pairs):
        r = SymRange.__new__(SymRange)
        r.start, r.stop, r.step, r.n = (subst(x, pairs) for x in (self.start, self.stop, self.step, self.n))
        return r
