"""Models of the builtins and library functions which the repository calls.

Each model is exact for the arguments it accepts and raises Unsupported otherwise.  With
only concrete arguments the real function is called.
"""
import array as _array
import bisect
import builtins
import collections
import collections.abc
import enum
import fractions
import functools
import itertools
import math
import operator
import struct
import types
import weakref

import z3

from .core import E, Unsupported, PathEnd
from .values import (SymInt, SymBool, SymFloat, SymReal, And, Or, Not, If, Implies, mk_bool, mk_int, tm, bt, rng, is_sym, is_intlike,
                     is_conc_int, plain, with_type, as_int, merge, narrowed, simp, floordiv_mod, subst, real, STRUCT_ROOTS)
from .seq import (Seq, RepSeq, ConcatSeq, VList, FnSeq, TplSeq, ConcSeq, SliceSeq, RangeSeq, SymRange, InfSeq, SymIter, SymBytes, as_seq, concat,
                  conc_len, seq_all, seq_any, seq_contains, seq_eq, veq, vlt, maxi, mini, forall, pure, retyped, range_contains,
                  truth, StrSeq, qvar)
from . import loops
from .loops import Loop, UNBOUND, WHILE, is_poison

I = z3.IntVal
SHIMS = {}
METHODS = {}
SKIP = object()


def shim(*fs):
    def deco(h):
        for f in fs:
            SHIMS[f] = h
        return h
    return deco


def method(t, *names):
    def deco(h):
        for n in names:
            METHODS[(t, n)] = h
        return h
    return deco


def symbolic(x):
    if is_sym(x):
        return True
    if type(x) in (tuple, list):
        return any(symbolic(y) for y in x)
    return False


def any_sym(args):
    return any(symbolic(a) for a in args)


CLASS_MODELS = {}


def pv_call(f, *args, **kw):
    try:
        h = SHIMS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*args, **kw)
    tf = type(f)
    if tf is types.BuiltinFunctionType:
        s = f.__self__
        if s is not None and not isinstance(s, types.ModuleType):
            h = METHODS.get((type(s), f.__name__))
            if h is not None:
                return h(s, *args, **kw)
            if f.__name__ == '__new__' and isinstance(s, type):
                return E.born(builtin_new(s, *args, **kw))
        elif any_sym(args):
            raise Unsupported('call of {} with symbolic arguments'.format(f.__name__))
    elif tf is types.MethodWrapperType or tf is types.WrapperDescriptorType:
        pass
    elif isinstance(f, type):
        if issubclass(f, enum.Enum) and len(args) == 1 and is_sym(args[0]):
            return enum_call(f, args[0])
        if f.__new__ is int.__new__ and issubclass(f, int) and args and is_sym(args[0]):
            return with_type(to_int(args[0]), f)
        if issubclass(f, tuple) and f is not tuple:
            pass
        if issubclass(f, BaseException):
            return f(*args, **kw)
        if E.loop_ks:
            if type(f).__call__ is type.__call__ and f.__module__.split('.')[0] in STRUCT_ROOTS and not issubclass(f, (type, enum.Enum)):
                o = pv_call(f.__new__, f, *args, **kw) if f.__new__ is not object.__new__ else object.__new__(f)
                E.born(o)
                if issubclass(type(o), f) and type(o).__init__ is not object.__init__:
                    type(o).__init__(o, *args, **kw)
                return o
            return E.born(f(*args, **kw))
    elif tf is types.MethodDescriptorType:
        if args and (type(args[0]), f.__name__) in METHODS:
            return METHODS[(type(args[0]), f.__name__)](*args, **kw)
        if args and is_sym(args[0]):
            return getattr(args[0], f.__name__)(*args[1:], **kw)
    elif tf is operator.itemgetter or tf is operator.attrgetter:
        pass
    return f(*args, **kw)


class Star:
    def __init__(self, seq):
        self.seq = seq


def pv_callv(f, parts, **kw):
    args = []
    sym = False
    for star, v in parts:
        if star:
            if type(v) in (tuple, list):
                args.extend(v)
                continue
            s = as_seq(v)
            k = conc_len(s) if s.n is not None else None
            if k is None:
                args.append(Star(s))
                sym = True
            else:
                args.extend(s.at(i) for i in range(k))
        else:
            args.append(v)
    if sym:
        if f is struct.pack:
            return struct_pack(*args)
        if isinstance(f, types.BuiltinFunctionType) and isinstance(f.__self__, struct.Struct):
            return struct_pack(f.__self__.format, *args)
        raise Unsupported('star arguments of symbolic number')
    return pv_call(f, *args, **kw)


# ------------------------------------------------------------------ numbers
def to_int(x):
    t = type(x)
    if t is SymInt:
        return plain(x)
    if t is SymBool:
        return as_int(x)
    if t is SymFloat:
        return x.to_int()
    if t is SymReal:
        return SymInt(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))
    return None


@shim(int)
def pv_int(x=0, *a, **k):
    if is_sym(x):
        r = to_int(x)
        if r is not None:
            return r
        if pt(x) is str:
            raise Unsupported('int() of a symbolic string')
    if not isinstance(x, (int, float, str, bytes)):
        for m in ('__int__', '__index__', '__trunc__'):
            g = getattr(type(x), m, None)
            if g is not None and not isinstance(g, types.WrapperDescriptorType):
                return g(x)
    return int(x, *a, **k)


def pt(x):
    return x.__class__


def builtin_new(s, cls=None, *args, **kw):
    if s is int and args and is_sym(args[0]):
        r = to_int(args[0])
        if r is None:
            raise Unsupported('int.__new__')
        return with_type(r, cls) if type(r) is SymInt else int.__new__(cls, r)
    if s is int and args and not isinstance(args[0], (int, float, str, bytes)):
        r = pv_int(args[0])
        return builtin_new(s, cls, r) if is_sym(r) else int.__new__(cls, r)
    if s is float and args and is_sym(args[0]):
        raise Unsupported('float.__new__')
    return s.__new__(cls, *args, **kw) if cls is not None else s.__new__(s)


def enum_call(f, v):
    if is_intlike(v) and issubclass(f, int):
        vals = sorted(int(m) for m in f)
        # contiguous runs as intervals
        conds = []
        i = 0
        while i < len(vals):
            j = i
            while j + 1 < len(vals) and vals[j + 1] == vals[j] + 1:
                j += 1
            conds.append(And(v >= vals[i], v <= vals[j]))
            i = j + 1
        if Or(*conds):
            return SymInt(tm(v), vals[0], vals[-1], 0, f)
        raise ValueError('not a valid {}'.format(f.__name__))
    for m in f:
        if veq(v, m.value):
            return m
    raise ValueError('not a valid {}'.format(f.__name__))


@shim(float)
def pv_float(x=0.0):
    t = type(x)
    if t is SymInt or t is SymBool:
        return SymFloat.from_int(as_int(x))
    if t in (SymFloat, SymReal):
        return x
    g = getattr(type(x), '__float__', None)
    if g is not None and not isinstance(g, types.WrapperDescriptorType):
        return g(x)
    return float(x)


@shim(bool)
def pv_bool(x=False):
    if type(x) is SymBool:
        return x
    if type(x) is SymInt:
        return x != 0
    return bool(x)


@shim(abs)
def pv_abs(x):
    return x.__abs__() if is_sym(x) else abs(x)


@shim(divmod)
def pv_divmod(a, b):
    if is_sym(a) or is_sym(b):
        return floordiv_mod(a, b)
    return divmod(a, b)


@shim(pow)
def pv_pow(a, b, m=None):
    if is_sym(a) or is_sym(b):
        if m is not None:
            raise Unsupported('modular power')
        return a ** b
    return pow(a, b) if m is None else pow(a, b, m)


@shim(round)
def pv_round(x, n=None):
    if is_sym(x):
        if is_intlike(x):
            return plain(x)
        raise Unsupported('round of a symbolic float')
    return round(x, n) if n is not None else round(x)


def _vals(args):
    if len(args) == 1:
        return as_seq(args[0]) if not isinstance(args[0], (range,)) or True else args[0]
    return ConcSeq(list(args))


def minmax_of(args, kw, native, lt):
    if not kw and not any_sym(args) and not any(type(a) is VList for a in args):
        if len(args) != 1 or type(args[0]) in (list, tuple, range, dict, set):
            return native(*args)
    key = kw.get('key')
    s = _vals(args)
    k = conc_len(s)
    if k is None:
        if not (s.n > 0):
            if 'default' in kw:
                return kw['default']
            raise ValueError('arg is an empty sequence')
        g = (lambda v: v) if key is None else (lambda v: pv_call(key, v))
        w = SymInt(E.const('w'), 0)
        E.add(z3.And(w.t >= 0, w.t < tm(s.n)))
        r = s.at(w)
        E.assume(forall(s.n, lambda j: Not(lt(g(s.at(j)), g(r)))))
        if key is not None:
            E.assume(forall(w, lambda j: lt(g(r), g(s.at(j)))))      # the first of them
        return r
    if k == 0:
        if 'default' in kw:
            return kw['default']
        raise ValueError('arg is an empty sequence')
    f = key or (lambda v: v)
    best = s.at(0)
    for i in range(1, k):
        x = s.at(i)
        c = lt(f(x), f(best))
        best = If(c, x, best) if (is_intlike(x) and is_intlike(best)) or type(x) is SymReal or type(best) is SymReal \
            else (x if c else best)
    return best


@shim(min)
def pv_min(*args, **kw):
    return minmax_of(args, kw, min, vlt)


@shim(max)
def pv_max(*args, **kw):
    return minmax_of(args, kw, max, lambda a, b: vlt(b, a))


@shim(sum)
def pv_sum(it, start=0):
    if type(it) in (list, tuple, range):
        if not any_sym((it,)):
            return sum(it, start)
    s = as_seq(it)
    k = conc_len(s)
    if k is None:
        raise Unsupported('sum of a series of symbolic length')
    for i in range(k):
        start = start + s.at(i)
    return start


@shim(math.frexp)
def pv_frexp(x):
    if type(x) is SymFloat:
        return x.frexp()
    if is_sym(x):
        x = pv_float(x)
        return pv_frexp(x)
    return math.frexp(x)


@shim(math.isnan)
def pv_isnan(x):
    if is_sym(x):
        return False
    return math.isnan(pv_float(x)) if not isinstance(x, (int, float)) else math.isnan(x)


@shim(math.isinf)
def pv_isinf(x):
    if is_sym(x):
        return False
    return math.isinf(pv_float(x)) if not isinstance(x, (int, float)) else math.isinf(x)


@shim(math.isfinite)
def pv_isfinite(x):
    return True if is_sym(x) else math.isfinite(x)


@shim(math.trunc)
def pv_trunc(x):
    if is_sym(x):
        return x.__trunc__()
    g = getattr(type(x), '__trunc__', None)
    return g(x) if g is not None else math.trunc(x)


@shim(math.floor)
def pv_floor(x):
    g = getattr(type(x), '__floor__', None)
    return g(x) if g is not None else math.floor(x)


@shim(math.ceil)
def pv_ceil(x):
    g = getattr(type(x), '__ceil__', None)
    return g(x) if g is not None else math.ceil(x)


@shim(math.ldexp)
def pv_ldexp(x, e):
    if is_sym(x) or is_sym(e):
        x = pv_float(x)
        if type(x) is SymFloat:
            return SymFloat(x.n, x.q + e, x.norm)._range()
        raise Unsupported('ldexp')
    return math.ldexp(x, e)


@shim(math.gcd)
def pv_gcd(a, b):
    if not (is_sym(a) or is_sym(b)):
        return math.gcd(a, b)
    if is_sym(b) and not is_sym(a):
        a, b = b, a
    if is_sym(b):
        raise Unsupported('gcd of two symbolic integers')
    b = abs(int(b))
    if b == 0:
        return abs(a)
    if b & (b - 1):
        raise Unsupported('gcd with a number which is not a power of two')
    if a == 0:
        return b
    top = b.bit_length() - 1
    la, ha = rng(a)
    if la is not None and ha is not None:
        top = min(top, max(abs(la), abs(ha)).bit_length())
    lo = min(a.tz, top)
    t = tm(a)
    conds = []
    for z in range(lo, top + 1):
        c = t % I(1 << z) == 0
        if z < top:
            c = z3.And(c, t % I(1 << (z + 1)) != 0)
        conds.append(c)
    z = lo + E.decide(conds, 'gcd')
    if a.tz < z:
        a.tz = z
    return 1 << z


@shim(operator.lt)
def _lt(a, b):
    return vlt(a, b)


@shim(operator.gt)
def _gt(a, b):
    return vlt(b, a)


@shim(operator.le)
def _le(a, b):
    return Not(vlt(b, a)) if symbolic(a) or symbolic(b) else a <= b


@shim(operator.ge)
def _ge(a, b):
    return Not(vlt(a, b)) if symbolic(a) or symbolic(b) else a >= b


@shim(operator.eq)
def _eq(a, b):
    return veq(a, b)


@shim(operator.ne)
def _ne(a, b):
    return Not(veq(a, b))


@shim(fractions.Fraction)
def pv_fraction(n=0, d=None):
    if is_sym(n) or is_sym(d):
        if d is None:
            return SymReal(z3.ToReal(tm(n)), fractions.Fraction)
        return SymRational(n, d)
    return fractions.Fraction(n, d) if d is not None else fractions.Fraction(n)


class SymRational:
    """An exact quotient num/den with integer operations."""
    _pv_sym = True
    __class__ = property(lambda self: fractions.Fraction)

    def __init__(self, num, den):
        if den == 0:
            raise ZeroDivisionError('Fraction({}, 0)'.format(num))
        self.num = num
        self.den = den
        self.q = None

    def __mul__(self, o):
        if is_intlike(o):
            return SymRational(self.num * o, self.den)
        return NotImplemented

    __rmul__ = __mul__

    def __add__(self, o):
        if is_intlike(o):
            return SymRational(self.num + o * self.den, self.den)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o)

    def _quot(self):
        return floordiv_mod(self.num, self.den)

    @property
    def denominator(self):
        q, r = self._quot()
        if r == 0:
            return 1
        return SymInt(z3.FreshConst(z3.IntSort(), 'den'), 2)

    @property
    def numerator(self):
        q, r = self._quot()
        if r == 0:
            return q
        raise Unsupported('numerator of a proper fraction')

    def __trunc__(self):
        raise Unsupported('trunc of a fraction')

    def __eq__(self, o):
        if is_intlike(o):
            return veq(self.num, o * self.den)
        return NotImplemented

    __hash__ = None


# ---------------------------------------------------------------- sequences
@shim(len)
def pv_len(x):
    t = type(x)
    if t is str and '\ue000' in x:
        raise Unsupported('length of the text of a symbolic number')
    if t is VList or (isinstance(t, type) and issubclass(t, Seq)):
        n = x.n
        if n is None:
            raise TypeError('object has no len()')
        return n
    g = getattr(t, '_pv_len', None)
    if g is not None:
        return g(x)
    m = getattr(t, '__len__', None)
    if isinstance(m, types.FunctionType):
        r = m(x)
        if is_intlike(r):
            if r < 0:
                raise ValueError('__len__() should return >= 0')
            return r
        raise TypeError('__len__')
    return len(x)


@shim(range)
def pv_range(*a):
    if any_sym(a):
        a = [plain(x) if is_intlike(x) else x for x in a]
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        return SymRange(start, stop, step)
    return range(*a)


@shim(list)
def pv_listof(x=()):
    s = as_seq(x)
    if s.n is None:
        raise Unsupported('list of an infinite series')
    k = s.n if is_conc_int(s.n) else conc_len(s)
    if k is not None and k <= 4096:
        return VList([s.at(i) for i in range(int(k))])
    return VList(base=retyped(s, list))


@shim(tuple)
def pv_tupleof(x=()):
    if type(x) is tuple:
        return x
    s = as_seq(x)
    k = s.n if is_conc_int(s.n) else conc_len(s)
    if k is not None:
        return tuple(s.at(i) for i in range(int(k)))
    return retyped(s, tuple)


def pv_list(*elts):
    return VList(elts)


def pv_listv(parts):
    out = VList()
    for star, v in parts:
        if star:
            out.extend(v)
        else:
            out.append(v)
    return out


def pv_dict_display(pairs):
    if any(symbolic(k) for k, v in pairs):
        return VDict(ConcSeq([tuple(p) for p in pairs]))
    return dict(pairs)


def pv_set_display(elts):
    if any_sym(elts):
        return make_set(ConcSeq(list(elts)))
    return set(elts)


@shim(iter)
def pv_iter(x, *a):
    if a:
        return CallIter(x, a[0])
    if type(x) is SymIter or isinstance(x, types.GeneratorType):
        return x
    if not is_sym(x) and isinstance(x, loops.NATIVE_ITERABLES) and type(x) not in (map, zip):
        return iter(x)
    m = getattr(type(x), '__iter__', None)
    if isinstance(m, types.FunctionType) and not is_sym(x):
        return m(x)
    return SymIter(as_seq(x))


class CallIter:
    """iter(callable, sentinel)"""

    def __init__(self, f, sentinel):
        self.f = f
        self.sentinel = sentinel

    def __iter__(self):
        return self

    def __next__(self):
        v = self.f()
        if veq(v, self.sentinel):
            raise StopIteration
        return v


_MISSING = object()


@shim(next)
def pv_next(it, default=_MISSING):
    try:
        if type(it) is VList:
            raise TypeError("'list' object is not an iterator")
        return type(it).__next__(it) if hasattr(type(it), '__next__') else next(it)
    except StopIteration:
        if default is _MISSING:
            raise
        return default


@shim(reversed)
def pv_reversed(x):
    m = getattr(type(x), '__reversed__', None)
    if isinstance(m, types.FunctionType) and not is_sym(x):
        return m(x)
    if is_sym(x):
        s = as_seq(x)
        return SymIter(SliceSeq(s, s.n - 1, s.n, -1))
    if not hasattr(x, '__getitem__') or isinstance(x, dict):
        return reversed(x)
    try:
        n = pv_len(x)
        if is_conc_int(n):
            return reversed(x) if isinstance(x, loops.NATIVE_ITERABLES) else iter([x[i] for i in range(int(n) - 1, -1, -1)])
        return SymIter(FnSeq(n, lambda i: x[n - 1 - i]))
    except TypeError:
        return reversed(x)


@shim(enumerate)
def pv_enumerate(x, start=0):
    if type(x) in (list, tuple, str, bytes, range, dict):
        return enumerate(x, start)
    s = as_seq(x)
    f = lambda i: (start + i, s.at(i))
    return SymIter(FnSeq(s.n, f) if s.n is not None else InfSeq(f))


def view(x):
    """A Seq for an iterable, infinite series included."""
    return as_seq(x)


@shim(zip)
def pv_zip(*its, strict=False):
    if all(isinstance(x, (list, tuple, str, bytes, range, dict)) and not is_sym(x) for x in its):
        return zip(*its)
    if not its:
        return zip()
    ss = [view(x) for x in its]
    n = None
    for s in ss:
        if s.n is not None:
            n = s.n if n is None else mini(n, s.n)
    f = lambda i: tuple(s.at(i) for s in ss)
    return SymIter(FnSeq(n, f) if n is not None else InfSeq(f))


@shim(itertools.zip_longest)
def pv_zip_longest(*its, fillvalue=None):
    ss = [view(x) for x in its]
    ks = [conc_len(s) for s in ss]
    if None in ks:
        raise Unsupported('zip_longest of series of symbolic length')
    return SymIter(ConcSeq([tuple(s.at(i) if i < k else fillvalue for s, k in zip(ss, ks)) for i in range(max(ks))]))


@shim(map)
def pv_map(f, *its):
    if len(its) == 1:
        return SymIter(as_seq(pv_comp('map', its[0], None, lambda x: pv_call(f, x), False)))
    ss = view(pv_zip(*its))
    return SymIter(as_seq(pv_comp('map', ss, None, lambda x: pv_call(f, *x), False)))


@shim(filter)
def pv_filter(f, it):
    g = f or (lambda x: x)
    return SymIter(as_seq(pv_comp('filter', it, None, lambda x: x if pv_call(g, x) else SKIP, False)))


@shim(all)
def pv_all(x):
    return seq_all(as_seq(x))


@shim(any)
def pv_any(x):
    return seq_any(as_seq(x))


@shim(itertools.tee)
def pv_tee(it, n=2):
    s = as_seq(it)
    return tuple(SymIter(s) for _ in range(n))


@shim(itertools.chain)
def pv_chain(*its):
    ss = [view(x) for x in its]
    if ss and ss[-1].n is None and len(ss) == 2:
        a, b = ss
        if a.n is None:
            return SymIter(a)

        def at(i):
            c = i < a.n
            if c is True:
                return a.at(i)
            if c is False:
                return b.at(i - a.n)
            if not E.pure:
                if E.valid_quick(bt(c)):
                    return a.at(i)
                if E.valid_quick(z3.Not(bt(c))):
                    return b.at(i - a.n)
            x, y = a.at(i), b.at(i - a.n)
            return LazyIf(c, x, y)
        return SymIter(InfSeq(at))
    return SymIter(concat(ss, list) if ss else ConcSeq([]))


def LazyIf(c, x, y):
    return merge(bt(c), x, y)


@shim(itertools.chain.from_iterable)
def pv_chain_from(x):
    s = as_seq(x)
    k = conc_len(s)
    if k is None:
        raise Unsupported('chain.from_iterable of symbolic length')
    return pv_chain(*[s.at(i) for i in range(k)])


@shim(itertools.repeat)
def pv_repeat(x, times=None):
    if times is None:
        return SymIter(InfSeq(lambda i: x))
    return SymIter(FnSeq(maxi(times, 0), lambda i: x))


@shim(itertools.count)
def pv_count(start=0, step=1):
    return SymIter(InfSeq(lambda i: start + i * step))


@shim(itertools.islice)
def pv_islice(it, *a):
    s = view(it)
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0] or 0, a[1], 1) if len(a) == 2 else (a[0] or 0, a[1], a[2] or 1)
    if step != 1:
        raise Unsupported('islice with a step')
    if s.n is None:
        if stop is None:
            raise Unsupported('infinite islice')
        n = maxi(stop - start, 0)
    else:
        n = s.n - start if stop is None else mini(stop, s.n) - start
        n = maxi(n, 0)
    k = n if is_conc_int(n) else None
    if k is not None and k <= 4096:
        return SymIter(ConcSeq([s.at(start + i) for i in range(int(k))]))
    return SymIter(FnSeq(n, lambda i: s.at(start + i)))


@shim(itertools.product)
def pv_product(*its, repeat=1):
    ss = [as_seq(x) for x in its] * repeat
    if all(conc_len(s) is not None for s in ss):
        return itertools.product(*[[s.at(i) for i in range(conc_len(s))] for s in ss])
    if len(ss) != 2:
        raise Unsupported('product')
    a, b = ss

    def at(i):
        q, r = floordiv_mod(i, b.n)
        return a.at(q), b.at(r)
    return SymIter(FnSeq(a.n * b.n, at))


def symbolic_groups(s, key):
    """The groups are the maximal runs of equal keys: run i is start(i) .. start(i + 1) - 1."""
    if s.n is None:
        raise Unsupported('groupby of an infinite series')
    f = key or (lambda v: v)
    count = E.const('groups')
    ks = list(E.loop_ks)
    F = z3.Function(E.fresh_name('run'), *([z3.IntSort()] * (len(ks) + 2)))
    start = lambda i: F(*(ks + [tm(i)]))
    n = tm(s.n)
    i, j = qvar('i'), qvar('j')
    E.add(z3.And(count >= 0, (count == 0) == (n == 0), start(0) == 0, start(count) == n))
    kv = lambda t: f(s.at(SymInt(t, 0)))
    E.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < count), z3.And(start(i) >= 0, start(i) < start(i + 1), start(i + 1) <= n)),
                    patterns=[start(i)]))
    E.add(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < count, j >= start(i), j < start(i + 1)),
                                       bt(pure(lambda: veq(kv(j), kv(start(i))))))))
    E.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i + 1 < count), z3.Not(bt(pure(lambda: veq(kv(start(i + 1) - 1), kv(start(i + 1)))))))))

    def at(i):
        b = SymInt(start(i), 0)
        return kv(start(i)), SymIter(SliceSeq(s, b, SymInt(start(tm(i) + 1), 0) - b, 1))
    return SymIter(FnSeq(SymInt(count, 0), at))


@shim(itertools.groupby)
def pv_groupby(x, key=None):
    s = as_seq(x)
    k = conc_len(s)
    if k is None:
        return symbolic_groups(s, key)
    out = []
    f = key or (lambda v: v)
    i = 0
    while i < k:
        g = [s.at(i)]
        kv = f(s.at(i))
        i += 1
        while i < k and veq(f(s.at(i)), kv):
            g.append(s.at(i))
            i += 1
        out.append((kv, g))
    return iter(out)


@shim(bytes, bytearray)
def pv_bytes(x=b'', *a):
    if is_sym(x):
        if is_intlike(x):
            if x < 0:
                raise ValueError('negative count')
            return FnSeq(x, lambda i: 0, bytes)
        if isinstance(x, bytes):
            return x
    elif isinstance(x, (bytes, bytearray, memoryview)):
        return bytes(x)
    elif isinstance(x, str):
        return bytes(x, *a)
    elif isinstance(x, int):
        return bytes(int(x))
    m = getattr(type(x), '__bytes__', None)
    if isinstance(m, types.FunctionType):
        return m(x)
    s = as_seq(x)
    k = conc_len(s)
    if k is None:
        return retyped(s, bytes)      # elements are checked where they are produced
    items = []
    for i in range(k):
        v = s.at(i)
        if is_sym(v):
            if not is_intlike(v):
                raise TypeError('an integer is required')
            if not And(v >= 0, v <= 255):
                raise ValueError('bytes must be in range(0, 256)')
            v = narrowed(plain(v), 0, 255)
        items.append(v)
    return SymBytes.of(items)


@shim(str)
def pv_str(x='', *a):
    if is_sym(x):
        if pt(x) is str:
            return x
        return marker(x)
    return str(x, *a)


@shim(repr)
def pv_repr(x):
    return marker(x) if is_sym(x) else repr(x)


def marker(x):
    k = len(E.fmt)
    m = '\ue000{}\ue001'.format(k)
    E.fmt[m] = x
    return m


SymInt.__format__ = lambda self, spec: marker(self)
SymInt.__str__ = lambda self: marker(self)
SymInt.__repr__ = lambda self: marker(self)


@shim(type)
def pv_type(*a, **k):
    if len(a) == 1:
        if is_poison(a[0]):
            a[0]._bad()
        return a[0].__class__
    return type(*a, **k)


@shim(isinstance)
def pv_isinstance(x, t):
    if is_poison(x):
        x._bad()
    if type(x) is SymIter:
        from collections.abc import Iterator, Iterable
        return isinstance(iter(()), t)
    return isinstance(x, t)


@shim(callable)
def pv_callable(x):
    if is_poison(x):
        x._bad()
    return callable(x)


@shim(hash)
def pv_hash(x):
    return hash(x)


# ----------------------------------------------------------------- sorting
def sorted_view(s, key, reverse):
    """The sorted rearrangement of s: stable, a permutation."""
    k = conc_len(s)
    f = (lambda v: pv_call(key, v)) if key is not None else (lambda v: v)
    if k is not None:
        if k <= 1:
            return [s.at(i) for i in range(k)]
        if k > 6 and any(symbolic(f(s.at(i))) for i in range(k)):
            pass
        else:
            items = [s.at(i) for i in range(k)]
            keys = [f(v) for v in items]
            out = []
            for v, kv in zip(items, keys):
                # insertion after the elements which are not greater
                pos = len(out)
                while pos > 0 and bool(vlt(kv, out[pos - 1][1]) if not reverse else vlt(out[pos - 1][1], kv)):
                    pos -= 1
                out.insert(pos, (v, kv))
            return [v for v, _ in out]
    n = s.n
    name = E.fresh_name('perm')
    ks = list(E.loop_ks)
    P = z3.Function(name, *([z3.IntSort()] * (len(ks) + 2)))
    Q = z3.Function(name + 'inv', *([z3.IntSort()] * (len(ks) + 2)))
    tn = tm(n)
    p = lambda i: P(*(ks + [tm(i)]))
    q = lambda i: Q(*(ks + [tm(i)]))
    j, m = qvar('i'), qvar('m')
    inb = lambda x: z3.And(x >= 0, x < tn)
    E.add(z3.ForAll([j], z3.Implies(inb(j), z3.And(inb(p(j)), q(p(j)) == j)), patterns=[p(j)]))
    E.add(z3.ForAll([j], z3.Implies(inb(j), z3.And(inb(q(j)), p(q(j)) == j)), patterns=[q(j)]))

    def at(i):
        return s.at(SymInt(p(i), 0))
    kj = pure(lambda: f(at(SymInt(j, 0))))
    km = pure(lambda: f(at(SymInt(m, 0))))
    lt = pure(lambda: vlt(kj, km))
    gt = pure(lambda: vlt(km, kj))
    le = Not(gt) if not reverse else Not(lt)
    strict = lt if not reverse else gt
    # order, and stability for equal keys
    body = z3.And(bt(le), z3.Or(bt(strict), p(j) < p(m)))
    E.add(z3.ForAll([j, m], z3.Implies(z3.And(j >= 0, j < m, m < tn), body), patterns=[z3.MultiPattern(p(j), p(m))]))
    r = FnSeq(n, at)
    r.sorted_key = key
    r.perm = (p, q)
    r.of = s
    return r


@shim(sorted)
def pv_sorted(it, key=None, reverse=False):
    if key is None and type(it) is SymSet:
        return it.sorted_list(reverse)
    s = as_seq(it)
    if type(s) is ConcSeq and not any(symbolic(x) for x in s.items) and key is None:
        return VList(sorted(s.items, reverse=reverse))
    r = sorted_view(s, key, reverse)
    return VList(r) if isinstance(r, list) else VList(base=r)


@shim(set, frozenset)
def pv_setof(it=()):
    s = as_seq(it)
    k = conc_len(s)
    if k is not None and not any(symbolic(s.at(i)) for i in range(k)):
        return set(s.at(i) for i in range(k))
    return make_set(s)


def make_set(s):
    return SymSet(s)


class SymSet:
    """The set of the elements of a series."""
    _pv_sym = True
    __class__ = property(lambda self: set)
    __hash__ = None

    def __init__(self, s):
        self.s = s

    def __contains__(self, x):
        return bool(seq_contains(self.s, x))

    def _pv_len(self):
        return as_seq(self.sorted_list()).n

    def __bool__(self):
        return bool(self.s.n != 0)

    def sorted_list(self, reverse=False):
        """The distinct elements in strictly increasing order."""
        s = self.s
        k = conc_len(s)
        if k is not None and k <= 6:
            out = []
            for i in range(k):
                v = s.at(i)
                pos = 0
                dup = False
                while pos < len(out):
                    if veq(v, out[pos]):
                        dup = True
                        break
                    if vlt(v, out[pos]):
                        break
                    pos += 1
                if not dup:
                    out.insert(pos, v)
            if reverse:
                out.reverse()
            return VList(out)
        # Skolem functions: element d of the result is element P(d) of s, element i of s is Q(i) of the result
        name = E.fresh_name('dist')
        ks = list(E.loop_ks)
        P = z3.Function(name, *([z3.IntSort()] * (len(ks) + 2)))
        Q = z3.Function(name + 'inv', *([z3.IntSort()] * (len(ks) + 2)))
        nd = E.const('nd')
        p = lambda i: P(*(ks + [tm(i)]))
        q = lambda i: Q(*(ks + [tm(i)]))
        tn = tm(s.n)
        j, m = qvar('i'), qvar('m')
        E.add(z3.And(nd >= 0, nd <= tn, z3.Implies(tn > 0, nd > 0)))
        E.add(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < nd), z3.And(p(j) >= 0, p(j) < tn, q(p(j)) == j)), patterns=[p(j)]))
        at = (lambda i: s.at(SymInt(p(i), 0)))
        same = pure(lambda: veq(at(SymInt(q(j), 0)), s.at(SymInt(j, 0))))
        E.add(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < tn), z3.And(q(j) >= 0, q(j) < nd, bt(same))), patterns=[q(j)]))
        # trigger for elements
        sj = pure(lambda: s.at(SymInt(j, 0)))
        lt = pure(lambda: vlt(at(SymInt(j, 0)), at(SymInt(m, 0))))
        E.add(z3.ForAll([j, m], z3.Implies(z3.And(j >= 0, j < m, m < nd), bt(lt)), patterns=[z3.MultiPattern(p(j), p(m))]))
        # p and q inverse on results
        r = FnSeq(SymInt(nd, 0), at)
        r.skolem = (p, q)
        r.of = s
        if reverse:
            return VList(base=SliceSeq(r, r.n - 1, r.n, -1))
        return VList(base=r)

    def __iter__(self):
        return iter(as_seq(self.sorted_list()))

    def _pv_seq(self):
        # the iteration order of a set is unspecified; only order independent uses are modelled
        return as_seq(self.sorted_list())


@shim(bisect.bisect_left)
def pv_bisect_left(a, x, *rest):
    if not symbolic(x) and not is_sym(a):
        return bisect.bisect_left(a, x, *rest)
    if rest:
        raise Unsupported('bisect with bounds')
    s = as_seq(a)
    k = conc_len(s)
    if k is not None and k <= 8:
        r = 0
        while r < k and vlt(s.at(r), x):
            r += 1
        return r
    return bisect_point(s, lambda v: vlt(v, x))


@shim(bisect.bisect_right, bisect.bisect)
def pv_bisect_right(a, x, *rest):
    if not symbolic(x) and not is_sym(a):
        return bisect.bisect_right(a, x, *rest)
    s = as_seq(a)
    return bisect_point(s, lambda v: Not(vlt(x, v)))


def bisect_point(s, before):
    """The index such that exactly the elements below it satisfy 'before' (s is sorted)."""
    r = E.const('bis')
    tn = tm(s.n)
    E.add(z3.And(r >= 0, r <= tn))
    j = qvar()
    b = bt(pure(lambda: before(s.at(SymInt(j, 0)))))
    E.add(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < r), b)))
    E.add(z3.ForAll([j], z3.Implies(z3.And(j >= r, j < tn), z3.Not(b))))
    # instances next to the point
    ri = SymInt(r, 0)
    E.add(z3.Implies(r < tn, z3.Not(bt(pure(lambda: before(s.at(ri)))))))
    E.add(z3.Implies(r > 0, bt(pure(lambda: before(s.at(ri - 1))))))
    E.assumed.add('bisect on a list is only used where the list is sorted (the sortedness is a postcondition of its construction)')
    return ri


# -------------------------------------------------------------- dictionaries
class VDict:
    """Dictionary from a series of (key, value) pairs with symbolic keys (later pairs win)."""
    _pv_sym = True
    __class__ = property(lambda self: collections.OrderedDict)
    __hash__ = None

    def __init__(self, pairs, distinct=False):
        self.pairs = pairs          # Seq of 2-tuples
        self.oid = E.next_obj()
        E.register(self)
        self.tail = []

    def snap(self):
        if not self.tail:
            return self.pairs
        return concat([self.pairs, ConcSeq(list(self.tail))], list)

    def __setitem__(self, k, v):
        E.touched(self)
        self.tail.append((k, v))

    def _find(self, key):
        """Index of the last pair with the key, or None (branches)."""
        s = self.snap()
        k = conc_len(s)
        if k is not None and k <= 16:
            for i in range(k - 1, -1, -1):
                if veq(s.at(i)[0], key):
                    return i
            return None
        w = E.const('w')
        j = qvar()
        e = bt(pure(lambda: veq(s.at(SymInt(j, 0))[0], key)))
        neg = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < tm(s.n)), z3.Not(e)))
        pos = z3.And(w >= 0, w < tm(s.n), z3.substitute(e, (j, w)))
        if E.decide((pos, neg)) == 0:
            E.add(z3.ForAll([j], z3.Implies(z3.And(j > w, j < tm(s.n)), z3.Not(e))))
            return SymInt(w, 0)
        return None

    def __getitem__(self, key):
        i = self._find(key)
        if i is None:
            raise KeyError('<key>')
        return self.snap().at(i)[1]

    def get(self, key, default=None):
        i = self._find(key)
        return default if i is None else self.snap().at(i)[1]

    def __contains__(self, key):
        return self._find(key) is not None

    def _pv_distinct(self):
        s = self.snap()
        k = conc_len(s)
        if k is not None:
            out = []
            for i in range(k):
                key, v = s.at(i)
                for n, (k2, _) in enumerate(out):
                    if veq(k2, key):
                        out[n] = (k2, v)
                        break
                else:
                    out.append((key, v))
            return ConcSeq(out)
        j, m = qvar('a'), qvar('b')
        ne = pure(lambda: Not(veq(s.at(SymInt(j, 0))[0], s.at(SymInt(m, 0))[0])))
        d = z3.ForAll([j, m], z3.Implies(z3.And(j >= 0, j < m, m < tm(s.n)), bt(ne)))
        st = E.solve(d, timeout=5000, want_model=False)[0] if not E.infer_depth else 'proved'
        if st != 'proved':
            raise Unsupported('dictionary built from keys which are not known to be distinct')
        return s

    def _pv_len(self):
        return self._pv_distinct().n

    def __len__(self):
        k = conc_len(self._pv_distinct())
        if k is None:
            raise Unsupported('native len() of a symbolic dictionary')
        return k

    def _pv_seq(self):
        s = self._pv_distinct()
        return FnSeq(s.n, lambda i: s.at(i)[0])

    def __iter__(self):
        return SymIter(self._pv_seq())

    def keys(self):
        return self._pv_seq()

    def values(self):
        s = self._pv_distinct()
        return FnSeq(s.n, lambda i: s.at(i)[1])

    def items(self):
        return self._pv_distinct()

    def __bool__(self):
        return bool(self.snap().n != 0)

    def _pv_heap_get(self):
        return self.snap()

    def _pv_heap_set(self, v):
        self.pairs = v
        self.tail = []

    def _pv_heap_delta(self, head):
        return list(self.tail) if self.pairs is head else None


@shim(dict, collections.OrderedDict)
def pv_dictof(*a, **k):
    if not a:
        return collections.OrderedDict(**k)
    x = a[0]
    if type(x) is VDict:
        return VDict(x.snap())
    if isinstance(x, dict) and not is_sym(x):
        d = collections.OrderedDict(x)
        d.update(k)
        return d
    m = getattr(type(x), 'keys', None)
    if m is not None and not is_sym(x):
        ks = as_seq(x.keys())
        s = FnSeq(ks.n, lambda i: (ks.at(i), x[ks.at(i)]))
    else:
        s = as_seq(x)
    n = conc_len(s)
    if n is not None:
        items = [s.at(i) for i in range(n)]
        items = [tuple(p) if not isinstance(p, tuple) else p for p in items]
        if not any(symbolic(p[0]) for p in items):
            d = collections.OrderedDict(items)
            d.update(k)
            return d
        return VDict(ConcSeq(items))
    return VDict(s)


def sym_key_lookup(d, key):
    """Branch over the keys of a native dictionary."""
    for k2 in d:
        if isinstance(k2, (int, str, tuple)) or is_intlike(k2):
            if veq(key, k2):
                return k2
    return _MISSING


@method(dict, 'get')
@method(collections.OrderedDict, 'get')
def dict_get(d, key, default=None):
    if symbolic(key) or id(d) in E.symdicts:
        k = sym_key_lookup(d, key)
        return default if k is _MISSING else d[k]
    return d.get(key, default)


@method(dict, '__contains__')
@method(collections.OrderedDict, '__contains__')
def dict_contains(d, key):
    return pv_in(key, d)


@method(set, 'add')
def set_add(s, x):
    if symbolic(x):
        raise Unsupported('native set of symbolic values')
    return s.add(x)


# --------------------------------------------------------------- subscripts
def pv_get(o, i):
    t = type(o)
    if is_poison(o) or is_poison(i):
        (o if is_poison(o) else i)._bad()
    if t is dict or isinstance(o, (dict, types.MappingProxyType)) and not is_sym(o):
        if symbolic(i) or id(o) in E.symdicts:
            k = sym_key_lookup(o, i)
            if k is _MISSING:
                raise KeyError('<symbolic>')
            return o[k]
        return o[i]
    if t in (list, tuple, bytes, str, range):
        if isinstance(i, slice):
            if any_sym((i.start, i.stop, i.step)):
                if t is range:
                    return SymRange(o.start, o.stop, o.step)._slice(i)
                r = as_seq(o)._slice(i)
                k = r.n if is_conc_int(r.n) else None
                if k is not None and is_conc_int(r.start) if type(r) is SliceSeq else False:
                    return o[int(r.start):int(r.start) + int(k)] if is_conc_int(r.step) and r.step == 1 else r
                return r
            return o[i]
        if is_sym(i):
            if not is_intlike(i):
                raise TypeError('indices must be integers')
            if t is range:
                s = SymRange(o.start, o.stop, o.step)
                return s[i]
            s = as_seq(o)
            i = s._index(i)
            if t is tuple or t is list:
                if all(is_intlike(x) for x in o):
                    return s.at(i)
                return o[E.concretize(tm(i), what='index')]
            if t is str:
                return o[E.concretize(tm(i), what='index')]
            return s.at(i)
        return o[i]
    m = getattr(t, '__getitem__', None)
    return o[i]


def pv_setitem(o, i, v):
    if isinstance(o, dict) and not is_sym(o) and (symbolic(i) or id(o) in E.symdicts):
        if E.loop_ks or E.pure or type(i) is not SymInt and symbolic(i):
            raise Unsupported('native dictionary with a symbolic key')
        k = sym_key_lookup(o, i)
        if k is _MISSING:
            k = i
            if symbolic(i):
                E.keys[id(i)] = i
                E.symdicts[id(o)] = o
        o[k] = v
        return
    if E.loop_ks and not is_sym(o):
        if isinstance(o, weakref.WeakKeyDictionary):
            E.attr_written(i, 'field')
        else:
            E.attr_written(o, 'item')
    o[i] = v



def pv_setitem_op(o, i, op, v):
    pv_setitem(o, i, pv_iop(op, pv_get(o, i), v))


IOPS = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'BitOr': operator.ior, 'BitAnd': operator.iand,
        'FloorDiv': operator.ifloordiv, 'Mod': operator.imod, 'RShift': operator.irshift, 'LShift': operator.ilshift,
        'Div': operator.itruediv, 'BitXor': operator.ixor, 'Pow': operator.ipow}


def pv_iop(op, a, b):
    return IOPS[op](a, b)


def pv_setattr(o, a, v):
    if E.loop_ks:
        E.attr_written(o, a)
    setattr(o, a, v)


def pv_in(x, c):
    if is_poison(x) or is_poison(c):
        (x if is_poison(x) else c)._bad()
    if symbolic(x):
        t = type(c)
        if t is range:
            return SymRange(c.start, c.stop, c.step).__contains__(x)
        if t in (set, frozenset) and is_intlike(x) and not id(c) in E.symdicts and all(type(y) is int for y in c):
            return bool(Or(*[And(x >= lo, x <= hi) for lo, hi in int_ranges(sorted(c))]))
        if t in (set, frozenset, dict) or isinstance(c, dict) and not is_sym(c):
            return sym_key_lookup(c, x) is not _MISSING
        if t in (list, tuple):
            return bool(Or(*[veq(x, y) for y in c]))
        if t in (str, bytes):
            if isinstance(x, Seq) or pt(x) is str:
                return substring(x, as_seq(c))
            return bool(Or(*[veq(x, y) for y in sorted(set(c))]))
    if isinstance(x, str) and isinstance(c, Seq) and c.pt is str:
        return substring(x, c)
    if id(c) in E.symdicts:
        return sym_key_lookup(c, x) is not _MISSING
    return x in c


def int_ranges(codes):
    out = []
    for c in codes:
        if out and out[-1][1] == c - 1:
            out[-1] = (out[-1][0], c)
        else:
            out.append((c, c))
    return out


def substring(x, c):
    xs = as_seq(x)
    k = conc_len(xs)
    n = conc_len(c)
    if k is None or n is None:
        raise Unsupported('substring test of symbolic length')
    conds = [And(*[veq(ordv(c.at(i + j)), ordv(xs.at(j))) for j in range(k)]) for i in range(0, n - k + 1)]
    return bool(Or(*conds))


def ordv(v):
    return ord(v) if isinstance(v, str) and not is_sym(v) else v


def pv_notin(x, c):
    r = pv_in(x, c)
    return Not(r)


def pv_is(a, b):
    if is_poison(a):
        a._bad()
    if is_poison(b):
        b._bad()
    if a is b:
        return True
    # enum members are singletons
    if is_sym(a) and type(a) is SymInt and isinstance(b, enum.Enum):
        return veq(a, b)
    if is_sym(b) and type(b) is SymInt and isinstance(a, enum.Enum):
        return veq(a, b)
    if type(a) is SymBool and type(b) is bool:
        return veq(a, b)
    return False


def pv_isnot(a, b):
    return Not(pv_is(a, b))


def pv_unpack(v):
    """Value of a destructuring assignment."""
    if type(v) in (tuple, list):
        return v
    if is_sym(v) or not isinstance(v, loops.NATIVE_ITERABLES):
        if isinstance(v, types.GeneratorType):
            return v
        s = as_seq(v)
        k = conc_len(s)
        if k is None:
            raise Unsupported('destructuring of a sequence of symbolic length')
        return [s.at(i) for i in range(k)]
    return v


def pv_leave(L, v):
    L.brk()
    return v


def pv_comp(loc, it, pat, fn, flat):
    """Elements of a comprehension as a VList."""
    out = VList()
    L = Loop('comp ' + str(loc), it, ())
    while L.next({}):
        x = L.item()
        if pat is None:
            v = fn(x)
        else:
            v = fn(*destructure(x, pat))
        if v is SKIP:
            continue
        if flat:
            out.extend(v)
        else:
            out.append(v)
    return out


def destructure(x, pat):
    if pat is None:
        return [x]
    items = list(pv_unpack(x))
    if len(items) != len(pat):
        raise ValueError('wrong number of values to unpack')
    out = []
    for v, p in zip(items, pat):
        out += destructure(v, p)
    return out


def pv_finish(kind, out):
    if kind == 'list':
        return out
    if kind == 'gen':
        return SymIter(out.snap())
    if kind == 'set':
        return pv_setof(out)
    if kind == 'dict':
        r = pv_dictof(out)
        return r if is_sym(r) else dict(r)


def pv_geniter(out):
    return SymIter(out.snap())


def pv_enter(qual):
    E.functions.add(qual)


# ------------------------------------------------------------- byte packing
SIZES = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8, 'f': 4, 'd': 8, 'x': 1, 'c': 1, '?': 1}


def parse_format(fmt):
    """[(count or None, code)], endianness"""
    if is_sym(fmt):
        parts = fmt.parts if type(fmt) is ConcatSeq else [fmt]
        text = ''
        for p in parts:
            k = conc_len(p)
            if type(p) is RepSeq and k is None:
                text += marker(p.n) + p.ch
            elif k is not None and not any(symbolic(p.at(i)) for i in range(k)):
                text += ''.join(chr(ordv(p.at(i))) for i in range(k))
            else:
                raise Unsupported('symbolic struct format')
        fmt = text
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    endian = '@'
    pos = 0
    if fmt and fmt[0] in '<>=!@':
        endian = fmt[0]
        pos = 1
    out = []
    while pos < len(fmt):
        ch = fmt[pos]
        if ch == '\ue000':
            end = fmt.index('\ue001', pos)
            cnt = E.fmt[fmt[pos:end + 1]]
            pos = end + 1
            out.append((cnt, fmt[pos]))
            pos += 1
        elif ch.isdigit():
            e = pos
            while fmt[e].isdigit():
                e += 1
            out.append((int(fmt[pos:e]), fmt[e]))
            pos = e + 1
        elif ch.isspace():
            pos += 1
        else:
            out.append((1, ch))
            pos += 1
    if endian in '=@':
        endian = '<'
        if any(c not in 'xbBhHiIf' for _, c in out):
            raise Unsupported('native struct format')
    elif endian == '!':
        endian = '>'
    return endian, out


def int_to_bytes(v, code, endian):
    n = SIZES[code]
    signed = code.islower()
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
    if not is_intlike(v):
        if hasattr(type(v), '__index__'):
            v = type(v).__index__(v)
        else:
            raise struct.error('required argument is not an integer')
    if not And(v >= lo, v <= hi):
        raise struct.error('argument out of range')
    u = plain(v)
    if is_conc_int(u):
        u = int(u) % (1 << (8 * n))
    elif signed:
        l, h = rng(u)
        if l is not None and l >= 0:
            pass
        else:
            u = SymInt(z3.If(u.t < 0, u.t + I(1 << (8 * n)), u.t), 0, (1 << (8 * n)) - 1)
    if type(u) is SymInt:
        u = SymInt(u.t, 0, (1 << (8 * n)) - 1)
    bs = digits(u, n)
    if endian == '>':
        bs.reverse()
    return bs


def digits(u, n):
    """The base 256 digits of 0 <= u < 256**n, least significant first."""
    if is_conc_int(u) or n == 1 or E.pure or E.local or E.loop_ks:
        return [(u // (1 << (8 * i))) % 256 for i in range(n)]
    # by their defining equation, which keeps the obligations linear
    t = z3.simplify(tm(u))
    memo = E.memo.setdefault('digits', {})
    k = (t.get_id(), n)
    if k not in memo:
        ds = [E.const('digit') for _ in range(n)]
        eq = z3.And([t == z3.Sum([I(256 ** i) * d for i, d in enumerate(ds)])] + [z3.And(d >= 0, d <= 255) for d in ds])
        E.add(eq)
        for d in ds:
            E.fact_of[d.get_id()] = eq
        memo[k] = (t, ds)
    return [SymInt(d, 0, 255) for d in memo[k][1]]


F32 = z3.Function('f32bytes', z3.RealSort(), z3.IntSort(), z3.IntSort())
F32V = z3.Function('f32value', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())


class SymF32:
    """A float which is identified by the four bytes (big-endian) of its IEEE single encoding."""
    _pv_sym = True
    __class__ = property(lambda self: float)
    __slots__ = ('bs',)
    __hash__ = None

    def __init__(self, bs):
        self.bs = tuple(bs)

    def __eq__(self, o):
        if type(o) is SymF32:
            # equality of encodings (equality of values up to NaN and signed zero)
            return And(*[veq(a, b) for a, b in zip(self.bs, o.bs)])
        if isinstance(o, (float, int)) and not is_sym(o):
            e = struct.pack('>f', o)
            return And(*[veq(a, b) for a, b in zip(self.bs, e)])
        return NotImplemented

    def _pv_subst(self, pairs):
        return SymF32(subst(self.bs, pairs))

    def _pv_consts(self, out):
        from .values import consts_of
        consts_of(self.bs, out)

    @staticmethod
    def _pv_merge(c, a, b):
        if type(a) is SymF32 and type(b) is SymF32:
            return SymF32([merge(c, x, y) for x, y in zip(a.bs, b.bs)])
        return NotImplemented


def float_to_bytes(v, code, endian):
    if type(v) is SymF32 and code == 'f':
        bs = list(v.bs)
        if endian == '<':
            bs.reverse()
        return bs
    if is_sym(v):
        raise Unsupported('IEEE encoding of a symbolic number')
    return list(struct.pack(endian + code, v))


def item_bytes(v, code, endian):
    if code in 'fd':
        return float_to_bytes(v, code, endian)
    return int_to_bytes(v, code, endian)


@shim(struct.pack)
def struct_pack(fmt, *vals):
    if not any(symbolic(v) or type(v) is Star or type(v) is VList for v in vals) and '\ue000' not in str(fmt):
        return struct.pack(fmt, *vals)
    endian, items = parse_format(fmt)
    if any(type(v) is Star for v in vals):
        if len(vals) != 1 or len(items) != 1:
            raise Unsupported('struct.pack with a mixture of arguments')
        s = vals[0].seq
        cnt, code = items[0]
        if not veq(cnt, s.n):
            raise struct.error('pack expected other number of items')
        size = SIZES[code]
        # every element must be packable: checked on a generic element
        check_all(s, lambda v: packable(v, code), struct.error('argument out of range'))
        def at(i):
            q, r = (i, 0) if size == 1 else floordiv_mod(i, size)
            bs = packed_no_check(s.at(q), code, endian)
            v = bs[size - 1]
            for k in range(size - 2, -1, -1):
                v = merge(bt(veq(r, k)), bs[k], v) if not is_conc_int(r) else (bs[k] if int(r) == k else v)
            return v
        r = PackedSeq(s.n, lambda q: ConcSeq(packed_no_check(s.at(q), code, endian), bytes), size, bytes)
        if size == 1:
            r = FnSeq(s.n, at, bytes)
        r.at = at
        r.items = (s, code, endian, size)
        return r
    need = 0
    for cnt, code in items:
        if code != 'x':
            need = need + cnt
    if not veq(need, len(vals)):
        raise struct.error('pack expected {} items for packing'.format(need))
    out = []
    it = iter(vals)
    for cnt, code in items:
        cnt = int(cnt) if is_conc_int(cnt) else E.concretize(tm(cnt))
        for _ in range(cnt):
            if code == 'x':
                out.append(0)
            else:
                out += item_bytes(next(it), code, endian)
    return SymBytes.of(out)


def packable(v, code):
    if code in 'fd':
        return True
    n = SIZES[code]
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if code.islower() else (0, (1 << (8 * n)) - 1)
    if not is_intlike(v):
        return False
    return And(v >= lo, v <= hi)


def packed_no_check(v, code, endian):
    if code in 'fd':
        return float_to_bytes(v, code, endian)
    n = SIZES[code]
    u = plain(v)
    if is_conc_int(u):
        u = int(u) % (1 << (8 * n))
    elif code.islower():
        u = SymInt(z3.If(u.t < 0, u.t + I(1 << (8 * n)), u.t), 0, (1 << (8 * n)) - 1)
    else:
        u = SymInt(u.t, 0, (1 << (8 * n)) - 1)
    bs = [(u // (1 << (8 * i))) % 256 for i in range(n)]
    if endian == '>':
        bs.reverse()
    return bs


def check_all(s, pred, exc):
    """Branch: all elements satisfy pred, or raise exc."""
    if type(s) is FnSeq:
        # often known of any element
        top = int(s.n) - 1 if is_conc_int(s.n) else None
        if pure(lambda: pred(s.at(SymInt(z3.Int('any!element'), 0, top)))) is True:
            return
    if is_conc_int(s.n) and int(s.n) <= 400 and not E.pure:
        ok = And(*[pred(s.at(i)) for i in range(int(s.n))])
    else:
        ok = seq_all(FnSeq(s.n, lambda i: pred(s.at(i))))
    if not ok:
        raise exc


def bytes_to_int(bs, code, endian):
    if endian == '<':
        bs = list(reversed(bs))
    n = len(bs)
    u = 0
    for b in bs:
        u = u * 256 + b
    if code.islower():
        half, full = 1 << (8 * n - 1), 1 << (8 * n)
        if is_conc_int(u):
            return u - full if u >= half else u
        return SymInt(z3.If(u.t >= half, u.t - full, u.t), -half, half - 1)
    return u


def bytes_to_item(bs, code, endian):
    if code == 'f':
        if all(is_conc_int(b) for b in bs):
            return struct.unpack(endian + 'f', bytes(bs))[0]
        return SymF32(bs if endian == '>' else list(reversed(bs)))
    if code == 'd':
        raise Unsupported('double unpacking')
    return bytes_to_int(bs, code, endian)


@shim(struct.unpack)
def struct_unpack(fmt, buf):
    if not is_sym(buf):
        return struct.unpack(fmt, buf)
    endian, items = parse_format(fmt)
    if len(items) == 1 and not is_conc_int(items[0][0]):
        cnt, code = items[0]
        size = SIZES[code]
        if not veq(cnt * size, buf.n):
            raise struct.error('unpack requires a buffer of other length')
        return FnSeq(cnt, lambda i: bytes_to_item([buf.at(i * size + r) for r in range(size)], code, endian), tuple)
    total = 0
    for cnt, code in items:
        total += SIZES[code] * int(cnt)
    if not veq(buf.n, total):
        raise struct.error('unpack requires a buffer of {} bytes'.format(total))
    out = []
    pos = 0
    for cnt, code in items:
        for _ in range(int(cnt)):
            size = SIZES[code]
            if code != 'x':
                out.append(bytes_to_item([buf.at(pos + r) for r in range(size)], code, endian))
            pos += size
    return tuple(out)


@method(struct.Struct, 'pack')
def Struct_pack(st, *vals):
    return struct_pack(st.format, *vals)


@method(struct.Struct, 'unpack')
def Struct_unpack(st, buf):
    return struct_unpack(st.format, buf)


@method(struct.Struct, 'unpack_from')
def Struct_unpack_from(st, buf, offset=0):
    if not is_sym(buf):
        return st.unpack_from(buf, offset)
    raise Unsupported('unpack_from')


@shim(int.from_bytes)
def pv_from_bytes(b, byteorder='big', *, signed=False):
    if not is_sym(b):
        return int.from_bytes(b, byteorder, signed=signed)
    k = conc_len(as_seq(b))
    if k is None:
        raise Unsupported('int.from_bytes')
    bs = [as_seq(b).at(i) for i in range(k)]
    if byteorder == 'little':
        bs.reverse()
    u = 0
    for x in bs:
        u = u * 256 + x
    if signed:
        half, full = 1 << (8 * k - 1), 1 << (8 * k)
        u = If(u >= half, u - full, u)
    return u


class SymArray(Seq):
    """array.array over a byte string"""
    pt = _array.array

    def __init__(self, typecode, n, fn):
        self.typecode = typecode
        self.n = n
        self.fn = fn
        self.swapped = False

    def at(self, i):
        return self.fn(i, self.swapped)

    @property
    def itemsize(self):
        return _array.array(self.typecode).itemsize

    def byteswap(self):
        self.swapped = not self.swapped

    def tolist(self):
        return pv_listof(self)

    def tobytes(self):
        raise Unsupported('array.tobytes')


@shim(_array.array)
def pv_array(code, init=()):
    if not is_sym(init):
        return _array.array(code, init)
    size = _array.array(code).itemsize
    if isinstance(init, bytes):
        n, r = floordiv_mod(init.n, size)
        if r != 0:
            raise ValueError('bytes length not a multiple of item size')

        def fn(i, swapped):
            bs = [init.at(i * size + j) for j in range(size)]
            endian = '<' if NATIVE == 'little' else '>'
            if swapped:
                endian = '>' if endian == '<' else '<'
            c = code
            return bytes_to_item(bs, c, endian)
        return SymArray(code, n, fn)
    raise Unsupported('array of symbolic values')


import sys
NATIVE = sys.byteorder


# ------------------------------------------------------------------ strings
def codec_tables():
    enc = {}
    dec = {}
    for b in range(256):
        c = ord(bytes([b]).decode('cp037'))
        dec[b] = c
        enc[c] = b
    return enc, dec


ENC037, DEC037 = codec_tables()
ENCF = z3.Function('enc_cp037', z3.IntSort(), z3.IntSort())
DECF = z3.Function('dec_cp037', z3.IntSort(), z3.IntSort())


def declare_codec():
    if E.memo.get('cp037'):
        return
    E.memo['cp037'] = True
    c = z3.Int('c!cp')
    E.add_global(z3.ForAll([c], z3.Implies(z3.And(c >= 0, c < 256), z3.And(ENCF(c) >= 0, ENCF(c) < 256, DECF(ENCF(c)) == c)),
                           patterns=[ENCF(c)]))
    E.add_global(z3.ForAll([c], z3.Implies(z3.And(c >= 0, c < 256), z3.And(DECF(c) >= 0, DECF(c) < 256, ENCF(DECF(c)) == c)),
                           patterns=[DECF(c)]))
    for k in (32, 0x40):
        E.pc.append(ENCF(I(k)) == ENC037[k])
        E.pc.append(DECF(I(k)) == DEC037[k])
    E.assumed.add('the cp037 codec is a bijection between bytes and the code points below 256 (checked for all 256 at import)')


assert sorted(ENC037) == list(range(256)) and all(DEC037[ENC037[c]] == c for c in range(256))


def norm_encoding(e):
    import codecs
    return codecs.lookup(e).name


def inverse(t, f, known, back, depth):
    """The argument x of a term f(x) (pushed into conditionals), where x is known to be below 256."""
    if z3.is_int_value(t):
        return z3.IntVal(back[t.as_long()]) if t.as_long() in back and depth else None
    if z3.is_app(t):
        if t.decl().eq(f) and ('encoded', t.get_id()) in E.memo:
            return t.arg(0)
        if t.decl().kind() == z3.Z3_OP_ITE and depth < 6:
            a = inverse(t.arg(1), f, known, back, depth + 1)
            b = inverse(t.arg(2), f, known, back, depth + 1)
            if a is not None and b is not None:
                return z3.If(t.arg(0), a, b)
    return None


def enc_char(v, e):
    v = ordv(v)
    if e == 'ascii' or e == 'latin-1' or e == 'iso8859-1':
        return v
    if is_conc_int(v):
        return ENC037[int(v)]
    declare_codec()
    r = inverse(tm(v), DECF, DEC037, ENC037, 0)
    if r is not None:
        return SymInt(r, 0, 255)
    t = ENCF(tm(v))
    if type(v) is SymInt and v.lo is not None and v.hi is not None and v.lo >= 0 and v.hi <= 255:
        E.memo[('encoded', t.get_id())] = t
    if not E.pure:
        E.add_fact(t, z3.Implies(z3.And(tm(v) >= 0, tm(v) < 256), z3.And(t >= 0, t < 256, DECF(t) == tm(v))))
    return SymInt(t, 0, 255)


def dec_byte(v, e):
    if e == 'ascii' or e == 'latin-1' or e == 'iso8859-1':
        return v
    if is_conc_int(v):
        return DEC037[int(v)]
    declare_codec()
    r = inverse(tm(v), ENCF, ENC037, DEC037, 0)
    if r is not None:
        return SymInt(r, 0, 255)
    t = DECF(tm(v))
    if type(v) is SymInt and v.lo is not None and v.hi is not None and v.lo >= 0 and v.hi <= 255:
        E.memo[('encoded', t.get_id())] = t
    if not E.pure:
        E.add_fact(t, z3.Implies(z3.And(tm(v) >= 0, tm(v) < 256), z3.And(t >= 0, t < 256, ENCF(t) == tm(v))))
    return SymInt(t, 0, 255)


def mapped(s, f, pt):
    k = s.n if is_conc_int(s.n) else None
    if k is not None and k <= 4096:
        items = [f(s.at(i)) for i in range(int(k))]
        if pt is bytes:
            return SymBytes.of(items)
        if all(is_conc_int(x) for x in items):
            return ''.join(map(chr, map(int, items)))
        return ConcSeq(items, str)
    return FnSeq(s.n, lambda i: f(s.at(i)), pt)


def str_encode(s, encoding='utf-8', errors='strict'):
    e = norm_encoding(encoding)
    if e not in ('ascii', 'cp037', 'iso8859-1') or errors != 'strict':
        raise Unsupported('encoding ' + e)
    limit = 128 if e == 'ascii' else 256
    check_all(s, lambda c: ordv(c) < limit, UnicodeEncodeError(e, '?', 0, 1, 'ordinal not in range'))
    return mapped(s, lambda c: narrowed(enc_char(c, e), 0, limit - 1), bytes)


def bytes_decode(s, encoding='utf-8', errors='strict'):
    e = norm_encoding(encoding)
    if e not in ('ascii', 'cp037', 'iso8859-1') or errors != 'strict':
        raise Unsupported('encoding ' + e)
    if e == 'ascii':
        check_all(s, lambda b: b < 128, UnicodeDecodeError(e, b'?', 0, 1, 'ordinal not in range'))
    return mapped(s, lambda b: dec_byte(b, e), str)


def ljust(s, width, fill=None):
    if s.pt is str:
        f = ord(fill if fill is not None else ' ')
    else:
        f = (fill if fill is not None else b' ')
        f = as_seq(f).at(0)
    n = s.n
    return concat([s, FnSeq(maxi(width - n, 0), lambda i: f)], s.pt)


def strip(s, chars=None, left=True, right=True):
    """Remove blanks at the ends (whitespace of str.strip)."""
    ws = sorted(ord(c) for c in chars) if chars is not None else WHITESPACE if s.pt is str else sorted(b' \t\n\r\x0b\f')
    isw = lambda v: Or(*[veq(ordv(v), lo) if lo == hi else And(ordv(v) >= lo, ordv(v) <= hi) for lo, hi in int_ranges(ws)])
    k = conc_len(s)
    if k is not None and k <= 400:
        return strip_columns(s, int(k), isw, left, right)
    return strip_view(s, isw, left, right)


WHITESPACE = [c for c in range(0x110000) if chr(c).isspace()]


def strip_columns(s, k, isw, left, right):
    """strip() of a text of known length, without forking"""
    s = ConcSeq([s.at(i) for i in range(k)], s.pt)
    ws = [isw(x) for x in s.items]
    first = 0
    if left:
        while first < k and ws[first] is True:
            first += 1
    last = k
    if right:
        while last > first and ws[last - 1] is True:
            last -= 1
    if (not left or first == last or ws[first] is False) and (not right or first == last or ws[last - 1] is False):
        return retyped(SliceSeq(s, first, last - first), s.pt)
    key = ('strip', left, right, k) + tuple(x if type(x) is bool else x.t.get_id() for x in ws)
    if key not in E.memo or E.pure:
        lo, hi = SymInt(E.const('lo'), 0, k) if left else 0, SymInt(E.const('hi'), 0, k) if right else k
        facts = [tm(lo) >= 0, tm(lo) <= tm(hi), tm(hi) <= k]
        for i in range(k):
            w = bt(ws[i])
            facts.append(z3.Implies(bt(Or(i < lo, i >= hi)), w))
            if left:
                facts.append(z3.Implies(z3.And(tm(lo) == i, tm(lo) < tm(hi)), z3.Not(w)))
            if right:
                facts.append(z3.Implies(z3.And(tm(hi) == i + 1, tm(lo) < tm(hi)), z3.Not(w)))
        facts.append(z3.Implies(tm(lo) == tm(hi), tm(lo) == (k if left else 0)))
        E.add(z3.And(*facts))
        E.memo[key] = (ws, lo, hi)
    _, lo, hi = E.memo[key]
    return retyped(SliceSeq(s, lo, hi - lo), s.pt)


def strip_view(s, isw, left, right):
    k = conc_len(s)
    n = s.n
    lo = SymInt(E.const('lo'), 0) if left else 0
    hi = SymInt(E.const('hi'), 0) if right else n
    if left:
        E.add(z3.And(tm(lo) >= 0, tm(lo) <= tm(n)))
        E.assume(forall(lo, lambda j: isw(s.at(j))))
    if right:
        E.add(z3.And(tm(hi) >= tm(lo), tm(hi) <= tm(n)))
        j = qvar()
        E.add(z3.ForAll([j], z3.Implies(z3.And(j >= tm(hi), j < tm(n)), bt(pure(lambda: isw(s.at(SymInt(j, 0))))))))
    nonempty = lo < hi if right else lo < n
    if nonempty:
        if left:
            E.assume(Not(isw(s.at(lo))))
        if right:
            E.assume(Not(isw(s.at(hi - 1))))
    else:
        E.assume(veq(lo, n) if not right or left else True)
        if left and right:
            E.assume(veq(hi, n))
    return retyped(SliceSeq(s, lo, hi - lo), s.pt)


def seq_methods():
    def encode(self, encoding='utf-8', errors='strict'):
        return str_encode(self, encoding, errors)

    def decode(self, encoding='utf-8', errors='strict'):
        return bytes_decode(self, encoding, errors)
    Seq.encode = encode
    Seq.decode = decode
    Seq.ljust = lambda self, w, f=None: ljust(self, w, f)
    Seq.strip = lambda self, c=None: strip(self, c)
    Seq.lstrip = lambda self, c=None: strip(self, c, True, False)
    Seq.rstrip = lambda self, c=None: strip(self, c, False, True)
    Seq.tobytes = lambda self: retyped(self, bytes)

    def join(self, parts):
        return str_join(self, parts)
    Seq.join = join

    def startswith(self, p):
        ps = as_seq(p)
        k = conc_len(ps)
        if not (self.n >= k):
            return False
        return And(*[veq(ordv(self.at(i)), ordv(ps.at(i))) for i in range(k)])
    Seq.startswith = startswith


seq_methods()


class FlatSeq(Seq):
    """Concatenation of a symbolic number of blocks of one constant size."""

    def __init__(self, n, block, size, pt):
        self.count = n
        self.block = block
        self.size = size
        self.n = n * size
        self.pt = pt

    def at(self, i):
        q, r = floordiv_mod(i, self.size)
        return self.block(q).at(r)

    def _pv_subst(self, pairs):
        def block(q):
            if is_conc_int(q):
                return subst(self.block(q), pairs)
            c = z3.Int(E.fresh_name('sub'))
            return subst(subst(self.block(SymInt(c, q.lo, q.hi)), pairs), [(c, tm(q))])
        return FlatSeq(subst(self.count, pairs), block, self.size, self.pt)


class PackedSeq(FlatSeq):
    """The bytes of struct.pack"""


def str_join(sep, parts):
    s = as_seq(parts)
    empty = is_conc_int(as_seq(sep).n) and int(as_seq(sep).n) == 0
    k = conc_len(s)
    ptype = str if isinstance(sep, str) else bytes
    if k is not None:
        items = [s.at(i) for i in range(k)]
        if ptype is str:
            items = [chr(x) if is_conc_int(x) else x for x in items]
        if not any_sym(items) and not is_sym(sep):
            return sep.join(items)
        out = []
        for i, x in enumerate(items):
            if i and not empty:
                out.append(as_seq(sep))
            # characters of texts are represented by their code points
            out.append(ConcSeq([x], str) if ptype is str and is_intlike(x) else as_seq(x))
        if sum(int(o.n) if is_conc_int(o.n) else 10 ** 9 for o in out) <= 8192:
            vals = [ordv(o.at(i)) for o in out for i in range(int(o.n))]
            if ptype is bytes:
                return SymBytes.of(vals)
            return ConcSeq(vals, str) if any_sym(vals) else ''.join(map(chr, vals))
        return concat(out, ptype)
    if not empty:
        raise Unsupported('join of a symbolic number of parts with a separator')
    c = SymInt(z3.Int('join!probe'), 0)
    b = as_seq(pure(lambda: s.at(c)))
    if is_conc_int(b.n):
        return FlatSeq(s.n, lambda q: as_seq(s.at(q)), int(b.n), ptype)
    # the sizes may all be the same number because of earlier checks
    q = E.const('q')
    size = tm(as_seq(s.at(SymInt(q, 0))).n)
    here = z3.And(q >= 0, q < tm(s.n))
    for v in literals(E.pc + E.qpc):
        goal = z3.Implies(here, size == v)
        if E.valid_quick(goal) or E.solve(goal, timeout=1000, want_model=False, ext=False)[0] == 'proved':
            return FlatSeq(known_number(s.n), lambda q: as_seq(s.at(q)), v, ptype)
    raise Unsupported('join of blocks of varying size')


def known_number(n):
    """The number which n is known to be because of earlier checks (or n)"""
    if is_conc_int(n):
        return n
    for v in literals(E.pc + E.qpc):
        goal = tm(n) == v
        if E.valid_quick(goal) or E.solve(goal, timeout=1000, want_model=False, ext=False)[0] == 'proved':
            return v
    return n


def literals(fs, limit=8):
    """The numbers which terms are said to be equal to"""
    out, seen, stack = [], set(), list(reversed(fs))
    while stack and len(out) < limit:
        x = stack.pop(0)
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_eq(x):
            for v in x.children():
                if z3.is_int_value(v) and 0 < v.as_long() <= 100000 and v.as_long() not in out:
                    out.append(v.as_long())
        if z3.is_bool(x):
            stack.extend(x.children())
    return out


@method(bytes, 'join')
def bytes_join(sep, parts):
    return str_join(sep, parts)


@method(str, 'join')
def str_join_m(sep, parts):
    return str_join(sep, parts)


def reload_values():
    pass


@method(str, 'format')
def str_format(f, *a, **k):
    return f.format(*[fmt_arg(x) for x in a], **{n: fmt_arg(x) for n, x in k.items()})


def fmt_arg(x):
    if is_sym(x) and type(x) is not SymInt:
        return marker(x)
    return x


@shim(memoryview)
def pv_memoryview(x):
    return x if is_sym(x) else memoryview(x)


@method(bytes, 'decode')
def b_decode(b, *a, **k):
    return b.decode(*a, **k)


@shim(ord)
def pv_ord(c):
    if is_sym(c):
        if is_intlike(c):
            return c
        return as_seq(c).at(0)
    return ord(c)


@shim(chr)
def pv_chr(c):
    if is_sym(c):
        return ConcSeq([c], str)
    return chr(c)


@shim(setattr)
def pv_setattr_b(o, a, v):
    pv_setattr(o, a, v)


@shim(functools.reduce)
def pv_reduce(f, it, *init):
    s = as_seq(it)
    k = conc_len(s)
    if k is None:
        raise Unsupported('reduce of symbolic length')
    items = [s.at(i) for i in range(k)]
    acc = init[0] if init else items.pop(0)
    for x in items:
        acc = pv_call(f, acc, x)
    return acc


HELPERS = dict(pv__call=pv_call, pv__callv=pv_callv, pv__list=pv_list, pv__listv=pv_listv, pv__dict=pv_dict_display,
               pv__set=pv_set_display, pv__get=pv_get, pv__setitem=pv_setitem, pv__setitem_op=pv_setitem_op, pv__iop=pv_iop,
               pv__setattr=pv_setattr, pv__in=pv_in, pv__notin=pv_notin, pv__is=pv_is, pv__isnot=pv_isnot,
               pv__unpack=pv_unpack, pv__leave=pv_leave, pv__comp=pv_comp, pv__finish=pv_finish, pv__geniter=pv_geniter,
               pv__enter=pv_enter, pv__loop=Loop, pv__while=WHILE, pv__unbound=UNBOUND, pv__skip=SKIP)
