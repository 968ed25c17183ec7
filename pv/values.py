"""Symbolic values: integers (mathematical), booleans, dyadic floats, reals."""
from fractions import Fraction
import math
import types
import weakref
import z3

from .core import E, Unsupported, PathEnd

I = z3.IntVal


def is_sym(x):
    return isinstance(type(x), type) and getattr(type(x), '_pv_sym', False)


def tm(x):
    """z3 integer term of an int-like value."""
    if type(x) is SymInt:
        return x.t
    if type(x) is SymBool:
        return z3.If(x.t, I(1), I(0))
    if type(x) is bool:
        return I(int(x))
    if isinstance(x, int):
        return I(int(x))
    if z3.is_expr(x):
        return x
    raise Unsupported('not an integer: {!r}'.format(type(x).__name__))


def bt(x):
    """z3 boolean term of a bool-like value."""
    if type(x) is SymBool:
        return x.t
    if z3.is_bool(x):
        return x
    if x is NotImplemented:
        return z3.BoolVal(False)
    if type(x) is SymInt:
        return x.t != 0
    return z3.BoolVal(bool(x))


def rng(x):
    if type(x) is SymInt:
        return x.lo, x.hi
    if type(x) is SymBool:
        return 0, 1
    if isinstance(x, int):
        return int(x), int(x)
    return None, None


def is_intlike(x):
    return type(x) is SymInt or type(x) is SymBool or (isinstance(x, int))


def is_conc_int(x):
    return isinstance(x, int) and type(x) is not SymInt and type(x) is not SymBool


def tzeros(x):
    if type(x) is SymInt:
        return x.tz
    if isinstance(x, int):
        x = int(x)
        if x == 0:
            return 10 ** 6
        return (x & -x).bit_length() - 1
    return 0


def mk_bool(t):
    if type(t) is bool:
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


class SymBool:
    _pv_sym = True
    __slots__ = ('t',)
    __class__ = property(lambda self: bool)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return E.fork(self.t)

    def __repr__(self):
        return '<symbool>'

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if isinstance(o, (bool, int)) or type(o) is SymBool:
            if type(o) is SymBool or type(o) is bool:
                return mk_bool(z3.simplify(self.t == bt(o)))
            return mk_int(tm(self)) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __and__(self, o):
        if type(o) is bool or type(o) is SymBool:
            return And(self, o)
        return as_int(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is bool or type(o) is SymBool:
            return Or(self, o)
        return as_int(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) is bool or type(o) is SymBool:
            return mk_bool(z3.Xor(self.t, bt(o)))
        return as_int(self) ^ o

    __rxor__ = __xor__

    def __invert__(self):
        return ~as_int(self)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__


def as_int(b):
    if type(b) is SymBool:
        return SymInt(z3.If(b.t, I(1), I(0)), 0, 1)
    if type(b) is bool:
        return int(b)
    return b


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'lt', 'le', 'gt', 'ge', 'neg', 'lshift', 'rshift',
           'rlshift', 'truediv', 'rtruediv', 'floordiv', 'mod', 'abs', 'pos', 'pow', 'rpow'):
    def _mk(n):
        d = '__%s__' % n

        def f(self, *a):
            return getattr(as_int(self), d)(*a)
        f.__name__ = d
        return f
    setattr(SymBool, '__%s__' % _n, _mk(_n))


def And(*xs):
    ts = []
    for x in xs:
        if type(x) is bool:
            if not x:
                return False
            continue
        t = bt(x)
        if z3.is_false(t):
            return False
        if z3.is_true(t):
            continue
        ts.append(t)
    if not ts:
        return True
    return mk_bool(ts[0] if len(ts) == 1 else z3.And(*ts))


def Or(*xs):
    ts = []
    for x in xs:
        if type(x) is bool:
            if x:
                return True
            continue
        t = bt(x)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            continue
        ts.append(t)
    if not ts:
        return False
    return mk_bool(ts[0] if len(ts) == 1 else z3.Or(*ts))


def Not(x):
    if type(x) is bool:
        return not x
    if type(x) is SymBool:
        return mk_bool(z3.simplify(z3.Not(x.t)))
    return not x


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if type(a) is bool and type(b) is bool:
        return a == b
    return mk_bool(bt(a) == bt(b))


def If(c, a, b):
    """Value-level conditional over ints, bools and tuples."""
    if type(c) is bool:
        return a if c else b
    return merge(c.t, a, b)


def merge(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if is_intlike(a) and is_intlike(b) and type(a) is not bool and type(b) is not bool \
            and type(a) is not SymBool and type(b) is not SymBool:
        la, ha = rng(a)
        lb, hb = rng(b)
        if is_conc_int(a) and is_conc_int(b) and int(a) == int(b) and type(a) is type(b):
            return a
        lo = None if la is None or lb is None else min(la, lb)
        hi = None if ha is None or hb is None else max(ha, hb)
        pa = a.pt if type(a) is SymInt else type(a)
        pb = b.pt if type(b) is SymInt else type(b)
        return SymInt(z3.If(c, tm(a), tm(b)), lo, hi, min(tzeros(a), tzeros(b)), pa if pa is pb else int)
    if (type(a) is bool or type(a) is SymBool) and (type(b) is bool or type(b) is SymBool):
        return mk_bool(z3.If(c, bt(a), bt(b)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and type(a) is type(b) is tuple:
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if type(a) is slice and type(b) is slice:
        return slice(*merge(c, (a.start, a.stop, a.step), (b.start, b.stop, b.step)))
    if type(a) is SymReal or type(b) is SymReal:
        return SymReal(z3.If(c, real(a), real(b)))
    m = getattr(type(a), '_pv_merge', None) or getattr(type(b), '_pv_merge', None)
    if m is not None:
        r = m(c, a, b)
        if r is not NotImplemented:
            return r
    if type(a) is type(b) and is_struct(a):
        fa, fb = struct_fields(a), struct_fields(b)
        if fa.keys() == fb.keys():
            return struct_map_keys(a, {k: merge(c, x, fb[k]) for k, x in fa.items()})
    if E.pure and (type(a) is list or type(a).__name__ == 'VList') and (type(b) is list or type(b).__name__ == 'VList'):
        from .seq import Seq, as_seq       # in a specification only the elements matter
        return Seq._pv_merge(c, as_seq(a), as_seq(b))
    if E.fork(c):
        return a
    return b


def mk_int(t, lo=None, hi=None, tz=0, pt=int):
    if z3.is_int_value(t):
        v = t.as_long()
        return v if pt is int else pt_make(pt, v)
    if lo is not None and lo == hi:
        return lo if pt is int else pt_make(pt, lo)
    return SymInt(t, lo, hi, tz, pt)


def pt_make(pt, v):
    try:
        return int.__new__(pt, v)
    except TypeError:
        return pt(v)


def simp(x):
    if type(x) is SymInt:
        return mk_int(z3.simplify(x.t), x.lo, x.hi, x.tz, x.pt)
    return x


def _cmp(op, a, b):
    la, ha = rng(a)
    lb, hb = rng(b)
    if op == 'lt':
        if ha is not None and lb is not None and ha < lb:
            return True
        if la is not None and hb is not None and la >= hb:
            return False
        return SymBool(tm(a) < tm(b))
    if op == 'le':
        if ha is not None and lb is not None and ha <= lb:
            return True
        if la is not None and hb is not None and la > hb:
            return False
        return SymBool(tm(a) <= tm(b))
    if op == 'eq':
        if (ha is not None and lb is not None and ha < lb) or (la is not None and hb is not None and la > hb):
            return False
        return mk_bool(z3.simplify(tm(a) == tm(b)))


FDIV = z3.Function('fdiv', z3.IntSort(), z3.IntSort(), z3.IntSort())
FMOD = z3.Function('fmod', z3.IntSort(), z3.IntSort(), z3.IntSort())


def floordiv_mod(a, b):
    """Python floor division and modulus."""
    if is_conc_int(b):
        b = int(b)
        if b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if is_conc_int(a):
            return divmod(int(a), b)
        if b > 0:
            la, ha = rng(a)
            tz = tzeros(a)
            if b == 1:
                return a, 0
            q = SymInt(tm(a) / I(b), None if la is None else la // b, None if ha is None else ha // b,
                       max(0, tz - ((b & -b).bit_length() - 1)) if (b & (b - 1)) == 0 else 0)
            if (b & (b - 1)) == 0 and tz >= b.bit_length() - 1:
                r = 0
            elif la is not None and ha is not None and la // b == ha // b:
                r = a - (la // b) * b
                q = la // b
            else:
                r = SymInt(tm(a) % I(b), 0, b - 1)
            return q, r
        q, r = floordiv_mod(-a, -b)
        return q, -r
    # symbolic divisor
    if not (b > 0):
        if b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        q, r = floordiv_mod(-a, -b)
        return q, -r
    u = E.unique_value(tm(b)) if not E.pure else None
    if u is not None:
        return floordiv_mod(a, u)
    ta, tb = tm(a), tm(b)
    q, r = FDIV(ta, tb), FMOD(ta, tb)
    if not E.memo.get('fdiv-axiom'):
        E.memo['fdiv-axiom'] = True
        x, y = z3.Ints('fx fy')
        E.add(z3.ForAll([x, y], z3.Implies(y > 0, z3.And(x == y * FDIV(x, y) + FMOD(x, y), FMOD(x, y) >= 0,
                                                         FMOD(x, y) < y)), patterns=[FDIV(x, y), FMOD(x, y)]))
    if not E.pure:
        E.add(z3.And(ta == tb * q + r, r >= 0, r < tb))
    lb, hb = rng(b)
    return SymInt(q), SymInt(r, 0, None if hb is None else hb - 1)


class SymInt:
    _pv_sym = True
    __slots__ = ('t', 'lo', 'hi', 'tz', 'pt', '__weakref__')

    def __init__(self, t, lo=None, hi=None, tz=0, pt=int):
        assert not hasattr(t, '_pv_sym'), t
        self.t = t
        self.lo = lo
        self.hi = hi
        self.tz = tz
        self.pt = pt

    @property
    def __class__(self):
        return self.pt

    def __repr__(self):
        return '<symint>'

    __str__ = __repr__

    def __format__(self, spec):
        return '<symint>'

    # arithmetic -------------------------------------------------------------
    def __add__(self, o):
        if is_intlike(o):
            if is_conc_int(o) and o == 0:
                return plain(self)
            la, ha = rng(self)
            lb, hb = rng(o)
            return mk_int(self.t + tm(o), None if la is None or lb is None else la + lb,
                          None if ha is None or hb is None else ha + hb, min(self.tz, tzeros(o)))
        return promote(self, o, '__add__')

    def __radd__(self, o):
        if is_intlike(o):
            return self.__add__(o)
        return promote(self, o, '__radd__')

    def __neg__(self):
        return SymInt(-self.t, None if self.hi is None else -self.hi, None if self.lo is None else -self.lo, self.tz)

    def __pos__(self):
        return plain(self)

    def __sub__(self, o):
        if is_intlike(o):
            if is_conc_int(o) and o == 0:
                return plain(self)
            la, ha = rng(self)
            lb, hb = rng(o)
            t = self.t - tm(o)
            return mk_int(t, None if la is None or hb is None else la - hb,
                          None if ha is None or lb is None else ha - lb, min(self.tz, tzeros(o)))
        return promote(self, o, '__sub__')

    def __rsub__(self, o):
        if is_intlike(o):
            return mk_int(tm(o), *rng(o), tzeros(o)).__sub__(self) if not is_conc_int(o) else (-self).__add__(o)
        return promote(self, o, '__rsub__')

    def __mul__(self, o):
        if is_intlike(o):
            if is_conc_int(o):
                o = int(o)
                if o == 0:
                    return 0
                if o == 1:
                    return plain(self)
            la, ha = rng(self)
            lb, hb = rng(o)
            lo = hi = None
            if None not in (la, ha, lb, hb):
                c = [la * lb, la * hb, ha * lb, ha * hb]
                lo, hi = min(c), max(c)
            elif la is not None and lb is not None and la >= 0 and lb >= 0:
                lo = la * lb
            return mk_int(self.t * tm(o), lo, hi, self.tz + (0 if not is_conc_int(o) else tzeros(o)))
        return promote(self, o, '__mul__')

    def __rmul__(self, o):
        if is_intlike(o):
            return self.__mul__(o)
        if type(o) in (str, bytes, list, tuple):
            return repeated(o, self)
        return promote(self, o, '__rmul__')

    def __floordiv__(self, o):
        if is_intlike(o):
            return floordiv_mod(self, o)[0]
        return NotImplemented

    def __rfloordiv__(self, o):
        if is_intlike(o):
            return floordiv_mod(o, self)[0]
        return NotImplemented

    def __mod__(self, o):
        if is_intlike(o):
            return floordiv_mod(self, o)[1]
        return NotImplemented

    def __rmod__(self, o):
        if is_intlike(o):
            return floordiv_mod(o, self)[1]
        return NotImplemented

    def __divmod__(self, o):
        if is_intlike(o):
            return floordiv_mod(self, o)
        return NotImplemented

    def __rdivmod__(self, o):
        return floordiv_mod(o, self)

    def __truediv__(self, o):
        if isinstance(o, float) and not is_sym(o):
            return SymFloat.from_int(self) / o
        if is_intlike(o):
            if is_conc_int(o) and o > 0 and (int(o) & (int(o) - 1)) == 0 and self.lo is not None \
                    and self.hi is not None and max(abs(self.lo), abs(self.hi)) <= 2 ** 53:
                return SymFloat.from_int(self) / float(o)
            return SymReal.div(self, o)
        return promote(self, o, '__truediv__')

    def __rtruediv__(self, o):
        if is_intlike(o):
            return SymReal.div(o, self)
        return promote(self, o, '__rtruediv__')

    def __pow__(self, o, m=None):
        if is_conc_int(o) and 0 <= int(o) <= 8:
            r = 1
            for _ in range(int(o)):
                r = r * self
            return r
        if is_intlike(o):
            return pow(E.concretize(self.t, what='base'), int(o))
        return NotImplemented

    def __rpow__(self, o):
        if is_conc_int(o) or isinstance(o, float):
            return pow(o, E.concretize(self.t, what='exponent'))
        return NotImplemented

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return plain(self)
        if self.hi is not None and self.hi <= 0:
            return -self
        m = None if self.lo is None or self.hi is None else max(abs(self.lo), abs(self.hi))
        return SymInt(z3.If(self.t >= 0, self.t, -self.t), 0, m, self.tz)

    def __trunc__(self):
        return plain(self)

    __floor__ = __ceil__ = __trunc__

    def __round__(self, n=None):
        return plain(self)

    # bits -------------------------------------------------------------------
    def __lshift__(self, o):
        if is_conc_int(o):
            return self * (1 << int(o))
        return self * (1 << E.concretize(tm(o), what='shift'))

    def __rlshift__(self, o):
        return o << E.concretize(self.t, what='shift')

    def __rshift__(self, o):
        if is_conc_int(o):
            return self // (1 << int(o))
        if not (o >= 0):
            raise ValueError('negative shift count')
        if self.hi is not None and self.lo is not None and self.lo >= 0:
            bl = self.hi.bit_length()
            if o >= bl:
                return 0
        return self // (1 << E.concretize(tm(o), what='shift'))

    def __rrshift__(self, o):
        return o >> E.concretize(self.t, what='shift')

    def __and__(self, o):
        if is_conc_int(o):
            m = int(o)
            if m < 0:
                return self - (self & ~m)
            r = 0
            pos = 0
            while m >> pos:
                if not (m >> pos) & 1:
                    pos += 1
                    continue
                end = pos
                while (m >> end) & 1:
                    end += 1
                part = ((self // (1 << pos)) % (1 << (end - pos)))
                r = r + part * (1 << pos)
                pos = end
            return r
        if is_intlike(o):
            return bitwise(self, o, lambda x, y: z3.And(x == 1, y == 1))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if is_intlike(o):
            for a, b in ((self, o), (o, self)):
                lb, hb = rng(b)
                tz = tzeros(a)
                if tz and lb is not None and hb is not None and lb >= 0 and hb < (1 << min(tz, 4096)):
                    return a + b
            for a, b in ((self, o), (o, self)):
                tz = min(tzeros(a), 64)
                if tz and not E.pure and E.valid_quick(z3.And(tm(b) >= 0, tm(b) < I(1 << tz))):
                    return a + b
            if is_conc_int(o):
                return self + o - (self & o)
            return bitwise(self, o, lambda x, y: z3.Or(x == 1, y == 1))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if is_conc_int(o):
            return self + o - 2 * (self & o)
        if is_intlike(o):
            return bitwise(self, o, lambda x, y: x != y)
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    # comparison ---------------------------------------------------------------
    def __eq__(self, o):
        if is_intlike(o):
            return _cmp('eq', self, o)
        if type(o) in (SymReal, SymFloat, float, Fraction):
            return promote(self, o, '__eq__')
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __lt__(self, o):
        return _cmp('lt', self, o) if is_intlike(o) else promote(self, o, '__lt__')

    def __le__(self, o):
        return _cmp('le', self, o) if is_intlike(o) else promote(self, o, '__le__')

    def __gt__(self, o):
        return _cmp('lt', o, self) if is_intlike(o) else promote(self, o, '__gt__')

    def __ge__(self, o):
        return _cmp('le', o, self) if is_intlike(o) else promote(self, o, '__ge__')

    def __bool__(self):
        if self.lo is not None and self.lo > 0:
            return True
        return E.fork(self.t != 0)

    def __hash__(self):
        if id(self) in E.keys:
            return hash(('key', id(self)))
        return hash(E.concretize(self.t, what='hash'))

    def __index__(self):
        return E.concretize(self.t, what='index')

    def __int__(self):
        return E.concretize(self.t, what='int')

    def bit_length(self):
        raise Unsupported('bit_length of a symbolic integer')

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from .seq import SymBytes
        n = int(length)
        x = self
        if signed:
            ok = And(self >= -(1 << (8 * n - 1)), self < (1 << (8 * n - 1)))
            if not ok:
                raise OverflowError('int too big to convert')
            x = self % (1 << (8 * n))
        elif not And(self >= 0, self < (1 << (8 * n))):
            raise OverflowError('int too big to convert')
        bs = [(x // (1 << (8 * i))) % 256 for i in range(n)]
        if byteorder == 'big':
            bs.reverse()
        return SymBytes.of(bs)

    @property
    def numerator(self):
        return plain(self)

    @property
    def denominator(self):
        return 1

    @property
    def real(self):
        return plain(self)

    @property
    def imag(self):
        return 0

    @property
    def value(self):
        return plain(self)

    @property
    def name(self):
        return '<enum>'

    def as_integer_ratio(self):
        return plain(self), 1

    def conjugate(self):
        return plain(self)


def plain(x):
    if type(x) is SymInt and x.pt is not int:
        return SymInt(x.t, x.lo, x.hi, x.tz)
    if isinstance(x, int) and type(x) is not int and type(x) is not SymInt:
        return int(x)
    return x


def with_type(x, pt):
    if type(x) is SymInt:
        return SymInt(x.t, x.lo, x.hi, x.tz, pt)
    return x


def narrowed(x, lo, hi):
    """Record bounds which the path condition implies."""
    if type(x) is SymInt:
        return mk_int(x.t, lo if x.lo is None else max(lo, x.lo), hi if x.hi is None else min(hi, x.hi), x.tz, x.pt)
    return x


def bitwise(a, b, f):
    la, ha = rng(a)
    lb, hb = rng(b)
    if None in (la, ha, lb, hb) or la < 0 or lb < 0:
        raise Unsupported('bitwise operation on unbounded symbolic integers')
    w = max(ha, hb).bit_length()
    ta, tb = tm(a), tm(b)
    t = z3.Sum([z3.If(f((ta / I(1 << i)) % 2, (tb / I(1 << i)) % 2), I(1 << i), I(0)) for i in range(w)])
    return SymInt(t, 0, (1 << w) - 1)


def repeated(o, n):
    from . import seq
    if type(o) is str and len(o) == 1:
        r = seq.RepSeq(o, n)
    else:
        r = seq.as_seq(o) * n
    return seq.VList(r) if type(o) is list else r


def promote(a, o, op):
    """Mixed arithmetic of a symbolic int with a float-like or rational value."""
    if type(o) is SymFloat or (isinstance(o, float) and not is_sym(o)):
        if op in ('__eq__', '__lt__', '__le__', '__gt__', '__ge__'):
            return getattr(SymFloat.exact_int(a), op)(o)
        try:
            f = SymFloat.from_int(a)
        except Unsupported:
            if op not in ('__mul__', '__rmul__', '__add__', '__radd__', '__sub__', '__rsub__', '__truediv__', '__rtruediv__'):
                raise
            E.assumed.add('arithmetic of floats with integers of unbounded size is treated as exact (IEEE rounding is monotone)')
            return getattr(SymReal(z3.ToReal(a.t)), op)(o)
        return getattr(f, op)(o)
    if type(o) is SymReal:
        return getattr(SymReal(z3.ToReal(a.t)), op)(o)
    if isinstance(o, Fraction):
        return getattr(SymReal(z3.ToReal(a.t)), op)(o)
    return NotImplemented


# ---------------------------------------------------------------------------
def split_float(c):
    """(n, q) with c == n * 2**q, n odd or zero."""
    n, d = c.as_integer_ratio()
    q = -(d.bit_length() - 1)
    if n:
        z = (n & -n).bit_length() - 1
        n >>= z
        q += z
    return n, q


class SymFloat:
    """An IEEE double with exact value n * 2**q (n symbolic, q known or symbolic).

    If ``norm`` is set, n == s*M with 2**52 <= M < 2**53 (a non-zero double in
    frexp normal form), the sign s being decided by the symbolic flag ``neg``.
    """
    _pv_sym = True
    __slots__ = ('n', 'q', 'norm')
    __class__ = property(lambda self: float)

    def __init__(self, n, q, norm=None):
        self.n = n
        self.q = q
        self.norm = norm       # None or (neg: bool-like, M: int-like)

    @staticmethod
    def normal(neg, M, e):
        """value = (-1)**neg * M * 2**(e-53)"""
        n = If(neg, -M, M)
        return SymFloat(n, e - 53, (neg, M))

    @staticmethod
    def from_int(a):
        la, ha = rng(a)
        if not (la is not None and ha is not None and max(abs(la), abs(ha)) <= 2 ** 53):
            if not (not E.pure and E.valid_quick(z3.And(tm(a) <= I(2 ** 53), tm(a) >= I(-2 ** 53)))):
                raise Unsupported('conversion of an unbounded symbolic integer to float')
        return SymFloat(plain(a), 0)

    @staticmethod
    def exact_int(a):
        return SymFloat(plain(a), 0)

    def __repr__(self):
        return '<symfloat>'

    __str__ = __repr__

    def __format__(self, spec):
        return '<symfloat>'

    @property
    def e(self):
        return self.q + 53

    def _check(self, n):
        la, ha = rng(n)
        if la is None or ha is None or max(abs(la), abs(ha)) > 2 ** 53:
            # reduce by known trailing zeros
            tz = tzeros(n)
            if la is not None and ha is not None and (max(abs(la), abs(ha)) >> min(tz, 5000)) <= 2 ** 53:
                return
            if not (not E.pure and E.valid_quick(z3.And(tm(n) <= I(2 ** 53), tm(n) >= I(-2 ** 53)))):
                raise Unsupported('floating-point operation whose result is not provably exact')

    def _range(self):
        """Result exponent must be within that of normal doubles."""
        q = self.q
        lq, hq = rng(q)
        if lq is not None and hq is not None and lq >= -1074 + 53 and hq <= 970 - 53:
            return self
        if not E.valid_quick(z3.And(tm(q) >= -1074, tm(q) <= 960)):
            raise Unsupported('floating-point scaling may overflow or underflow')
        return self

    def scaled(self, n, q):
        """self * n * 2**q for a concrete odd (or unit) n"""
        if n == 1:
            return SymFloat(self.n, self.q + q, self.norm)._range()
        if n == -1:
            norm = None if self.norm is None else (Not(self.norm[0]), self.norm[1])
            return SymFloat(-self.n, self.q + q, norm)._range()
        m = self.n * n
        self._check(m)
        return SymFloat(m, self.q + q)._range()

    def __neg__(self):
        return self.scaled(-1, 0)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.norm is not None:
            return SymFloat(self.norm[1], self.q, (False, self.norm[1]))
        return SymFloat(abs(self.n), self.q)

    def __mul__(self, o):
        if is_conc_int(o) or (isinstance(o, float) and not is_sym(o)):
            if isinstance(o, float) and (math.isnan(o) or math.isinf(o)):
                raise Unsupported('product with a non-finite float')
            n, q = split_float(float(o))
            if n == 0:
                return 0.0
            return self.scaled(n, q)
        if type(o) is SymFloat:
            m = self.n * o.n
            self._check(m)
            return SymFloat(m, self.q + o.q)._range()
        if type(o) is SymInt:
            m = self.n * o
            self._check(m)
            return SymFloat(m, self.q)._range()
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        if is_conc_int(o) or (isinstance(o, float) and not is_sym(o)):
            n, q = split_float(float(o))
            if n in (1, -1):
                return self.scaled(n, -q)
        raise Unsupported('inexact symbolic float division')

    def __rtruediv__(self, o):
        raise Unsupported('inexact symbolic float division')

    def _addsub(self, o, sign):
        if is_conc_int(o) or (isinstance(o, float) and not is_sym(o)):
            n, q = split_float(float(o))
            if n == 0:
                return self
            o = SymFloat(n, q)
        if type(o) is SymFloat and is_conc_int(self.q) and is_conc_int(o.q):
            q = min(self.q, o.q)
            m = self.n * (1 << (self.q - q)) + sign * (o.n * (1 << (o.q - q)))
            self._check(m)
            return SymFloat(m, q)
        raise Unsupported('inexact symbolic float addition')

    def __add__(self, o):
        return self._addsub(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._addsub(o, -1)

    def __rsub__(self, o):
        return (-self)._addsub(o, 1)

    def __pow__(self, o):
        raise Unsupported('symbolic float power')

    __rpow__ = __floordiv__ = __rfloordiv__ = __mod__ = __rmod__ = __pow__

    # comparison ---------------------------------------------------------------
    def _compare(self, o):
        """(lt, eq) as boolean terms"""
        if type(o) is bool:
            o = int(o)
        if is_conc_int(o) or (isinstance(o, float) and not is_sym(o)) or isinstance(o, Fraction):
            if isinstance(o, float):
                if math.isnan(o):
                    return False, False
                if math.isinf(o):
                    return o > 0, False
            c = Fraction(o)
            if c == 0:
                if self.norm is not None:
                    return mk_bool(bt(self.norm[0])), False
                return self.n < 0, self.n == 0
            if self.norm is not None and (c.denominator & (c.denominator - 1)) == 0:
                return self._cmp_norm(c)
            if (c.denominator & (c.denominator - 1)) == 0:
                n, q = c.numerator, -(c.denominator.bit_length() - 1)
                z = (n & -n).bit_length() - 1
                return self._cmp_dyadic(n >> z, q + z)
            raise Unsupported('comparison with a non-dyadic rational')
        if type(o) is SymInt:
            return self._cmp_dyadic(plain(o), 0)
        if type(o) is SymFloat:
            return self._cmp_dyadic(o.n, o.q)
        return None

    def _cmp_norm(self, c):
        neg, M = self.norm
        m = abs(c)
        # |c| = Mc * 2**(ec-53) with 2**52 <= Mc < 2**53 (Mc maybe fractional)
        n, d = m.numerator, m.denominator
        ec = n.bit_length() - d.bit_length() + 1
        mc = m / (Fraction(2) ** (ec - 53))
        while mc >= 2 ** 53:
            ec += 1
            mc /= 2
        while mc < 2 ** 52:
            ec -= 1
            mc *= 2
        if mc.denominator != 1:
            raise Unsupported('comparison constant with more than 53 bits')
        mc = int(mc)
        e = self.e
        ab_lt = Or(e < ec, And(e == ec, M < mc))
        ab_eq = And(e == ec, M == mc)
        ab_gt = And(Not(ab_lt), Not(ab_eq))
        if c > 0:
            return Or(neg, ab_lt), And(Not(neg), ab_eq)
        return And(neg, ab_gt), And(neg, ab_eq)

    def _cmp_dyadic(self, n2, q2):
        if E.pure:
            d = z3.simplify(tm(self.q) - tm(q2))
            if not z3.is_int_value(d):
                raise Unsupported('comparison of floats with symbolic exponents in a specification')
            d = d.as_long()
        else:
            d = E.concretize(tm(self.q) - tm(q2), what='exponent difference')
        a, b = self.n, n2
        if d >= 0:
            a = a * (1 << d)
        else:
            b = b * (1 << -d)
        return a < b, a == b

    def __eq__(self, o):
        r = self._compare(o)
        return NotImplemented if r is None else r[1]

    def __ne__(self, o):
        r = self._compare(o)
        return NotImplemented if r is None else Not(r[1])

    def __lt__(self, o):
        r = self._compare(o)
        return NotImplemented if r is None else r[0]

    def __le__(self, o):
        r = self._compare(o)
        return NotImplemented if r is None else Or(*r)

    def __gt__(self, o):
        r = self._compare(o)
        if isinstance(o, float) and not is_sym(o) and math.isnan(o):
            return False
        return NotImplemented if r is None else Not(Or(*r))

    def __ge__(self, o):
        r = self._compare(o)
        if isinstance(o, float) and not is_sym(o) and math.isnan(o):
            return False
        return NotImplemented if r is None else Not(r[0])

    def __bool__(self):
        if self.norm is not None:
            return True
        return bool(self.n != 0)

    def __hash__(self):
        raise Unsupported('hash of a symbolic float')

    def to_int(self):
        q = self.q
        if not is_conc_int(q):
            q = E.concretize(tm(q), what='exponent')
        q = int(q)
        if q >= 0:
            return self.n * (1 << q)
        if self.norm is not None:
            neg, M = self.norm
            return If(neg, -(M // (1 << -q)), M // (1 << -q))
        return If(self.n >= 0, self.n // (1 << -q), -((-self.n) // (1 << -q)))

    __trunc__ = to_int

    def __int__(self):
        return int(self.to_int())

    def floor_(self):
        q = self.q
        if not is_conc_int(q):
            q = E.concretize(tm(q), what='exponent')
        return self.n * (1 << q) if q >= 0 else self.n // (1 << -q)

    __floor__ = floor_

    def __ceil__(self):
        return -((-self).floor_())

    def __float__(self):
        raise Unsupported('native conversion of a symbolic float')

    def is_integer(self):
        return self == self.to_int()

    def frexp(self):
        if self.norm is not None:
            neg, M = self.norm
            return SymFloat(self.n, -53, self.norm), self.q + 53
        # normalise by forking on the bit length
        if self.n == 0:
            return 0.0, 0
        neg = bool(self.n < 0)
        a = -self.n if neg else self.n
        la, ha = rng(a)
        if ha is None:
            raise Unsupported('frexp of an unbounded value')
        conds = [z3.And(tm(a) >= I(1 << b), tm(a) < I(1 << (b + 1))) for b in range(ha.bit_length())]
        b = E.decide(conds, 'frexp')
        a = narrowed(a, 1 << b, (1 << (b + 1)) - 1)
        M = a * (1 << (52 - b)) if b <= 52 else None
        if M is None:
            raise Unsupported('frexp of a value with more than 53 bits')
        e = self.q + (b + 1)
        return SymFloat(-M if neg else M, -53, (neg, M)), e

    def as_integer_ratio(self):
        return SymRatio.make(self.n, self.q)

    def hex(self):
        return '<symfloat>'


class SymRatio:
    """Reduced integer ratio of a dyadic value: fallback is forking on trailing zeros."""

    @staticmethod
    def make(n, q):
        q = int(q) if is_conc_int(q) else E.concretize(tm(q), what='exponent')
        if q >= 0:
            return n * (1 << q), 1
        k = -q
        # number of trailing zeros of n, at most k
        la, ha = rng(n)
        conds = []
        t = tm(n)
        top = k
        if la is not None and ha is not None:
            top = min(k, max(abs(la), abs(ha)).bit_length())
        if n == 0:
            return 0, 1
        for z in range(top + 1):
            c = t % I(1 << z) == 0
            if z < top:
                c = z3.And(c, t % I(1 << (z + 1)) != 0)
            conds.append(c)
        z = E.decide(conds, 'ratio')
        z = min(z, k)
        return n // (1 << z), 1 << (k - z)


# ---------------------------------------------------------------------------
def real(x):
    if type(x) is SymReal:
        return x.t
    if type(x) is SymInt:
        return z3.ToReal(x.t)
    if type(x) is bool:
        x = int(x)
    if isinstance(x, int):
        return z3.RealVal(int(x))
    if isinstance(x, float) and not is_sym(x):
        n, d = x.as_integer_ratio()
        return z3.RealVal(n) / z3.RealVal(d) if d != 1 else z3.RealVal(n)
    if isinstance(x, Fraction):
        return z3.RealVal(x.numerator) / z3.RealVal(x.denominator)
    raise Unsupported('not a real: {}'.format(type(x).__name__))


def _num_or_none(x):
    return type(x) is SymReal or type(x) is SymInt or isinstance(x, Fraction) or \
        (isinstance(x, (int, float)) and not is_sym(x))


class SymReal:
    """An exact real number (of type pt); quotients of integers are represented without rounding."""
    _pv_sym = True
    __slots__ = ('t', 'pt')
    __class__ = property(lambda self: self.pt)

    def __init__(self, t, pt=float):
        self.t = t
        self.pt = pt

    @staticmethod
    def div(a, b):
        E.assumed.add('quotients of integers used as progress fractions and frequencies are treated as exact reals '
                      '(IEEE rounding is monotone and preserves 0, 1/2, 3/4 and 1)')
        if is_intlike(b) and not is_conc_int(b):
            if b == 0:
                raise ZeroDivisionError('division by zero')
        elif b == 0:
            raise ZeroDivisionError('division by zero')
        # introduce the quotient by its defining equation (keeps terms linear in it)
        return SymReal(real(a) / real(b))

    def as_integer_ratio(self):
        """The ratio in lowest terms, by its defining properties."""
        t = z3.simplify(self.t)
        known = E.memo.setdefault('ratios', [])
        for t2, n, d in known:
            if t2.eq(t):
                return SymInt(n), SymInt(d, 1)
        n, d = E.const('num'), E.const('den')
        E.add_fact(n, z3.And(d >= 1, (d == 1) == (t == z3.ToReal(z3.ToInt(t))), z3.Implies(d == 1, t == z3.ToReal(n)),
                             (n > 0) == (t > 0), (n < 0) == (t < 0),
                             *[(t == t2) == z3.And(n == n2, d == d2) for t2, n2, d2 in known]))
        known.append((t, n, d))
        return SymInt(n), SymInt(d, 1)

    @property
    def numerator(self):
        return self.as_integer_ratio()[0]

    @property
    def denominator(self):
        return self.as_integer_ratio()[1]

    def __repr__(self):
        return '<symreal>'

    def __format__(self, s):
        return '<symreal>'

    def __add__(self, o):
        return SymReal(self.t + real(o))

    __radd__ = __add__

    def __sub__(self, o):
        return SymReal(self.t - real(o))

    def __rsub__(self, o):
        return SymReal(real(o) - self.t)

    def __mul__(self, o):
        return SymReal(self.t * real(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if o == 0:
            raise ZeroDivisionError('division by zero')
        return SymReal(self.t / real(o))

    def __rtruediv__(self, o):
        return SymReal(real(o) / self.t)

    def __neg__(self):
        return SymReal(-self.t)

    def __eq__(self, o):
        if not _num_or_none(o):
            return NotImplemented
        if isinstance(o, float) and not is_sym(o) and not math.isfinite(o):
            return 0.0 == o
        return mk_bool(self.t == real(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return NotImplemented if r is NotImplemented else Not(r)

    def __lt__(self, o):
        if not _num_or_none(o):
            return NotImplemented
        if isinstance(o, float) and not is_sym(o) and not math.isfinite(o):
            return 0.0 < o
        return mk_bool(self.t < real(o))

    def __le__(self, o):
        if not _num_or_none(o):
            return NotImplemented
        if isinstance(o, float) and not is_sym(o) and not math.isfinite(o):
            return 0.0 <= o
        return mk_bool(self.t <= real(o))

    def __gt__(self, o):
        if not _num_or_none(o):
            return NotImplemented
        if isinstance(o, float) and not is_sym(o) and not math.isfinite(o):
            return 0.0 > o
        return mk_bool(self.t > real(o))

    def __ge__(self, o):
        if not _num_or_none(o):
            return NotImplemented
        if isinstance(o, float) and not is_sym(o) and not math.isfinite(o):
            return 0.0 >= o
        return mk_bool(self.t >= real(o))

    def __hash__(self):
        raise Unsupported('hash of a symbolic real')

    def __bool__(self):
        return E.fork(self.t != 0)


# ---------------------------------------------------------------------------
def subst(v, pairs):
    """Substitute z3 terms inside a value."""
    if type(v) is SymInt:
        return mk_int(z3.substitute(v.t, *pairs), v.lo, v.hi, v.tz, v.pt)
    if type(v) is SymBool:
        return mk_bool(z3.substitute(v.t, *pairs))
    if type(v) is SymReal:
        return SymReal(z3.substitute(v.t, *pairs))
    if type(v) is SymFloat:
        return SymFloat(subst(v.n, pairs), subst(v.q, pairs),
                        None if v.norm is None else tuple(subst(x, pairs) for x in v.norm))
    if type(v) is tuple:
        return tuple(subst(x, pairs) for x in v)
    if is_struct(v):
        return struct_map(v, lambda x: subst(x, pairs))
    if type(v) is slice:
        return slice(*subst((v.start, v.stop, v.step), pairs))
    if type(v) in (list, dict, set) and v:
        w = [subst(x, pairs) for x in v] + ([subst(x, pairs) for x in v.values()] if type(v) is dict else [])
        if any(x is not y for x, y in zip(w, list(v) + (list(v.values()) if type(v) is dict else []))):
            if type(v) is list:
                return w
            raise Unsupported('{} of values which depend on the iteration'.format(type(v).__name__))
        return v
    s = getattr(type(v), '_pv_subst', None)
    if s is not None and not isinstance(v, type):
        return s(v, pairs)
    return v


STRUCT_ROOTS = ('segpy', 'segpy_numpy', 'units')
_struct_cache = {}


def is_struct(v):
    """Instance of a plain class of the repository: compared and copied field by field."""
    t = type(v)
    r = _struct_cache.get(t)
    if r is None:
        m = getattr(t, '__module__', None)
        r = isinstance(m, str) and m.split('.')[0] in STRUCT_ROOTS and not issubclass(t, (type, int, str, bytes, float, tuple, BaseException)) \
            and not getattr(t, '_pv_sym', False) and not hasattr(t, '_member_map_')
        _struct_cache[t] = r
    return r


def struct_keys(t):
    ks = []
    for c in t.__mro__:
        sl = c.__dict__.get('__slots__', ())
        for n in ([sl] if isinstance(sl, str) else sl):
            if n in ('__dict__', '__weakref__'):
                continue
            if n.startswith('__') and not n.endswith('__'):
                n = '_{}{}'.format(c.__name__.lstrip('_'), n)
            ks.append(('slot', n))
    return ks


def struct_stores(t):
    """Weak dictionaries of descriptors which hold per-instance values."""
    out = []
    for c in t.__mro__:
        for n, d in c.__dict__.items():
            dd = getattr(d, '__dict__', None)
            if dd is None or isinstance(d, type) or not hasattr(type(d), '__get__') or isinstance(d, types.FunctionType):
                continue
            for k, w in dd.items():
                if isinstance(w, weakref.WeakKeyDictionary):
                    out.append((n, k, w))
    return out


_keys_cache = {}


def struct_fields(v):
    t = type(v)
    ks = _keys_cache.get(t)
    if ks is None:
        ks = _keys_cache[t] = (struct_keys(t), struct_stores(t))
    out = {}
    for kind, n in ks[0]:
        try:
            out[(kind, n)] = getattr(v, n)
        except AttributeError:
            pass
    for n, x in getattr(v, '__dict__', {}).items():
        out[('dict', n)] = x
    for n, k, w in ks[1]:
        if v in w:
            out[('weak', n, k)] = w[v]
    return out


def struct_map(v, f):
    fs = struct_fields(v)
    return struct_map_keys(v, {k: f(x) for k, x in fs.items()}, fs)


def struct_map_keys(v, new, fs=None):
    t = type(v)
    fs = fs if fs is not None else struct_fields(v)
    if all(new[k] is fs[k] for k in fs):
        return v
    o = object.__new__(t)
    stores = {(n, k): w for n, k, w in _keys_cache[t][1]}
    for k, x in new.items():
        if k[0] == 'slot':
            object.__setattr__(o, k[1], x)
        elif k[0] == 'dict':
            o.__dict__[k[1]] = x
        else:
            stores[(k[1], k[2])][o] = x
    E.births[id(o)] = (o, E.loop_path)
    return o


def consts_of(v, out=None):
    """Names of the uninterpreted constants/functions occurring in a value."""
    if out is None:
        out = set()
    if type(v) in (SymInt, SymBool, SymReal):
        term_consts(v.t, out)
    elif type(v) is SymFloat:
        consts_of(v.n, out)
        consts_of(v.q, out)
        if v.norm is not None:
            consts_of(v.norm[0], out)
            consts_of(v.norm[1], out)
    elif isinstance(v, (tuple, list)) and not is_sym(v):
        for x in v:
            consts_of(x, out)
    elif z3.is_expr(v):
        term_consts(v, out)
    elif is_struct(v):
        for x in struct_fields(v).values():
            consts_of(x, out)
    elif type(v) is slice:
        consts_of((v.start, v.stop, v.step), out)
    else:
        c = getattr(type(v), '_pv_consts', None)
        if c is not None and not isinstance(v, type):
            c(v, out)
    return out


def term_consts(t, out):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            stack.extend(x.children())
    return out
