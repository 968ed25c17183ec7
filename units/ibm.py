"""P01-P04: IBM floating point."""
from math import isnan, trunc, floor, ceil, frexp
from fractions import Fraction
from pv.registry import unit

A = list(range(256))


def any_word(env):
    a = env.choice('a', A)
    m = env.bytes('m', 3)
    return a, m, env.word(a, m)


def mantissa(env, m):
    return env.at(m, 0) * 65536 + env.at(m, 1) * 256 + env.at(m, 2)


def value(env, x, a, m):
    """x == (-1)**s * 0.M * 16**(e - 64), exactly"""
    n = mantissa(env, m)
    return env.is_value(x, -n if a & 128 else n, 4 * ((a & 127) - 64) - 24)


@unit('P01', about='ibm2ieee(w) is exactly the number of the word')
def ibm2ieee_exact(env):
    from segpy.ibm_float import ibm2ieee
    a, m, w = any_word(env)
    x = ibm2ieee(w)
    env.cover('decoded')
    env.check(isinstance(x, float), 'ibm2ieee: the result is a float')
    env.check(value(env, x, a, m), 'ibm2ieee: exact value')


@unit('P01', about='ibm2ieee uses the first four bytes of a longer byte string')
def ibm2ieee_longer(env):
    from segpy.ibm_float import ibm2ieee
    a = env.choice('a', [0, 65, 127, 128, 193, 255])
    m = env.bytes('m', 3)
    rest = env.bytes('rest', 2)
    x = ibm2ieee(env.word(a, m, rest))
    env.check(value(env, x, a, m), 'ibm2ieee: exact value of the first four bytes')


@unit('P01', about='float(IBMFloat) is exactly the number of the word')
def ibmfloat_float(env):
    from segpy.ibm_float import IBMFloat
    a, m, w = any_word(env)
    for x in (float(IBMFloat.from_bytes(w)), float(IBMFloat(w))):
        env.check(isinstance(x, float), 'float(IBMFloat): is a float')
        env.check(value(env, x, a, m), 'float(IBMFloat): exact value')
    env.cover('decoded')


@unit('P01', about='unpack_ibm_floats decodes each of any number of consecutive words')
def unpack_words(env):
    from segpy.ibm_float_packer import unpack_ibm_floats
    n = env.size('n', 0)
    data = env.bytes('data', 4 * n)
    out = unpack_ibm_floats(data, n)
    env.check(env.eq(env.length(out), n), 'unpack_ibm_floats: number of items')
    k = env.int('k', 0)
    env.assume(k < n)
    env.cover('an item')
    b = bytes(env.at(out, k))
    env.check(env.And(env.eq(env.length(b), 4), *[env.eq(env.at(b, j), env.at(data, 4 * k + j)) for j in range(4)]),
              'unpack_ibm_floats: item k holds the bytes of word k')


# --------------------------------------------------------------------- P02
def check_encoding(env, w, neg, M, e, what):
    """The word is the truncation of (-1)**neg * M * 2**(e - 53), 2**52 <= M < 2**53"""
    env.check(env.eq(env.length(w), 4), what + ': four bytes')
    a = env.at(w, 0)
    E = env.fix(a % 128)
    m = env.at(w, 1) * 65536 + env.at(w, 2) * 256 + env.at(w, 3)
    env.check(env.Iff(a >= 128, neg), what + ': sign')
    s = (e - 53) - (4 * (E - 64) - 24)
    if s <= 0:
        env.check(env.And(m * 2 ** (-s) <= M, M < (m + 1) * 2 ** (-s)), what + ': truncated toward zero within one unit')
    else:
        env.check(env.eq(m, M * 2 ** s), what + ': exact')
    env.check(env.Or(m >= 2 ** 20, E == 0), what + ': normalised mantissa')


def double_in(env, lo, hi):
    neg = env.bool('neg')
    M = env.int('M', 2 ** 52, 2 ** 53 - 1)
    e = env.choice('e', list(range(lo, hi + 1)))
    return neg, M, e, env.double(neg, M, e)


def _normal(lo, hi):
    def body(env):
        from segpy.ibm_float import ieee2ibm, IBMFloat
        neg, M, e, x = double_in(env, lo, hi)
        if e == 252:
            # not beyond the largest word
            env.assume(M < (2 ** 24) * 2 ** 29)
            env.assume(M <= (2 ** 24 - 1) * 2 ** 29)
        w = ieee2ibm(x)
        check_encoding(env, w, neg, M, e, 'ieee2ibm')
        for f in (IBMFloat.from_float, IBMFloat.from_real, IBMFloat.from_float_without_underflow):
            v = f(x)
            env.check(type(v) is IBMFloat, 'from_float: an IBMFloat')
            env.check(env.eq(bytes(v), w), 'from_float: holds the word of ieee2ibm')
        env.cover('encoded')
    return body


for _lo, _hi in ((-279, -220), (-219, -100), (-99, 20), (21, 140), (141, 252)):
    _f = _normal(_lo, _hi)
    _f.__name__ = 'ieee2ibm_{}_{}'.format(str(_lo).replace('-', 'm'), str(_hi).replace('-', 'm'))
    unit('P02', about='ieee2ibm truncates doubles with exponents {}..{}'.format(_lo, _hi))(_f)


@unit('P02', about='magnitudes beyond the largest word raise OverflowError')
def ieee2ibm_overflow(env):
    from segpy.ibm_float import ieee2ibm, IBMFloat
    neg, M, e, x = double_in(env, 252, 1024)
    if e == 252:
        env.assume(M > (2 ** 24 - 1) * 2 ** 29)
    for f in (ieee2ibm, IBMFloat.from_float, IBMFloat.from_real, IBMFloat.from_float_without_underflow):
        r = env.call(f, x)
        env.check(r.raised(OverflowError), 'ieee2ibm: OverflowError beyond the largest word')
    env.cover('overflow')


@unit('P02', about='values which would lose every mantissa bit raise FloatingPointError')
def ieee2ibm_underflow(env):
    from segpy.ibm_float import ieee2ibm, IBMFloat
    neg, M, e, x = double_in(env, -1073, -280)
    for f in (ieee2ibm, IBMFloat.from_float):
        r = env.call(f, x)
        env.check(r.raised(FloatingPointError), 'ieee2ibm: FloatingPointError when every bit would be lost')
    r = env.call(IBMFloat.from_float_without_underflow, x)
    env.check(r.ok, 'from_float_without_underflow: accepts tiny values')
    env.check(env.eq(bytes(r.value), b'\0\0\0\0'), 'from_float_without_underflow: zero')
    env.cover('underflow')


@unit('P02', about='zero, NaN and infinities')
def ieee2ibm_special(env):
    from segpy.ibm_float import ieee2ibm, IBMFloat
    x = env.choice('x', [0.0, -0.0, 0, False, float('nan'), float('inf'), float('-inf'), -float('nan')])
    for f in (ieee2ibm, IBMFloat.from_float, IBMFloat.from_real, IBMFloat.from_float_without_underflow):
        r = env.call(f, x)
        if x == 0:
            env.check(r.ok and bytes(r.value) == b'\0\0\0\0', 'ieee2ibm: zero is all zero bytes')
        else:
            env.check(r.raised(ValueError), 'ieee2ibm: ValueError for NaN and infinities')


@unit('P02', about='integers which are doubles are encoded as such')
def ieee2ibm_int(env):
    from segpy.ibm_float import ieee2ibm
    b = env.choice('bits', list(range(1, 54)))
    neg = env.choice('neg', [False, True])
    k = env.int('k', 2 ** (b - 1), 2 ** b - 1)
    w = ieee2ibm(-k if neg else k)
    check_encoding(env, w, neg, k * 2 ** (53 - b), b, 'ieee2ibm of an int')
    env.cover('encoded')


# --------------------------------------------------------------------- P03
def _roundtrip(lo, hi):
    def body(env):
        from segpy.ibm_float import ibm2ieee, ieee2ibm
        a = env.choice('a', A[lo:hi])
        m = env.bytes('m', 3)
        w = env.word(a, m)
        n = mantissa(env, m)
        v = ieee2ibm(ibm2ieee(w))
        env.check(env.eq(env.length(v), 4), 'round trip: four bytes')
        va = env.at(v, 0)
        vn = env.at(v, 1) * 65536 + env.at(v, 2) * 256 + env.at(v, 3)
        s = env.fix(va % 128) - (a % 128)
        env.check(env.Or(n == 0, env.Iff(va >= 128, a >= 128)), 'round trip: same sign')
        if s <= 0:
            env.check(env.eq(vn, n * 16 ** (-s)), 'round trip: same value')
        else:
            env.check(env.Or(env.eq(vn * 16 ** s, n), env.And(vn == 0, n == 0)), 'round trip: same value')
        if env.at(m, 0) >= 16:
            env.cover('normalised')
            env.check(env.eq(v, w), 'round trip: a normalised word keeps its bytes')
        env.cover('round trip')
    return body


for _i in range(8):
    _f = _roundtrip(32 * _i, 32 * _i + 32)
    _f.__name__ = 'roundtrip_{:02x}'.format(32 * _i)
    unit('P03', about='ieee2ibm(ibm2ieee(w)) for first bytes {}..{}'.format(32 * _i, 32 * _i + 31))(_f)


@unit('P03', about='an IBMFloat is encoded as its own four bytes')
def from_real_keeps_word(env):
    from segpy.ibm_float import IBMFloat
    w = env.bytes('w', 4)
    x = env.choice('how', [IBMFloat, IBMFloat.from_bytes])(w)
    y = env.choice('from', [IBMFloat.from_real, IBMFloat.from_float])(x)
    env.check(type(y) is IBMFloat, 'from_real: an IBMFloat')
    env.check(env.eq(bytes(y), w), 'from_real(IBMFloat): the same four bytes')
    env.cover('kept')


@unit('P03', about='pack_ibm_floats(unpack_ibm_floats(data)) == data for any number of words')
def pack_unpack_words(env):
    from segpy.ibm_float_packer import unpack_ibm_floats, pack_ibm_floats
    n = env.size('n', 0)
    data = env.bytes('data', 4 * n)
    out = pack_ibm_floats(unpack_ibm_floats(data, n))
    env.check(env.eq(env.length(out), 4 * n), 'pack_ibm_floats: four bytes for each word')
    j = env.int('j', 0)
    env.assume(j < 4 * n)
    env.cover('a byte')
    env.check(env.eq(env.at(out, j), env.at(data, j)), 'pack_ibm_floats(unpack_ibm_floats(data)): byte j')



# --------------------------------------------------------------------- P04
def word_value(env, x, n, q, what):
    """The IBMFloat x has the value n * 2**q"""
    from segpy.ibm_float import IBMFloat
    env.check(type(x) is IBMFloat, what + ': an IBMFloat')
    b = bytes(x)
    a = env.at(b, 0)
    e = env.fix(a % 128)
    m = env.at(b, 1) * 65536 + env.at(b, 2) * 256 + env.at(b, 3)
    v = env.If(a >= 128, -m, m)
    s = (4 * (e - 64) - 24) - q
    if s >= 0:
        env.check(env.eq(v * 2 ** s, n), what + ': exact value')
    else:
        env.check(env.eq(v, n * 2 ** (-s)), what + ': exact value')


def signed(env, a, m):
    n = mantissa(env, m)
    return -n if a >= 128 else n


@unit('P04', about='negation, absolute value, sign, truth value and classification')
def unary(env):
    from segpy.ibm_float import IBMFloat
    a, m, w = any_word(env)
    x = IBMFloat(w)
    n = signed(env, a, m)
    q = 4 * (a % 128 - 64) - 24
    word_value(env, +x, n, q, 'pos')
    word_value(env, -x, -n, q, 'neg')
    word_value(env, abs(x), env.If(n < 0, -n, n), q, 'abs')
    env.check(env.Iff(bool(x), n != 0), 'bool: true exactly when not zero')
    env.check(env.Iff(x.is_zero(), n == 0), 'is_zero')
    env.check(x.signbit == (a >= 128), 'signbit')
    env.check(x.exp16 == a % 128 - 64, 'exp16')
    env.check(x.int_mantissa == mantissa(env, m), 'int_mantissa')
    canonical_zero = env.And(a == 0, n == 0)
    env.check(env.Iff(x.is_subnormal(), env.And(env.at(m, 0) < 16, env.Not(canonical_zero))), 'is_subnormal')
    z = x.zero_subnormal()
    if x.is_subnormal():
        word_value(env, z, 0, 0, 'zero_subnormal')
    else:
        env.check(env.eq(bytes(z), w), 'zero_subnormal: normal values are kept')
    env.check(env.eq(bytes(x), w), 'bytes: the word')
    env.cover('all')


@unit('P04', about='trunc and int drop the fraction')
def truncation(env):
    from segpy.ibm_float import IBMFloat
    a, m, w = any_word(env)
    x = IBMFloat(w)
    n = mantissa(env, m)
    q = 4 * (a % 128 - 64) - 24
    mag = n * 2 ** q if q >= 0 else n // 2 ** (-q)
    want = -mag if a >= 128 else mag
    env.check(env.eq(trunc(x), want), 'trunc: toward zero')
    env.check(env.eq(int(x), want), 'int: toward zero')
    env.cover('truncated')


@unit('P04', about='floor and ceil')
def floor_ceil(env):
    from segpy.ibm_float import IBMFloat
    a, m, w = any_word(env)
    x = IBMFloat(w)
    n = signed(env, a, m)
    q = 4 * (a % 128 - 64) - 24
    if q >= 0:
        lo = hi = n * 2 ** q
        integral = True
    else:
        lo = n // 2 ** (-q)
        hi = -((-n) // 2 ** (-q))
        integral = lo == hi
    f = floor(x)
    c = ceil(x)
    env.check(env.Or(env.eq(f, lo), env.And(env.known('P04-floor-ceil'), a >= 128, integral, env.eq(f, lo - 1))), 'floor')
    env.check(env.Or(env.eq(c, hi), env.And(env.known('P04-floor-ceil'), a < 128, integral, env.eq(c, hi + 1))), 'ceil')
    env.cover('rounded')


@unit('P04', about='frexp decomposes exactly')
def frexp_exact(env):
    from segpy.ibm_float import IBMFloat
    a, m, w = any_word(env)
    x = IBMFloat(w)
    f, e = x.frexp()
    n = signed(env, a, m)
    e = env.fix(e)
    env.check(env.is_value(f, n, 4 * (a % 128 - 64) - 24 - e), 'frexp: fraction * 2**exponent is the value')
    env.check(env.And(f > -1, f < 1), 'frexp: fraction within -1 and 1')
    env.cover('decomposed')


def _ldexp(lo, hi):
    def body(env):
        from segpy.ibm_float import IBMFloat
        a = env.choice('a', A[lo:hi])
        m = env.bytes('m', 3)
        x = IBMFloat(env.word(a, m))
        y = IBMFloat.ldexp(*x.frexp())
        word_value(env, y, signed(env, a, m), 4 * (a % 128 - 64) - 24, 'ldexp(frexp)')
        env.cover('recomposed')
    return body


for _i in range(8):
    _f = _ldexp(32 * _i, 32 * _i + 32)
    _f.__name__ = 'ldexp_frexp_{:02x}'.format(32 * _i)
    unit('P04', about='ldexp(*frexp) has the same value, first bytes {}..{}'.format(32 * _i, 32 * _i + 31))(_f)


@unit('P04', about='ldexp rejects fractions and exponents outside its range')
def ldexp_range(env):
    from segpy.ibm_float import IBMFloat
    e = env.int('e', -10 ** 6, 10 ** 6)
    f = env.choice('f', [1.0, -1.0, 0.5, 0.0, 1.5, -1.0000001, 2.0])
    if env.choice('bad', ['exponent', 'fraction']) == 'exponent':
        env.assume(env.Or(e < -256, e >= 256))
    else:
        env.assume(f < -1.0 or f > 1.0)
        env.assume(env.And(e > -10, e < 10))
    env.check(env.call(IBMFloat.ldexp, f, e).raised(ValueError), 'ldexp: ValueError out of range')
    env.cover('rejected')


@unit('P04', about='as_integer_ratio is the value in lowest terms')
def integer_ratio(env):
    from segpy.ibm_float import IBMFloat
    a, m, w = any_word(env)
    x = IBMFloat(w)
    r = x.as_integer_ratio()
    n = signed(env, a, m)
    q = 4 * (a % 128 - 64) - 24
    num, den = r
    den = env.fix(den)
    env.check(den >= 1 and den & (den - 1) == 0, 'as_integer_ratio: the denominator is a power of two')
    k = den.bit_length() - 1
    if q + k >= 0:
        env.check(env.eq(num, n * 2 ** (q + k)), 'as_integer_ratio: exact value')
    else:
        env.check(env.eq(num * 2 ** (-q - k), n), 'as_integer_ratio: exact value')
    env.check(env.Or(den == 1, num % 2 == 1), 'as_integer_ratio: lowest terms')
    env.cover('ratio')


@unit('P04', about='normalize preserves the value and yields a leading non-zero digit, or fails only at the end of the exponent range')
def normalization(env):
    from segpy.ibm_float import IBMFloat
    a, m, w = any_word(env)
    x = IBMFloat(w)
    n = signed(env, a, m)
    e = a % 128
    q = 4 * (e - 64) - 24
    r = env.call(x.normalize)
    t = x.try_normalize()
    possible = env.Or(n == 0, mantissa(env, m) * 16 ** e >= 2 ** 20)
    if r.ok:
        word_value(env, r.value, n, q, 'normalize')
        b = bytes(r.value)
        env.check(env.Or(env.at(b, 1) >= 16, env.And(n == 0, env.eq(b, bytes(4)))), 'normalize: leading digit')
        env.check(env.eq(bytes(t), b), 'try_normalize: the normalised word')
        env.cover('normalised')
    else:
        env.check(r.raised(FloatingPointError), 'normalize: FloatingPointError')
        env.check(env.Not(possible), 'normalize: fails only when the exponent would leave its range')
        env.check(env.eq(bytes(t), w), 'try_normalize: the unmodified word')
        env.cover('failed')


def check_compare(env, x, y, v, u, what):
    """All comparisons of x and y agree with those of the exact numbers v and u."""
    env.check(env.Iff(x == y, v == u), what + ': ==')
    env.check(env.Iff(x != y, env.Not(v == u)), what + ': !=')
    env.check(env.Iff(x < y, v < u), what + ': <')
    env.check(env.Iff(x <= y, v <= u), what + ': <=')
    env.check(env.Iff(x > y, v > u), what + ': >')
    env.check(env.Iff(x >= y, v >= u), what + ': >=')


def number_contracts(env):
    """float(x) and x.as_integer_ratio() by their contracts (P01.ibmfloat_float, P04.integer_ratio): the exact number."""
    from segpy.ibm_float import IBMFloat
    env.stub(IBMFloat, '__float__', lambda self: env.word_number(self._data))
    env.stub(IBMFloat, 'as_integer_ratio', lambda self: env.word_number(self._data).as_integer_ratio())


NUMBER = ['P01.ibmfloat_float', 'P04.integer_ratio']


@unit('P04', about='comparison of two words', contracts=NUMBER)
def compare_words(env):
    from segpy.ibm_float import IBMFloat
    w1 = env.bytes('w1', 4)
    w2 = env.bytes('w2', 4)
    number_contracts(env)
    x, y = IBMFloat(w1), IBMFloat(w2)
    check_compare(env, x, y, env.word_number(w1), env.word_number(w2), 'two words')
    check_compare(env, x, x, 0, 0, 'a word and itself')
    env.cover('compared')


@unit('P04', about='comparison of a word with any integer', contracts=NUMBER)
def compare_int(env):
    from segpy.ibm_float import IBMFloat
    w = env.bytes('w', 4)
    k = env.int('k')
    number_contracts(env)
    x = IBMFloat(w)
    v = env.word_number(w)
    check_compare(env, x, k, v, k, 'a word and an int')
    check_compare(env, k, x, k, v, 'an int and a word')
    env.cover('compared')


@unit('P04', about='comparison of a word with any finite float or rational', contracts=NUMBER)
def compare_real(env):
    from segpy.ibm_float import IBMFloat
    w = env.bytes('w', 4)
    y = env.real('y', env.choice('kind', ['float', 'fraction']))
    number_contracts(env)
    x = IBMFloat(w)
    v = env.word_number(w)
    check_compare(env, x, y, v, y, 'a word and a real')
    check_compare(env, y, x, y, v, 'a real and a word')
    env.cover('compared')


@unit('P04', about='comparison of a word with NaN and infinities', contracts=NUMBER)
def compare_special(env):
    from segpy.ibm_float import IBMFloat
    w = env.bytes('w', 4)
    y = env.choice('y', [float('nan'), float('inf'), float('-inf')])
    number_contracts(env)
    x = IBMFloat(w)
    check_compare(env, x, y, 0.0, y, 'a word and a special float')
    check_compare(env, y, x, y, 0.0, 'a special float and a word')
    env.cover('compared')


@unit('P04', about='comparison of words of a few sizes with doubles, without contracts', thorough=True)
def compare_float(env):
    from segpy.ibm_float import IBMFloat
    a = env.choice('a', [0, 1, 63, 64, 65, 70, 90, 127, 128, 192, 193, 255])
    m = env.bytes('m', 3)
    x = IBMFloat(env.word(a, m))
    neg = env.bool('neg')
    M = env.int('M', 2 ** 52, 2 ** 53 - 1)
    e = env.choice('e', [-300, -281, -280, -279, -30, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 24, 25, 53, 250, 251, 252, 253, 1024])
    y = env.double(neg, M, e)
    n1, q1 = signed(env, a, m), 4 * (a % 128 - 64) - 24
    n2, q2 = env.If(neg, -M, M), e - 53
    q = min(q1, q2)
    check_compare(env, x, y, n1 * 2 ** (q1 - q), n2 * 2 ** (q2 - q), 'a word and a double')
    env.cover('compared')
