"""P10: sample values in files."""
from pv.registry import unit
from segpy.datatypes import DataSampleFormat, SegYType

# SEG-Y type, size in bytes, signed (None: not an integer)
TYPES = [('ibm', 4, None), ('int32', 4, True), ('int16', 2, True), ('float32', 4, None), ('int8', 1, True),
         ('nnint32', 4, False), ('nnint16', 2, False), ('nnint8', 1, False)]
SAMPLE_FORMATS = [('IBM', 1, 'ibm', 4), ('INT32', 2, 'int32', 4), ('INT16', 3, 'int16', 2), ('FLOAT32', 5, 'float32', 4), ('INT8', 8, 'int8', 1)]


def stored(env, data, at, size, signed, endian):
    """The integer stored in data[at:at + size]"""
    order = range(size) if endian == '>' else range(size - 1, -1, -1)
    v = 0
    for j in order:
        v = v * 256 + env.at(data, at + j)
    if signed:
        v = env.If(v >= 256 ** size // 2, v - 256 ** size, v)
    return v


def holds(env, value, kind, size, signed, data, at, endian):
    """value is the number of data[at:at + size]"""
    if signed is not None:
        return env.eq(value, stored(env, data, at, size, signed, endian))
    if kind == 'float32':
        return env.is_single(value, [env.at(data, at + (j if endian == '>' else 3 - j)) for j in range(4)])
    b = bytes(value)
    return env.And(*[env.eq(env.at(b, j), env.at(data, at + j)) for j in range(4)])


def _reading(kind, size, signed):
    def body(env):
        from segpy.toolkit import read_binary_values
        endian = env.choice('endian', ['>', '<'])
        length = env.size('length', 0)
        data = env.bytes('data', length)
        n = env.int('n', 0, None if env.proving else 12)
        pos = env.int('pos', 0, None if env.proving else 40)
        explicit = env.choice('explicit', [True, False])
        fh = env.file(data)
        if explicit:
            fh.seek(env.int('elsewhere', 0, None if env.proving else 40))
            r = env.call(read_binary_values, fh, pos, SegYType(kind), n, endian)
        else:
            fh.seek(pos)
            r = env.call(read_binary_values, fh, seg_y_type=SegYType(kind), num_items=n, endian=endian)
        fits = env.Or(pos + n * size <= length, env.eq(n, 0))
        env.check(env.Iff(r.ok, fits), 'read_binary_values: succeeds exactly if the bytes are there')
        if not r.ok:
            env.check(r.raised(EOFError), 'read_binary_values: EOFError')
            env.cover('too short')
            return
        env.check(env.eq(env.length(r.value), n), 'read_binary_values: number of values')
        k = env.int('k', 0, None if env.proving else 12)
        env.assume(k < n)
        env.cover('a value')
        env.check(holds(env, env.at(r.value, k), kind, size, signed, data, pos + k * size, endian), 'read_binary_values: value k')
    return body


def _rewriting(kind, size, signed):
    def body(env):
        from segpy.toolkit import read_binary_values, write_trace_samples
        endian = env.choice('endian', ['>', '<'])
        n = env.size('n', 0)
        data = env.bytes('data', n * size)
        if kind == 'float32' and not env.proving:
            # the payload of a NaN is not a number
            data = bytes(0 if i % 4 == (0 if endian == '>' else 3) and b in (127, 255) else b for i, b in enumerate(data))
        values = read_binary_values(env.file(data), 0, SegYType(kind), n, endian)
        out = env.file()
        write_trace_samples(out, values, SegYType(kind), endian)
        env.cover('written')
        env.check(env.same_seq(out.content(), data), 'write_trace_samples(read_binary_values(data)): the same bytes')
    return body


def _writing(kind, size, signed):
    def body(env):
        from segpy.toolkit import write_trace_samples, read_binary_values
        endian = env.choice('endian', ['>', '<'])
        n = env.size('n', 0)
        lo, hi = (-256 ** size // 2, 256 ** size // 2 - 1) if signed else (0, 256 ** size - 1)
        wide = env.choice('wide', [False, True])
        values = env.seq('values', n) if env.proving else env.seq('values', n, lo - (3 if wide else 0), hi + (3 if wide else 0))
        out = env.file()
        r = env.call(write_trace_samples, out, values, SegYType(kind), endian)
        env.check(env.Iff(r.ok, env.forall(n, lambda i: env.And(lo <= env.at(values, i), env.at(values, i) <= hi))),
                  'write_trace_samples: integers are written exactly if they fit')
        if not r.ok:
            env.check(env.eq(env.length(out.content()), 0), 'write_trace_samples: nothing is written when a value does not fit')
            env.cover('rejected')
            return
        env.cover('written')
        b = out.content()
        env.check(env.eq(env.length(b), n * size), 'write_trace_samples: number of bytes')
        back = read_binary_values(env.file(b), 0, SegYType(kind), n, endian)
        k = env.int('k', 0, None if env.proving else 12)
        env.assume(k < n)
        env.check(env.eq(stored(env, b, k * size, size, signed, endian), env.at(values, k)), 'write_trace_samples: bytes of value k')
        env.check(env.eq(env.at(back, k), env.at(values, k)), 'read_binary_values(write_trace_samples(values)): value k')
    return body


for _kind, _size, _signed in TYPES:
    for _make, _what, _name in [(_reading, 'reading any number of {} values anywhere in any file', 'read_'),
                                (_rewriting, 'rewriting any number of {} values', 'rewrite_')] + \
            ([(_writing, 'writing any number of {} values', 'write_')] if _signed is not None else []):
        _f = _make(_kind, _size, _signed)
        _f.__name__ = _name + _kind
        unit('P10', about=_what.format(_kind), also=['P03'] if _kind == 'ibm' else [])(_f)


@unit('P10', about='the size of a sample used for the layout is the size of its encoded form')
def sample_sizes(env):
    from segpy.toolkit import bytes_per_sample, write_trace_samples, read_binary_values
    from segpy.datatypes import data_sample_format_size_in_bytes, DATA_SAMPLE_FORMAT_TO_SEG_Y_TYPE, SEG_Y_TYPE_TO_DATA_SAMPLE_FORMAT, \
        size_in_bytes, SEG_Y_TYPE_TO_CTYPE
    from segpy.binary_reel_header import BinaryReelHeader
    name, code, kind, size = env.choice('format', SAMPLE_FORMATS)
    f = DataSampleFormat[name]
    env.check(f == code, 'data sample format: code')
    h = BinaryReelHeader(data_sample_format=f)
    env.check(bytes_per_sample(h) == size, 'bytes_per_sample: the size of an encoded sample')
    env.check(data_sample_format_size_in_bytes(f) == size, 'data_sample_format_size_in_bytes')
    t = DATA_SAMPLE_FORMAT_TO_SEG_Y_TYPE[f]
    env.check(t == SegYType(kind) and SEG_Y_TYPE_TO_DATA_SAMPLE_FORMAT[t] == f, 'data sample format: type of the samples')
    env.check(size_in_bytes(SEG_Y_TYPE_TO_CTYPE[t]) == size, 'size_in_bytes')
    n = env.int('n', 1, 3)
    n = env.fix(n)
    for endian in '<>':
        out = env.file()
        write_trace_samples(out, [1] * n, t, endian)
        env.check(len(out.content()) == n * size, 'write_trace_samples: size of the encoded samples')
        fh = env.file(bytes(12))
        read_binary_values(fh, 0, t, n, endian)
        env.check(fh.tell() == n * size, 'read_binary_values: size of the encoded samples')
    env.cover('a format')


@unit('P10', about='IBM floats written from numbers are big-endian in either byte order')
def write_ibm_numbers(env):
    from segpy.toolkit import write_trace_samples
    from segpy.ibm_float import ieee2ibm
    endian = env.choice('endian', ['>', '<'])
    xs = [env.choice('x{}'.format(i), [0.0, 1.0, -1.0, 118.625, -1e-70, 5.5e60, 3.0000001, 0.1, -7]) for i in range(3 if not env.proving else 1)]
    out = env.file()
    write_trace_samples(out, xs, SegYType.IBM, endian)
    env.check(env.eq(out.content(), b''.join(ieee2ibm(x) for x in xs)), 'write_trace_samples: IBM words are big-endian in either byte order')
    env.cover('written')
