"""P12: random access to traces."""
from pv.registry import unit
from segpy.datatypes import SegYType
from units.samples import holds, SAMPLE_FORMATS
from units.headers import field_value, make_format
from units.layouts import TRACE_REV1

KIND = {name: (kind, size, {'int32': True, 'int16': True, 'int8': True}.get(kind)) for name, _, kind, size in SAMPLE_FORMATS}


class Table:
    """A mapping from 0 .. n - 1 to the items of a sequence"""

    def __init__(self, env, n, items):
        self.env = env
        self.n = n
        self.items_ = items

    def __len__(self):
        return self.n

    def __getitem__(self, k):
        if not (0 <= k < self.n):
            raise KeyError(k)
        return self.env.at(self.items_, k)

    def __contains__(self, k):
        return 0 <= k < self.n

    def __iter__(self):
        return iter(range(self.n))

    def values(self):
        return self.items_


def words_format():
    """A trace header format which consists of sixty four-byte integers"""
    return make_format(1, 240, [('f{}'.format(i), 1 + 4 * i, ('Int32', 4, True), i) for i in range(60)])


def survey(env, header_format=None, max_traces=5):
    """A file with the offsets and lengths of the traces in it"""
    from segpy.reader import SegYReader
    from segpy.binary_reel_header import BinaryReelHeader
    from segpy.datatypes import DataSampleFormat
    from segpy.trace_header import TraceHeaderRev1
    endian = env.choice('endian', ['>', '<'])
    fmt = env.choice('format', ['IBM', 'INT32', 'INT16', 'FLOAT32', 'INT8'])
    kind, size, signed = KIND[fmt]
    n = env.size('traces', 0) if env.proving else env.size('traces', 0, max_traces)
    lengths = env.seq('lengths', n, 0, 32767 if env.proving else 6)
    if env.proving:
        offsets = env.seq('offsets', n, 0, 2 ** 62)
        total = env.size('total', 0)
    else:
        at, offsets = env.int('first', 0, 50), []
        for m in lengths:
            offsets.append(at)
            at += 240 + size * m + env.choice('hole', [0, 0, 0, 3])
        total = max(0, at - env.choice('missing', [0, 0, 0, 1, 2, 7, 240, 300]))
    data = env.bytes('data', total)
    header = BinaryReelHeader(data_sample_format=DataSampleFormat[fmt])
    reader = SegYReader(env.file(data), ['x' * 80] * 40, header, [], Table(env, n, offsets), Table(env, n, lengths),
                        header_format or TraceHeaderRev1, 'ascii', endian)
    return reader, endian, (kind, size, signed), n, lengths, offsets, data, total


def disturb(env, reader):
    """Any earlier use of the reader"""
    what = env.choice('earlier', ['nothing', 'samples', 'header'])
    t = env.int('earlier_trace', -1, 6)
    if what == 'samples':
        env.call(reader.trace_samples, t)
    elif what == 'header':
        env.call(reader.trace_header, t)


def _samples(fmt):
    def body(env):
        reader, endian, (kind, size, signed), n, lengths, offsets, data, total = survey(env)
        env.assume(kind == KIND[fmt][0])
        if not env.proving:
            disturb(env, reader)
        else:
            reader._fh.seek(env.int('anywhere', 0))
        t = env.int('t', None if env.proving else -2, None if env.proving else 6)
        start = env.int('start', None if env.proving else -1, None if env.proving else 7) if env.choice('from', [False, True]) else None
        stop = env.int('stop', None if env.proving else -1, None if env.proving else 8) if env.choice('to', [False, True]) else None
        r = env.call(reader.trace_samples, t, start, stop)
        exists = env.And(0 <= t, t < n)
        if not exists:
            env.check(r.raised(ValueError), 'trace_samples: ValueError for a trace which does not exist')
            env.cover('no such trace')
            return
        a = 0 if start is None else start
        b = env.at(lengths, t) if stop is None else stop
        if not env.And(0 <= a, a <= b, b <= env.at(lengths, t)):
            env.check(r.raised(ValueError), 'trace_samples: ValueError for samples outside the trace')
            env.cover('no such samples')
            return
        first = env.at(offsets, t) + 240 + a * size
        if env.And(a < b, env.at(offsets, t) + 240 + b * size > total):
            env.check(r.raised(EOFError), 'trace_samples: EOFError if the file ends inside the samples')
            env.cover('end of file')
            return
        env.check(r.ok, 'trace_samples: succeeds')
        if not r.ok:
            return
        env.check(env.eq(env.length(r.value), b - a), 'trace_samples: number of samples')
        k = env.int('k', 0, None if env.proving else 7)
        env.assume(k < b - a)
        env.cover('a sample')
        env.check(holds(env, env.at(r.value, k), kind, size, signed, data, first + k * size, endian), 'trace_samples: sample k of the trace')
    return body


for _fmt in KIND:
    _f = _samples(_fmt)
    _f.__name__ = 'samples_' + _fmt.lower()
    unit('P12', about='any samples of any trace, {}'.format(_fmt))(_f)


@unit('P12', about='the header of any trace is decoded from its own 240 bytes')
def own_header(env):
    fmt = words_format()
    reader, endian, (kind, size, signed), n, lengths, offsets, data, total = survey(env, fmt)
    if not env.proving:
        disturb(env, reader)
    else:
        env.assume(kind == 'int32')
        reader._fh.seek(env.int('anywhere', 0))
    t = env.int('t', None if env.proving else -2, None if env.proving else 6)
    r = env.call(reader.trace_header, t)
    if not env.And(0 <= t, t < n):
        env.check(r.raised(ValueError), 'trace_header: ValueError for a trace which does not exist')
        env.cover('no such trace')
        return
    o = env.at(offsets, t)
    if o + 240 > total:
        env.check(r.raised(EOFError), 'trace_header: EOFError if the file ends inside the header')
        env.cover('end of file')
        return
    env.check(r.ok and type(r.value) is fmt, 'trace_header: a header of the requested format')
    env.cover('a header')
    for i in range(60):
        env.check(env.eq(getattr(r.value, 'f{}'.format(i)), field_value(env, [env.at(data, o + 4 * i + j) for j in range(4)], 4, endian, -1)),
                  'trace_header: bytes of the header')


@unit('P12', about='the header of any trace, standard format; partial headers through an overriding packer')
def standard_header(env):
    from segpy.packer import make_header_packer
    reader, endian, (kind, size, signed), n, lengths, offsets, data, total = survey(env)
    t = env.int('t', 0, 6)
    env.assume(env.And(t < n))
    o = env.at(offsets, t)
    env.assume(o + 240 <= total)
    if env.proving:
        env.assume(kind == 'int32')
        words = words_format()
        h = reader.trace_header(t, make_header_packer(words, endian))
        env.check(type(h) is words, 'trace_header: format of the overriding packer')
        i = env.fix(env.int('i', 0, 59))
        env.check(env.eq(getattr(h, 'f{}'.format(i)), field_value(env, [env.at(data, o + 4 * i + j) for j in range(4)], 4, endian, -1)),
                  'trace_header: bytes of the header')
        env.cover('overriding packer')
        return
    fields = [(nm, off, sz, dom, field_value(env, [env.at(data, o + off - 1 + j) for j in range(sz)], sz, endian, -1))
              for nm, off, sz, _, dom in TRACE_REV1]
    r = env.call(reader.trace_header, t)
    valid = all((dom[0] <= v <= dom[1]) if isinstance(dom, tuple) else v in dom for _, _, _, dom, v in fields)
    env.check(r.ok == valid, 'trace_header: decoded exactly if its values are valid')
    if r.ok:
        for nm, _, _, _, v in fields:
            env.check(getattr(r.value, nm) == v, 'trace_header: field value')
    env.cover('overriding packer')


@unit('P12', about='numbers of traces and of samples')
def counts(env):
    reader, endian, _, n, lengths, offsets, data, total = survey(env)
    env.check(env.eq(reader.num_traces(), n), 'num_traces')
    env.check(env.same_seq(list(reader.trace_indexes()), range(n)), 'trace_indexes: 0 .. num_traces - 1')
    m = reader.max_num_trace_samples()
    env.check(env.forall(n, lambda i: env.at(lengths, i) <= m), 'max_num_trace_samples: not exceeded')
    env.check(env.If(n > 0, env.exists(n, lambda i: env.eq(env.at(lengths, i), m)), env.eq(m, 0)), 'max_num_trace_samples: attained')
    env.check(env.eq(reader.max_num_trace_samples(), m), 'max_num_trace_samples: the same when asked again')
    t = env.int('t', 0, 6)
    env.assume(t < n)
    env.check(env.eq(reader.num_trace_samples(t), env.at(lengths, t)), 'num_trace_samples')
    env.cover('counts')
