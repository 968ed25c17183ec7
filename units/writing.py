"""P15: written data sets."""
from pv.registry import unit
from units.headers import formats, value_in
from units.reader import KIND, Table, words_format
from units.textual import ENCODINGS


def binary_header(env, fmt, any_values=True):
    """A binary reel header with any values, and what its bytes have to be"""
    from segpy.binary_reel_header import BinaryReelHeader
    from segpy.datatypes import DataSampleFormat
    rows = [f for f in formats() if f[0] is BinaryReelHeader][0][1]
    values = {}
    for nm, off, size, default, dom in rows:
        values[nm] = DataSampleFormat[fmt] if nm == 'data_sample_format' else value_in(env, nm, dom) if any_values else default
    return BinaryReelHeader(**values), rows, values


def binary_bytes(env, rows, values, endian):
    out = [0] * 400
    for nm, off, size, default, dom in rows:
        v = int(values[nm]) if nm == 'data_sample_format' else values[nm]
        for j in range(size):
            out[off - 3201 + (size - 1 - j if endian == '>' else j)] = v // 256 ** j % 256
    return bytes(out)


def source(env, fmt, encodings=ENCODINGS, any_values=True, max_traces=4, endians='><'):
    """A data set of any number of traces of any lengths: a reader of a file which has these traces somewhere"""
    from segpy.reader import SegYReader
    endian = env.choice('endian', list(endians))
    encoding = env.choice('encoding', encodings)
    kind, size, signed = KIND[fmt]
    limit = 128 if encoding == 'ascii' else 256
    lines = env.strs('lines', 40, 80, 80, 0, limit - 1)
    header, rows, values = binary_header(env, fmt, any_values)
    m = env.size('pages', 0) if env.proving else env.choice('pages', [0, 0, 1, 2])
    pages = env.pages('page', m, 0, limit - 1, proper=True)
    n = env.size('traces', 0) if env.proving else env.size('traces', 0, max_traces)
    lengths = env.seq('lengths', n, 0, 32767 if env.proving else 6)
    if env.proving:
        offsets = env.seq('offsets', n, 0, 2 ** 62)
        total = env.size('total', 0)
        env.assume(env.forall(n, lambda k: env.at(offsets, k) + 240 + size * env.at(lengths, k) <= total))
    else:
        at, offsets = env.int('first', 0, 50), []
        for c in lengths:
            offsets.append(at)
            at += 240 + size * c + env.choice('hole', [0, 0, 0, 3])
        total = at
    data = env.bytes('data', total)
    if fmt == 'FLOAT32' and not env.proving:
        # the payload of a NaN is not a number
        data = bytes(b & 126 for b in data)
    reader = SegYReader(env.file(data), lines, header, pages, Table(env, n, offsets), Table(env, n, lengths), words_format(), encoding, endian)
    return reader, endian, encoding, n, offsets, lengths, size, data, lines, m, pages, rows, values


def text_bytes(env, lines, encoding):
    return env.flat(40, 80, lambda l, j: env.encoded(env.ord(env.at(lines, l), j), encoding))


def pages_bytes(env, m, pages, encoding):
    return env.blocks(m, lambda p: env.flat(40, 80, lambda l, j: env.encoded(env.ord(env.at(env.at(pages, p), l), j), encoding)))


def old_file(env):
    old = env.bytes('old', env.size('length of the old file', 0, None if env.proving else 6000))
    return old, env.file(old, mode='r+b')


class HeaderOf:
    """The trace header of a trace, as the data set gives it"""

    def __init__(self, index):
        self.index = index


def _traces(fmt):
    def body(env):
        from segpy import writer
        reader, endian, encoding, n, offsets, lengths, size, data, lines, m, pages, rows, values = source(
            env, fmt, ENCODINGS if not env.proving else [ENCODINGS[KIND[fmt][1] // 4]], not env.proving)
        old, out = old_file(env) if not env.proving else (b'', env.file(mode='w+b'))
        if env.proving:
            # the contracts of the functions which write the headers: P13, P06, P14
            reels = [env.bytes('the textual reel header', 3200), env.bytes('the binary reel header', 400), env.bytes('the extended headers', 3200 * m)]

            def textual(fh, given, enc):
                env.check(given is lines and enc == encoding and fh is out, 'write_segy: the textual reel header of the data set in its encoding')
                fh.write(reels[0])

            def binary(fh, given, e='>'):
                env.check(given is reader.binary_reel_header and e == endian and fh is out, 'write_segy: the binary reel header of the data set in the byte order')
                fh.write(reels[1])

            def extended(fh, given, enc):
                env.check(given is pages and enc == encoding and fh is out, 'write_segy: the extended headers of the data set in its encoding')
                fh.seek(3600)
                fh.write(reels[2])
            env.stub(writer, 'write_textual_reel_header', textual)
            env.stub(writer, 'write_binary_reel_header', binary)
            env.stub(writer, 'write_extended_textual_headers', extended)
            packers = []

            def packer(header_format, e='>'):
                env.check(header_format is reader.trace_header_format_class and e == endian, 'write_segy: trace headers in their format and the byte order')
                packers.append(object())
                return packers[-1]

            def header(fh, given, by):
                env.check(fh is out and by is packers[-1], 'write_segy: trace headers go to the file')
                at = env.at(offsets, given.index)
                fh.write(data[at:at + 240])
            env.stub(type(reader), 'trace_header', lambda self, trace_index: HeaderOf(trace_index))
            env.stub(writer, 'make_header_packer', packer)
            env.stub(writer, 'write_trace_header', header)
        else:
            reels = [text_bytes(env, lines, encoding), binary_bytes(env, rows, values, endian), pages_bytes(env, m, pages, encoding)]
        r = env.call(writer.write_segy, out, reader, trace_header_format=reader.trace_header_format_class, endian=endian)
        env.check(r.ok, 'write_segy: succeeds')
        env.cover('written')
        env.check_content(out, reels + [
            env.blocks(n, lambda k: data[env.at(offsets, k):env.at(offsets, k) + 240 + size * env.at(lengths, k)],
                       given=lambda k: env.at(offsets, k) + 240 + size * env.at(lengths, k) <= len(data)),
            old[out.tell():]], 'write_segy: the headers and then each trace, without gaps')
    return body


for _fmt in KIND:
    _f = _traces(_fmt)
    _f.__name__ = 'traces_' + _fmt.lower()
    unit('P15', about='layout of any data set, {}'.format(_fmt))(_f)


def _reel_headers(endian_, encoding_):
    def body(env):
        from segpy.writer import write_segy
        fmt = env.choice('format', list(KIND) if not env.proving else ['INT16'])
        reader, endian, encoding, n, offsets, lengths, size, data, lines, m, pages, rows, values = source(
            env, fmt, [encoding_], endians=[endian_])
        env.assume(env.eq(n, 0))
        old, out = old_file(env) if not env.proving else (b'', env.file(mode='w+b'))
        extended = pages_bytes(env, m, pages, encoding)
        if env.proving:
            # the contract of write_extended_textual_headers: P14
            from segpy import writer
            extended = env.bytes('the extended headers', 3200 * m)

            def contract(fh, given, enc):
                env.check(given is pages and enc == encoding and fh is out, 'write_segy: the extended headers of the data set in its encoding')
                fh.seek(3600)
                fh.write(extended)
            env.stub(writer, 'write_extended_textual_headers', contract)
        r = env.call(write_segy, out, reader, trace_header_format=reader.trace_header_format_class, endian=endian)
        env.check(r.ok, 'write_segy: succeeds')
        env.cover('written')
        env.check_content(out, [text_bytes(env, lines, encoding), binary_bytes(env, rows, values, endian), extended, old[out.tell():]],
                          'write_segy: the reel headers at the start of the file')
    return body


for _endian, _name in (('>', 'big'), ('<', 'little')):
    for _encoding in ENCODINGS:
        _f = _reel_headers(_endian, _encoding)
        _f.__name__ = 'reel_headers_{}_{}'.format(_name, _encoding)
        unit('P15', about='the three kinds of reel headers of any data set, {}-endian, {}'.format(_name, _encoding))(_f)


def _header(endian_):
    def body(env):
        from segpy.packer import make_header_packer
        from segpy.toolkit import write_trace_header
        reader, endian, encoding, n, offsets, lengths, size, data, lines, m, pages, rows, values = source(
            env, 'INT16', ENCODINGS[:1], False, endians=[endian_])
        k = env.int('k', 0, None if env.proving else 3)
        env.assume(k < n)
        head = env.bytes('bytes which precede', env.size('their number', 0, None if env.proving else 9))
        out = env.file(mode='w+b')
        out.write(head)
        r = env.call(write_trace_header, out, reader.trace_header(k), make_header_packer(reader.trace_header_format_class, endian))
        env.check(r.ok, 'write_trace_header: succeeds')
        env.cover('written')
        at = env.at(offsets, k)
        env.check_content(out, [head, data[at:at + 240]],
                          'write_trace_header: the 240 bytes of the header the data set gives, where the file stands')
    return body


for _endian, _name in (('>', 'big'), ('<', 'little')):
    _f = _header(_endian)
    _f.__name__ = 'trace_headers_' + _name
    unit('P15', about='the header of any trace of a data set, {}-endian'.format(_name))(_f)
