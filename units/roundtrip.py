"""P15: written data sets read back (bounded: the proved parts are the layout in units/writing.py and the reading in P06, P10, P11, P12)."""
import io
from pv.registry import unit
from units.headers import formats, value_in
from units.reader import KIND
from units.textual import ENCODINGS
from units.layouts import TRACE_REV1


def field_bytes(out, at, size, v, endian):
    out[at:at + size] = int(v).to_bytes(size, 'big' if endian == '>' else 'little', signed=int(v) < 0)


def small(env, name, lo, hi):
    return env.int(name, lo, hi)


class Made:
    """A data set in memory"""


def made(env, max_traces=6, revision=True):
    """A data set of a few traces"""
    from segpy.binary_reel_header import BinaryReelHeader
    from segpy.trace_header import TraceHeaderRev1
    from segpy.datatypes import DataSampleFormat
    from segpy.dataset import Dataset
    from segpy.ibm_float import IBMFloat
    d = Made()
    d.endian = env.choice('endian', ['>', '<'])
    d.encoding = env.choice('encoding', ENCODINGS)
    d.fmt = env.choice('format', list(KIND))
    kind, size, signed = KIND[d.fmt]
    d.size = size
    d.lines = list(env.strs('lines', 40, 80, 80, 32, 126))
    m = env.choice('pages', [0, 0, 0, 1, 2])
    d.pages = [list(env.strs('page{}'.format(i), 40, 80, 80, 32, 126)) for i in range(m)]
    d.binary = BinaryReelHeader(data_sample_format=DataSampleFormat[d.fmt], num_extended_textual_headers=m,
                                job_id_num=env.int('job', 0, 2 ** 31 - 1), line_num=env.int('line', 0, 2 ** 31 - 1))
    shape = env.choice('shape', ['grid', 'line', 'any', 'equal'])
    n = env.int('traces', 0, max_traces)
    same = env.int('samples', 0, 5)
    wide = env.choice('wide', [1, 2, 3])
    d.headers, d.samples = [], []
    for i in range(n):
        ns = same if shape in ('grid', 'equal') else env.int('samples{}'.format(i), 0, 5)
        il, xl, cdp = {'grid': (10 + i // wide, 20 + i % wide, i), 'line': (0, 0, 5 * i - 3), 'equal': (1, 1, 1),
                       'any': (env.int('il{}'.format(i), 0, 3), env.int('xl{}'.format(i), 0, 3), env.int('cdp{}'.format(i), -2, 5))}[shape]
        d.headers.append(TraceHeaderRev1(line_sequence_num=env.int('sequence{}'.format(i), 1, 2 ** 31 - 1), file_sequence_num=i + 1, ensemble_num=cdp,
                                         num_samples=ns, inline_number=il, crossline_number=xl,
                                         source_x=env.int('x{}'.format(i), -2 ** 31, 2 ** 31 - 1)))
        if kind == 'ibm':
            # words in the form in which they are written
            row = [IBMFloat.from_real(env.int('v{}_{}'.format(i, j), -2 ** 24 + 1, 2 ** 24 - 1)) for j in range(ns)]
        elif kind == 'float32':
            row = [env.int('v{}_{}'.format(i, j), -2 ** 23, 2 ** 23) / 64 for j in range(ns)]
        else:
            row = [env.int('v{}_{}'.format(i, j), -2 ** (8 * size - 1), 2 ** (8 * size - 1) - 1) for j in range(ns)]
        d.samples.append(row)
    d.n = n

    class Given(Dataset):
        textual_reel_header = d.lines
        binary_reel_header = d.binary
        extended_textual_header = d.pages
        dimensionality = 1
        encoding = d.encoding
        endian = d.endian

        def num_traces(self):
            return n

        def trace_header(self, trace_index):
            return d.headers[trace_index]

        def trace_samples(self, trace_index, start=None, stop=None):
            return d.samples[trace_index][start:stop]
    d.dataset = Given()
    return d


def expected_bytes(d):
    """The file which the data set has to give, from the rules of the format"""
    import struct
    out = bytearray(''.join(d.lines).encode(d.encoding))
    binary = bytearray(400)
    for nm, off, size, default, dom in [f for f in formats() if f[3] == 400][0][1]:
        field_bytes(binary, off - 3201, size, getattr(d.binary, nm), d.endian)
    out += binary
    for p in d.pages:
        out += ''.join(p).encode(d.encoding)
    kind = KIND[d.fmt][0]
    for h, row in zip(d.headers, d.samples):
        b = bytearray(240)
        for nm, off, size, default, dom in TRACE_REV1:
            field_bytes(b, off - 1, size, getattr(h, nm), d.endian)
        out += b
        for v in row:
            if kind == 'ibm':
                out += bytes(v)
            elif kind == 'float32':
                out += struct.pack(d.endian + 'f', v)
            else:
                w = bytearray(d.size)
                field_bytes(w, 0, d.size, v, d.endian)
                out += w
    return bytes(out)


def agrees(env, r, d, what):
    """A reader shows the data set"""
    env.check(list(r.textual_reel_header) == d.lines, what + ': textual header')
    env.check([list(p) for p in r.extended_textual_header] == d.pages, what + ': extended headers')
    for nm, off, size, default, dom in [f for f in formats() if f[3] == 400][0][1]:
        env.check(getattr(r.binary_reel_header, nm) == getattr(d.binary, nm), what + ': binary header')
    env.check(r.num_traces() == d.n and list(r.trace_indexes()) == list(range(d.n)), what + ': number of traces')
    for i in range(d.n):
        h = r.trace_header(i)
        for nm, off, size, default, dom in TRACE_REV1:
            env.check(getattr(h, nm) == getattr(d.headers[i], nm), what + ': trace headers')
        env.check(r.num_trace_samples(i) == len(d.samples[i]), what + ': number of samples')
        env.check(list(r.trace_samples(i)) == list(d.samples[i]), what + ': samples')


@unit('P15', about='a written data set reads back', bounded='at most six traces of at most five samples, two extended headers')
def round_trip(env):
    from segpy.reader import create_reader
    from segpy.writer import write_segy
    d = made(env)
    out = io.BytesIO()
    how = env.choice('encoding is', ['given', 'of the data set'])
    r = env.call(write_segy, out, d.dataset, endian=d.endian, **(dict(encoding=d.encoding) if how == 'given' else {}))
    env.check(r.ok, 'write_segy: succeeds')
    env.check(out.getvalue() == expected_bytes(d), 'write_segy: the bytes of the file')
    out.seek(0)
    r = env.call(create_reader, out, encoding=d.encoding, endian=d.endian, cache_directory=None)
    env.check(r.ok, 'create_reader: reads what was written')
    agrees(env, r.value, d, 'read back')
    again = io.BytesIO()
    r2 = env.call(write_segy, again, r.value, endian=d.endian)
    env.check(r2.ok and again.getvalue() == out.getvalue(), 'write_segy: writing the reader gives the same file')
