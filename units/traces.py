"""P11: cataloguing of the traces of a file."""
from pv.registry import unit
from units.headers import field_value


class Recorded:
    """What CatalogBuilder.create makes of the items added to the builder (its contract is discharged for P08 and P09)"""

    def __init__(self, pairs):
        self.pairs = pairs


class RecordingBuilder:
    """The contract of CatalogBuilder: the catalog is the mapping of the items which have been added"""

    def __init__(self, mapping=None):
        self.pairs = [] if mapping is None else list(mapping)

    def add(self, index, value):
        self.pairs.append((index, value))

    def create(self):
        return Recorded(self.pairs)


def number(env, data, at, size, endian, signed=True):
    return field_value(env, [env.at(data, at + j) for j in range(size)], size, endian, -1 if signed else 0)


def trace_file(env, size, endian, rev=1):
    """(content, start of the first trace, length)"""
    if env.proving:
        total = env.size('total', 1)
        data = env.bytes('data', total)
        return data, env.int('start', 0), total
    start = env.choice('start', [0, 0, 3, 3600])
    data = bytearray(start)
    n = env.int('traces', 0, 7)
    same = env.choice('same', [True, False])
    crossed = env.choice('crossed', [1, 2, 3])
    for i in range(n):
        ns = env.int('ns{}'.format(0 if same else i), 0, 5)
        h = bytearray(240)
        order = 'big' if endian == '>' else 'little'
        h[114:116] = ns.to_bytes(2, order)
        h[20:24] = env.int('cdp{}'.format(i), -2, 9 if same else 3).to_bytes(4, order, signed=True) if not same else (i * crossed - 2).to_bytes(4, order, signed=True)
        h[188:192] = (env.int('il{}'.format(i), 0, 4) if not same else 10 + i // crossed).to_bytes(4, order)
        h[192:196] = (env.int('xl{}'.format(i), 0, 4) if not same else 20 + i % crossed).to_bytes(4, order)
        h[4:8] = env.int('fs{}'.format(i), 0, 300).to_bytes(4, order)
        data += h
        data += bytes(env.bytes('body{}'.format(i), ns * size))
    data += bytes(env.int('junk', 0 if data else 1, 239))
    cut = env.choice('cut', [0, 0, 0, 1, 3, 240, 250])
    data = bytes(data[:max(1, len(data) - cut)])
    return data, start, len(data)


def _catalog(size, endian):
    def body(env):
        from segpy import toolkit
        from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1
        fmt = TraceHeaderRev1
        data, start, total = trace_file(env, size, endian)
        fh = env.file(data)
        fh.seek(start)
        if env.proving:
            env.stub(toolkit, 'CatalogBuilder', RecordingBuilder)
        r = env.call(toolkit.catalog_traces, fh, size, fmt, endian)
        if not r.ok:
            # an invalid header, for example a negative number of samples
            env.check(env.proving and r.raised(ValueError), 'catalog_traces: catalogs valid files')
            env.cover('invalid')
            return
        offsets, lengths, cdps, lines = r.value
        if env.proving:
            n = env.length(offsets.pairs)
            off = lambda k: env.at(offsets.pairs, k)[1]
            env.check(env.And(env.eq(env.length(lengths.pairs), n), env.eq(env.length(cdps.pairs), n), env.eq(env.length(lines.pairs), n)),
                      'catalog_traces: every catalog has an item for each trace')
            env.check(env.forall(n, lambda k: env.And(env.eq(env.at(offsets.pairs, k)[0], k), env.eq(env.at(lengths.pairs, k)[0], k))),
                      'catalog_traces: traces are numbered from zero')
            k = env.int('k', 0)
            if k < n:
                env.cover('a trace')
                o = off(k)
                ns = number(env, data, o + 114, 2, endian)
                env.check(env.eq(env.at(lengths.pairs, k)[1], ns), 'catalog_traces: length of trace k')
                key, value = env.at(cdps.pairs, k)
                env.check(env.And(env.eq(value, k), env.eq(key, number(env, data, o + 20, 4, endian))), 'catalog_traces: CDP of trace k')
                key, value = env.at(lines.pairs, k)
                env.check(env.And(env.eq(value, k), env.eq(key[0], number(env, data, o + 188, 4, endian)),
                                  env.eq(key[1], number(env, data, o + 192, 4, endian))), 'catalog_traces: inline and crossline of trace k')
                env.check(o + 240 <= total, 'catalog_traces: the header of trace k is in the file')
                env.check(env.If(env.eq(k, 0), env.eq(o, start), True), 'catalog_traces: the first trace is at the start')
                after = o + 240 + size * ns
                if k + 1 < n:
                    env.check(env.eq(off(k + 1), after), 'catalog_traces: the next trace starts where trace k ends')
                else:
                    env.check(after + 240 > total, 'catalog_traces: no trace follows the last one')
            elif env.eq(n, 0):
                env.cover('no traces')
                env.check(start + 240 > total, 'catalog_traces: no trace is missed')
            return
        at, expected = start, []
        while at + 240 <= total:
            ns = number(env, data, at + 114, 2, endian)
            expected.append((at, ns, number(env, data, at + 20, 4, endian),
                             (number(env, data, at + 188, 4, endian), number(env, data, at + 192, 4, endian))))
            at += 240 + ns * size
        env.check(dict(offsets) == {i: e[0] for i, e in enumerate(expected)}, 'catalog_traces: offset of each trace')
        env.check(dict(lengths) == {i: e[1] for i, e in enumerate(expected)}, 'catalog_traces: length of each trace')
        for cat, f, what in ((cdps, 2, 'CDP'), (lines, 3, 'inline and crossline')):
            keys = [e[f] for e in expected]
            if len(set(keys)) != len(keys):
                env.check(cat is None, 'catalog_traces: no {} catalog if they are not unique'.format(what))
            else:
                env.check({tuple(k) if isinstance(k, tuple) else k: cat[k] for k in cat} == {k: i for i, k in enumerate(keys)},
                          'catalog_traces: {} of each trace'.format(what))
    return body


for _size in (1, 2, 4):
    for _endian, _n in (('>', 'big'), ('<', 'little')):
        _f = _catalog(_size, _endian)
        _f.__name__ = 'catalog_{}_{}'.format(_size, _n)
        unit('P11', about='catalogs of any file, {} bytes per sample, {}-endian'.format(_size, _n))(_f)
