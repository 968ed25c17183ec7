"""P05, P06, P07, P22: header fields, packers and headers as objects."""
import copy
import itertools
import pickle
from pv.registry import unit
from units.layouts import TRACE_REV0, TRACE_REV1, REEL


def formats():
    from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1
    from segpy.binary_reel_header import BinaryReelHeader
    return [(TraceHeaderRev0, TRACE_REV0, 1, 240), (TraceHeaderRev1, TRACE_REV1, 1, 240), (BinaryReelHeader, REEL, 3201, 400)]


def in_domain(env, dom, v):
    if isinstance(dom, tuple):
        return env.And(dom[0] <= v, v <= dom[1])
    runs = []
    for x in dom:
        if runs and runs[-1][1] == x - 1:
            runs[-1][1] = x
        else:
            runs.append([x, x])
    return env.Or(*[env.And(a <= v, v <= b) for a, b in runs])


def value_in(env, name, dom):
    v = env.int(name, dom[0], dom[-1])
    if not isinstance(dom, tuple):
        env.assume(in_domain(env, dom, v))
    return v


def interesting(env, name, dom):
    """Any integer (in the concrete search mostly one near the domain)"""
    if env.proving:
        return env.int(name)
    k = env.choice(name + '_how', ['any', 'edge', 'inside', 'wide'])
    if k == 'any':
        return env.int(name)
    if k == 'wide':
        return env.int(name, -2 ** 33, 2 ** 33)
    if k == 'inside':
        return env.int(name, dom[0], dom[-1])
    return env.choice(name + '_edge', [x + d for x in dom for d in (-1, 0, 1)])


# --------------------------------------------------------------------- P05
def _types():
    from segpy import field_types as ft, trace_header as th, binary_reel_header as bh
    full = {'Int16': (-2 ** 15, 2 ** 15 - 1), 'NNInt16': (0, 2 ** 15 - 1), 'Int32': (-2 ** 31, 2 ** 31 - 1), 'NNInt32': (0, 2 ** 31 - 1)}
    out = [(getattr(ft, n), d) for n, d in full.items()]
    seen = {t for t, _ in out}
    for cls, rows, _, _ in formats():
        for name, _, _, _, dom in rows:
            t = getattr(cls, name).value_type
            if t not in seen:
                seen.add(t)
                out.append((t, dom))
    return out


@unit('P05', about='each field type of the library accepts exactly its range or enumeration, of all integers')
def field_types_exact(env):
    T, dom = env.choice('type', _types())
    v = interesting(env, 'v', dom)
    r = env.call(T, v)
    env.check(env.Iff(r.ok, in_domain(env, dom, v)), 'field type: accepts exactly the values of its domain')
    if r.ok:
        env.check(env.eq(r.value, v), 'field type: the value is kept')
        env.cover('accepted')
    else:
        env.check(r.raised(ValueError), 'field type: ValueError')
        env.cover('rejected')


def _assignment(index):
    def body(env):
        cls, rows, _, _ = formats()[index]
        name, _, _, default, dom = env.choice('field', rows)
        h, other = cls(), cls()
        env.check(env.eq(getattr(h, name), default), 'field: default value')
        p = value_in(env, 'previous', dom)
        setattr(h, name, p)
        env.check(env.eq(getattr(h, name), p), 'field: reads as assigned')
        v = interesting(env, 'v', dom)
        r = env.call(setattr, h, name, v)
        env.check(env.Iff(r.ok, in_domain(env, dom, v)), 'assignment: succeeds exactly for the values of the domain')
        if r.ok:
            env.check(env.eq(getattr(h, name), v), 'assignment: the field reads as assigned')
            env.cover('accepted')
        else:
            env.check(r.raised(ValueError), 'assignment: ValueError')
            env.check(env.eq(getattr(h, name), p), 'assignment: a rejected value leaves the field as it was')
            env.cover('rejected')
        env.check(env.And(*[env.eq(getattr(h, n), d) for n, _, _, d, _ in rows if n != name]), 'assignment: other fields are unaffected')
        env.check(env.eq(getattr(other, name), default), 'assignment: other headers are unaffected')
    return body


for _i, _n in enumerate(['trace_rev0', 'trace_rev1', 'reel']):
    _f = _assignment(_i)
    _f.__name__ = 'assignment_' + _n
    unit('P05', about='assigning any integer to each field of the {} header'.format(_n))(_f)


@unit('P05', about='user-defined integer field types with any bounds')
def custom_range(env):
    from segpy.field_types import IntFieldMeta
    from segpy.header import Header, field
    s = env.choice('seg_y_type', ['int16', 'nnint16', 'int32', 'nnint32'])
    lo = env.int('lo', -2 ** 31, 2 ** 31 - 1)
    hi = env.int('hi', -2 ** 31, 2 ** 31 - 1)
    env.assume(lo <= hi)
    full = {'int16': (-2 ** 15, 2 ** 15 - 1), 'nnint16': (0, 2 ** 15 - 1), 'int32': (-2 ** 31, 2 ** 31 - 1), 'nnint32': (0, 2 ** 31 - 1)}[s]
    kind = env.choice('kind', ['both', 'min', 'max', 'none'])
    if kind == 'both':
        class T(metaclass=IntFieldMeta, seg_y_type=s, min_value=lo, max_value=hi):
            pass
        dom = (lo, hi)
    elif kind == 'min':
        env.assume(lo <= full[1])

        class T(metaclass=IntFieldMeta, seg_y_type=s, min_value=lo):
            pass
        dom = (lo, full[1])
    elif kind == 'max':
        env.assume(hi >= full[0])

        class T(metaclass=IntFieldMeta, seg_y_type=s, max_value=hi):
            pass
        dom = (full[0], hi)
    else:
        class T(metaclass=IntFieldMeta, seg_y_type=s):
            pass
        dom = full
    d = env.int('default')
    env.assume(in_domain(env, dom, d))

    class H(Header):
        START_OFFSET_IN_BYTES = 1
        LENGTH_IN_BYTES = 8
        f = field(T, offset=1, default=d, documentation='f')
    h = H()
    env.check(env.eq(h.f, d), 'custom type: default')
    v = env.int('v')
    r = env.call(setattr, h, 'f', v)
    env.check(env.Iff(r.ok, in_domain(env, dom, v)), 'custom type: accepts exactly the declared range')
    env.check(r.ok or r.raised(ValueError), 'custom type: ValueError')
    env.check(env.eq(h.f, env.If(in_domain(env, dom, v), v, d)), 'custom type: value read')
    env.cover('ok' if r.ok else 'rejected')


@unit('P05', about='a default outside the domain of its type is rejected when the field is declared')
def default_in_domain(env):
    from segpy.header import field
    T, dom = env.choice('type', _types())
    v = interesting(env, 'v', dom)
    r = env.call(field, T, 1, v, 'f')
    env.check(env.Iff(r.ok, in_domain(env, dom, v)), 'field(): accepts exactly defaults of the domain')
    env.check(r.ok or r.raised(ValueError), 'field(): ValueError')
    env.cover('ok' if r.ok else 'rejected')


# --------------------------------------------------------------------- P06
def field_value(env, b, size, endian, lo):
    b = list(b) if endian == '>' else list(b)[::-1]
    u = 0
    for x in b:
        u = u * 256 + x
    if lo is None:
        return u
    return env.If(u >= 256 ** size // 2, u - 256 ** size, u) if lo < 0 else u


def _pack(index, endian):
    def body(env):
        from segpy.packer import make_header_packer
        cls, rows, start, length = formats()[index]
        vals = {n: value_in(env, n, dom) for n, _, _, _, dom in rows}
        h = cls(**vals)
        b = make_header_packer(cls, endian).pack(h)
        env.check(env.eq(env.length(b), length), 'pack: declared header length')
        covered = set()
        for n, off, size, _, _ in rows:
            at = range(off - start, off - start + size)
            v = field_value(env, [env.at(b, k) for k in at], size, endian, -1)
            env.check(env.And(env.eq(v, vals[n]), *[env.And(0 <= env.at(b, k), env.at(b, k) <= 255) for k in at]),
                      "pack: the bytes of each field are the two's complement of its value")
            covered.update(at)
        for k in range(length):
            if k not in covered:
                env.check(env.eq(env.at(b, k), 0), 'pack: zero between the fields')
        env.cover('packed')
        g = make_header_packer(cls, endian).unpack(b)
        env.check(type(g) is cls, 'unpack(pack): class of the header')
        for n in vals:
            env.check(env.eq(getattr(g, n), vals[n]), 'unpack(pack): equal fields')
        env.cover('unpacked')
    return body


def _unpack(index, endian):
    def body(env):
        from segpy.packer import make_header_packer
        from segpy.header import are_equal
        cls, rows, start, length = formats()[index]
        b = env.bytes('b', length)
        vals = {}
        for n, off, size, _, dom in rows:
            v = field_value(env, [env.at(b, off - start + k) for k in range(size)], size, endian, dom[0])
            vals[n] = v
            env.assume(in_domain(env, dom, v))
        packer = make_header_packer(cls, endian)
        h = packer.unpack(b)
        env.cover('unpacked')
        env.check(type(h) is cls, 'unpack: class of the header')
        for n in vals:
            env.check(env.eq(getattr(h, n), vals[n]), 'unpack: each field from its own bytes')
        c = packer.pack(h)
        env.check(env.eq(env.length(c), length), 'pack(unpack): length')
        covered = {off - start + k for _, off, size, _, _ in rows for k in range(size)}
        for k in range(length):
            env.check(env.eq(env.at(c, k), env.at(b, k) if k in covered else 0), 'pack(unpack): same bytes')
        env.check(are_equal(h, packer.unpack(c)), 'unpack(pack(unpack)): equal headers')
    return body


def _unpack_invalid(index):
    def body(env):
        from segpy.packer import make_header_packer
        cls, rows, start, length = formats()[index]
        endian = env.choice('endian', ['>', '<'])
        name, off, size, _, dom = env.choice('field', rows)
        x = env.bytes('x', size)
        zero = make_header_packer(cls, endian).pack(cls())
        b = env.word(zero[:off - start], x, zero[off - start + size:])
        v = field_value(env, [env.at(x, k) for k in range(size)], size, endian, dom[0])
        r = env.call(make_header_packer(cls, endian).unpack, b)
        env.check(env.Iff(r.ok, in_domain(env, dom, v)), 'unpack: accepts exactly the values of the domain')
        env.check(r.ok or r.raised(ValueError), 'unpack: ValueError')
        if r.ok:
            env.check(env.eq(getattr(r.value, name), v), 'unpack: the value of the field')
        env.cover('ok' if r.ok else 'rejected')
    return body


for _i, _n in enumerate(['trace_rev0', 'trace_rev1', 'reel']):
    for _e, _en in (('>', 'big'), ('<', 'little')):
        _f = _pack(_i, _e)
        _f.__name__ = 'pack_{}_{}'.format(_n, _en)
        unit('P06', about='packing the {} header, {}-endian'.format(_n, _en), runs=300)(_f)
        _f = _unpack(_i, _e)
        _f.__name__ = 'unpack_{}_{}'.format(_n, _en)
        unit('P06', about='unpacking the {} header, {}-endian'.format(_n, _en), runs=300)(_f)
    _f = _unpack_invalid(_i)
    _f.__name__ = 'unpack_invalid_{}'.format(_n)
    unit('P06', about='unpacking any content of any field of the {} header'.format(_n))(_f)


@unit('P06', about='buffers of the wrong length are rejected')
def unpack_length(env):
    from segpy.packer import make_header_packer
    cls, rows, start, length = env.choice('format', formats())
    n = env.choice('n', [0, 1, length - 1, length + 1, 2 * length])
    r = env.call(make_header_packer(cls).unpack, bytes(n))
    env.check(r.raised(ValueError), 'unpack: ValueError for a buffer of the wrong length')
    env.cover('rejected')


KINDS = [('Int32', 4, True), ('Int16', 2, True), ('NNInt32', 4, False), ('NNInt16', 2, False)]


def custom_layout(env):
    """A consistent layout: slots at increasing offsets, each with one or more fields, declared in some order."""
    start = env.choice('start', [0, 1, 7])
    if env.proving:
        slots = env.choice('slots', [
            [(0, 0, 1)], [(2, 1, 1)], [(0, 1, 1), (0, 0, 1)], [(1, 0, 2), (0, 3, 1)], [(0, 1, 2), (3, 1, 2)],
            [(0, 2, 1), (0, 0, 1), (1, 1, 1)], [(4, 1, 3), (2, 2, 1)]])
        tail = env.choice('tail', [0, 3])
        perm = env.choice('perm', [0, 1, 2, 5])
    else:
        k = env.int('nslots', 1, 6)
        slots = [(env.choice('gap{}'.format(i), [0, 0, 1, 2, 5]), env.choice('kind{}'.format(i), range(4)),
                  env.choice('names{}'.format(i), [1, 1, 1, 2, 3])) for i in range(k)]
        tail = env.choice('tail', [0, 0, 1, 9])
        perm = env.int('perm', 0, 719)
    off = start
    fields = []
    for i, (gap, kind, count) in enumerate(slots):
        off += gap
        for c in range(count):
            fields.append(('f{}_{}'.format(i, c), off, KINDS[kind], i))
        off += KINDS[kind][1]
    length = off - start + tail
    order = list(fields)
    for j in range(len(order)):
        i = perm % (len(order) - j)
        perm = perm // 2 + 1
        order.append(order.pop(i))
    return start, length, fields, order


def make_format(start, length, order):
    from segpy import field_types
    from segpy.header import FormatMeta, Header, field
    ns = FormatMeta.__prepare__('Custom', (Header,))
    ns['__module__'] = 'units.headers'
    ns['START_OFFSET_IN_BYTES'] = start
    ns['LENGTH_IN_BYTES'] = length
    for name, off, (kind, _, _), _ in order:
        ns[name] = field(getattr(field_types, kind), off, 0, name)
    return FormatMeta('Custom', (Header,), ns)


@unit('P06', about='packing and unpacking of user-defined layouts with shared fields, in any declaration order')
def custom_layouts(env):
    from segpy.packer import make_header_packer
    start, length, fields, order = custom_layout(env)
    endian = env.choice('endian', ['>', '<'])
    cls = make_format(start, length, order)
    slots = {}
    for name, off, (kind, size, signed), i in fields:
        if i not in slots:
            dom = (-256 ** size // 2 if signed else 0, 256 ** size // 2 - 1)
            slots[i] = (value_in(env, 'v{}'.format(i), dom), off, size, signed)
    h = cls(**{name: slots[i][0] for name, _, _, i in fields})
    packer = make_header_packer(cls, endian)
    b = packer.pack(h)
    env.check(env.eq(env.length(b), length), 'custom layout: length')
    covered = set()
    for v, off, size, signed in slots.values():
        at = range(off - start, off - start + size)
        env.check(env.eq(field_value(env, [env.at(b, k) for k in at], size, endian, -1), v), 'custom layout: bytes of each field')
        covered.update(at)
    env.check(env.And(*[env.eq(env.at(b, k), 0) for k in range(length) if k not in covered]), 'custom layout: zero elsewhere')
    g = packer.unpack(b)
    env.check(env.And(*[env.eq(getattr(g, name), slots[i][0]) for name, _, _, i in fields]), 'custom layout: fields read back')
    env.cover('round trip')


@unit('P06', about='fields which share their bytes must agree when packed')
def custom_shared(env):
    from segpy.packer import make_header_packer
    start, length, fields, order = custom_layout(env)
    cls = make_format(start, length, order)
    vals = {}
    by = {}
    for name, off, (kind, size, signed), i in fields:
        vals[name] = env.int(name, 0, 3) if not env.proving else env.int(name, 0, 256 ** size // 2 - 1)
        by.setdefault(i, []).append(vals[name])
    h = cls(**vals)
    r = env.call(make_header_packer(cls).pack, h)
    agree = env.And(*[env.eq(vs[0], v) for vs in by.values() for v in vs[1:]])
    env.check(env.Iff(r.ok, agree), 'shared fields: packed exactly when they agree')
    env.check(r.ok or r.raised(ValueError), 'shared fields: ValueError')
    env.cover('ok' if r.ok else 'rejected')


# --------------------------------------------------------------------- P07
class Spec:
    """A header format for compile_struct: fields at any offsets."""

    def __init__(self, fields):
        self.__name__ = 'Spec'
        self.fields = fields

    def ordered_field_names(self):
        return tuple('f{}'.format(i) for i in range(len(self.fields)))

    def __getattr__(self, name):
        if name.startswith('f') and name[1:].isdigit():
            return self.fields[int(name[1:])]
        raise AttributeError(name)


def _layout(k):
    def body(env):
        from segpy.packer import compile_struct
        from segpy import field_types
        from segpy.header import field, FormatMeta, Header
        kinds = [env.choice('kind{}'.format(i), KINDS if k < 3 or not env.proving else KINDS[:2]) for i in range(k)]
        top = 12 if not env.proving else None
        offs = [env.int('offset{}'.format(i), -2 if top else None, top) for i in range(k)]
        start = env.int('start', -1 if top else None, 3 if top else None)
        limited = env.choice('limited', [True, False])
        length = env.int('length', -1 if top else None, 16 if top else None) if limited else None
        ns = FormatMeta.__prepare__('Layout', (Header,))
        for i in range(k):
            ns['f{}'.format(i)] = field(getattr(field_types, kinds[i][0]), offs[i], 0, 'f')
        cls = FormatMeta('Layout', (Header,), ns)
        r = env.call(compile_struct, cls, start, length, '>')
        sizes = [kd[1] for kd in kinds]
        overlap = env.Or(*[env.And(offs[i] < offs[j] + sizes[j], offs[j] < offs[i] + sizes[i],
                                   env.Not(env.And(env.eq(offs[i], offs[j]), kinds[i][0] == kinds[j][0])))
                           for i in range(k) for j in range(i)])
        precede = env.Or(*[o < start for o in offs])
        past = env.Or(*[o + s > start + length for o, s in zip(offs, sizes)]) if limited else False
        bad = env.Or(overlap, precede, past, start < 0, length < 1 if limited else False)
        env.check(env.Iff(r.ok, env.Not(bad)), 'compile_struct: accepts exactly the consistent layouts')
        if r.ok:
            env.cover('accepted')
            fmt, names = r.value
            env.check(sorted(sum(names, [])) == sorted('f{}'.format(i) for i in range(k)), 'compile_struct: each field is allocated once')
            for group in names:
                env.check(env.And(*[env.eq(offs[int(n[1:])], offs[int(group[0][1:])]) for n in group]),
                          'compile_struct: fields allocated together share their offset')
            for a, b in zip(names, names[1:]):
                env.check(offs[int(a[0][1:])] < offs[int(b[0][1:])], 'compile_struct: allocations in order of offset')
        else:
            env.check(r.raised(ValueError, TypeError), 'compile_struct: ValueError or TypeError')
            env.check(r.raised(ValueError) or env.Or(*[env.eq(offs[i], offs[j]) for i in range(k) for j in range(i)]),
                      'compile_struct: TypeError only for coincident fields of different types')
            env.cover('rejected')
    return body


for _k in (1, 2, 3):
    _f = _layout(_k)
    _f.__name__ = 'layout_{}'.format(_k)
    unit('P07', about='layouts of {} field(s) at any offsets: accepted exactly when consistent'.format(_k))(_f)


@unit('P07', about='a layout without fields is rejected')
def layout_empty(env):
    from segpy.packer import make_header_packer
    from segpy.header import Header

    class Empty(Header):
        START_OFFSET_IN_BYTES = 1
        LENGTH_IN_BYTES = 4
    env.check(env.call(make_header_packer, Empty).raised(TypeError, ValueError), 'make_header_packer: no fields')
    env.cover('rejected')


@unit('P07', about='layouts of many fields: accepted exactly when consistent (search)', bounded='up to 7 fields, offsets 0..40')
def layouts_many(env):
    from segpy.packer import make_header_packer
    start = env.choice('start', [0, 1, 5])
    k = env.int('k', 1, 7)
    fields = []
    pos = start
    for i in range(k):
        kind = env.choice('kind{}'.format(i), KINDS)
        how = env.choice('how{}'.format(i), ['next', 'next', 'next', 'gap', 'same', 'any'])
        if how == 'same' and fields:
            _, off, kind, _ = env.choice('as{}'.format(i), fields)
        elif how == 'any':
            off = env.int('off{}'.format(i), max(0, start - 1), start + 40)
        else:
            off = pos + (env.int('gap{}'.format(i), 0, 3) if how == 'gap' else 0)
        pos = max(pos, off + kind[1])
        fields.append(('f{}'.format(i), off, kind, i))
    length = pos - start + env.choice('slack', [0, 0, 2, -1])
    order = [fields[i] for i in sorted(range(k), key=lambda i: env.int('key{}'.format(i), 0, 99))]
    bad = length < 1 or any(o < start or o + kd[1] > start + length for _, o, kd, _ in fields)
    for i in range(k):
        for j in range(i):
            _, a, ka, _ = fields[i]
            _, b, kb, _ = fields[j]
            if a < b + kb[1] and b < a + ka[1] and not (a == b and ka == kb):
                bad = True
    cls = make_format(start, length, order)
    r = env.call(make_header_packer, cls)
    env.check(r.ok == (not bad), 'make_header_packer: accepts exactly the consistent layouts')
    if r.ok:
        b = r.value.pack(cls())
        env.check(len(b) == length, 'make_header_packer: length')
        for name, off, (kind, size, _), _ in fields:
            h = cls(**{n: 1 for n, o, _, _ in fields if o == off})
            b = bytearray(r.value.pack(h))
            env.check(b == bytes(off - start) + (1).to_bytes(size, 'big') + bytes(length - off + start - size), 'make_header_packer: covers precisely its fields')
    else:
        env.check(r.raised(ValueError, TypeError), 'make_header_packer: ValueError or TypeError')


# --------------------------------------------------------------------- P22
def _construct(index):
    def body(env):
        cls, rows, _, _ = formats()[index]
        n = len(rows)
        k = env.choice('positional', sorted({0, 1, 2, n // 2, n - 1, n}))
        kw = env.choice('keywords', ['none', 'rest', 'some', 'same'])
        vals = [value_in(env, name, dom) for name, _, _, _, dom in rows]
        names = [r[0] for r in rows]
        kwargs = {}
        if kw == 'rest':
            kwargs = {names[i]: vals[i] for i in reversed(range(k, n))}
        elif kw == 'some':
            kwargs = {names[i]: vals[i] for i in range(k, n, 3)}
        elif kw == 'same' and k:
            kwargs = {names[k - 1]: vals[k - 1]}
        h = cls(*vals[:k], **kwargs)
        env.check(type(h) is cls, 'header: class')
        for i in range(n):
            want = vals[i] if i < k or names[i] in kwargs else rows[i][3]
            env.check(env.eq(getattr(h, names[i]), want), 'header: each field as given, or its default')
        env.cover('constructed')
    return body


def _copies(index):
    def body(env):
        cls, rows, _, _ = formats()[index]
        vals = {name: value_in(env, name, dom) for name, _, _, _, dom in rows}
        name, _, _, _, dom = env.choice('changed', rows)
        u = env.int('update')
        env.assume(in_domain(env, dom, u))
        h = cls(**vals)
        how = env.choice('how', ['copy', 'copy with update', 'copy.copy', 'state'])
        if how == 'copy':
            g = h.copy()
        elif how == 'copy with update':
            g = h.copy(**{name: u})
        elif how == 'copy.copy':
            g = h.__copy__()
        else:
            g = cls.__new__(cls)
            g.__setstate__(h.__getstate__())
        env.check(type(g) is cls and g is not h, how + ': a new header of the same class')
        for n in vals:
            want = u if n == name and how == 'copy with update' else vals[n]
            env.check(env.eq(getattr(g, n), want), how + ': each field')
        setattr(h, name, u)
        env.check(env.eq(getattr(g, name), u if how == 'copy with update' else vals[name]), how + ': not shared with the original')
        setattr(h, name, vals[name])
        setattr(g, name, u)
        env.check(env.eq(getattr(h, name), vals[name]), how + ': the original is unaffected')
        env.cover(how)
    return body


for _i, _n in enumerate(['trace_rev0', 'trace_rev1', 'reel']):
    _f = _construct(_i)
    _f.__name__ = 'construct_{}'.format(_n)
    unit('P22', about='construction of the {} header from positional and keyword arguments'.format(_n), runs=400)(_f)
    _f = _copies(_i)
    _f.__name__ = 'copies_{}'.format(_n)
    unit('P22', about='copies of the {} header'.format(_n), runs=400)(_f)


@unit('P22', about='arguments which are not fields are rejected')
def construct_rejects(env):
    cls, rows, _, _ = env.choice('format', formats())
    bad = env.choice('bad', ['no_such_field', 'copy', 'START_OFFSET_IN_BYTES', '_x', 'ordered_field_names', '__class__', '__dict__'])
    v = env.int('v', -5, 5)
    env.check(env.call(lambda: cls(**{bad: v})).raised(TypeError), 'header: TypeError for an argument which is not a field')
    env.check(env.call(lambda: cls().copy(**{bad: v})).raised(TypeError), 'copy: TypeError for an update which is not a field')
    env.cover('rejected')


@unit('P22', about='pickling, deep copies and sub-formats', prove=False, bounded='random field values, one header at a time', runs=400)
def pickle_headers(env):
    from segpy.header import are_equal, SubFormatMeta
    cls, rows, _, _ = env.choice('format', formats())
    vals = {}
    for name, _, _, _, dom in rows:
        if env.choice('set_' + name, [True, True, False]):
            vals[name] = env.int(name, *dom) if isinstance(dom, tuple) else env.choice(name, dom)
    h = cls(**vals)
    for what, g in (('pickle', pickle.loads(pickle.dumps(h))), ('deepcopy', copy.deepcopy(h)), ('copy', copy.copy(h)),
                    ('old pickle', pickle.loads(pickle.dumps(h, 2)))):
        env.check(type(g) is cls, what + ': class')
        env.check(are_equal(g, h), what + ': equal')
        env.check(all(getattr(g, r[0]) == vals.get(r[0], r[3]) for r in rows), what + ': each field')
        name, _, _, _, dom = env.choice('changed', rows)
        u = env.int('u', *dom) if isinstance(dom, tuple) else env.choice('u_e', dom)
        setattr(g, name, u)
        env.check(getattr(h, name) == vals.get(name, [r[3] for r in rows if r[0] == name][0]), what + ': shares no state')
        env.check(are_equal(g, h) == (getattr(h, name) == u), 'are_equal: exactly when every field is equal')


@unit('P22', about='are_equal compares the class and every field')
def headers_equal(env):
    from segpy.header import are_equal
    cls, rows, _, _ = env.choice('format', formats())
    name, _, _, _, dom = env.choice('field', rows)
    a = value_in(env, 'a', dom)
    b = value_in(env, 'b', dom)
    g, h = cls(**{name: a}), cls(**{name: b})
    env.check(env.Iff(are_equal(g, h), env.eq(a, b)), 'are_equal: exactly when every field is equal')
    for c, _, _, _ in formats():
        if c is not cls:
            env.check(not are_equal(cls(), c()), 'are_equal: headers of different classes differ')
    env.cover('compared')
