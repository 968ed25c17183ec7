"""P13, P14, P20, P21: textual headers."""
from pv.registry import unit

ENCODINGS = ['ascii', 'cp037']


def ordinary(env):
    """The code points to draw characters from"""
    return 0, env.choice('highest', [126, 255, 300] if not env.proving else [1000])


def character(env, lines, n, k, j):
    """Character j of line k, padded with blanks"""
    if env.proving:
        line = env.at(lines, k)
        return env.If(env.And(k < n, j < env.length(line)), env.ord(line, j), 32)
    return ord(lines[k][j]) if k < n and j < len(lines[k]) else 32


def stored_character(env, lines, n, k, j, encoding):
    if env.proving:
        line = env.at(lines, k)
        return env.If(env.And(k < n, j < env.length(line)), env.encoded(env.ord(line, j), encoding), env.encoded(32, encoding))
    return env.encoded(character(env, lines, n, k, j), encoding)


def position(env, most=4000):
    return env.int('position', 0) if env.proving else env.choice('position', [0, 0, 1, 3200, 3600, most])


@unit('P13', about='write_textual_reel_header in ASCII: any lines, at any position of any file')
def write_ascii(env):
    written(env, 'ascii')


@unit('P13', about='write_textual_reel_header in EBCDIC: any lines, at any position of any file')
def write_ebcdic(env):
    written(env, 'cp037')


def written(env, encoding):
    from segpy import toolkit
    n = env.choice('n', [0, 7, 40, 41] if env.proving else [0, 1, 5, 39, 40, 40, 41, 60])
    lo, hi = (0, 127 if encoding == 'ascii' else 255) if env.proving else ordinary(env)
    lines = env.strs('lines', n, 0, None, lo, hi)
    if env.proving and n != 41:
        total, pos = 0, 0
    else:
        total = env.size('total', 0) if env.proving else env.choice('total', [0, 0, 100, 3200, 5000])
        pos = position(env)
    data = env.bytes('data', total)
    env.assume(pos <= total)
    fh = env.file(data, mode='r+b')
    fh.seek(pos)
    given = 40 if n > 40 else n
    limit = 128 if encoding == 'ascii' else 256
    encodable = env.And(*[env.forall(env.length(env.at(lines, k)), lambda j: env.ord(env.at(lines, k), j) < limit) for k in range(given)])
    r = env.call(toolkit.write_textual_reel_header, fh, lines, encoding)
    if not r.ok:
        env.cover('rejected')
        env.check(env.And(r.raised(UnicodeEncodeError), env.Not(encodable)), 'write: only characters which cannot be encoded are rejected')
        env.check(env.eq(env.length(fh.content()), total), 'write: nothing is written when a character is rejected')
        return
    env.cover('written')
    env.check(encodable, 'write: characters which cannot be encoded are rejected')
    out = fh.content()
    env.check(env.eq(env.length(out), env.If(pos + 3200 > total, pos + 3200, total)), 'write: exactly 3200 bytes')
    env.check(env.eq(fh.tell(), pos + 3200), 'write: position after writing')
    blank = env.encoded(32, encoding)
    env.check(env.forall(pos, lambda j: env.eq(env.at(out, j), env.at(data, j))), 'write: bytes before the header are kept')
    env.check(env.Implies(total > pos + 3200, lambda: env.forall(total - pos - 3200, lambda j: env.eq(env.at(out, pos + 3200 + j), env.at(data, pos + 3200 + j)))),
              'write: bytes after the header are kept')
    for k in range(40):
        env.check(env.And(*[env.eq(env.at(out, pos + 80 * k + j), stored_character(env, lines, n, k, j, encoding)) for j in range(80)]),
                  'write: line n is in bytes 80 n .. 80 n + 79, padded with blanks')
    if not env.proving:
        pad = bytes([blank])
        want = b''.join(x[:80].encode(encoding).ljust(80, pad) for x in (lines + [''] * 40)[:40])
        env.check(out[pos:pos + 3200] == want, 'write: all lines')


@unit('P13', about='write_textual_reel_header: characters which cannot be encoded')
def write_rejected(env):
    from segpy import toolkit
    encoding = env.choice('encoding', ENCODINGS)
    n = env.choice('n', [1, 3] if env.proving else [1, 5, 39, 40, 41, 60])
    lo, hi = ordinary(env)
    lines = env.strs('lines', n, 0, None, lo, hi)
    total = env.size('total', 0) if env.proving else env.choice('total', [0, 0, 100, 3200, 5000])
    data = env.bytes('data', total)
    pos = position(env)
    env.assume(pos <= total)
    fh = env.file(data, mode='r+b')
    fh.seek(pos)
    limit = 128 if encoding == 'ascii' else 256
    encodable = env.And(*[env.forall(env.length(env.at(lines, k)), lambda j: env.ord(env.at(lines, k), j) < limit) for k in range(min(n, 40))])
    r = env.call(toolkit.write_textual_reel_header, fh, lines, encoding)
    env.check(env.Iff(r.ok, encodable), 'write: characters which cannot be encoded are rejected, and only those')
    if not r.ok:
        env.cover('rejected')
        env.check(r.raised(UnicodeEncodeError), 'write: only characters which cannot be encoded are rejected')
        env.check(env.And(env.eq(env.length(fh.content()), total), env.eq(fh.tell(), pos)), 'write: nothing is written when a character is rejected')
        env.check(env.forall(total, lambda j: env.eq(env.at(fh.content(), j), env.at(data, j))), 'write: nothing is overwritten when a character is rejected')


@unit('P13', about='unsupported encodings are rejected before anything is written')
def write_unsupported(env):
    from segpy import toolkit
    from segpy.encoding import UnsupportedEncodingError, is_supported_encoding
    encoding = env.choice('encoding', ['utf-8', 'latin-1', 'cp500', 'ASCII', '', None, 'cp037 '])
    fh = env.file(b'', mode='r+b')
    env.check(is_supported_encoding(encoding) is False, 'is_supported_encoding: only the supported encodings')
    r = env.call(toolkit.write_textual_reel_header, fh, ['A'], encoding)
    env.check(r.raised(UnsupportedEncodingError), 'write: encodings which are not supported are rejected')
    r = env.call(toolkit.write_extended_textual_headers, fh, [], encoding)
    env.check(r.raised(UnsupportedEncodingError), 'write extended: encodings which are not supported are rejected')
    r = env.call(toolkit.format_extended_textual_header, 'A', encoding)
    env.check(r.raised(UnsupportedEncodingError), 'format extended: encodings which are not supported are rejected')
    env.check(env.eq(env.length(fh.content()), 0), 'write: nothing is written in an encoding which is not supported')
    env.check(all(is_supported_encoding(e) for e in ENCODINGS), 'is_supported_encoding: ASCII and EBCDIC')


@unit('P13', about='read_textual_reel_header: any file, at any position')
def read(env):
    from segpy import toolkit
    encoding = env.choice('encoding', ENCODINGS)
    total = env.size('total', 0) if env.proving else env.choice('total', [3200, 3200, 7000, 3199, 3201, 3600])
    top = 255 if env.proving or env.choice('plain', [False, False, False, True]) else 127
    data = env.bytes('data', total, 0, top)
    pos = position(env, 3000)
    env.assume(pos <= total)
    fh = env.file(data)
    fh.seek(pos)
    r = env.call(toolkit.read_textual_reel_header, fh, encoding)
    if r.raised(EOFError):
        env.cover('short')
        env.check(pos + 3200 > total, 'read: EOFError only if fewer than 3200 bytes are left')
        return
    env.check(pos + 3200 <= total, 'read: EOFError if fewer than 3200 bytes are left')
    plain = env.Or(encoding != 'ascii', env.And(*[env.at(data, pos + j) < 128 for j in range(3200)]))
    if not r.ok:
        env.cover('not ASCII')
        env.check(env.And(r.raised(UnicodeDecodeError), env.Not(plain)), 'read: any bytes can be read in EBCDIC, and any ASCII')
        return
    env.cover('read')
    env.check(env.eq(env.length(r.value), 40), 'read: forty lines')
    env.check(env.eq(fh.tell(), pos + 3200), 'read: position after reading')
    env.check(env.forall(40, lambda k: env.eq(env.length(env.at(r.value, k)), 80)), 'read: eighty characters in each line')
    for k in range(40):
        line = env.at(r.value, k)
        env.check(env.And(*[env.eq(env.ord(line, j), env.decoded(env.at(data, pos + 80 * k + j), encoding)) for j in range(80)]),
                  'read: character j of line n is byte 80 n + j')


@unit('P13', about='forty encodable lines read back equal apart from padding')
def written_and_read(env):
    from segpy import toolkit
    encoding = env.choice('encoding', ENCODINGS)
    lo, hi = (0, 127) if encoding == 'ascii' else (0, 255)
    lines = env.strs('lines', 40, 0, 80, lo, hi)
    fh = env.file(b'', mode='r+b')
    r = env.call(toolkit.write_textual_reel_header, fh, lines, encoding)
    env.check(r.ok, 'round trip: encodable lines are written')
    back = env.call(toolkit.read_textual_reel_header, env.file(fh.content()), encoding)
    env.check(back.ok, 'round trip: a written header is read')
    for k in range(40):
        line, got = env.at(lines, k), env.at(back.value, k)
        env.check(env.eq(env.length(got), 80), 'round trip: eighty characters in each line')
        env.check(env.And(*[env.eq(env.ord(got, j), character(env, lines, 40, k, j)) for j in range(80)]), 'round trip: text and padding')


COMMON = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789:_- '


def expected_guess(env, data, n):
    """The guess the bytes call for: 'ascii', 'cp037' or None as the three conditions ASCII, EBCDIC, neither"""
    a, e = sorted(COMMON.encode('ascii')), sorted(COMMON.encode('cp037'))
    among = lambda codes, b: env.Or(*[env.And(lo <= b, b <= hi) for lo, hi in intervals(codes)])
    ascii_count = env.sum(n, lambda j: env.If(among(a, env.at(data, j)), 1, 0))
    ebcdic_count = env.sum(n, lambda j: env.If(among(e, env.at(data, j)), 1, 0))
    zero = env.And(n > 0, env.eq(env.sum(n, lambda j: env.If(env.at(data, j) == 0, 1, 0)), n))
    is_ascii = env.And(n > 0, env.Or(zero, env.And(2 * ascii_count >= n, 2 * ebcdic_count < n)))
    is_ebcdic = env.And(n > 0, env.Not(zero), 2 * ebcdic_count >= n, 2 * ascii_count < n)
    return is_ascii, is_ebcdic


def intervals(codes):
    """The ranges of consecutive codes"""
    out = []
    for c in codes:
        if out and out[-1][1] == c - 1:
            out[-1] = (out[-1][0], c)
        else:
            out.append((c, c))
    return out


def plausible(env, n):
    """Bytes near the thresholds, in the search"""
    kinds = [b'A1 z', b'A', bytes([0]), b'\xc1\xf1\x40', b'\x60', b'\xff', b'mz', b'\x01 ']
    kind, other = env.choice('kind', kinds), env.choice('other', kinds)
    m = env.choice('part', [0, n // 2 - 1, n // 2, n // 2 + 1, n - 1, n])
    return bytes(kind[j % len(kind)] if j < m else other[j % len(other)] for j in range(n))


@unit('P21', about='guess_encoding: any bytes')
def guess(env):
    from segpy.encoding import guess_encoding
    n = env.size('n', 0) if env.proving else env.choice('n', [0, 1, 2, 3, 8, 9, 3199, 3200])
    data = env.bytes('data', n) if env.proving or env.choice('random', [True, False]) else plausible(env, n)
    r = env.call(guess_encoding, data)
    env.check(r.ok, 'guess: any bytes')
    is_ascii, is_ebcdic = expected_guess(env, data, n)
    env.check(env.Implies(is_ascii, lambda: r.value == 'ascii'), 'guess: ASCII when most bytes are common ASCII only')
    env.check(env.Implies(is_ebcdic, lambda: r.value == 'cp037'), 'guess: EBCDIC when most bytes are common EBCDIC only')
    env.check(env.Implies(env.And(env.Not(is_ascii), env.Not(is_ebcdic)), lambda: r.value is None), 'guess: none when the evidence is missing or contradictory')
    env.cover('guessed')


def guessed(env, bs):
    """The contract of guess_encoding (established by P21.guess)"""
    is_ascii, is_ebcdic = expected_guess(env, bs, env.length(bs))
    if is_ascii:
        return 'ascii'
    return 'cp037' if is_ebcdic else None


@unit('P21', about='guess_textual_header_encoding: any file, at any position', contracts=['segpy.encoding.guess_encoding'])
def guess_file(env):
    from segpy import toolkit
    total = env.size('total', 0) if env.proving else env.choice('total', [0, 10, 3199, 3200, 3201, 7000])
    data = env.bytes('data', total) if env.proving or env.choice('random', [True, False]) else plausible(env, total)
    pos = position(env)
    env.assume(pos <= total)
    fh = env.file(data)
    fh.seek(pos)
    env.stub(toolkit, 'guess_encoding', lambda bs: guessed(env, bs))
    r = env.call(toolkit.guess_textual_header_encoding, fh)
    env.check(r.ok, 'guess: any file')
    env.check(env.eq(fh.tell(), pos), 'guess: the position of the file is kept')
    n = env.If(total < 3200, total, 3200)
    is_ascii, is_ebcdic = expected_guess(env, data, n)
    env.check(env.Implies(is_ascii, lambda: r.value == 'ascii'), 'guess: ASCII from the first 3200 bytes')
    env.check(env.Implies(is_ebcdic, lambda: r.value == 'cp037'), 'guess: EBCDIC from the first 3200 bytes')
    env.check(env.Implies(env.And(env.Not(is_ascii), env.Not(is_ebcdic)), lambda: r.value is None), 'guess: none from the first 3200 bytes')
    env.cover('guessed')


@unit('P21', about='a header more than half blank is recognised in either encoding, whatever else it holds', contracts=['segpy.encoding.guess_encoding'])
def guess_blank(env):
    from segpy import toolkit
    encoding = env.choice('encoding', ENCODINGS)
    blank = 32 if encoding == 'ascii' else 64
    if env.proving:
        data = env.bytes('data', 3200)
    else:
        other = env.choice('other', [b'A', b'm', b'@', b'\x81', b'\0', b'\xff', bytes(range(256))])
        m = env.choice('blanks', [1601, 1602, 2000, 3200])
        data = bytes([blank]) * m + (other * 3200)[:3200 - m]
        if env.choice('reversed', [False, True]):
            data = data[::-1]
    env.stub(toolkit, 'guess_encoding', lambda bs: guessed(env, bs))
    env.assume(2 * env.sum(3200, lambda j: env.If(env.at(data, j) == blank, 1, 0)) > 3200)
    r = env.call(toolkit.guess_textual_header_encoding, env.file(data))
    env.check(r.ok, 'guess: any file')
    env.check(r.value == encoding, 'guess: headers more than half blank')
    env.cover('guessed')


REVISIONS = ['REVISION_0', 'REVISION_1']
END = {'REVISION_0': 'END EBCDIC', 'REVISION_1': 'END TEXTUAL HEADER'}


def some_text(env, name, width):
    """Text of any length, in the search of about the width of the columns"""
    if env.proving:
        return env.str(name, env.size('length of ' + name, 0), 0, 0x10ffff)
    kind = env.choice('kind of ' + name, ['text', 'number', 'fill', 'blank', 'edge'])
    if kind == 'number':
        return env.int(name, -10 ** 9, 10 ** 9)
    if kind == 'blank':
        return ' ' * env.int('length of ' + name, 0, width)
    if kind == 'edge':
        return ' x' * width
    return env.str(name, env.int('length of ' + name, 0, width if kind == 'text' else width + 3), 32, 126)


@unit('P20', about='format_standard_textual_header: any texts in all of the fields')
def format_all(env):
    formatted(env, lambda k: True)


@unit('P20', about='format_standard_textual_header: any texts in some of the fields')
def format_some(env):
    step = env.choice('step', [0, 2, 3, 7]) if env.proving else env.choice('step', [0, 1, 2, 3, 5, 50])
    formatted(env, lambda k: step and k % step == 1)


def formatted(env, given):
    from segpy.revisions import SegYRevision
    from segpy.toolkit import format_standard_textual_header
    from units.cards import CARDS, FIELDS
    revision = env.choice('revision', REVISIONS)
    values = {}
    for k, name in enumerate(sorted(FIELDS)):
        if given(k):
            values[name] = some_text(env, name, FIELDS[name][2])
    r = env.call(format_standard_textual_header, SegYRevision[revision], **values)
    env.check(r.ok, 'format: any texts')
    env.check(env.eq(env.length(r.value), 40), 'format: forty lines')
    given_names = set(values)
    values.setdefault('end_marker', END[revision])
    fields = {}
    for name, (card, column, width) in FIELDS.items():
        fields.setdefault(card, []).append((name, column, width))
    for card in range(40):
        line = env.at(r.value, card)
        env.check(env.eq(env.length(line), 80), 'format: eighty characters in each line')
        where = {}
        for name, column, width in fields.get(card, []):
            text = values.get(name, '')
            if isinstance(text, int):
                text = str(text)
            for j in range(width):
                where[column + j] = (text, j, name in given_names)
        for j in range(80):
            if j not in where:
                env.check(env.eq(env.ord(line, j), ord(CARDS[card][j])), 'format: the fixed text of each card')
        env.check(env.And(*[env.eq(env.ord(line, j), character(env, [text], 1, 0, i) if known else (ord(text[i]) if i < len(text) else 32)) for j, (text, i, known) in where.items()]),
                  'format: each field in its columns, cut or padded with blanks')
    env.cover('formatted')


@unit('P20', about='names which are not fields are rejected')
def format_unknown(env):
    from segpy.revisions import SegYRevision
    from segpy.toolkit import format_standard_textual_header
    from units.cards import FIELDS
    name = env.choice('name', ['x', 'd', 'yr', 'Client', 'crew', 'unassigned18', 'processing3', 'client_', 'sweep', 'reelnum', 'header'])
    values = {name: env.choice('value', ['', 'A', None, 0])}
    if env.choice('others', [False, True]):
        values.update(client='A', end_marker='B')
    r = env.call(format_standard_textual_header, SegYRevision[env.choice('revision', REVISIONS)], **values)
    env.check(r.raised(TypeError), 'format: names which are not fields are rejected')


@unit('P20', about='parse_standard_textual_header: any forty lines')
def parse(env):
    from segpy.toolkit import parse_standard_textual_header
    from units.cards import FIELDS
    if env.proving:
        lines = env.strs('lines', 40, 80, 80, 0, 0x10ffff)
    else:
        alphabet = env.choice('alphabet', [' A', ' \tAb', ' 0', ' '])
        lines = [''.join(alphabet[env.rng.randrange(len(alphabet))] for _ in range(80)) for _ in range(40)]
    r = env.call(parse_standard_textual_header, lines)
    env.check(r.ok, 'parse: any forty lines of eighty characters')
    env.check(sorted(r.value) == sorted(FIELDS), 'parse: the fields of the template')
    for name, (card, column, width) in FIELDS.items():
        env.check(env.same_seq(r.value[name], env.at(lines, card)[column:column + width].strip()), 'parse: each field from its own columns')
    env.cover('parsed')


@unit('P20', about='headers of another shape are rejected')
def parse_malformed(env):
    from segpy.toolkit import parse_standard_textual_header
    n = env.choice('n', [0, 1, 39, 40, 41, 80])
    lines = env.strs('lines', n, 0, None) if env.proving else [' ' * env.choice('width %d' % k, [80, 80, 80, 80, 80, 80, 80, 80, 80, 79, 81, 0]) for k in range(n)]
    r = env.call(parse_standard_textual_header, lines)
    proper = env.And(n == 40, *[env.eq(env.length(env.at(lines, k)), 80) for k in range(n)])
    env.check(env.Iff(r.ok, proper), 'parse: forty lines of eighty characters')
    env.check(r.ok or r.raised(ValueError), 'parse: malformed headers are a ValueError')


@unit('P20', about='formatted fields are parsed')
def format_and_parse(env):
    from segpy.revisions import SegYRevision
    from segpy.toolkit import format_standard_textual_header, parse_standard_textual_header
    from units.cards import FIELDS
    values = {}
    for name, (card, column, width) in FIELDS.items():
        values[name] = env.str(name, env.size('length of ' + name, 0, width), 32, 126) if env.proving else some_text(env, name, width)
        if not env.proving:
            env.assume(len(str(values[name])) <= width)
    r = env.call(format_standard_textual_header, SegYRevision[env.choice('revision', REVISIONS)], **values)
    env.check(r.ok, 'round trip: formatted')
    back = env.call(parse_standard_textual_header, r.value)
    env.check(back.ok, 'round trip: parsed')
    for name, (card, column, width) in FIELDS.items():
        env.check(env.same_seq(back.value[name], str(values[name]).ljust(width).strip()), 'round trip: every field apart from blanks around it')
    env.cover('both')


STANZA = '((SEG: EndText))'


def page_at(env, data, start, encoding):
    """The forty lines in the 3200 bytes of the data from start on"""
    return [env.text(80, lambda i: env.decoded(env.at(data, start + 80 * j + i), encoding), ghost=start) for j in range(40)]


def has_stanza(env, data, start, encoding):
    """Whether the first line holds the end-text stanza"""
    codes = [ord(c) for c in STANZA]
    return env.Or(*[env.And(*[env.eq(env.decoded(env.at(data, start + i + j), encoding), c) for j, c in enumerate(codes)]) for i in range(81 - len(codes))])


def page_read(env, fh, data, total, encoding):
    """The contract of read_textual_reel_header (established by P13.read)"""
    pos = fh.tell()
    if pos + 3200 > total:
        raise EOFError('short')
    fh.seek(pos + 3200)
    return page_at(env, data, pos, encoding)


def extended_file(env, encoding):
    """A file of any bytes; in the search one of pages some of which hold the stanza"""
    if env.proving:
        total = env.size('total', 0)
        return env.bytes('data', total, 0, 127 if encoding == 'ascii' else 255), total
    lines = [' ' * 80, 'A' * 80, STANZA.ljust(80), STANZA.rjust(80), (' ' * 3 + STANZA).ljust(80), '((SEG: EndText)'.ljust(80), 'x' + STANZA.lower().ljust(79)]
    out = b'\0' * env.choice('before', [3600, 3600, 3600, 3600, 3599, 0])
    for k in range(env.choice('pages', [0, 1, 2, 3, 5])):
        first, second = env.choice('first', lines[:3] + lines), env.choice('second', lines)
        out += (first + second + lines[1] * 38).encode(encoding)
    out += b'\0' * env.choice('after', [0, 0, 1, 240, 3199])
    return out, len(out)


def reading(env, encoding, n):
    """Read the extended headers of a file whose binary header declares n"""
    from segpy import toolkit
    from segpy.binary_reel_header import BinaryReelHeader
    data, total = extended_file(env, encoding)
    fh = env.file(data)
    pos = position(env, 3000)
    env.assume(pos <= total)
    fh.seek(pos)
    env.stub(toolkit, 'read_textual_reel_header', lambda fh, encoding: page_read(env, fh, data, total, encoding))
    stanza = env.define('stanza', lambda start: has_stanza(env, data, start, encoding))
    env.stub(toolkit, 'has_end_text_stanza', lambda page: stanza(env.ghost(page[0])))       # established by P14.stanza
    header = BinaryReelHeader(num_extended_textual_headers=n)
    return data, total, fh, stanza, env.call(toolkit.read_extended_textual_headers, fh, header, encoding)


READ = ['segpy.toolkit.read_textual_reel_header', 'segpy.toolkit.has_end_text_stanza']


def same_page(env, got, data, start, encoding):
    want = page_at(env, data, start, encoding)
    return env.And(env.eq(env.length(got), 40), *[env.same_seq(env.at(got, j), want[j]) for j in range(40)])


@unit('P14', about='reading any declared number of pages of any file, in ASCII', contracts=READ)
def read_counted_ascii(env):
    read_counted(env, 'ascii')


@unit('P14', about='reading any declared number of pages of any file, in EBCDIC', contracts=READ)
def read_counted_ebcdic(env):
    read_counted(env, 'cp037')


def read_counted(env, encoding):
    n = env.int('n', 0, 32767) if env.proving else env.choice('n', [0, 1, 2, 3, 5])
    data, total, fh, stanza_at, r = reading(env, encoding, n)
    available = env.If(total < 3600, 0, (total - 3600) // 3200)
    stanza = lambda k: stanza_at(3600 + 3200 * k)
    if r.raised(EOFError):
        env.cover('short')
        env.check(available < n, 'read counted: EOFError only if the file is too short')
        env.check(env.forall(available, lambda k: env.Not(stanza(k))), 'read counted: a misplaced end-text stanza is reported first')
    elif r.raised(ValueError):
        env.cover('stanza')
        env.check(env.exists(available, lambda k: env.And(k < n - 1, stanza(k))), 'read counted: ValueError only if the end-text stanza is misplaced')
    else:
        env.check(r.ok, 'read counted: any file')
        env.cover('read')
        env.check(n <= available, 'read counted: EOFError if the file is too short')
        env.check(env.forall(n - 1, lambda k: env.Not(stanza(k))), 'read counted: ValueError if the end-text stanza is misplaced')
        env.check(env.eq(env.length(r.value), n), 'read counted: the declared number of pages')
        env.check(env.eq(fh.tell(), 3600 + 3200 * n), 'read counted: the file is left at the first trace')
        env.check(env.forall(n, lambda k: same_page(env, env.at(r.value, k), data, 3600 + 3200 * k, encoding)), 'read counted: each page from its own bytes')


@unit('P14', about='reading pages of any file until the end-text stanza, in ASCII', contracts=READ)
def read_until_end_ascii(env):
    read_until_end(env, 'ascii')


@unit('P14', about='reading pages of any file until the end-text stanza, in EBCDIC', contracts=READ)
def read_until_end_ebcdic(env):
    read_until_end(env, 'cp037')


def read_until_end(env, encoding):
    data, total, fh, stanza_at, r = reading(env, encoding, -1)
    available = env.If(total < 3600, 0, (total - 3600) // 3200)
    stanza = lambda k: stanza_at(3600 + 3200 * k)
    if r.raised(EOFError):
        env.cover('short')
        env.check(env.forall(available, lambda k: env.Not(stanza(k))), 'read until end: EOFError only if no page has the stanza')
    else:
        env.check(r.ok, 'read until end: any file')
        env.cover('read')
        n = env.length(r.value)
        env.check(env.And(n >= 1, n <= available), 'read until end: whole pages')
        env.check(stanza(n - 1), 'read until end: the last page has the stanza')
        env.check(env.forall(n - 1, lambda k: env.Not(stanza(k))), 'read until end: only the last page has the stanza')
        env.check(env.eq(fh.tell(), 3600 + 3200 * n), 'read until end: the file is left at the first trace')
        env.check(env.forall(n - 1, lambda k: same_page(env, env.at(r.value, k), data, 3600 + 3200 * k, encoding)), 'read until end: each page from its own bytes')
        env.check(same_page(env, env.at(r.value, n - 1), data, 3600 + 3200 * (n - 1), encoding), 'read until end: the last page from its own bytes')


@unit('P14', about='has_end_text_stanza: any page')
def stanza(env):
    from segpy.toolkit import has_end_text_stanza
    first = env.str('first', 80, 0, 255) if env.proving else env.choice('first', ['A' * 80, STANZA.ljust(80), STANZA.rjust(80), ('x' * 7 + STANZA).ljust(80), STANZA[:-1].ljust(80), STANZA[1:].ljust(80), STANZA.lower().ljust(80), ' ' * 80])
    second = env.str('second', 80, 0, 255) if env.proving else env.choice('second', ['A' * 80, STANZA.ljust(80)])
    r = env.call(has_end_text_stanza, [first] + [second] * 39)
    env.check(r.ok, 'stanza: any page')
    there = env.Or(*[env.And(*[env.eq(env.ord(first, i + j), ord(c)) for j, c in enumerate(STANZA)]) for i in range(81 - len(STANZA))])
    env.check(env.Iff(r.value, there), 'stanza: in the first line, and nowhere else')
    env.cover('stanza')


@unit('P14', about='writing any number of pages of any shape', also=['P15'])
def write_pages(env):
    from segpy import toolkit
    encoding = env.choice('encoding', ENCODINGS)
    limit = 128 if encoding == 'ascii' else 256
    n = env.size('n', 0) if env.proving else env.choice('n', [0, 1, 1, 2, 3])
    pages = env.pages('pages', n, 0, 0x10ffff)
    total = env.size('total', 3600) if env.proving else env.choice('total', [3600, 3600, 4000, 20000])
    data = env.bytes('data', total)
    fh = env.file(data, mode='r+b')
    fh.seek(env.choice('position', [0, 3600]))
    lines = lambda p: env.length(env.at(pages, p))
    proper = env.forall(n, lambda p: env.And(env.eq(lines(p), 40), env.forall(lines(p), lambda l: env.And(
        env.eq(env.length(env.at(env.at(pages, p), l)), 80),
        env.Implies(env.eq(env.length(env.at(env.at(pages, p), l)), 80), lambda: env.forall(80, lambda j: env.ord(env.at(env.at(pages, p), l), j) < limit))))))
    r = env.call(toolkit.write_extended_textual_headers, fh, pages, encoding)
    if not r.ok:
        env.cover('rejected')
        env.check(env.And(r.raised(ValueError), env.Not(proper)), 'write pages: only malformed pages are rejected')
        env.check(env.same_content(fh, [data]), 'write pages: a rejected write leaves the file unmodified')
        return
    env.cover('written')
    env.check(proper, 'write pages: malformed pages are rejected')
    env.check(env.eq(fh.tell(), 3600 + 3200 * n), 'write pages: the file is left at the first trace')
    env.check(env.same_content(fh, [data[:3600], env.blocks(n, lambda p: env.flat(40, 80, lambda l, j: env.encoded(env.ord(env.at(env.at(pages, p), l), j), encoding))),
                                    data[3600 + 3200 * n:]]), 'write pages: each page in its 3200 bytes')


SHAPES = [(), (1,), (2,), (1, 3, 1), (1,) * 39, (1,) * 40, (1,) * 38 + (2,), (1,) * 39 + (2,), (1,) * 41, (42,), (2,) * 40]


@unit('P14', about='free text is formatted into pages', bounded='numbers of lines and of 78-character pieces in them from a list of shapes (any contents)')
def format_pages(env):
    from segpy.toolkit import format_extended_textual_header
    encoding = env.choice('encoding', ENCODINGS)
    stop = env.choice('stop', [False, True])
    shape = env.choice('shape', SHAPES) if env.proving else env.choice('shape', SHAPES + [tuple(1 + (7 * k * k) % 5 % 3 for k in range(m)) for m in (3, 20, 60, 90)])
    lines = []
    for k, c in enumerate(shape):
        least, most = 0 if c == 1 else 78 * (c - 1) + 1, 78 * c
        if env.proving:
            lines.append(env.str('line %d' % k, env.size('length of line %d' % k, least, most), 32, 126))
        else:
            lines.append(env.str('line %d' % k, env.choice('length of line %d' % k, [least, most, (least + most) // 2]), 32, 126))
    r = env.call(format_extended_textual_header, env.joined_lines(lines), encoding, stop)
    env.check(r.ok, 'format pages: any text')
    pieces = [(line, i) for line, c in zip(lines, shape) for i in range(c)]
    count = (len(pieces) + 39) // 40
    env.check(env.eq(env.length(r.value), count + (1 if stop else 0)), 'format pages: as many pages as the lines need, and the end-text stanza where asked')
    for p in range(count):
        page = env.at(r.value, p)
        env.check(env.eq(env.length(page), 40), 'format pages: forty lines in each page')
        for l in range(40):
            got = env.at(page, l)
            env.check(env.eq(env.length(got), 80), 'format pages: eighty characters in each line')
            k = 40 * p + l
            line, i = pieces[k] if k < len(pieces) else ('', 0)
            env.check(env.And(*[env.eq(env.ord(got, j), env.If(78 * i + j < env.length(line), lambda: env.ord(line, 78 * i + j), lambda: 32)) for j in range(78)]),
                      'format pages: every line is preserved, blank ones included, and long ones continued')
            env.check(env.And(env.eq(env.ord(got, 78), 13), env.eq(env.ord(got, 79), 10)), 'format pages: each line ends in carriage return and line feed')
    if stop:
        page = env.at(r.value, count)
        env.check(env.eq(env.length(page), 40), 'format pages: forty lines in each page')
        env.check(env.And(*[env.eq(env.length(env.at(page, l)), 80) for l in range(40)]), 'format pages: eighty characters in each line')
        env.check(env.And(*[env.eq(env.ord(env.at(page, 0), j), ord(c)) for j, c in enumerate((STANZA + ' ' * 78)[:78] + '\r\n')]), 'format pages: the end-text stanza')
        env.check(env.And(*[env.eq(env.ord(env.at(page, l), j), ord(c)) for l in range(1, 40) for j, c in enumerate(' ' * 78 + '\r\n')]), 'format pages: nothing after the end-text stanza')
    env.cover('formatted')
