"""File-like objects: the contract of a binary file open for random access.

read(n) at position p returns the bytes p .. min(p + n, length) - 1 and leaves the position behind them,
seek and tell set and give the position, write(b) replaces the bytes p .. p + len(b) - 1.
"""
import io
import os


class ConcFile(io.BytesIO):
    """The concrete counterpart."""
    reads = writes = 0

    def __init__(self, content=b'', name=None, mode='rb'):
        super().__init__(bytes(content))
        self.mode = mode
        if name is not None:
            self.name = name

    def write(self, b):
        self.writes += 1
        return super().write(b)

    def content(self):
        return self.getvalue()


class SymFile:
    mode = 'rb'

    def __init__(self, content=b'', name=None, mode='rb'):
        from .seq import Cell, VList, as_seq
        self._content = as_seq(content)
        self._pos = Cell(0)
        self._log = VList()          # (position, data) of every write
        self._size = Cell(self._content.n)
        self._at_end = Cell(False)      # once written: then the position is the size
        self.closed = False
        self.mode = mode
        if name is not None:
            self.name = name

    def seekable(self):
        return True

    readable = writable = seekable

    def flush(self):
        pass

    def tell(self):
        return self._pos.get()

    def seek(self, offset, whence=0):
        from .values import is_intlike, simp
        if not is_intlike(offset):
            raise TypeError('an integer is required')
        if whence == 1:
            offset = offset + self._pos.get()
        elif whence == 2:
            offset = offset + self._length()
        elif whence != 0:
            raise ValueError('invalid whence')
        if offset < 0:
            raise ValueError('negative seek value')
        if self._written():
            if self._at_end.get():
                self._size.set(self._pos.get())
            same = offset == self._size.get()
            self._at_end.set(same is True or same is not False and self._decided(same))
        self._pos.set(offset)
        return offset

    def _decided(self, c):
        from .core import E
        from .values import bt
        return E.valid_quick(bt(c))

    def _length(self):
        return self._pos.get() if self._at_end.get() else self._size.get()

    def _written(self):
        from .seq import conc_len
        return conc_len(self._log) != 0

    def read(self, n=-1):
        from .core import Unsupported
        from .seq import SliceSeq, SymBytes, conc_len
        from .values import is_conc_int
        if self._written():
            raise Unsupported('reading from a file which has been written')
        pos, size = self._pos.get(), self._length()
        if pos >= size:
            return b''
        if n is None or n < 0:
            m = size - pos
        elif pos + n <= size:
            m = n
        else:
            m = size - pos
        self._pos.set(pos + m)
        s = SliceSeq(self._content, pos, m, 1)
        s.pt = bytes
        return s

    def write(self, b):
        from .seq import as_seq
        from .values import is_sym
        s = as_seq(b)
        if s.pt is not bytes:
            raise TypeError('a bytes-like object is required')
        pos = self._pos.get()
        if not self._written():
            same = pos == self._size.get()
            self._at_end.set(same is True or same is not False and self._decided(same))
        self._log.append((pos, s))
        self._pos.set(pos + s.n)
        if not self._at_end.get():
            end = pos + s.n
            if end >= self._size.get():
                self._size.set(end)
                self._at_end.set(True)
        return s.n

    def content(self):
        """All bytes, where the number of writes is known."""
        from .core import Unsupported
        from .seq import concat, conc_len, as_seq, SliceSeq
        k = conc_len(self._log)
        if k is None:
            raise Unsupported('content of a file after an unknown number of writes')
        cur = self._content
        for i in range(k):
            pos, data = self._log.at(i)
            parts = []
            n = cur.n
            if pos > n:
                raise Unsupported('write beyond the end of a file')
            parts.append(SliceSeq(cur, 0, pos, 1))
            parts.append(data)
            end = pos + data.n
            if end < n:
                parts.append(SliceSeq(cur, end, n - end, 1))
            cur = concat(parts, bytes)
        return cur


class Blocks:
    """n pieces of content f(0), f(1), ..."""
    _pv_sym = True

    def __init__(self, n, f, given=None):
        self.n = n
        self.f = f
        self.given = given


def log_pieces(log):
    """The writes in order: (position, data), or (n, f) for n iterations of the writes f(q)"""
    from .core import Unsupported
    from .seq import ConcSeq, ConcatSeq, conc_len
    s = log.snap()
    out = []
    for part in (s.parts if type(s) is ConcatSeq else [s]):
        run = getattr(part, 'run', None)
        if run is not None:
            out.append(('run',) + run)
        elif conc_len(part) is not None:
            out += [('data',) + part.at(i) for i in range(conc_len(part))]
        else:
            raise Unsupported('unknown writes to a file')
    return out


def same_content(fh, parts, name=None):
    """Whether a file consists of the given parts, some of them runs of blocks"""
    from .core import E, Unsupported
    from .seq import concat, as_seq, SliceSeq, veq, pure, forall, ConcSeq
    from .values import And, If, SymInt, tm, bt, is_conc_int, simp

    def valid(c):
        if c is True:
            return True
        return type(c) is not bool and (E.valid_quick(bt(c)) or E.solve(bt(c), timeout=3000, want_model=False)[0] == 'proved')

    def joined(ps):
        ps = [as_seq(p) for p in ps]
        return concat(ps, bytes) if ps else as_seq(b'')
    old = fh._content
    groups, runs, end, first = [[]], [], None, None
    for kind, a, b in log_pieces(fh._log):
        if kind == 'data':
            if end is None:
                first = a
            elif not valid(veq(a, end)):
                raise Unsupported('writes which do not follow each other')
            groups[-1].append(b)
            end = simp(a + b.n)
            continue
        start = b(0)[0][0]
        if end is None:
            first = end = start
        elif not valid(veq(start, end)):
            raise Unsupported('writes which do not follow each other')
        q = SymInt(E.const('q'))
        here, after = b(q), b(q + 1)
        ok = [veq(here[i + 1][0], here[i][0] + here[i][1].n) for i in range(len(here) - 1)]
        ok.append(veq(after[0][0], here[-1][0] + here[-1][1].n))
        from .values import Implies
        if not all(valid(Implies(And(q >= 0, q + 1 < a), c)) for c in ok):
            raise Unsupported('writes which do not follow each other')
        runs.append((a, lambda q, b=b: joined([x[1] for x in b(q)])))
        groups.append([])
        last = b(a - 1)[-1]
        end = If(a > 0, last[0] + last[1].n, end)
    if first is None:
        groups[0].insert(0, old)
    else:
        if first > old.n:
            raise Unsupported('write beyond the end of a file')
        groups[0].insert(0, SliceSeq(old, 0, first, 1))
        if end < old.n:
            groups[-1].append(SliceSeq(old, end, old.n - end, 1))
    want, blocks = [[]], []
    for p in parts:
        if type(p) is not Blocks:
            want[-1].append(p)
        elif is_conc_int(p.n):
            want[-1] += [p.f(i) for i in range(int(p.n))]
        elif len(blocks) == len(runs):
            if not valid(veq(p.n, 0)):
                raise Unsupported('an expected run of writes is missing')
        else:
            m = simp(p.n - runs[len(blocks)][0])
            if not is_conc_int(m):
                for c in range(4):
                    if valid(veq(m, c)):
                        m = c
                        break
                else:
                    raise Unsupported('another number of writes')
            m = int(m)
            want[-1] += [p.f(i) for i in range(m)]
            blocks.append((p.given and (lambda q, p=p, m=m: p.given(q + m)), lambda q, p=p, m=m: p.f(q + m)))
            want.append([])
    if len(blocks) != len(runs):
        raise Unsupported('an unexpected run of writes')
    if name is not None:
        return _check(name, groups, want, runs, blocks, joined)
    out = [veq(joined(g), joined(w)) for g, w in zip(groups, want)]
    for (n, f), g in zip(runs, blocks):
        out.append(forall(n, lambda q: veq(f(q), as_seq(g[1](q)))))
    return And(*out)


def _check(name, groups, want, runs, blocks, joined):
    """The same as obligations: what lies between the runs, and for each run an arbitrary block of it"""
    from .core import E, PathEnd
    from .seq import as_seq, resolved
    from .values import And, SymInt
    case = E.decide([None] * (1 + len(runs)), 'content') if runs else 0
    if case == 0:
        for g, w in zip(groups, want):
            _pieces(joined(g), joined(w), name)
        return
    (n, f), (given, g) = runs[case - 1], blocks[case - 1]
    q = SymInt(E.const('block'))
    E.assume(And(q >= 0, q < n))
    if given is not None:
        E.assume(given(q))
    _pieces(resolved(as_seq(f(q))), resolved(as_seq(g(q))), name)
    raise PathEnd('content')


def _pieces(got, exp, name):
    from .core import E
    from .seq import veq, ConcatSeq
    from .values import And, SymInt, simp, is_conc_int
    E.prove(veq(got.n, exp.n), name)
    E.assume(veq(got.n, exp.n))
    at = 0
    parts = got.parts if type(got) is ConcatSeq else [got]
    theirs = exp.parts if type(exp) is ConcatSeq else [exp]
    if len(parts) == len(theirs) and all(simp(a.n - b.n) == 0 for a, b in zip(parts, theirs)):
        offs = [(p, b, 0) for p, b in zip(parts, theirs)]
    else:
        offs = []
        for p in parts:
            offs.append((p, exp, at))
            at = simp(at + p.n)
    for p, exp, at in offs:
        if is_conc_int(p.n) and int(p.n) <= 4096:
            want = [exp.at(simp(at + j)) for j in range(int(p.n))]      # and what is known of them
            conds = [veq(simp(p.at(j)), simp(want[j])) for j in range(int(p.n))]
            E.prove(all(c is not False for c in conds), name)
            for c in conds:
                if type(c) is not bool:
                    E.prove(c, name, alone=True)
        elif type(p).__name__ in ('FlatSeq', 'PackedSeq'):
            if p.count > 0:
                i = SymInt(E.const('element'))
                E.assume(And(i >= 0, i < p.count))
                b = p.block(i)
                want = [exp.at(simp(at + i * p.size + r)) for r in range(p.size)]
                for r in range(p.size):
                    E.prove(veq(simp(b.at(r)), simp(want[r])), name, alone=True)
        elif p.n > 0:
            j = SymInt(E.const('offset'))
            E.assume(And(j >= 0, j < p.n))
            E.prove(veq(simp(p.at(j)), simp(exp.at(simp(at + j)))), name, alone=True)
