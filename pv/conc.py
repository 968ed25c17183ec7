"""Concrete execution of the verification units on the real, untransformed code.

Used to replay counterexamples of the verifier, and for the bounded search which
cross-checks every unit and stands in for what the verifier cannot reach.
"""
import importlib
import json
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Discard(BaseException):
    pass


class Failure(BaseException):
    def __init__(self, name, detail=''):
        super().__init__(name)
        self.name = name
        self.detail = detail


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types or BaseException)

    @property
    def ok(self):
        return self.exc is None


def encode(v):
    if isinstance(v, (bytes, bytearray)):
        return {'b': bytes(v).hex()}
    if isinstance(v, tuple):
        return {'t': [encode(x) for x in v]}
    if isinstance(v, list):
        return [encode(x) for x in v]
    if isinstance(v, float):
        return {'f': v.hex()}
    return v


def decode(v):
    if isinstance(v, dict):
        if 'b' in v:
            return bytes.fromhex(v['b'])
        if 't' in v:
            return tuple(decode(x) for x in v['t'])
        if 'f' in v:
            return float.fromhex(v['f'])
    if isinstance(v, list):
        return [decode(x) for x in v]
    return v


class Base:
    """Parts of the environment which both modes share."""
    proving = False


class ConcEnv(Base):
    proving = False

    def __init__(self, rng, given=None, tier='quick'):
        self.rng = rng
        self.given = given or {}
        self.record = {}
        self.tier = tier
        self.known_off = bool(os.environ.get('PV_NO_KNOWN'))
        self.checks = 0

    # ----------------------------------------------------------- inputs
    def _have(self, name, conv=lambda x: x):
        if name in self.given and self.given[name] is not None:
            v = self.given[name]
            self.record[name] = v
            return True, v
        return False, None

    def _put(self, name, v):
        self.record[name] = v
        return v

    def _rand_int(self, lo, hi):
        r = self.rng
        if lo is None and hi is None:
            return r.choice([r.randint(-5, 5), r.randint(-1000, 1000), r.randint(-2 ** 40, 2 ** 40)])
        if hi is None:
            return lo + r.choice([0, 1, 2, 3, r.randint(0, 8), r.randint(0, 8), r.randint(0, 8), r.randint(0, 20), r.randint(0, 130)])
        if lo is None:
            return hi - r.choice([0, 1, r.randint(0, 1000)])
        w = hi - lo
        if w <= 40:
            return r.randint(lo, hi)
        k = r.randint(0, 11)
        if k == 0:
            return lo
        if k == 1:
            return hi
        if k == 2:
            return min(hi, lo + r.randint(0, 20))
        if k == 3:
            return max(lo, hi - r.randint(0, 20))
        if k in (4, 5, 6):
            b = 1 << r.randint(0, max(1, w.bit_length()))
            return max(lo, min(hi, r.choice([b, -b]) + r.randint(-2, 2)))
        if k == 7:
            return max(lo, min(hi, r.randint(-300, 300)))
        return r.randint(lo, hi)

    def int(self, name, lo=None, hi=None):
        ok, v = self._have(name)
        return v if ok else self._put(name, self._rand_int(lo, hi))

    size = int

    def bool(self, name):
        ok, v = self._have(name)
        return bool(v) if ok else self._put(name, self.rng.random() < .5)

    def choice(self, name, options):
        ok, v = self._have(name)
        i = v if ok and 0 <= v < len(options) else self._put(name, self.rng.randrange(len(options)))
        return options[i]

    def _rand_seq(self, n, lo, hi):
        r = self.rng
        lo_ = -2 ** 31 if lo is None else lo
        hi_ = 2 ** 31 if hi is None else hi

        def cl(x):
            return max(lo_, min(hi_, x))
        k = r.randint(0, 11)
        if k in (0, 1):
            return [r.randint(lo_, hi_) for _ in range(n)]
        b = cl(r.choice([0, 1, r.randint(-5, 10), r.randint(lo_, hi_)]))
        if k in (2, 3, 4):
            s = r.choice([1, 1, 2, 3, -1, -2, 5, 10])
            out = [b + i * s for i in range(n)]
            if k == 3 and n:
                out[r.randrange(n)] += r.choice([1, -1, s])
            if k == 4 and n:
                out[r.choice([0, -1, n // 2])] += r.choice([1, -1, 7])
            return [cl(x) for x in out]
        if k == 5:
            return [b] * n
        if k == 6:
            out = [b] * n
            if n:
                out[r.randrange(n)] = cl(b + r.choice([1, -1, 5]))
            return out
        w = r.choice([2, 3, 5, 10, 30])
        a = cl(b)
        out = [cl(a + r.randint(0, w)) for _ in range(n)]
        if k == 7:
            out.sort()
        if k == 8:
            out.sort(reverse=True)
        if k == 9:
            out = sorted(set(out))
            while len(out) < n:
                x = (out[-1] if out else a) + r.randint(1, 3)
                if x > hi_:
                    break
                out.append(x)
            while len(out) < n:
                out.append(cl(r.randint(lo_, hi_)))
        return out

    def seq(self, name, n, lo=None, hi=None):
        ok, v = self._have(name)
        if ok and len(v) == n:
            return list(v)
        return list(self._put(name, self._rand_seq(n, lo, hi)))

    def bytes(self, name, n, lo=0, hi=255):
        ok, v = self._have(name)
        if ok and len(v) == n:
            return v
        r = self.rng
        if n > 600:
            v = bytes(r.choices(range(lo, hi + 1), k=n))
        else:
            v = bytes(self._rand_seq(n, lo, hi))
        return self._put(name, v)

    def str(self, name, n, lo=32, hi=126):
        ok, v = self._have(name)
        if ok and len(v) == n:
            return v
        r = self.rng
        k = r.randint(0, 4)
        if k == 0:
            out = [r.choice(' ab') for _ in range(n)]
        else:
            out = [chr(r.randint(lo, hi)) for _ in range(n)]
        if k == 1 and n:
            out[0] = out[-1] = ' '
        out = [c if lo <= ord(c) <= hi else chr(lo) for c in out]
        return self._put(name, ''.join(out))

    def strs(self, name, n, least=0, most=None, lo=32, hi=126):
        ok, v = self._have(name)
        if ok and len(v) == n:
            return list(v)
        r = self.rng
        out = []
        top = most if most is not None else max(least, 90)
        for i in range(n):
            k = r.choice([r.randint(least, top), min(top, max(least, 80)), least, min(top, max(least, r.randint(76, 83)))])
            out.append(''.join(r.choice(' ABCMZamz09:_-') if r.random() < .8 else chr(r.randint(lo, hi)) for _ in range(k)))
        out = [''.join(c if lo <= ord(c) <= hi else chr(lo) for c in x) for x in out]
        return self._put(name, out)

    def text(self, n, f, ghost=None):
        return ''.join(chr(f(j)) for j in range(n))

    def blocks(self, n, f, given=None):
        return b''.join(bytes(f(i)) for i in range(n))

    def flat(self, n, size, f):
        return bytes(f(q, j) for q in range(n) for j in range(size))

    def same_content(self, fh, parts):
        return fh.content() == b''.join(bytes(p) for p in parts)

    def check_content(self, fh, parts, name):
        self.check(self.same_content(fh, parts), name)

    def joined_lines(self, lines):
        end = ['\n', '\r\n', '\r'][sum(map(len, lines)) % 3]
        return ''.join(x + end for x in lines)

    def ghost(self, x):
        return None

    def define(self, name, f):
        return f

    def pages(self, name, n, lo=32, hi=126, proper=False):
        ok, v = self._have(name)
        if ok and len(v) == n:
            return [list(p) for p in v]
        r = self.rng
        pick = lambda *a: a[0] if r.random() < .98 else r.choice(a)
        char = lambda: min(hi, max(lo, r.choice([32, 65, 66, 48, 13, 10, lo, r.randint(lo, min(hi, 255)), hi if r.random() < .01 else 65])))
        out = [[''.join(chr(char()) for _ in range(80 if proper else pick(80, 80, 80, 79, 81, 0))) for _ in range(40 if proper else pick(40, 40, 39, 41, 0))] for _ in range(n)]
        return self._put(name, out)

    def encoded(self, c, encoding):
        return chr(c).encode(encoding)[0]

    def decoded(self, b, encoding):
        return ord(bytes([b]).decode(encoding))

    # -------------------------------------------------------- statements
    def assume(self, c):
        if not c:
            raise Discard()

    def check(self, c, name, detail=''):
        self.checks += 1
        if not c:
            raise Failure(name, detail)

    def cover(self, name):
        COVERED.add(name)

    def known(self, fid):
        return not self.known_off and fid in known_ids()

    def call(self, f, *a, **k):
        try:
            return Outcome(f(*a, **k))
        except Exception as e:
            return Outcome(exc=e)

    def fail(self, name):
        self.check(False, name)

    def And(self, *xs):
        return all(xs)

    def Or(self, *xs):
        return any(xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or bool(b() if callable(b) else b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def If(self, c, a, b):
        r = a if c else b
        return r() if callable(r) else r

    def forall(self, n, f):
        return all(f(i) for i in range(n))

    def exists(self, n, f):
        return any(f(i) for i in range(n))

    def sum(self, n, f):
        return sum(f(i) for i in range(n))

    def at(self, s, i):
        return s[i]

    def ord(self, s, i):
        c = s[i]
        return ord(c) if isinstance(c, str) else c

    def length(self, s):
        return len(s)

    def eq(self, a, b):
        return a == b

    def same_seq(self, a, b):
        return len(a) == len(b) and all(x == y for x, y in zip(a, b))

    def fix(self, x):
        return x

    def word(self, *parts):
        """bytes from a list of ints and bytes"""
        return b''.join(bytes([x]) if isinstance(x, int) else bytes(x) for x in parts)

    def double(self, neg, m, e):
        """(-1)**neg * m * 2**(e - 53), exactly"""
        import math
        v = math.ldexp(m, e - 53)
        from fractions import Fraction
        if Fraction(v) != Fraction(m) * Fraction(2) ** (e - 53):
            raise Discard()
        return -v if neg else v

    def real(self, name, kind='float'):
        from fractions import Fraction
        ok, v = self._have(name)
        if not ok:
            r = self.rng
            k = r.randint(0, 3)
            if k == 0:
                v = [r.randint(-20, 20), 1]
            elif k == 1:
                v = [r.randint(-2 ** 24, 2 ** 24), 2 ** r.randint(0, 40)]
            elif k == 2:
                v = [r.randint(-2 ** 54, 2 ** 54) * 16 ** r.randint(0, 50), 1]
            else:
                v = [r.randint(-100, 100), r.randint(1, 20)]
            self._put(name, v)
        x = Fraction(v[0], v[1])
        if kind == 'float':
            try:
                return float(x)
            except OverflowError:
                raise Discard()
        return x

    def word_number(self, w):
        from fractions import Fraction
        n = int.from_bytes(w[1:4], 'big')
        return Fraction(-n if w[0] >= 128 else n) * Fraction(16) ** (w[0] % 128 - 64) / 2 ** 24

    def is_value(self, x, n, q):
        """x is exactly the number n * 2**q"""
        from fractions import Fraction
        return Fraction(x) == Fraction(n) * Fraction(2) ** q

    def stub(self, *a, **k):
        pass

    def hint(self, f):
        pass

    def inv(self, name, g):
        pass

    def some(self, name, n, f):
        """An index j of 0..n-1 with f(j), or None"""
        for j in range(n):
            if f(j):
                return j
        return None

    def is_single(self, x, bs):
        """x is the IEEE single with the given bytes (big-endian), up to the payload of a NaN"""
        import struct
        y = struct.unpack('>f', bytes(bs))[0]
        return isinstance(x, float) and (x == y and struct.pack('>d', x) == struct.pack('>d', y) or x != x and y != y)

    def file(self, content=b'', name=None, mode='rb'):
        from pv.files import ConcFile
        return ConcFile(content, name, mode)


_known = None


def known_ids():
    global _known
    if _known is None:
        _known = set()
        try:
            with open(os.path.join(HERE, 'known-findings.jsonl')) as f:
                for line in f:
                    line = line.strip()
                    if line:
                        d = json.loads(line)
                        if d.get('status') == 'open':
                            _known.add(d['id'])
        except OSError:
            pass
    return _known


def load_units():
    from pv import registry
    for f in sorted(os.listdir(os.path.join(HERE, 'units'))):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module('units.' + f[:-3])
    return registry.UNITS


def run_once(u, rng, given=None, tier='quick'):
    """Returns (status, name, detail, record)"""
    env = ConcEnv(rng, given, tier)
    try:
        u.fn(env)
        return 'ok', None, None, env
    except Discard:
        return 'discard', None, None, env
    except Failure as f:
        return 'fail', f.name, f.detail, env
    except RecursionError as e:
        return 'fail', 'no unexpected {}'.format(type(e).__name__), traceback.format_exc()[-1500:], env
    except Exception as e:
        return 'fail', 'no unexpected {}'.format(type(e).__name__), traceback.format_exc()[-1500:], env


COVERED = set()


def search(u, seed, seconds, runs, tier):
    rng = random.Random('{}:{}'.format(seed, u.id))
    t0 = time.time()
    n = ok = disc = checks = 0
    while n < runs and (time.time() - t0 < seconds or n < 1):
        n += 1
        st, name, detail, env = run_once(u, rng, None, tier)
        checks += env.checks
        if st == 'fail':
            rec = {k: encode(v) for k, v in env.record.items()}
            small = shrink(u, name, env.record, tier, 8)
            st2, name2, detail2, env2 = run_once(u, random.Random(0), small, tier)
            if st2 == 'fail':
                rec = {k: encode(v) for k, v in env2.record.items()}
                name, detail = name2, detail2
            return dict(status='fail', name=name, detail=detail, inputs=rec, runs=n)
        if st == 'ok':
            ok += 1
        else:
            disc += 1
    return dict(status='ok', runs=n, completed=ok, discarded=disc, checks=checks, covered=sorted(COVERED), wall=round(time.time() - t0, 2))


def shrink(u, name, record, tier, seconds):
    """Greedy reduction of the recorded inputs."""
    t0 = time.time()
    best = dict(record)

    def fails(r):
        st, nm, _, env = run_once(u, random.Random(0), r, tier)
        return st == 'fail' and nm == name
    if not fails(best):
        return best
    changed = True
    while changed and time.time() - t0 < seconds:
        changed = False
        for k in list(best):
            v = best[k]
            cands = []
            if isinstance(v, bool):
                cands = [False] if v else []
            elif isinstance(v, int):
                cands = [c for c in (0, 1, v // 2, v - 1 if v > 0 else v + 1) if abs(c) < abs(v)]
            elif isinstance(v, list) and v and len(v) < 40:
                cands = [[0 if j == i else x for j, x in enumerate(v)] for i in range(len(v)) if v[i]]
            for c in cands:
                if time.time() - t0 > seconds:
                    break
                r = dict(best)
                r[k] = c
                if fails(r):
                    best = r
                    changed = True
                    break
    return best


def replay(u, inputs, tier, tries=1):
    given = {k: decode(v) for k, v in (inputs or {}).items()}
    for t in range(tries):
        st, name, detail, env = run_once(u, random.Random('replay{}'.format(t)), given, tier)
        if st == 'fail':
            return dict(status='fail', name=name, detail=detail, inputs={k: encode(v) for k, v in env.record.items()})
    return dict(status=st)


def main():
    sys.path.insert(0, HERE)
    job = json.load(sys.stdin)
    units = load_units()
    u = units[job['unit']]
    if job['mode'] == 'replay':
        out = replay(u, job['inputs'], job['tier'], job.get('tries', 3))
    else:
        out = search(u, job['seed'], job['seconds'], job['runs'], job['tier'])
    sys.stdout.write('\n@@' + json.dumps(out) + '\n')


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    sys.modules['pv.conc'] = sys.modules['__main__']
    main()
