"""P24: interval, batching and sequence utilities (segpy/util.py)."""
from pv.registry import unit


def numbers(env, name='n', lo=None, hi=None, least=0):
    n = env.size(name, least) if env.proving else env.size(name, least, 8)
    if env.proving:
        return env.seq('items', n, lo, hi), n
    kind = env.choice('kind', ['any', 'few', 'line', 'nearly'])
    a = lo if lo is not None else -20
    b = hi if hi is not None else 20
    if kind == 'any':
        return env.seq('items', n, lo, hi), n
    if kind == 'few':
        return [min(max(x, a), b) for x in env.seq('items', n, 0, 3)], n
    first, step = env.int('first', -9, 9), env.int('step', -3, 3)
    items = [first + i * step for i in range(n)]
    if kind == 'nearly' and n:
        items[env.int('where', 0, n - 1)] += env.int('delta', -1, 1)
    return items, n


@unit('P24', about='pairwise: the n - 1 consecutive pairs')
def pairs(env):
    from segpy import util
    items, n = numbers(env)
    r = env.call(lambda: list(util.pairwise(iter(items) if env.choice('iterator', [False, True]) else items)))
    env.check(r.ok, 'pairwise: any series')
    out = r.value
    env.check(env.eq(env.length(out), env.If(n > 0, n - 1, 0)), 'pairwise: number of pairs')
    env.check(env.forall(env.length(out), lambda k: env.And(env.eq(env.at(out, k)[0], env.at(items, k)),
                                                            env.eq(env.at(out, k)[1], env.at(items, k + 1)))),
              'pairwise: consecutive items')
    env.cover('pairs')


@unit('P24', about='contains_duplicates: adjacent equal items')
def duplicates(env):
    from segpy import util
    items, n = numbers(env)
    r = env.call(util.contains_duplicates, items)
    env.check(r.ok, 'contains_duplicates: any series')
    want = env.exists(env.If(n > 0, n - 1, 0), lambda k: env.eq(env.at(items, k), env.at(items, k + 1)))
    if r.value:
        env.cover('duplicates')
        env.check(want, 'contains_duplicates: true only with adjacent equal items')
    else:
        env.cover('none')
        env.check(env.Not(want), 'contains_duplicates: true with adjacent equal items')


@unit('P24', about='measure_stride of a series')
def stride(env):
    from segpy import util
    items, n = numbers(env)
    r = env.call(util.measure_stride, items)
    env.check(r.ok, 'measure_stride: any series')
    m = env.If(n > 0, n - 1, 0)
    if r.value is None:
        env.cover('none')
        env.check(env.Or(n < 2, env.exists(m, lambda k: env.Not(env.eq(env.at(items, k + 1) - env.at(items, k),
                                                                      env.at(items, 1) - env.at(items, 0))))),
                  'measure_stride: reports every common difference')
    else:
        env.cover('some')
        env.check(n >= 2, 'measure_stride: two items at least')
        env.check(env.forall(m, lambda k: env.eq(env.at(items, k + 1) - env.at(items, k), r.value)),
                  'measure_stride: every difference is the stride')


@unit('P24', about='measure_stride of a range is its step')
def stride_of_range(env):
    from segpy import util
    a, b, s = env.int('start'), env.int('stop'), env.int('step')
    env.assume(env.Not(env.eq(s, 0)))
    r = env.call(util.measure_stride, range(a, b, s))
    env.check(r.ok and env.eq(r.value, s), 'measure_stride: step of a range')


@unit('P24', about='minmax: bounds which are attained; ValueError for an empty series')
def extremes(env):
    from segpy import util
    items, n = numbers(env)
    r = env.call(util.minmax, items)
    if not r.ok:
        env.cover('empty')
        env.check(env.And(r.raised(ValueError), env.eq(n, 0)), 'minmax: ValueError for an empty series only')
        return
    env.cover('some')
    lo, hi = r.value
    env.check(n > 0, 'minmax: an empty series has no extremes')
    env.check(env.forall(n, lambda k: env.And(lo <= env.at(items, k), env.at(items, k) <= hi)), 'minmax: bounds every item')
    env.check(env.exists(n, lambda k: env.eq(env.at(items, k), lo)), 'minmax: the minimum is an item')
    env.check(env.exists(n, lambda k: env.eq(env.at(items, k), hi)), 'minmax: the maximum is an item')


@unit('P24', about='is_sorted in all four modes, with and without key')
def sortedness(env):
    from segpy import util
    items, n = numbers(env)
    reverse, distinct = env.choice('reverse', [False, True]), env.choice('distinct', [False, True])
    negated = env.choice('negated', [False, True])
    if negated:
        r = env.call(util.is_sorted, items, key=lambda x: -x, reverse=reverse, distinct=distinct)
    else:
        r = env.call(util.is_sorted, items, reverse=reverse, distinct=distinct)
    env.check(r.ok, 'is_sorted: any series')

    def ordered(k):
        a, b = env.at(items, k), env.at(items, k + 1)
        if reverse != negated:
            a, b = b, a
        return a < b if distinct else a <= b
    want = env.forall(env.If(n > 0, n - 1, 0), ordered)
    if r.value:
        env.cover('sorted')
        env.check(want, 'is_sorted: true only if sorted')
    else:
        env.cover('not sorted')
        env.check(env.Not(want), 'is_sorted: true if sorted')


@unit('P24', about='is_sorted of ranges')
def sortedness_of_ranges(env):
    from segpy import util
    step = env.choice('step', [1, 2, 3, 7, -1, -2, -3, -7])
    items = range(env.int('start', -20 if not env.proving else None, 20 if not env.proving else None),
                  env.int('stop', -20 if not env.proving else None, 20 if not env.proving else None), step)
    reverse, distinct = env.choice('reverse', [False, True]), env.choice('distinct', [False, True])
    negated = env.choice('negated', [False, True])
    if negated:
        r = env.call(util.is_sorted, items, key=lambda x: -x, reverse=reverse, distinct=distinct)
    else:
        r = env.call(util.is_sorted, items, reverse=reverse, distinct=distinct)
    env.check(r.ok, 'is_sorted: any range')
    want = env.Or((step < 0) == (reverse != negated), env.length(items) < 2)
    env.check(env.Iff(r.value, want), 'is_sorted: a range is sorted in the sense of its step')


@unit('P24', about='is_sorted of a sorted set under a key', bounded='sets of up to 8 items', prove=False)
def sortedness_of_sets(env):
    from segpy import util
    from segpy.sorted_frozen_set import SortedFrozenSet
    items, n = numbers(env)
    items = SortedFrozenSet(items)
    reverse, distinct = env.choice('reverse', [False, True]), env.choice('distinct', [False, True])
    name, key = env.choice('key', [('none', None), ('negated', lambda x: -x), ('constant', lambda x: 0), ('parity', lambda x: x % 2)])
    r = env.call(util.is_sorted, items, key=key, reverse=reverse, distinct=distinct)
    keys = [x if key is None else key(x) for x in items]
    want = sorted(keys, reverse=reverse)
    env.check(r.ok and r.value == (keys == want and (not distinct or len(set(keys)) == len(keys))), 'is_sorted: a sorted set')


@unit('P24', about='round_up: the least multiple which is not less')
def rounding(env):
    from segpy import util
    i = env.int('integer')
    m = env.int('multiple')
    r = env.call(util.round_up, i, m)
    if not r.ok:
        env.cover('rejected')
        env.check(env.And(r.raised(ValueError), m <= 0), 'round_up: ValueError for a multiple which is not positive')
        return
    env.cover('rounded')
    env.check(m > 0, 'round_up: the multiple is positive')
    env.check(env.And(r.value >= i, r.value - i < m), 'round_up: less than a multiple above')
    env.check(env.eq(r.value % m, 0), 'round_up: a multiple')


@unit('P24', about='cmp and sgn')
def comparison(env):
    from segpy import util
    x, y = env.int('x'), env.int('y')
    r = env.call(util.cmp, x, y)
    env.check(r.ok, 'cmp: any integers')
    env.check(env.And(env.Iff(r.value < 0, x < y), env.Iff(r.value > 0, x > y)), 'cmp: sign of the comparison')
    r = env.call(util.sgn, x)
    env.check(r.ok, 'sgn: any integer')
    env.check(env.eq(r.value, env.If(x < 0, -1, env.If(x > 0, 1, 0))), 'sgn: sign')


def interval(env, name, kind):
    a = env.int(name + ' start')
    b = env.int(name + ' stop')
    env.assume(a < b)
    return kind(a, b)


@unit('P24', about='intervals_partially_overlap: common elements without coincidence')
def overlap(env):
    from segpy import util
    kind = env.choice('kind', [range, slice])
    a, b = interval(env, 'a', kind), interval(env, 'b', kind)
    r = env.call(util.intervals_partially_overlap, a, b)
    env.check(r.ok, 'intervals_partially_overlap: any intervals')
    same = env.And(env.eq(a.start, b.start), env.eq(a.stop, b.stop))
    meet = env.And(a.start < b.stop, b.start < a.stop)
    env.check(env.Iff(r.value, env.And(meet, env.Not(same))), 'intervals_partially_overlap: common elements without coincidence')
    if meet:
        env.cover('meet')
    else:
        env.cover('disjoint')


def intervals(env, least=0):
    """A sequence of intervals (start, stop) in any order"""
    n = env.size('n', least) if env.proving else env.size('n', least, 6)
    if env.proving:
        starts, stops = env.seq('starts', n), env.seq('stops', n)
        return [slice(env.at(starts, k), env.at(stops, k)) for k in range(n)], starts, stops, n
    at = env.int('first', -9, 9)
    starts, stops = [], []
    for i in range(n):
        at += env.choice('gap', [0, 0, 0, 1, 3, -1])
        starts.append(at)
        at += env.int('length{}'.format(i), 0, 4)
        stops.append(at)
    kind = env.choice('kind', [range, slice])
    return [kind(a, b) for a, b in zip(starts, stops)], starts, stops, n


@unit('P24', about='intervals_are_contiguous: each starts where the one before it stops')
def contiguous(env):
    from segpy import util
    items, starts, stops, n = intervals(env)
    r = env.call(util.intervals_are_contiguous, items)
    env.check(r.ok, 'intervals_are_contiguous: any intervals')
    want = env.forall(env.If(n > 0, n - 1, 0), lambda k: env.eq(env.at(stops, k), env.at(starts, k + 1)))
    if r.value:
        env.cover('contiguous')
        env.check(want, 'intervals_are_contiguous: true only if contiguous')
    else:
        env.cover('not contiguous')
        env.check(env.Not(want), 'intervals_are_contiguous: true if contiguous')


@unit('P24', about='complementary_intervals: alternate with the intervals')
def complements(env):
    from segpy import util
    items, starts, stops, n = intervals(env)
    first = env.int('from') if env.choice('start', [False, True]) else None
    last = env.int('to') if env.choice('stop', [False, True]) else None
    r = env.call(lambda: list(util.complementary_intervals(items, first, last)))
    if not r.ok:
        env.cover('empty')
        env.check(env.And(r.raised(ValueError), env.eq(n, 0)), 'complementary_intervals: ValueError without intervals only')
        return
    env.cover('some')
    out = r.value
    env.check(n > 0, 'complementary_intervals: no result without intervals')
    env.check(env.eq(env.length(out), n + 1), 'complementary_intervals: one more than the intervals')
    begin = env.at(starts, 0) if first is None else first
    end = env.at(stops, n - 1) if last is None else last
    env.check(env.And(env.eq(env.at(out, 0).start, begin), env.eq(env.at(out, n).stop, end)), 'complementary_intervals: end points')
    env.check(env.forall(n, lambda k: env.And(env.eq(env.at(out, k).stop, env.at(starts, k)),
                                              env.eq(env.at(out, k + 1).start, env.at(stops, k)))),
              'complementary_intervals: alternate with the intervals')
    if not env.proving:
        env.check(all(type(x) is type(items[0]) for x in out), 'complementary_intervals: type of the intervals')


@unit('P24', about='first and last item')
def ends(env):
    from segpy import util
    items, n = numbers(env)
    iterator = env.choice('iterator', [False, True])
    for name, f, k in (('first', util.first, 0), ('last', util.last, n - 1)):
        r = env.call(f, iter(items) if iterator else items)
        if r.ok:
            env.cover(name)
            env.check(n > 0, name + ': no item of an empty series')
            env.check(env.eq(r.value, env.at(items, k)), name + ': the item')
        else:
            env.cover('no ' + name)
            env.check(env.And(r.raised(ValueError), env.eq(n, 0)), name + ': ValueError for an empty series only')


@unit('P24', about='all_equal')
def equality(env):
    from segpy import util
    items, n = numbers(env)
    r = env.call(util.all_equal, items)
    env.check(r.ok, 'all_equal: any series')
    want = env.forall(n, lambda k: env.eq(env.at(items, k), env.at(items, 0)))
    if r.value:
        env.cover('equal')
        env.check(want, 'all_equal: true only if equal')
    else:
        env.cover('not equal')
        env.check(env.Not(want), 'all_equal: true if equal')


@unit('P24', about='pad: the items followed by the padding, to the requested length')
def padding(env):
    from segpy import util
    items, n = numbers(env)
    p = env.int('padding')
    size = env.size('size', 0) if env.proving else env.size('size', 0, 12)
    r = env.call(lambda: list(util.pad(items, p, size)))
    env.check(r.ok, 'pad: any series')
    out = r.value
    env.check(env.eq(env.length(out), size), 'pad: length')
    env.check(env.forall(size, lambda k: env.eq(env.at(out, k), env.If(k < n, env.at(items, env.If(k < n, k, 0)), p))
                         if env.proving else env.eq(out[k], items[k] if k < n else p)), 'pad: items, then padding')


def _batches(batch_size):
    def body(env):
        from segpy import util
        items, n = numbers(env)
        padded = env.choice('padded', [False, True])
        p = env.int('padding')
        r = env.call(lambda: list(util.batched(items, batch_size, p) if padded else util.batched(items, batch_size)))
        check_batches(env, r, items, n, batch_size, padded, p)
    return body


def check_batches(env, r, items, n, b, padded, p):
    env.check(r.ok, 'batched: any series')
    out = r.value
    count = env.length(out)
    env.check(env.And((count - 1) * b < n, n <= count * b), 'batched: number of batches')

    def batch(k):
        x = env.at(out, k)
        size = b if padded else env.If(k < count - 1, b, n - (count - 1) * b)
        return env.And(env.eq(env.length(x), size),
                       env.forall(env.length(x), lambda j: env.eq(env.at(x, j), env.at(items, k * b + j) if k * b + j < n else p)))
    env.check(env.forall(count, batch), 'batched: the batches are the items in order, full except the last')


@unit('P24', about='batched with any batch size', bounded='up to 30 items in batches of up to 12', prove=False)
def batches(env):
    from segpy import util
    n = env.size('n', 0, 30)
    items = env.seq('items', n)
    b = env.int('batch size', -1, 12)
    padded = env.choice('padded', [False, True])
    p = env.int('padding')
    r = env.call(util.batched, iter(items) if env.choice('iterator', [False, True]) else items, b, *([p] if padded else []))
    if b < 1:
        env.check(r.raised(ValueError), 'batched: ValueError for a batch size less than one')
        return
    env.check(r.ok, 'batched: any positive batch size')
    check_batches(env, env.call(list, r.value), items, n, b, padded, p)


@unit('P24', about='roundrobin: in turn from each series', bounded='up to 5 series of up to 6 items', prove=False)
def turns(env):
    from segpy import util
    m = env.int('series', 0, 5)
    series = [[(i, j) for j in range(env.int('n{}'.format(i), 0, 6))] for i in range(m)]
    r = env.call(lambda: list(util.roundrobin(*series)))
    env.check(r.ok, 'roundrobin: any series')
    want = sorted((x for s in series for x in s), key=lambda x: (x[1], x[0]))
    env.check(r.value == want, 'roundrobin: in turn from each series')


@unit('P24', about='range of a single item; four leading bytes')
def small(env):
    from segpy import util
    i = env.int('item')
    r = env.call(util.single_item_range, i)
    env.check(r.ok and env.And(env.eq(env.length(r.value), 1), env.eq(env.at(r.value, 0), i)), 'single_item_range: the item')
    n = env.size('bytes', 4) if env.proving else env.size('bytes', 4, 9)
    b = env.bytes('b', n)
    r = env.call(util.four_bytes, b)
    env.check(r.ok and env.And(*[env.eq(r.value[k], env.at(b, k)) for k in range(4)]), 'four_bytes: the leading bytes')
