"""C35: nested arrays, types and textual summaries."""
import itertools
import logging

from symx.run import Case
from props import ref

BOUNDS = "nested lists and arrays of up to 3 levels and 8 values, jagged and regular; 2-7 data values for the summaries; all values (and weights) symbolic"
OUTSIDE = "the default formats of summaries, deeper nesting"

# a number: a flat list of that many values; 's': a scalar; a tuple: a list of these
TREES = [
    's', 0, 1, 3, (2, 2), (1, 1), (2, 1), (1, 2, 3), (2, 0), (0, 0), (3, 0, 0), ((2, 2), (2, 2)), ((1, 2), (2, 1)),
    ((2, 2), (3, 3)), ((1,), (2, 1)), ((2, 2), (2, 2), (1,)), ((1, 1), (1, 1), (1, 1)),
    ('s', 2), (2, 's'), ('s', 's', 1), (('s', 1), 2),
]


def _leaves(t):
    return 1 if t == 's' else t if isinstance(t, int) else sum(_leaves(x) for x in t)


def _regular(t):
    """shape of a regular tree, otherwise None"""
    if t == 's':
        return ()
    if isinstance(t, int):
        return (t,)
    sh = [_regular(x) for x in t]
    if any(s is None or s != sh[0] for s in sh):
        return None
    return (len(t),) + sh[0]


def _build(env, t, vals, form):
    """`form`: lists, tuples, arrays at the bottom, or one array"""
    if t == 's':
        return next(vals)
    if isinstance(t, int):
        xs = [next(vals) for _ in range(t)]
        return env.np.array(xs) if form == 'arrays' else tuple(xs) if form == 'tuples' else xs
    xs = [_build(env, x, vals, form) for x in t]
    reg = _regular(t)
    if form == 'arrays' and reg is not None:
        return env.np.array(xs)
    return tuple(xs) if form == 'tuples' else xs


def h_nested(env, tree, form):
    env.merge()
    n = _leaves(tree)
    v = [env.real('x%d' % i) for i in range(n)]
    a = _build(env, tree, iter(v), form)
    U = env.utils
    reg = _regular(tree)
    flat = U.flatten(a)
    if tree == 's':
        env.eq('scalar', flat, v[0])
    else:
        env.check('flat', tuple(env.np.shape(flat)) == (n,))
        if n:
            env.eq('values', env.np.asarray(flat), env.np.array(v))
    env.check('number', int(U.flatlen(a)) == n)
    env.check('jagged', bool(U.isjagged(a)) == (reg is None))
    env.check('one-dimensional', bool(U.really1d(a)) == (isinstance(tree, int) or (tree != 's' and all(t == 's' for t in tree))))
    sh = U.jshape(a)
    if reg is not None:
        env.check('shape', tuple(sh) == reg)
    elif all(not isinstance(t, tuple) for t in tree):
        env.check('shape', len(sh) == 2 and tuple(sh[0]) == (len(tree),) and [tuple(s) for s in sh[1]] == [_regular(t) for t in tree])


def h_integer(env):
    U = env.utils
    r, i = env.real('r'), env.int('i', -5, 5)
    for v, want in ((r, False), (i, True), (env.vec('x', 2), False), (env.ivec('k', 3, -4, 4), True), (3, True), (2.0, False),
                    ([1, 2], True), ([1, 2.0], False), (env.np.array([[1, 2], [3, 4]]), True), (env.np.array([1.0, 2.0]), False)):
        env.check('kind', bool(U.isinteger(v)) == want)
        if not env.np.isscalar(v):
            env.check('not-iterable', not U.isinteger(v, iterable=False))
        else:
            env.check('scalar', bool(U.isinteger(v, iterable=False)) == want)


def h_array(env, n, num):
    x = env.vec('x', n)
    kw = {} if num == 'default' else dict(num=num)
    k = 3 if num == 'default' else num
    t = env.utils.array_str(x, format=':.17g', **kw)
    got = env.numbers(t)
    want = list(x) if k is None or n <= 2 * k else list(x[:k]) + list(x[n - k:])
    env.check('count', len(got) == len(want))
    for g, w in zip(got, want):
        env.eq('value', g, w)
    env.check('abbreviated', ('...' in t) == (len(want) < n))


def h_stats(env, n, weighted, percs, ave=False, std=False, data=None, log=False, fmt=':.17g', shape=None):
    env.merge()
    data = data or ('concrete' if weighted else 'real')
    if data == 'int':
        x = env.np.array([3, 1, 8, 4][:n])
    elif log:
        x = env.np.array([env.num(v) for v in (0.5, 3.0, 20.0, 7.0)[:n]])
    elif data == 'concrete':
        x = env.np.array([env.num(v) for v in (3.0, -1.0, 2.5, 7.0)[:n]])
    else:
        x = env.sorted_vec('x', n, 1e-3)
    w = env.np.array([env.real('w%d' % i, 0.1, 10) for i in range(n)]) if weighted else None
    if shape is not None:
        x = env.np.reshape(x, shape)
        w = env.np.reshape(w, shape) if w is not None else None
    kw = {}
    if percs != 'default':
        kw['percs'] = percs
    ps = [0.0, 0.16, 0.5, 0.84, 1.0] if percs == 'default' else [] if percs is None else list(percs) if isinstance(percs, (list, tuple)) else [percs]
    snap = env.snapshot(x)
    t = env.utils.stats_str(x, ave=ave, std=std, weights=w, log=log, format=fmt, **kw)
    got = env.numbers(t)
    xs = list(env.np.reshape(x, (-1,)))
    ws = list(env.np.reshape(w, (-1,))) if w is not None else [env.num(1.0)] * n
    if log:
        xs = [env.log10(v) for v in xs]
    xs = [v + env.num(0.0) for v in xs]
    m = ref.mean(xs, ws)
    want = []
    if ave:
        want.append(m)
    if std:
        want.append(env.sqrt(ref.tot([q * (v - m) * (v - m) for v, q in zip(xs, ws)]) / ref.tot(ws)))
    # the percentiles of the sorted values, each at half of its own weight above those below
    o = sorted(range(n), key=lambda i: float(xs[i])) if data in ('int', 'concrete') or log else range(n)
    xo, wo = [xs[i] for i in o], [ws[i] for i in o]
    tw = ref.tot(wo)
    at = [(ref.tot([env.num(0.0)] + wo[:i]) + wo[i] / 2) / tw for i in range(n)]
    for p in ps:
        r = xo[0]
        for i in range(n - 1):
            f = (env.num(p) - at[i]) / (at[i + 1] - at[i])
            r = env.ite(env.num(p) >= at[i + 1], xo[i + 1], env.ite(env.num(p) > at[i], xo[i] + f * (xo[i + 1] - xo[i]), r))
        want.append(r)
    want += [env.num(round(100 * p)) for p in ps]
    env.check('count', len(got) == len(want))
    for g, v in zip(got, want):
        env.eq('value', g, v, atol=1e-9)
    env.check('log', ('log' in t) == log)
    for a, b in zip(env.np.reshape(x, (-1,)), snap):
        env.eq('data-unchanged', a, b)


def h_summary(env, shape, num, what):
    """shape, values and statistics in one summary"""
    n = 1
    for k in shape:
        n *= k
    x = env.vec('x', n, -5, 5)
    kw = {}
    if num != 'default':
        kw['sample'] = num
    if what is not None:
        kw.update(what)
    a = x if len(shape) == 1 else x.reshape(shape)
    w_shape, w_stats = kw.get('shape', True), kw.get('stats', True)
    if not w_shape and num in (None, False) and not w_stats:
        env.raises('nothing-asked', lambda: env.utils.stats(a, **kw), (ValueError,))
        return
    t = env.utils.stats(a, **kw)
    got = env.numbers(t)
    if w_shape:
        env.check('shape', str(tuple(shape)) in t)
    want = (1 if w_shape else 0)
    env.check('statistics', ('%' in t) == bool(w_stats))
    env.check('values', ('[' in t) == (num not in (None, False)))
    env.check('something', len(t) >= want)


def h_weights(env):
    x = env.arr([1.0, 4.0, 2.0])
    for w in ([1.0, 2.0], [1.0, 2.0, 3.0, 4.0]):
        env.raises('weights', lambda: env.utils.stats_str(x, weights=env.arr(w), ave=True, format=':.2f'), (ValueError, TypeError, IndexError))


def cases(tier):
    thorough = tier == 'thorough'
    out = [Case('integer', h_integer), Case('weights', h_weights)]
    for sh, m in (((4,), 'default'), ((2,), 1), ((1,), None), ((1,), False)):
        for w in (None, dict(shape=False), dict(stats=False), dict(shape=False, stats=False)):
            if sh == (4,) and (w is None or w.get('stats', True)):
                continue
            out.append(Case('summary-%s-%s-%s' % (sh, m, w), h_summary, dict(shape=sh, num=m, what=w)))
    for t in TREES:
        for form in ('lists', 'arrays', 'tuples'):
            if form != 'lists' and t == 's':
                continue
            out.append(Case('nested-%s-%s' % (str(t).replace(' ', ''), form), h_nested, dict(tree=t, form=form)))
    for n in (1, 6, 7):
        for num in ('default', None, 1, 2):
            out.append(Case('array-%d-%s' % (n, num), h_array, dict(n=n, num=num)))
    for wt in (False, True):
        for n in (2, 3) + ((4,) if thorough else ()):
            for percs in ('default', [0.3], 0.5, [0.75, 0.25]):
                out.append(Case('stats-%d-%s-%s' % (n, wt, percs), h_stats, dict(n=n, weighted=wt, percs=percs)))
            out.append(Case('stats-all-%d-%s' % (n, wt), h_stats, dict(n=n, weighted=wt, percs=[0.25, 0.75], ave=True, std=True), opts=dict(fold_sqrt=True)))
            out.append(Case('stats-none-%d-%s' % (n, wt), h_stats, dict(n=n, weighted=wt, percs=None, ave=True)))
            out.append(Case('stats-empty-%d-%s' % (n, wt), h_stats, dict(n=n, weighted=wt, percs=[], std=True), opts=dict(fold_sqrt=True)))
            out.append(Case('stats-int-%d-%s' % (n, wt), h_stats, dict(n=n, weighted=wt, percs='default', ave=True, data='int')))
        out.append(Case('stats-log-%s' % wt, h_stats, dict(n=3, weighted=wt, percs='default', ave=True, log=True)))
        out.append(Case('stats-2d-%s' % wt, h_stats, dict(n=4, weighted=wt, percs=[0.3], ave=True, std=True, shape=(2, 2)), opts=dict(fold_sqrt=True)))
        out.append(Case('stats-nocolon-%s' % wt, h_stats, dict(n=3, weighted=wt, percs=[0.3], fmt='.17g')))
    return out
