"""C20: bounds and extrema of data."""
import itertools

from symx.run import Case
from props import large
from props import ref

BOUNDS = "400 values with all but some fixed; otherwise 1-4 values in 1-3 dimensions; values, bounds, stretches, previous extrema and limits symbolic; all combinations of missing bounds and options"
OUTSIDE = "larger arrays, rounding"


def h_bound(env, D, n, pat, outside, form):
    data = env.vec('d', n) if D == 1 and form != 'nested' else env.mat('d', D, n)
    rows = [list(data)] if D == 1 and form != 'nested' else ref.rows(data)
    b = []
    for d in range(D):
        lo = env.real('lo%d' % d) if 'l' in pat[d] else None
        hi = env.real('hi%d' % d) if 'h' in pat[d] else None
        if lo is not None and hi is not None:
            env.assume(lo <= hi)
        b.append([lo, hi])
    arg = b if D > 1 or form == 'nested' else b[0]
    if form == 'tuple':
        arg = tuple(tuple(x) for x in b) if D > 1 else tuple(b[0])
        data = data.tolist()
    elif form == 'inf':
        inf = float('inf')
        arg = [[-inf if lo is None else lo, inf if hi is None else hi] for lo, hi in b]
        if all(x is not None for r in b for x in r):
            arg = env.np.array(arg)
    kw = {} if outside is None else dict(outside=outside)
    r = env.utils.bound_indices(data, arg, **kw)
    r = env.np.asarray(r)
    env.check('one-per-point', tuple(r.shape) == (n,))
    env.check('boolean', r.dtype == bool)
    for k in range(n):
        c = []
        for d in range(D):
            lo, hi = b[d]
            x = rows[d][k]
            if outside:
                c += [x < lo] if lo is not None else []
                c += [hi < x] if hi is not None else []
            else:
                c += [x > lo] if lo is not None else []
                c += [x < hi] if hi is not None else []
            if lo is not None:
                env.assume(x != lo)
            if hi is not None:
                env.assume(x != hi)
        if outside:
            want = env.Or(*c) if c else False
        else:
            want = env.And(*c) if c else True
        got = r[k]
        env.check('which', env.And(env.implies(got, want), env.implies(want, got)) if c else (env.Not(got) if outside else got))


def h_edge(env, D):
    """points exactly on a bound are neither strictly inside nor outside"""
    lo, hi = env.real('lo'), env.real('hi')
    env.assume(lo < hi)
    data = env.np.array([lo, hi, (lo + hi) / 2])
    i = env.utils.bound_indices(data, [lo, hi])
    o = env.utils.bound_indices(data, [lo, hi], outside=True)
    for k, (a, b) in enumerate([(False, False), (False, False), (True, False)]):
        env.check('inside', env.Not(i[k]) if not a else i[k])
        env.check('outside', env.Not(o[k]))


def h_minmax(env, n, opt, form='float', prev='', limit='', positive=False):
    env.merge()
    if form == 'int':
        data = env.ivec('d', n, -9, 9)
    elif positive or 'log' in opt:
        data = env.vec('d', n, -100 if positive else 0, 100, lo_strict=True)
    else:
        data = env.vec('d', n, -100, 100)
    vals = list(data)
    arg = data.tolist() if form == 'list' else data
    if form == '2d':
        arg = env.np.reshape(data, (2, -1))
    kw = {}
    if positive:
        kw['positive'] = True
        keep = [v for v in vals if bool(v > 0)]
    else:
        keep = vals
    p = [env.real('p%d' % i, -100, 100) if c in prev else None for i, c in enumerate('lh')]
    if prev:
        kw['prev'] = p if prev != 'lh' else env.np.array(p)
    if not keep:
        r = env.utils.minmax(arg, **kw)
        if prev:
            env.check('previous', len(r) == 2)
            for i in range(2):
                if p[i] is not None:
                    env.eq('previous', r[i], p[i])
        else:
            env.check('nothing', r is None)
        return
    lo, hi = env.min(*keep), env.max(*keep)
    lo, hi = lo + env.num(0.0), hi + env.num(0.0)
    if opt:
        s = [env.real('s0', 0, 2), env.real('s1', 0, 2)]
        if 'one' in opt:
            s[1] = s[0]
        kw['log_stretch' if 'log' in opt else 'stretch'] = s[0] if 'one' in opt else s
        if 'log' in opt:
            a, b = env.log10(lo), env.log10(hi)
        else:
            a, b = lo, hi
        c = (a + b) / 2
        a, b = c - (1 + s[0]) * (c - a), c + (1 + s[1]) * (b - c)
        if 'log' in opt:
            a, b = env.pow(10.0, a), env.pow(10.0, b)
        lo, hi = a, b
    if prev:
        lo = env.min(lo, p[0]) if p[0] is not None else lo
        hi = env.max(hi, p[1]) if p[1] is not None else hi
    if limit:
        m = [env.real('m%d' % i, -100, 100) if c in limit else None for i, c in enumerate('lh')]
        kw['limit'] = m
        lo = env.max(lo, m[0]) if m[0] is not None else lo
        hi = env.min(hi, m[1]) if m[1] is not None else hi
    r = env.utils.minmax(arg, **kw)
    env.check('two', tuple(env.np.shape(r)) == (2,))
    env.eq('lower', r[0], lo)
    env.eq('upper', r[1], hi)
    if prev == 'lh':
        env.eq('previous-not-modified', kw['prev'], env.np.array(p))
    for a, b in zip(data, vals):
        env.eq('data-not-modified', a, b)


def h_empty(env):
    m = env.utils.minmax
    p = [env.real('a'), env.real('b')]
    env.check('nothing', m(env.arr([])) is None)
    env.check('previous', m([], prev=p) is p or list(m([], prev=p)) == p)
    env.check('no-positive', m(env.arr([-1.0, 0.0]), positive=True) is None)
    for lim in ([env.real('l'), None], [None, env.real('h')], [env.real('l2'), env.real('h2')]):
        env.check('nothing-limit', m(env.arr([]), limit=lim) is None)
        r = m(env.arr([]), prev=p, limit=lim)
        env.check('previous-limit', r is not None and env.np.size(r) == 2)
        if r is not None:
            # the limits may be applied to the previous values as well
            env.check('previous-limit', env.Or(env.And(r[0] == p[0], r[1] == p[1]), env.And(
                r[0] == (p[0] if lim[0] is None else env.max(p[0], lim[0])), r[1] == (p[1] if lim[1] is None else env.min(p[1], lim[1])))))
        r = m(env.arr([-2.0, 0.0]), positive=True, prev=p, limit=lim)
        env.check('previous-positive', r is not None and env.np.size(r) == 2)
        if r is not None and lim[1] is None:
            env.eq('previous-positive', r[1], p[1])
    env.raises('both', lambda: m(env.arr([1.0, 2.0]), stretch=0.1, log_stretch=0.1), (ValueError,))
    env.raises('three', lambda: m(env.arr([1.0, 2.0]), stretch=[0.1, 0.2, 0.3]), (ValueError,))
    env.raises('prev', lambda: m(env.arr([1.0, 2.0]), prev=[0.1]), (AssertionError, ValueError))
    env.raises('limit', lambda: m(env.arr([1.0, 2.0]), limit=[0.1, 0.2, 0.3]), (AssertionError, ValueError))


def h_unbounded(env, D, n):
    """without any bounds every point is inside and none outside"""
    x = env.vec('x', n) if D == 1 else env.mat('x', D, n)
    for b in (None, [None, None]) if D == 1 else ([[None, None]] * D,):
        env.check('inside', [bool(v) for v in env.utils.bound_indices(x, b)] == [True] * n)
        env.check('outside', [bool(v) for v in env.utils.bound_indices(x, b, outside=True)] == [False] * n)


def h_nan(env, limit):
    """without usable values the limits remain"""
    env.merge()
    x = env.np.array([env.real('x', -10, 10), env.num(float('nan'))])
    l = [env.real('l%d' % i, -100, 100) if c in limit else None for i, c in enumerate('lh')]
    r = env.utils.minmax(x, limit=l)
    for i in range(2):
        if l[i] is None:
            env.check('undefined', env.isnan(r[i]))
        else:
            env.eq('limit', r[i], l[i])


def h_extrema(env, D, pat, form):
    """extrema of an estimate: as given, filled in from the data and the kernel width"""
    env.merge()
    n = 3
    data = env.vec('d', n, -50, 50) if D == 1 else env.np.array([list(env.vec('d', n, -50, 50))] + [list(env.arr([0.0, 1.5, -2.0]))] * (D - 1))
    rows = [list(data)] if D == 1 else ref.rows(data)
    b = []
    for d in range(D):
        lo = env.real('lo%d' % d, -90, -60) if 'l' in pat[d] else None
        hi = env.real('hi%d' % d, 60, 90) if 'h' in pat[d] else None
        b.append([lo, hi])
    arg = [None if x == [None, None] and form != 'lists' else (list(x) if form != 'tuples' else tuple(x)) for x in b]
    if D == 1 and form != 'nested':
        arg = arg[0] if arg[0] is not None else None
    if form == 'shared':
        arg = list(b[0])
        b = [b[0]] * D
    kde = env.kale.KDE(data, bandwidth=env.num(0.5), covariance=env.arr([[1.0 if i == j else 0.0 for j in range(D)] for i in range(D)]),
                       kernel='box', extrema=arg)
    e = kde.extrema
    env.check('one-per-dimension', len(e) == D)
    for d in range(D):
        lo, hi = b[d]
        if lo is not None:
            env.eq('lower', e[d][0], lo)
        else:
            env.le('covers-data', e[d][0], env.min(*rows[d]))
            env.le('within-reach', env.min(*rows[d]) - 1.0, e[d][0])
        if hi is not None:
            env.eq('upper', e[d][1], hi)
        else:
            env.le('covers-data', env.max(*rows[d]), e[d][1])
            env.le('within-reach', e[d][1], env.max(*rows[d]) + 1.0)


def h_large(env, n):
    """many values: all but some fixed"""
    at = [n // 3]
    v = large.vec(env, 'v', n, -5, 5, free=at)
    lo, hi = env.utils.minmax(env.arr(v))
    rest = [x for i, x in enumerate(v) if i not in at]
    low, up = rest[0], rest[0]
    for x in rest[1:]:
        low, up = (x if bool(x < low) else low), (x if bool(x > up) else up)
    env.eq('lowest', lo, env.min(low, *[v[i] for i in at]))
    env.eq('highest', hi, env.max(up, *[v[i] for i in at]))
    b = env.real('b', -1, 1)
    r = env.np.asarray(env.utils.bound_indices(env.arr(large.vec(env, 'x', n, 2, 5, free=[]) + [b, -b]), [-2.0, 1.5]))
    env.check('number', tuple(r.shape) == (n + 2,))
    for i in range(n):
        env.check('outside', env.Not(r[i]))
    env.check('inside', env.And(r[n], r[n + 1]))


def cases(tier):
    q = tier == 'quick'
    out = [Case('empty', h_empty), Case('edge', h_edge, dict(D=1))] + [Case('unbounded-%dd' % D, h_unbounded, dict(D=D, n=3)) for D in (1, 2, 3)]
    out += [Case('nan-%s' % p, h_nan, dict(limit=p)) for p in ('l', 'h', 'lh')]
    pats = ['lh', 'l', 'h', '']
    for o in (None, False, True):
        for p in pats:
            out.append(Case('bound-1d-%s-%s' % (o, p), h_bound, dict(D=1, n=3, pat=[p], outside=o, form='flat')))
        for f in ('nested', 'tuple', 'inf'):
            for p in ('lh', 'h'):
                out.append(Case('bound-1d-%s-%s-%s' % (o, p, f), h_bound, dict(D=1, n=3, pat=[p], outside=o, form=f)))
        if o is None:
            continue
        for p in itertools.product(pats, repeat=2):
            out.append(Case('bound-2d-%s-%s' % (o, '.'.join(p)), h_bound, dict(D=2, n=2, pat=list(p), outside=o, form='flat')))
            if p in (('lh', 'h'), ('', 'lh'), ('lh', 'lh')):
                for f in ('tuple', 'inf'):
                    out.append(Case('bound-2d-%s-%s-%s' % (o, '.'.join(p), f), h_bound, dict(D=2, n=2, pat=list(p), outside=o, form=f)))
        out.append(Case('bound-3d-%s' % o, h_bound, dict(D=3, n=2, pat=['lh', 'h', 'lh'], outside=o, form='flat')))
    for opt in ('', 'one', 'two', 'logone', 'logtwo'):
        for f in ('float', 'int', 'list', '2d'):
            if f == 'int' and 'log' in opt:
                continue
            out.append(Case('minmax-%s-%s' % (opt, f), h_minmax, dict(n=3 if f != '2d' else 4, opt=opt, form=f)))
        for p in ('lh', 'l', 'h'):
            out.append(Case('minmax-%s-prev-%s' % (opt, p), h_minmax, dict(n=2, opt=opt, prev=p)))
            out.append(Case('minmax-%s-limit-%s' % (opt, p), h_minmax, dict(n=2, opt=opt, limit=p)))
        out.append(Case('minmax-%s-all' % opt, h_minmax, dict(n=2, opt=opt, prev='lh', limit='lh')))
    for p in ('', 'lh', 'l'):
        for f in ('float', 'list', 'int'):
            out.append(Case('minmax-positive-%s-%s' % (p, f), h_minmax, dict(n=3, opt='', prev=p, positive=True, form=f)))
    for p in (('lh',), ('l',), ('h',), ('',)):
        for f in ('plain', 'tuples', 'nested'):
            if f == 'nested' and p == ('',):
                continue
            out.append(Case('extrema-1d-%s-%s' % (p[0], f), h_extrema, dict(D=1, pat=list(p), form=f)))
    for p in (('lh', 'lh'), ('l', 'h'), ('', 'lh'), ('h', ''), ('l', 'l')):
        for f in ('plain', 'lists', 'tuples') + (('shared',) if p[0] == p[1] else ()):
            out.append(Case('extrema-2d-%s-%s' % ('.'.join(p), f), h_extrema, dict(D=2, pat=list(p), form=f)))
    out.append(Case('large', h_large, dict(n=400)))
    return out
