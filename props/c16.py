"""C16: integrating gridded densities with the trapezoid rule: masses per cell, totals, cumulative integrals."""
import itertools

from symx.run import Case
from props import large

BOUNDS = "grids of up to 500 points with all but some densities fixed; otherwise grids of 1 to 3 dimensions with 2 to 4 edges per dimension; densities and (increasing) edges symbolic"
OUTSIDE = "larger grids; floating point rounding"


def _grid(env, shape, edges):
    ed = []
    for d, n in enumerate(shape):
        if edges == 'sym':
            ed.append(env.sorted_vec('e%d_' % d, n))
        else:
            ed.append(env.arr([[0.0, 1.0, 3.0, 3.5, 5.0], [-1.0, 0.5, 1.0, 2.0, 4.0], [2.0, 3.0, 7.0, 8.0, 9.0]][d][:n]))
    vals = env.np.reshape(env.vec('p', _size(shape)), shape)
    return ed, vals


def _size(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def _mass(env, ed, vals, shape, axes):
    """dict index -> mass: mean of the corners along `axes` times the widths"""
    out_shape = [n - 1 if d in axes else n for d, n in enumerate(shape)]
    out = {}
    for idx in itertools.product(*[range(n) for n in out_shape]):
        tot = 0
        for c in itertools.product(*[(0, 1) if d in axes else (0,) for d in range(len(shape))]):
            tot = tot + vals[tuple(i + k for i, k in zip(idx, c))]
        v = tot / 2 ** len(axes)
        for d in axes:
            v = v * (ed[d][idx[d] + 1] - ed[d][idx[d]])
        out[idx] = v
    return out_shape, out


def _cmp(env, label, got, shape, exp):
    env.check(label + '-shape', tuple(env.np.shape(got)) == tuple(shape))
    if tuple(env.np.shape(got)) != tuple(shape):
        return
    for idx, v in exp.items():
        env.eq(label, got[idx], v)


def _axes(axis, nd):
    if axis is None:
        return list(range(nd))
    a = [axis] if isinstance(axis, int) else list(axis)
    return sorted(x % nd for x in a)


def h_mass(env, shape, axis, edges, form='list'):
    ed, vals = _grid(env, shape, edges)
    snap = env.snapshot(vals)
    arg = ed[0] if form == 'flat' else (tuple(ed) if form == 'tuple' else ed)
    got = env.utils.trapz_dens_to_mass(vals, arg, axis=axis)
    sh, exp = _mass(env, ed, vals, shape, _axes(axis, len(shape)))
    _cmp(env, 'mass', got, sh, exp)
    env.eq('input-unchanged', env.np.reshape(vals, (-1,)), snap)
    if form == 'list' and axis is None:
        tot = env.utils.trapz_nd(vals, ed)
        s = 0
        for v in exp.values():
            s = s + v
        env.eq('total', tot, s)


def h_trapznd(env, shape, axis, edges):
    ed, vals = _grid(env, shape, edges)
    got = env.utils.trapz_nd(vals, ed, axis=axis)
    ax = _axes(axis, len(shape))
    sh, m = _mass(env, ed, vals, shape, ax)
    exp = {}
    for idx, v in m.items():
        k = tuple(i for d, i in enumerate(idx) if d not in ax)
        exp[k] = exp[k] + v if k in exp else v
    _cmp(env, 'integral', got, [n for d, n in enumerate(shape) if d not in ax], exp)


def h_cum(env, shape, axis, edges, prepend):
    ed, vals = _grid(env, shape, edges)
    got = env.utils.cumtrapz(vals, ed, prepend=prepend, axis=axis)
    ax = _axes(axis, len(shape))
    sh, m = _mass(env, ed, vals, shape, ax)
    off = 1 if prepend else 0
    sh2 = [n + off if d in ax else n for d, n in enumerate(sh)]
    exp = {}
    for idx in itertools.product(*[range(n) for n in sh2]):
        s = env.num(0.0)
        for j, v in m.items():
            if all((b < a + 1 - off) if d in ax else a == b for d, (a, b) in enumerate(zip(idx, j))):
                s = s + v
        exp[idx] = s
    _cmp(env, 'cumulative', got, sh2, exp)


def h_mono(env, shape):
    """non-negative densities give non-decreasing cumulative masses ending at the total"""
    ed, _ = _grid(env, shape, 'sym')
    vals = env.np.reshape(env.vec('q', _size(shape), 0), shape)
    c = env.utils.cumtrapz(vals, ed)
    env.eq('zero-start', c[(0,) * len(shape)], env.num(0.0))
    for d in range(len(shape)):
        n = shape[d]
        for i in range(n - 1):
            a = c[tuple(slice(None) if k != d else i for k in range(len(shape)))]
            b = c[tuple(slice(None) if k != d else i + 1 for k in range(len(shape)))]
            env.le('monotone', a, b)
    env.eq('end-total', c[(-1,) * len(shape)], env.utils.trapz_nd(vals, ed))


def h_cumsum(env, shape, axis, form='array'):
    vals = env.np.reshape(env.vec('v', _size(shape)), shape)
    snap = env.snapshot(vals)
    got = env.utils.cumsum(vals.tolist() if form == 'list' else vals, axis=axis)
    ax = _axes(axis, len(shape))
    exp = {}
    for idx in itertools.product(*[range(n) for n in shape]):
        s = 0
        for j in itertools.product(*[range(n) for n in shape]):
            if all((b <= a) if d in ax else a == b for d, (a, b) in enumerate(zip(idx, j))):
                s = s + vals[j]
        exp[idx] = s
    _cmp(env, 'cumsum', got, shape, exp)
    env.eq('input-unchanged', env.np.reshape(vals, (-1,)), snap)


def h_bad(env, shape, bad):
    vals = env.np.reshape(env.vec('p', _size(shape)), shape)
    ed = [env.arr([float(i) for i in range(n)]) for n in bad]
    for f in ('trapz_dens_to_mass', 'trapz_nd', 'cumtrapz'):
        env.raises('mismatch-' + f, lambda: getattr(env.utils, f)(vals, ed), (ValueError,))


def h_large(env, shape, axis):
    """many cells: all but some densities fixed"""
    ed = [env.arr([round(i + 0.3 * (i % 3) - 0.1 * (i % 2), 3) for i in range(n)]) for n in shape]
    vals = env.np.reshape(env.arr(large.vec(env, 'p', _size(shape), 0, 5)), shape)
    axes = _axes(axis, len(shape))
    osh, exp = _mass(env, ed, vals, shape, axes)
    kw = {} if axis is None else dict(axis=axis)
    _cmp(env, 'mass', env.utils.trapz_dens_to_mass(vals, ed, **kw), osh, exp)
    if axis is not None:
        return
    tot = 0
    for x in exp.values():
        tot = tot + x
    env.eq('total', env.utils.trapz_nd(vals, ed), tot)
    c = env.utils.cumtrapz(vals, ed)
    want = {}
    for k in itertools.product(*[range(n) for n in shape]):
        if 0 in k:
            want[k] = env.num(0.0)
            continue
        x = exp[tuple(i - 1 for i in k)]
        for r in itertools.product(*[(0, 1)] * len(shape)):
            if sum(r):
                y = want[tuple(i - j for i, j in zip(k, r))]
                x = x + y if sum(r) % 2 else x - y
        want[k] = x
    _cmp(env, 'cumulative', c, shape, want)


def cases(tier):
    out = []
    q = tier == 'quick'
    shapes = [(2,), (4,), (2, 3), (3, 2), (3, 3), (2, 2, 2), (2, 3, 2)]
    if not q:
        shapes += [(5,), (4, 4), (5, 3), (3, 3, 3), (4, 2, 3)]
    for sh in shapes:
        nd = len(sh)
        e = 'sym' if _size(sh) <= (12 if q else 16) else 'fixed'
        s = 'x'.join(map(str, sh))
        axes = [None] + list(range(nd)) + [-1]
        if nd > 1:
            axes += [(0, 1), (1, 0), (-1, -2), (-1, 0)]
        if nd > 2:
            axes += [(0, 2), (2, 1), -2, (2, -2), (-3, 2)]
        for a in axes:
            an = str(a).replace(' ', '')
            out.append(Case('mass-%s-%s' % (s, an), h_mass, dict(shape=sh, axis=a, edges=e)))
            out.append(Case('integral-%s-%s' % (s, an), h_trapznd, dict(shape=sh, axis=a, edges=e)))
            if a is None or isinstance(a, int):
                for p in (True, False):
                    out.append(Case('cum-%s-%s-%s' % (s, an, 'p' if p else 'n'), h_cum,
                                    dict(shape=sh, axis=a, edges=e, prepend=p)))
                out.append(Case('cumsum-%s-%s' % (s, an), h_cumsum, dict(shape=sh, axis=a)))
        out.append(Case('mono-%s' % s, h_mono, dict(shape=sh)))
    out.append(Case('mass-flat', h_mass, dict(shape=(3,), axis=None, edges='sym', form='flat')))
    out.append(Case('mass-tuple', h_mass, dict(shape=(3, 2), axis=None, edges='sym', form='tuple')))
    out.append(Case('cumsum-list', h_cumsum, dict(shape=(3, 2), axis=None, form='list')))
    for sh, bad in (((3,), (2,)), ((3, 2), (2, 3)), ((3, 2), (3, 3)), ((2, 2, 2), (2, 2, 3))):
        out.append(Case('bad-%s-%s' % (sh, bad), h_bad, dict(shape=sh, bad=bad)))
    for sh in ((300,), (25, 20)):
        out.append(Case('large-%s' % (sh,), h_large, dict(shape=sh, axis=None)))
    return out
