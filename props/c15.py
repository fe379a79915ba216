"""C15: samples of a grid carry the scalar of their own cell; proportional sampling follows the portion."""
import itertools

from symx.run import Case
from props import ref
from props.c12 import cell_mass, columns, locate, share_law, _prod

BOUNDS = "1-3 dimensions, 1-4 cells, 1-2 samples; densities, portions, scalars and all random draws symbolic"
OUTSIDE = "larger grids and sample sizes; interpolated scalars in cells of a volume other than one, or a density which is not constant; rounding"

EDGES = [0.0, 1.0, 1.5, 4.0]


def _grid(env, D, sh, unit=False):
    e = [env.arr(([0.0, 1.0, 2.0, 3.0] if unit else EDGES)[:s]) for s in sh]
    bins = tuple(s - 1 for s in sh)
    return e, bins


def h_scalar(env, D, sh, given, form, size=1, interpolate=False):
    env.merge()
    e, bins = _grid(env, D, sh, unit=interpolate)
    if interpolate:
        c = env.pos('c')
        dens = env.np.reshape(env.np.array([c] * _prod(sh)), sh)
    else:
        dens = env.np.reshape(env.arr([1.0, 3.0, 0.5, 2.0, 0.25, 4.0, 0.0, 1.0, 2.0, 1.5, 0.5, 3.0][:_prod(sh)]), sh)
    sd = env.np.reshape(env.vec('s', _prod(sh), -100, 100), sh)
    kw = dict(scalar_dens=sd)
    sm = cell_mass(env, e, sd, bins)
    if given:
        g = env.np.reshape(env.vec('g', _prod(bins), -100, 100), bins)
        kw['scalar_mass'] = g
        sm = {i: g[i] for i in sm}
    held = list(kw.values()) + [dens]
    snap = [env.snapshot(x) for x in held]
    edges = e if D > 1 else e[0]
    if form == 'function':
        v, s = env.kale.sample_grid(edges, dens, size, interpolate=interpolate, **kw)
        env.check('shape', tuple(env.np.shape(v)) == (((size,) if size > 1 else ()) if D == 1 else (D, size)))
    elif form == 'unsqueezed':
        v, s = env.kale.sample_grid(edges, dens, size, interpolate=interpolate, squeeze=False, **kw)
        env.check('shape', tuple(env.np.shape(v)) == (D, size) and tuple(env.np.shape(s)) == (size,))
    else:
        k = dict(return_scalar=True) if form == 'class-asked' else {}
        v, s = env.sample.Sample_Grid(edges, dens, **kw).sample(size, interpolate=interpolate, **k)
        env.check('shape', tuple(env.np.shape(v)) == (D, size) and tuple(env.np.shape(s)) == (size,))
    for x, y in zip(held, snap):
        for a, b in zip(env.np.reshape(x, (-1,)), y):
            env.eq('inputs-not-modified', a, b)
    c = columns(env, v, D)
    s = env.np.reshape(s, (-1,))
    env.check('number', len(c) == size and len(s) == size)
    for x, y in zip(c, s):
        for d in range(D):
            env.check('in-grid', env.And(x[d] >= e[d][0], x[d] <= e[d][-1]))
            for t in e[d][1:-1]:
                env.assume(x[d] != t)
        k = locate(env, x, e, bins)
        want = sm[k]
        if interpolate:
            corners = list(itertools.product((0, 1), repeat=D))
            for d in range(D):
                g = ref.tot([sd[tuple(i + j for i, j in zip(k, b))] * (1 if b[d] else -1) for b in corners]) / (len(corners) / 2)
                want = want + g * (x[d] - e[d][k[d]] - 0.5)
        env.eq('scalar-of-the-cell', y, want, atol=1e-7)


def h_none(env, D):
    """without scalars, or if they are not wanted, only the points are returned"""
    env.merge()
    sh = {1: (3,), 2: (2, 3)}[D]
    e, bins = _grid(env, D, sh)
    dens = env.np.reshape(env.arr([1.0, 3.0, 0.5, 2.0, 0.25, 4.0][:_prod(sh)]), sh)
    sd = env.np.reshape(env.vec('s', _prod(sh)), sh)
    ed = e if D > 1 else e[0]
    env.set_rng(u=lambda k: env.num(0.3 + 0.1 * (k % 5)))
    S, f = env.sample.Sample_Grid, env.kale.sample_grid
    for a in (S(ed, dens, scalar_dens=sd).sample(2, return_scalar=False), S(ed, dens).sample(2), S(ed, dens).sample(2, return_scalar=True),
              f(ed, dens, 2, squeeze=False), f(ed, dens, 2, scalar_dens=sd, squeeze=False, return_scalar=False)):
        env.check('only-points', not isinstance(a, tuple) and tuple(env.np.shape(a)) == (D, 2))


def h_prop(env, D, sh, given, size=1, interpolate=False, zero=False):
    """portion decides where the samples are, their weight is the density relative to it"""
    e, bins = _grid(env, D, sh)
    if D == 1 or size > 1:
        dens = env.np.reshape(env.vec('p', _prod(sh), 0, 100), sh)
    else:
        dens = env.np.reshape(env.vec('p', _prod(sh), 0, 100), sh)
    base = [1.0, 2.0, 0.5, 1.5, 0.25, 4.0, 1.0, 3.0][:_prod(sh)]
    por = [env.real('q%d' % i, 0, 100, lo_strict=not zero) if i in (0, 2) else env.num(x) for i, x in enumerate(base)]
    if zero:
        por[1] = env.num(0.0)
    por = env.np.reshape(env.np.array(por), sh)
    rel = {}
    for i in itertools.product(*[range(s) for s in sh]):
        rel[i] = env.num(0.0) if bool(por[i] <= 0) else dens[i] / por[i]
    reld = env.np.reshape(env.np.array([rel[i] for i in sorted(rel)]), sh)
    w = cell_mass(env, e, reld, bins)
    kw = {}
    if given:
        g = env.np.reshape(env.vec('g', _prod(bins), 0, 100), bins)
        kw['mass'] = g
        m = {i: g[i] for i in w}
    else:
        m = cell_mass(env, e, por, bins)
    env.assume(ref.tot(list(m.values())) > 0)
    d0 = [dens[i] for i in rel]
    p0 = [por[i] for i in rel]
    edges = e if D > 1 else e[0]
    v, s = env.sample.sample_grid_proportional(edges, dens, por, size, interpolate=interpolate, **kw)
    for a, b, i in zip(d0, p0, rel):
        env.eq('inputs-not-modified', dens[i], a)
        env.eq('inputs-not-modified', por[i], b)
    c = columns(env, v, D)
    s = env.np.reshape(s, (-1,))
    env.check('number', len(c) == size and len(s) == size)
    u = env.draws('u')
    for x, y in zip(c, s):
        for d in range(D):
            env.check('in-grid', env.And(x[d] >= e[d][0], x[d] <= e[d][-1]))
            for t in e[d][1:-1]:
                env.assume(x[d] != t)
        k = locate(env, x, e, bins)
        env.check('cell-has-a-portion', m[k] > 0)
        env.eq('weight', y, w[k], rtol=1e-7, atol=1e-7)
        if len(u) == D + 1:
            share_law(env, 'by-portion', k, m, u)


def cases(tier):
    q = tier == 'quick'
    out = []
    for D in (1, 2):
        out.append(Case('none-%dd' % D, h_none, dict(D=D)))
    SH = {1: (4,), 2: (2, 3), 3: (2, 2, 3)}
    for D in (1, 2, 3):
        for given in (False, True):
            for form in ('class', 'class-asked', 'function', 'unsqueezed'):
                if D == 3 and form != 'class' and q:
                    continue
                for size in ((1, 2) if D == 1 else (1,)):
                    out.append(Case('scalar-%dd%s-%s-%d' % (D, '-given' if given else '', form, size), h_scalar,
                                    dict(D=D, sh=SH[D], given=given, form=form, size=size), weight=D))
        out.append(Case('interp-%dd' % D, h_scalar, dict(D=D, sh=SH[D], given=False, form='class', interpolate=True), weight=D))
    for D in (1, 2):
        for given in (False, True):
            for z in (False, True):
                out.append(Case('prop-%dd%s%s' % (D, '-given' if given else '', '-zero' if z else ''), h_prop,
                                dict(D=D, sh=((3,) if z and given else SH[D]) if D == 1 else (2, 3), given=given, zero=z), weight=3))
    return out
