"""C13: within a cell, grid samples follow the density interpolated linearly between the grid points."""
import itertools

from symx.run import Case
from props import ref
from props.c12 import cell_mass, columns, locate, _prod

BOUNDS = "1-3 dimensions, 1-3 cells, one sample; densities, edges (1-D) and all random draws symbolic"
OUTSIDE = "larger grids, correlations between the dimensions within a cell (each dimension follows its own marginal), relative gradients of less than 1e-9 other than zero (some of them are decided, near-flat-*), rounding"


def h(env, D, sh, interpolate=True, form='class', conc=True, given=False, pin=None):
    e = [env.arr([0.0, 1.0, 1.5, 4.0][:s]) if conc else env.sorted_vec('e%d_' % d, s, gap=env.num(0.0)) for d, s in enumerate(sh)]
    dens = env.np.reshape(env.vec('p', _prod(sh), 0, 100), sh)
    bins = tuple(s - 1 for s in sh)
    m = cell_mass(env, e, dens, bins)
    kw = {}
    if given:
        kw['mass'] = env.np.reshape(env.arr([1.0, 3.0, 0.5, 2.0][:_prod(bins)]), bins)
    tot = ref.tot(list(m.values()))
    env.assume(tot > 0)
    edges = e if D > 1 else e[0]
    if form == 'function':
        v = env.kale.sample_grid(edges, dens, 1, interpolate=interpolate, **kw)
    elif form == 'default':
        v = env.sample.Sample_Grid(edges, dens, **kw).sample(1)
    elif form == 'int':
        dens = env.np.reshape(env.ivec('q', _prod(sh), 0, 6), sh)
        env.assume(dens[(0,) * D] + dens[(1,) * D] > 0)
        v = env.sample.Sample_Grid(edges, dens, **kw).sample(1)
    else:
        v = env.sample.Sample_Grid(edges, dens, **kw).sample(1, interpolate=interpolate)
    x = columns(env, v, D)[0]
    for d in range(D):
        env.le('in-grid', e[d][0], x[d])
        env.le('in-grid', x[d], e[d][-1])
        for t in e[d][1:-1]:
            env.assume(x[d] != t)
    k = locate(env, x, e, bins)
    u = env.draws('u')
    if len(u) != D + 1:
        env.reach('other-draws')
        return
    corners = list(itertools.product((0, 1), repeat=D))
    val = {c: dens[tuple(i + j for i, j in zip(k, c))] for c in corners}
    ave = ref.tot([val[c] for c in corners]) / len(corners)
    # P(dimension d below x) is u:   u = t + g (t**2 - t) / 2, multiplied by the average density (unless that is zero)
    flat = bool(ave <= 0) or not interpolate
    lhs = []
    for d in range(D):
        w = e[d][k[d] + 1] - e[d][k[d]]
        t = (x[d] - e[d][k[d]]) / w
        if flat:
            lhs.append((t, env.num(1.0)))
        else:
            g = ref.tot([val[c] * (1 if c[d] else -1) for c in corners]) / (len(corners) / 2)
            env.assume(env.Or(env.And(g <= 0, g >= 0), g >= ave * 1e-9, -g >= ave * 1e-9))
            if pin:
                env.assume(env.Or(g > 0, g < 0))
            if bool(env.And(g <= 0, g >= 0)):
                lhs.append((t, env.num(1.0)))
            else:
                lhs.append((t * ave + g * (t * t - t) / 2, ave))
    tol = 1e-9
    if D == 1:
        pairs = [(u[1],), (u[0],)]
    else:
        pairs = [tuple(u[1:])] + [p for p in itertools.permutations(u, D) if p != tuple(u[1:])]
    env.feasible()

    def law(p):
        def f():
            for (a, s), y in zip(lhs, p):
                env.eq('distribution', a, y * s, atol=1e-9)
        return f
    env.one_of('distribution', [law(p) for p in pairs])


def h_const(env, D):
    """constant density: uniform in the cells, and the same with and without interpolation"""
    sh = {1: (3,), 2: (2, 3), 3: (2, 2, 2)}[D]
    e = [env.arr([0.0, 1.0, 1.5, 4.0][:s]) for d, s in enumerate(sh)]
    c = env.pos('c')
    dens = env.np.reshape(env.np.array([c] * _prod(sh)), sh)
    S = env.sample.Sample_Grid(e, dens)
    us = [env.real('u%d' % i, 0, 1, lo_strict=True, hi_strict=True) for i in range(D + 1)]
    u0 = len(env.draws('u'))
    env.set_rng(u=lambda k: us[(k - u0) % (D + 1)])
    a = S.sample(1)
    b = S.sample(1, interpolate=False)
    env.eq('same', a, b)


def h_near_flat(env, D, rel):
    """densities which are constant up to a small fraction (such as by rounding): within the cells the samples follow the uniform draws"""
    a, b = env.real('a', 0.125, 8), env.num(rel)
    dens = env.np.reshape(env.np.array([a * (1 + b * k) for k in ((0, 1, 3, 2, 1, 0, 4, 2)[:2 ** D])]), (2,) * D)
    e = [env.arr([0.0, 2.0]), env.arr([1.0, 1.5]), env.arr([-4.0, -1.0])][:D]
    S = env.sample.Sample_Grid(e, dens)
    grid = [0.0625, 0.25, 0.40625, 0.5, 0.75, 0.9375, 0.984375]
    for q in grid:
        us = [env.num((q + 0.5 * d) % 1.0) for d in range(D + 1)]
        u0 = len(env.draws('u'))
        env.set_rng(u=lambda k: us[(k - u0) % (D + 1)])
        x = columns(env, S.sample(1), D)[0]
        if len(env.draws('u')) - u0 != D + 1:
            env.reach('other-draws')
            return
        for d in range(D):
            t = (x[d] - e[d][0]) / (e[d][1] - e[d][0])
            env.check('in-cell', env.And(t >= 0, t <= 1))
            env.check('near-uniform', env.Or(*[env.And(t - u <= 1e-6 + 10 * rel, u - t <= 1e-6 + 10 * rel) for u in us]))


def h_tilt(env):
    """a falling density puts more than half of the samples into the lower half of a cell, a rising one less"""
    a, b = env.real('a', 0), env.real('b', 0)
    env.assume(a + b > 0)
    S = env.sample.Sample_Grid(env.arr([0.0, 2.0]), env.np.array([a, b]))
    env.set_rng(u=lambda k: env.num(0.5))
    x = S.sample(1)[0, 0]
    env.check('tilt', env.And(env.implies(a > b, x <= 1), env.implies(a < b, x >= 1)))
    env.check('in-cell', env.And(x >= 0, x <= 2))


def cases(tier):
    q = tier == 'quick'
    out = [Case('tilt', h_tilt)]
    for D in (1, 2, 3):
        for r in (2.0 ** -52, 3 * 2.0 ** -52, 2.0 ** -50, 1e-14, 1e-12, 1e-8):
            out.append(Case('near-flat-%dd-%.1e' % (D, r), h_near_flat, dict(D=D, rel=r)))
    for f in ('class', 'function', 'default', 'int'):
        out.append(Case('1d-%s' % f, h, dict(D=1, sh=(3,), form=f)))
    out.append(Case('1d-edges', h, dict(D=1, sh=(2,), conc=False)))
    out.append(Case('1d-mass', h, dict(D=1, sh=(4,), given=True), weight=2))
    out.append(Case('1d-3cells', h, dict(D=1, sh=(4,)), weight=2))
    out.append(Case('2d', h, dict(D=2, sh=(2, 2)), weight=3))
    out.append(Case('2d-cells', h, dict(D=2, sh=(2, 3), pin=True), weight=4))
    out.append(Case('2d-mass', h, dict(D=2, sh=(3, 2), given=True), weight=4))
    out.append(Case('3d', h, dict(D=3, sh=(2, 2, 2), pin=True), weight=5, budget=100))
    for D in (1, 2, 3):
        out.append(Case('uniform-%dd' % D, h, dict(D=D, sh={1: (4,), 2: (2, 3), 3: (2, 2, 3)}[D], interpolate=False), weight=D))
        out.append(Case('uniform-given-%dd' % D, h, dict(D=D, sh={1: (4,), 2: (2, 3), 3: (2, 2, 3)}[D], interpolate=False, given=True), weight=D))
        out.append(Case('const-%dd' % D, h_const, dict(D=D)))
    return out
