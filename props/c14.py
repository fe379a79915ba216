"""C14: outlier sampling: dense cells by their centroid and mass, sparse cells by unit samples."""
import itertools

from symx.run import Case
from props import ref
from props.c12 import cell_mass, columns, locate, share_law, _prod

BOUNDS = "1-2 dimensions, 2-4 cells, up to 3 outlier samples; densities, masses, threshold and all random draws symbolic"
OUTSIDE = "larger grids, totals of the sparse cells of 4 and more or exactly half-way between integers, quality of numpy's generators"

EDGES = [[0.0, 1.0, 1.5, 4.0], [0.0, 2.0, 2.5]]


def _centroid(env, e, dens, idx):
    """centre of mass of the multilinear density in a cell"""
    D = len(idx)
    corners = list(itertools.product((0, 1), repeat=D))
    val = {c: dens[tuple(i + j for i, j in zip(idx, c))] for c in corners}
    s = ref.tot(list(val.values()))
    out = []
    for d in range(D):
        lo, hi = e[d][idx[d]], e[d][idx[d] + 1]
        up = ref.tot([v for c, v in val.items() if c[d]])
        # per unit width: int x (a (1-x) + b x) = a/6 + b/3
        t = (s + up) / 3
        out.append((lo, hi - lo, s, t))
    return out


def setup(env, D, sh, given, thr=None, sym=99):
    e = [env.arr(EDGES[d][:s]) for d, s in enumerate(sh)]
    bins = tuple(s - 1 for s in sh)
    cells = list(itertools.product(*[range(b) for b in bins]))
    if given:
        dens = env.np.reshape(env.arr([1.0, 3.0, 0.5, 2.0, 0.25, 4.0][:_prod(sh)]), sh)
        mass = env.np.reshape(env.vec('m', _prod(bins), 0, 30), bins)
        m = {i: mass[i] for i in cells}
    else:
        p = [env.real('p%d' % i, 0, 30) if i % 6 in (0, 1, 2, 4)[:sym] or sym > 6 else env.num([0.5, 0.25, 1.0][i % 3]) for i in range(_prod(sh))]
        dens = env.np.reshape(env.np.array(p), sh)
        mass, m = None, cell_mass(env, e, dens, bins)
    T = env.real('T', 0, 20, lo_strict=True) if thr is None else env.num(thr)
    return e, bins, cells, dens, mass, m, T


def h(env, D, sh, given, form='class', poisson=None, thr=None, maxout=2.49, sym=99):
    e, bins, cells, dens, mass, m, T = setup(env, D, sh, given, thr, sym)
    ins = [i for i in cells if bool(m[i] > T)]
    outs = [i for i in cells if i not in ins]
    tot = ref.tot([m[i] for i in outs]) if outs else env.num(0.0)
    env.assume(tot <= maxout)
    if poisson not in ('outside', 'both'):
        for h_ in (0.5, 1.5, 2.5):
            env.assume(tot != h_)
    kw = {} if mass is None else dict(mass=mass)
    edges = e if D > 1 else e[0]
    sk = {}
    if poisson in ('inside', 'both'):
        sk['poisson_inside'] = True
    if poisson in ('outside', 'both'):
        sk['poisson_outside'] = True
        env.set_rng(poisson_max=2)
    sk['interpolate'] = False
    if form == 'function':
        v, w = env.kale.sample_outliers(edges, dens, T, **kw, **sk)
        n = env.np.size(w)
    else:
        n, v, w = env.sample.Sample_Outliers(edges, dens, threshold=T, **kw).sample(**sk)
        env.check('shape', tuple(env.np.shape(v)) == (D, n) and tuple(env.np.shape(w)) == (n,))
    c = columns(env, v, D)
    w = env.np.reshape(w, (-1,))
    env.check('number', len(c) == n and len(w) == n)
    nin = len(ins)
    pois = env.draws('p')
    nout = n - nin
    env.check('all-dense-cells', nout >= 0)
    if poisson in ('outside', 'both'):
        if len(pois) >= 1 and env.events.get('poisson_lam'):
            lams = env.events['poisson_lam']
            env.one_of('outliers-poisson', [lambda l=l: env.eq('lam', env.np.reshape(l, (-1,)), env.np.array([tot])) for l in lams if env.np.size(l) == 1] or
                       [lambda: env.fail('lam')])
            env.check('outliers-number', env.Or(*[p == nout for p in pois]))
    else:
        env.check('outliers-number', env.And(tot >= nout - 0.5, tot <= nout + 0.5))
    # each dense cell has one sample at its centroid, with its mass
    for i in ins:
        cen = _centroid(env, e, dens, i)
        alts = []
        for j in range(n):
            def alt(j=j):
                for d, (lo, wd, s, t) in enumerate(cen):
                    if given and bool(s <= 0):
                        continue
                    env.eq('centroid', (c[j][d] - lo) * s, t * wd, atol=1e-9)
                if poisson in ('inside', 'both'):
                    k = ins.index(i)
                    off = 1 if poisson == 'both' else 0
                    lams = [env.np.reshape(l, (-1,)) for l in env.events['poisson_lam'] if env.np.size(l) == nin and (nin > 1 or poisson == 'inside')]
                    if nin == 1 and poisson == 'both':
                        lams = [env.np.reshape(l, (-1,)) for l in env.events['poisson_lam'][-1:]]
                    env.check('weights-drawn', len(lams) > 0)
                    if lams:
                        env.eq('weights-poisson', lams[-1][k], m[i])
                    env.check('weights-counts', env.Or(*[w[j] == p for p in pois]))
                else:
                    env.eq('weight', w[j], m[i])
            alts.append(alt)
        env.one_of('dense-cell', [alts[j] for j in sorted(range(n), key=lambda j: j != ins.index(i))])
    # the others: unit weights, within the sparse cells
    ones = 0
    rest = list(range(nin, n))
    u = env.draws('u')
    for j in rest:
        env.eq('unit-weight', w[j], env.num(1.0))
        x = c[j]
        for d in range(D):
            env.check('in-grid', env.And(x[d] >= e[d][0], x[d] <= e[d][-1]))
            for t in e[d][1:-1]:
                env.assume(x[d] != t)
        k = locate(env, x, e, bins)
        env.check('sparse-cell', k in outs)
        if k in outs:
            env.check('sparse-cell-has-mass', m[k] > 0)
            if len(u) == len(rest) * (D + 1):
                share_law(env, 'by-mass', k, {i: m[i] for i in outs}, u if len(rest) == 1 else u[:len(rest)])


def h_bad(env):
    e, bins, cells, dens, mass, m, T = setup(env, 1, (3,), True)
    S = env.sample.Sample_Outliers
    env.raises('number', lambda: env.kale.sample_outliers(e[0], dens, T, nsamp=3), (ValueError,))
    env.raises('scalar', lambda: S(e[0], dens, threshold=T, mass=mass).sample(return_scalar=True), (ValueError,))
    env.raises('scalar-data', lambda: S(e[0], dens, threshold=T, mass=mass, scalar_dens=dens).sample(return_scalar=True), (ValueError,))
    env.raises('edges', lambda: S(env.arr([0.0, 1.0]), dens, threshold=T), (ValueError,))
    env.raises('mass', lambda: S(e[0], dens, threshold=T, mass=env.arr([1.0])), (ValueError,))


def cases(tier):
    q = tier == 'quick'
    out = [Case('bad', h_bad)]
    for form in ('class', 'function'):
        out.append(Case('1d-mass-%s' % form, h, dict(D=1, sh=(3,), given=True, form=form), weight=3))
        out.append(Case('1d-%s' % form, h, dict(D=1, sh=(3,), given=False, form=form, maxout=1.49), weight=3))
    out.append(Case('1d-3cells', h, dict(D=1, sh=(4,), given=True, maxout=1.49, thr=2.0), weight=4))
    out.append(Case('2d-mass', h, dict(D=2, sh=(3, 2), given=True, maxout=1.49, thr=1.0), weight=4))
    out.append(Case('2d', h, dict(D=2, sh=(2, 3), given=False, maxout=1.49, thr=0.75, sym=2), budget=100, weight=6))
    for p in ('inside', 'outside', 'both'):
        out.append(Case('poisson-%s-1d' % p, h, dict(D=1, sh=(3,), given=True, poisson=p, thr=1.0, maxout=1.49), weight=3))
        out.append(Case('poisson-%s-2d' % p, h, dict(D=2, sh=(3, 2), given=True, poisson=p, thr=1.0, maxout=1.49), weight=3))
    return out
