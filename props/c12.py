"""C12: grid samples fall into cells in proportion to their mass."""
import itertools

from symx.run import Case
from props import large
from props import ref

BOUNDS = "grids of 400 cells with mass in three of them, and 300 samples with fixed draws; otherwise 1-3 dimensions, 2-4 cells, 1-2 samples; densities, masses, edges and all random draws symbolic"
OUTSIDE = "larger grids and sample sizes, draws exactly at the end of a cell's share (probability zero), quality of numpy's generators"

SH = {1: (4,), 2: (2, 3), 3: (2, 2, 3)}


def grid(env, D, sh=None, given=False, conc=False):
    """edges, density and cell masses"""
    sh = sh or SH[D]
    e = [env.arr([0.0, 1.0, 1.5, 4.0, 4.25][:s]) if conc else env.sorted_vec('e%d_' % d, s, gap=env.num(0.0)) for d, s in enumerate(sh)]
    dens = env.np.reshape(env.vec('p', _prod(sh), 0), sh)
    bins = tuple(s - 1 for s in sh)
    if given:
        mass = env.np.reshape(env.vec('m', _prod(bins), 0), bins)
        m = {idx: mass[idx] for idx in itertools.product(*[range(b) for b in bins])}
    else:
        mass, m = None, cell_mass(env, e, dens, bins)
    return e, dens, mass, m


def cell_mass(env, e, dens, bins):
    out = {}
    D = len(bins)
    for idx in itertools.product(*[range(b) for b in bins]):
        t = ref.tot([dens[tuple(i + k for i, k in zip(idx, c))] for c in itertools.product((0, 1), repeat=D)]) / 2 ** D
        for d, i in enumerate(idx):
            t = t * (e[d][i + 1] - e[d][i])
        out[idx] = t
    return out


def _prod(t):
    r = 1
    for x in t:
        r *= x
    return r


def columns(env, v, D):
    v = env.np.reshape(v, (D, -1))
    return [[v[d, j] for d in range(D)] for j in range(v.shape[1])]


def locate(env, x, e, bins):
    """the cell of a sample (splits the paths); None if outside"""
    idx = []
    for d, b in enumerate(bins):
        for i in range(b):
            if bool(x[d] < e[d][i + 1]) or i == b - 1:
                idx.append(i)
                break
    return tuple(idx)


def share_law(env, label, k, m, draws):
    """the chosen cell's share of [0, 1] contains one of the uniform draws: for some set S of other cells,
    sum(S) <= u * total <= sum(S) + m_k"""
    tot = ref.tot(list(m.values()))
    rest = [m[i] for i in m if i != k]
    alts = []
    for u in draws:
        for r in range(len(rest) + 1):
            for S in itertools.combinations(rest, r):
                a = ref.tot(list(S)) if S else env.num(0.0)
                alts.append(env.And(a <= u * tot, u * tot <= a + m[k]))
    env.check(label, env.Or(*alts))


def h_law(env, D, given=False, interpolate=False, conc=False, sh=None, form='class', zero=False):
    e, dens, mass, m = grid(env, D, sh, given, conc)
    tot = ref.tot(list(m.values()))
    env.assume(tot > 0)
    if zero:
        env.assume(list(m.values())[zero - 1] <= 0)
    kw = {} if mass is None else dict(mass=mass)
    edges = e if D > 1 or form == 'nested' else e[0]
    if form == 'lists':
        edges = [x.tolist() for x in e] if D > 1 else e[0].tolist()
    if form == 'function':
        v = env.kale.sample_grid(edges, dens, 1, interpolate=interpolate, **kw)
    else:
        v = env.sample.Sample_Grid(edges, dens, **kw).sample(1, interpolate=interpolate)
    c = columns(env, v, D)
    env.check('number', len(c) == 1)
    x = c[0]
    for d in range(D):
        env.le('not-below-the-grid', e[d][0], x[d])
        env.le('not-above-the-grid', x[d], e[d][-1])
    bins = tuple(s - 1 for s in (sh or SH[D]))
    for d in range(D):
        for t in e[d][1:-1]:
            env.assume(x[d] != t)
    k = locate(env, x, e, bins)
    env.check('cell-has-mass', m[k] > 0)
    u = env.draws('u')
    if len(u) > D + 1 or env.events.get('choice_p'):
        env.reach('other-draws')
        return
    share_law(env, 'by-mass', k, m, u)


def h_number(env, D, how):
    """how many samples, and of what shape"""
    sh = {1: (3,), 2: (2, 3)}[D]
    e, dens, mass, m = grid(env, D, sh, how.startswith('mass'), conc=True)
    tot = ref.tot(list(m.values()))
    env.assume(tot > 0)
    if D == 2:
        env.assume(*[dens[0, i] == dens[1, i] for i in range(3)])
    env.set_rng(u=lambda k: env.num(0.3 + 0.1 * (k % 5)))
    S = env.sample.Sample_Grid
    kw = {} if mass is None else dict(mass=mass)
    ed = e if D > 1 else e[0]
    if how in ('total', 'mass-total', 'function-total'):
        env.assume(tot >= 1, tot < 4)
        if how == 'function-total':
            v = env.kale.sample_grid(ed, dens, interpolate=False)
        else:
            v = S(ed, dens, **kw).sample(interpolate=False)
        n = env.np.size(v) // D
        env.check('total-rounded-down', env.And(tot >= n, tot < n + 1))
        if how != 'function-total' or (D == 1 and n > 1):
            env.check('shape', tuple(env.np.shape(v)) == ((D, n) if how != 'function-total' or D > 1 else (n,)))
    else:
        g = S(ed, dens, **kw)
        i = dict(interpolate=False)
        env.check('shape', tuple(env.np.shape(g.sample(3, **i))) == (D, 3))
        env.check('shape', tuple(env.np.shape(g.sample(nsamp=2.0, **i))) == (D, 2))
        f = env.kale.sample_grid
        env.check('function-shape', tuple(env.np.shape(f(ed, dens, 3, **i))) == ((3,) if D == 1 else (D, 3)))
        env.check('function-squeeze', tuple(env.np.shape(f(ed, dens, 3, squeeze=False, **i))) == (D, 3))


def h_two(env):
    """two samples: each within its cell's share of its own draw"""
    e, dens, mass, m = grid(env, 1, (3,), True, conc=True)
    tot = ref.tot(list(m.values()))
    env.assume(tot > 0)
    v = env.sample.Sample_Grid(e[0], dens, mass=mass).sample(2, interpolate=False)
    c = columns(env, v, 1)
    env.check('number', len(c) == 2)
    u = env.draws('u')
    if len(u) != 4:
        env.reach('other-draws')
        return
    # at most as many samples as draws fall into each cell's share, whichever draws decide the cells: the
    # number of samples in a cell is the number of the deciding draws in a set of the cell's measure
    ks = []
    for x in c:
        env.check('in-grid', env.And(x[0] >= e[0][0], x[0] <= e[0][2]))
        env.assume(x[0] != e[0][1])
        ks.append(locate(env, x, e, (2,)))
    alts = []
    for a, b in itertools.permutations(range(4), 2):
        for flip in (0, 1):
            cond = []
            for k, j in zip(ks, (a, b)):
                first = (k == (0,)) != bool(flip)
                m0 = m[(0,)] if not flip else m[(1,)]
                cond.append(u[j] * tot <= m0 if first else u[j] * tot >= m0)
            alts.append(env.And(*cond))
    env.check('by-mass', env.Or(*alts))


def h_bad(env, D):
    sh = {1: (3,), 2: (2, 3)}[D]
    e, dens, _, _ = grid(env, D, sh, False, conc=True)
    S = env.sample.Sample_Grid
    if D == 1:
        env.raises('edges', lambda: S(env.arr([0.0, 1.0]), dens), (ValueError,))
        env.raises('edges', lambda: S([e[0], e[0]], dens), (ValueError,))
        env.raises('mass', lambda: S(e[0], dens, mass=env.arr([1.0, 1.0, 1.0])), (ValueError,))
    else:
        env.raises('edges', lambda: S([e[0]], dens), (ValueError,))
        env.raises('edges', lambda: S([e[1], e[0]], dens), (ValueError,))
        env.raises('mass', lambda: S(e, dens, mass=env.arr([[1.0, 1.0, 1.0]])), (ValueError,))
        env.raises('mass', lambda: S(e, dens, mass=env.arr([[1.0], [1.0]])), (ValueError,))
        env.raises('function', lambda: env.kale.sample_grid([e[0]], dens, 2), (ValueError,))


def h_large(env, D, size):
    """many cells, most of them empty"""
    sh = (400,) if D == 1 else (30, 21)
    e = [[round(i + 0.3 * (i % 3), 3) for i in range(n)] for n in sh]
    bins = tuple(n - 1 for n in sh)
    full = [tuple(b // 5 for b in bins), tuple(b // 2 for b in bins), tuple(b - 1 for b in bins)]
    e = [list(env.arr(x)) for x in e]
    p = [env.real('m%d' % i, 0.5, 5) for i in range(3)]
    if size > 1:
        p = [p[0], p[0] * 2, p[0] * 0.7]
    m = env.np.zeros(bins)
    for k, x in zip(full, p):
        m[k] = x
    g = env.sample.Sample_Grid([env.arr(x) for x in e], env.np.ones(sh), mass=m)
    if size > 1:
        env.set_rng(u=lambda k: env.num(large.val(k, 0, 1)))
    v = columns(env, g.sample(size, interpolate=False), D)
    env.check('number', len(v) == size)
    u = env.draws('u')
    for x in v:
        at = []
        for k in full:
            at.append(env.And(*[env.And(x[d] >= e[d][k[d]], x[d] <= e[d][k[d] + 1]) for d in range(D)]))
        env.check('in-a-cell-with-mass', env.Or(*at))
        if size == 1 and len(u) <= D + 1 and not env.events.get('choice_p'):
            for k, a in zip(full, at):
                if bool(a):
                    share_law(env, 'by-mass', k, dict(zip(full, p)), u)
    if size > 1:
        env.check('all-different', len({round(float(x[0]), 9) if not hasattr(x[0], 'sh') else round(x[0].sh, 9) for x in v}) > size * 0.9)


def cases(tier):
    q = tier == 'quick'
    out = []
    for D in (1, 2):
        out.append(Case('bad-%dd' % D, h_bad, dict(D=D)))
        for how in ('total', 'mass-total', 'function-total', 'given'):
            out.append(Case('number-%s-%dd' % (how, D), h_number, dict(D=D, how=how)))
    for D in (1, 2, 3):
        for given in (False, True):
            for i in (False, True):
                if D == 3 and i and q:
                    continue
                out.append(Case('law-%dd%s%s' % (D, '-mass' if given else '', '-interp' if i else ''), h_law,
                                dict(D=D, given=given, interpolate=i, conc=D == 3 or i, sh=(2, 1 + 1, 3) if D == 3 else None), weight=3))
    for f in ('function', 'nested', 'lists'):
        for D in (1, 2):
            if D == 2 and f == 'nested':
                continue
            out.append(Case('law-%dd-%s' % (D, f), h_law, dict(D=D, given=False, form=f, conc=True)))
    for z in (1, 2, 3):
        out.append(Case('zero-%d' % z, h_law, dict(D=1, given=True, zero=z, conc=True)))
    out.append(Case('law-1d-4cells', h_law, dict(D=1, sh=(5,), given=True, conc=True), weight=3))
    out.append(Case('law-2d-4cells', h_law, dict(D=2, sh=(3, 3), given=True, conc=True), weight=3))
    out.append(Case('two', h_two, weight=3))
    for D in (1, 2):
        out.append(Case('large-%d' % D, h_large, dict(D=D, size=1)))
        out.append(Case('large-many-%d' % D, h_large, dict(D=D, size=300)))
    return out
