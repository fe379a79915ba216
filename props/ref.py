"""Reference formulas, written with plain scalar arithmetic so they run in both modes."""
import math

KERNELS = ['gaussian', 'box', 'parabola', 'triweight']


def kval(env, name, y2):
    """unnormalised kernel profile as a function of the squared distance"""
    if name == 'gaussian':
        return env.exp(-y2 / 2)
    if name == 'box':
        return env.ite(y2 <= 1, 1, 0)
    z = env.ite(y2 <= 1, 1 - y2, 0)
    if name in ('parabola', 'epanechnikov'):
        return z
    if name == 'triweight':
        return z * z * z
    raise KeyError(name)


def ballvol(d):
    return math.pi ** (d / 2) / math.gamma(d / 2 + 1)


def knorm(name, d):
    """integral over R^d of the unnormalised profile"""
    v = ballvol(d)
    if name == 'gaussian':
        return (2 * math.pi) ** (d / 2)
    if name == 'box':
        return v
    # integral of (1-r^2)^p over the unit ball = v * d/2 * B(d/2, p+1)
    p = {'parabola': 1, 'epanechnikov': 1, 'triweight': 3}[name]
    a, b = d / 2, p + 1
    return v * d / 2 * math.gamma(a) * math.gamma(b) / math.gamma(a + b)


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    r = 0
    for j in range(n):
        sub = [[m[i][k] for k in range(n) if k != j] for i in range(1, n)]
        r = r + (1 if j % 2 == 0 else -1) * m[0][j] * det(sub)
    return r


def adj(m):
    n = len(m)
    if n == 1:
        return [[1]]
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            sub = [[m[r][c] for c in range(n) if c != j] for r in range(n) if r != i]
            out[j][i] = (1 if (i + j) % 2 == 0 else -1) * det(sub)
    return out


def quad(m, v):
    """v^T m^-1 v"""
    a, d = adj(m), det(m)
    n = len(v)
    s = 0
    for i in range(n):
        for j in range(n):
            s = s + v[i] * a[i][j] * v[j]
    return s / d


def density(env, name, data, points, M, weights=None):
    """data: D lists of N, points: D lists of P, M: DxD nested list -> list of P unnormalised densities"""
    D = len(data)
    n = len(data[0])
    out = []
    c = env.num(knorm(name, D))
    sd = env.sqrt(det(M)) * c
    for p in range(len(points[0])):
        tot = env.num(0)
        for j in range(n):
            y2 = quad(M, [points[i][p] - data[i][j] for i in range(D)])
            t = kval(env, name, y2)
            if weights is not None:
                t = t * weights[j]
            tot = tot + t
        out.append(tot / sd)
    return out


def rows(a):
    """2-D array -> list of lists of scalars"""
    return [[x for x in r] for r in a]


def mean(xs, ws=None):
    if ws is None:
        return sum(xs[1:], xs[0]) / len(xs)
    s = xs[0] * ws[0]
    for x, w in zip(xs[1:], ws[1:]):
        s = s + x * w
    return s / tot(ws)


def tot(xs):
    s = xs[0]
    for x in xs[1:]:
        s = s + x
    return s


def cov(data, ws=None):
    """weighted sample covariance (frequency-type normalisation of numpy.cov aweights)"""
    D, n = len(data), len(data[0])
    mu = [mean(d, ws) for d in data]
    if ws is None:
        f = n - 1
        w = [1] * n
    else:
        sw = tot(ws)
        f = sw - tot([x * x for x in ws]) / sw
        w = ws
    out = []
    for i in range(D):
        r = []
        for j in range(D):
            s = 0
            for k in range(n):
                s = s + w[k] * (data[i][k] - mu[i]) * (data[j][k] - mu[j])
            r.append(s / f)
        out.append(r)
    return out


def inv(m):
    """inverse of a matrix of scalars"""
    d, a = det(m), adj(m)
    n = len(m)
    return [[a[i][j] / d for j in range(n)] for i in range(n)]
