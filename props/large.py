"""Large inputs: fixed irregular values, of which some (first, last, some in between) are symbolic."""


def val(i, lo=0.0, hi=1.0, a=0.6180339887):
    """the i-th value of a fixed irregular sequence (exact decimals, all different)"""
    return round(lo + (hi - lo) * ((0.137 + (i + 1) * a) % 1.0), 5)


def spots(n):
    return sorted({0, n // 2, n - 1})


def vec(env, name, n, lo, hi, free=None, a=0.6180339887, **kw):
    """list of n values, symbolic at the places `free` (default: first, middle, last)"""
    free = spots(n) if free is None else free
    return [env.real('%s%d' % (name, i), lo, hi, **kw) if i in free else env.num(val(i, lo, hi, a)) for i in range(n)]
