"""Axes which record what is drawn on them, in both modes (symbolic and replay)."""


class _Artist:
    """what a drawing call returns: remembers the call"""

    def __init__(self, ax, name, args, kw):
        self.ax, self.name, self.args, self.kw = ax, name, args, kw
        self.collections = []
        self.norm = self.cmap = None

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


class _Any:
    """accepts every call"""

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: _Any() if n.startswith('get_') and not n.endswith('labels') else []


class _Lines:
    def get_next_color(self):
        return 'C0'


class Axes:
    def __init__(self, name='ax', ylim=(0.0, 1.0), xlim=(0.0, 1.0)):
        self.name = name
        self.calls = []
        self.visible = True
        self.lims = dict(x=xlim, y=ylim)
        self._get_lines = _Lines()
        self.xaxis, self.yaxis = _Any(), _Any()
        self.figure = _Any()
        self.labels = {}
        self.ticks = {}

    def set_visible(self, v):
        self.visible = v

    def get_xlim(self):
        return self.lims['x']

    def get_ylim(self):
        return self.lims['y']

    def set_xlim(self, *a, **k):
        self.lims['x'] = a[0] if len(a) == 1 else a

    def set_ylim(self, *a, **k):
        self.lims['y'] = a[0] if len(a) == 1 else a

    def set_xlabel(self, t, **k):
        self.labels['x'] = t

    def set_ylabel(self, t, **k):
        self.labels['y'] = t

    def set_xticks(self, t, **k):
        self.ticks['x'] = t

    def set_yticks(self, t, **k):
        self.ticks['y'] = t

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)

        def f(*a, **k):
            r = _Artist(self, n, a, k)
            self.calls.append(r)
            if n == 'plot':
                return (r,)
            return r
        return f

    def of(self, *names):
        return [c for c in self.calls if c.name in names]


def masked(env, v):
    """values and mask (list of True where hidden) of an array which may be masked"""
    m = getattr(v, 'mask', None)
    d = v.data if m is not None else v
    d = env.np.reshape(d, (-1,))
    n = int(env.np.size(d))
    if m is None or m is False or (not hasattr(m, 'shape') or tuple(m.shape) == ()):
        return list(d), [False] * n if not m else [True] * n
    return list(d), list(env.np.reshape(m, (-1,)))
