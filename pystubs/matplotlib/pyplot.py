class _Axes:
    """records what is drawn on it"""
    def __init__(self, fig=None, how=None):
        self.calls, self.fig, self.how = [], fig, how

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def record(*a, **k):
            self.calls.append((name, a, k))
            return self
        return record


class _Figure:
    def __init__(self, **kw):
        self.kw = kw

    def add_subplot(self, *a, **k):
        return _Axes(self, (a, k))


def figure(*a, **kw):
    return _Figure(**kw)
