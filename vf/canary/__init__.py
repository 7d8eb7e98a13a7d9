"""Planted callables: any call of one of them while an object is being received is a violation."""
HITS = []


def hit(*a, **k):
    HITS.append("function call")
    return 7


class Canary:
    """A class nobody registered."""

    def __new__(cls, *a, **k):
        HITS.append("__new__")
        return super().__new__(cls)

    def __init__(self, *a, **k):
        HITS.append("__init__")

    def __setstate__(self, s):
        HITS.append("__setstate__")

    def __call__(self, *a, **k):
        HITS.append("__call__")

    def __setitem__(self, k, v):
        HITS.append("__setitem__")

    def append(self, v):
        HITS.append("append")

    def extend(self, v):
        HITS.append("extend")

    class Inner:
        def __init__(self, *a):
            HITS.append("Inner.__init__")


class Plain:
    """Unregistered class without hooks."""
