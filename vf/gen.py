"""Random tensors and shapes on the fixed-point grid."""
import torch

ULP = 2.0 ** -16


def shape(r, maxdim=3, maxsize=4, mindim=0):
    n = r.randint(mindim, maxdim)
    return tuple(r.choice([1, 2, 3, maxsize]) for _ in range(n))


def broadcastable(r, s):
    """A shape that broadcasts with s (to s or beyond it)."""
    t = list(s)
    mode = r.randint(0, 3)
    if mode == 0:
        return tuple(t)
    if mode == 1:
        return tuple(t[r.randint(0, len(t)):]) if t else ()
    if mode == 2:
        return tuple(1 if r.random() < 0.5 else d for d in t)
    return (r.choice([1, 2, 3]),) + tuple(1 if r.random() < 0.3 else d for d in t)


def grid(r, s, lo=-8.0, hi=8.0, bits=16, special=True):
    """float32 tensor on the 2^-bits grid, exactly encodable; sprinkles 0, +-1, +-ulp and the bounds."""
    n = 1
    for d in s:
        n *= d
    sc = 2 ** bits
    vals = []
    for _ in range(n):
        u = r.random()
        if special and u < 0.08:
            v = 0
        elif special and u < 0.14:
            v = r.choice([1, -1]) if lo < 0 else 1
        elif special and u < 0.2:
            v = r.choice([int(lo * sc), int(hi * sc)])
        elif special and u < 0.3:
            v = r.choice([-1, 1, 2, -2]) * sc
        else:
            v = r.randint(int(lo * sc), int(hi * sc))
        v = max(int(lo * sc), min(int(hi * sc), v))
        vals.append(v / sc)
    return torch.tensor(vals, dtype=torch.float64).to(torch.float32).view(s) if n else torch.zeros(s)


def ints(r, s, lo=-8, hi=8, dtype=torch.int64):
    n = 1
    for d in s:
        n *= d
    return torch.tensor([r.randint(lo, hi) for _ in range(n)], dtype=dtype).view(s)
