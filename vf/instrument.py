"""Instrumentation of the wire: every torch.distributed primitive the code under test can use
is wrapped before crypten is imported.  The wrappers (a) maintain progress counters in shared
memory, from which the driver decides whether a party is blocked inside a collective,
(b) optionally record a transcript of every event (kind, shapes, peers, payloads before/after)
and (c) optionally inject scheduling delays."""
import random
import time

STATE = {
    "progress": None,  # shared array [started, finished, ...] for this process
    "base": 0,
    "record": None,  # list or None
    "payload": False,
    "delay": None,  # random.Random or None
    "delay_max": 0.0,
    "tamper": None,  # callable(event_index, name, tensors) before send
}
NAMES = [
    "all_reduce", "broadcast", "reduce", "all_gather", "gather", "scatter",
    "send", "recv", "isend", "irecv", "barrier", "all_to_all", "reduce_scatter",
    "all_reduce_coalesced", "all_gather_into_tensor", "all_to_all_single",
    "broadcast_object_list", "all_gather_object", "gather_object", "scatter_object_list",
]
_ORIG = {}


def _start():
    p = STATE["progress"]
    if p is not None:
        p[STATE["base"]] += 1
    if STATE["delay"] is not None:
        r = STATE["delay"]
        if r.random() < 0.5:
            time.sleep(r.random() * STATE["delay_max"])


def _finish():
    p = STATE["progress"]
    if p is not None:
        p[STATE["base"] + 1] += 1
    if STATE["delay"] is not None:
        r = STATE["delay"]
        if r.random() < 0.5:
            time.sleep(r.random() * STATE["delay_max"])


class _Work:
    """Proxy for async work handles, so that wait() counts as being inside a collective."""

    def __init__(self, work, post):
        self._w = work
        self._post = post

    def wait(self, *a, **k):
        _start()
        try:
            r = self._w.wait(*a, **k)
        finally:
            _finish()
        post, self._post = self._post, None
        if post is not None:
            post()
        return r

    def __getattr__(self, n):
        return getattr(self._w, n)


def _tensors(args, kwargs):
    import torch

    out = []

    def walk(x):
        if torch.is_tensor(x):
            out.append(x)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)

    for a in args:
        walk(a)
    for k in sorted(kwargs):
        walk(kwargs[k])
    return out


def _wrap(dist, name):
    orig = getattr(dist, name)
    _ORIG[name] = orig
    import inspect

    try:
        sig = inspect.signature(orig)
    except (TypeError, ValueError):
        sig = None

    def wrapper(*args, **kwargs):
        rec = STATE["record"]
        ev = None
        ts = None
        if rec is not None or STATE["tamper"] is not None:
            ts = _tensors(args, kwargs)
        if STATE["tamper"] is not None:
            STATE["tamper"](name, ts)
        if rec is not None:
            meta = {}
            if sig is not None:
                try:
                    b = sig.bind(*args, **kwargs)
                    for k in ("src", "dst", "op"):
                        if k in b.arguments:
                            v = b.arguments[k]
                            meta[k] = v if isinstance(v, int) and not hasattr(v, "name") else str(v)
                    g = b.arguments.get("group")
                    if g is not None:
                        meta["gsize"] = _gsize(g)
                except TypeError:
                    pass
            ev = {
                "op": name,
                "meta": meta,
                "shapes": [tuple(t.shape) for t in ts],
                "dtypes": [str(t.dtype) for t in ts],
            }
            if STATE["payload"]:
                ev["pre"] = [t.detach().clone() for t in ts]
            rec.append(ev)

        def post():
            if ev is not None and STATE["payload"]:
                ev["post"] = [t.detach().clone() for t in ts]

        _start()
        try:
            r = orig(*args, **kwargs)
        finally:
            _finish()
        if hasattr(r, "wait"):
            return _Work(r, post)
        post()
        return r

    wrapper.__name__ = name
    wrapper.__wrapped__ = orig
    setattr(dist, name, wrapper)


def _gsize(g):
    try:
        return g.size()
    except Exception:
        return None


def install():
    import torch.distributed as dist

    if _ORIG:
        return
    for n in NAMES:
        if hasattr(dist, n):
            _wrap(dist, n)


def set_delay(seed, max_s):
    if max_s <= 0:
        STATE["delay"] = None
    else:
        STATE["delay"] = random.Random(seed)
        STATE["delay_max"] = max_s


def record(payload=False):
    STATE["record"] = []
    STATE["payload"] = payload
    return STATE["record"]


def stop_record():
    r = STATE["record"]
    STATE["record"] = None
    return r
