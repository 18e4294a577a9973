"""P30: each output is computed from exactly its window of frames.

Every step output of a stream - long enough for the ring buffers to revolve more than twice - is
expanded, in the provenance domain, into the frame elements and parameter entries that
contribute to it and compared with the definition of the operator over the window.
"""
import itertools

from . import frames as F


def grid(tier):
    deep = tier != "quick"
    for k, s in itertools.product((1, 2, 3, 4) if not deep else (1, 2, 3, 4, 5), (1, 2, 3)):
        for p in sorted({0, k // 2, k - 1}):
            yield F.conv(1, k, s, p)
    yield F.conv(1, 3, 1, 1, groups=2, ci=4, co=4)
    yield F.conv(1, 2, 2, 1, bias=False)
    yield F.conv(1, 3, 1, 1, fill="replicate")
    yield F.conv(1, 4, 2, 0, fill="replicate")
    for k, s, p in ((1, 1, 0), (2, 1, 1), (3, 2, 1), (4, 1, 0)):
        yield F.conv(2, (k, 3), (s, 2), (p, 1))
    yield F.conv(2, (3, 2), (1, 1), (1, 0), dil=(1, 2))
    yield F.conv(2, (2, 3), (1, 1), (0, 1), mode="replicate")
    yield F.conv(2, (3, 2), (1, 2), (0, 1), groups=2, ci=2, co=4, fill="replicate")
    yield F.conv(3, (2, 3, 2), (1, 2, 1), (1, 1, 0), co=2)
    yield F.conv(3, (3, 2, 2), (2, 1, 2), (0, 0, 1), dil=(1, 1, 2), bias=False, co=2)
    yield F.conv(3, (2, 2, 3), (1, 1, 1), (0, 1, 1), mode="replicate", co=1)
    for kind in ("Avg", "Max"):
        for k, s, d in itertools.product((1, 2, 3) if not deep else (1, 2, 3, 4), (1, 2), (1, 2, 3)):
            for p in sorted({0, k // 2}):
                yield F.pool(kind, 1, k, s, p, d)
        yield F.pool(kind, 1, 3, 1, 1, 2, fill="replicate")
        yield F.pool(kind, 1, 2, 1, 1, 1, fill="zeros" if kind == "Max" else "replicate")
        for k, s, p, d in ((2, 1, 0, 1), (3, 2, 1, 1), (2, 1, 0, 2), (3, 1, 1, 3)):
            yield F.pool(kind, 2, (k, 2), (s, 1), (p, 1), (d, 1))
            yield F.pool(kind, 3, (k, 2, 3), (s, 2, 1), (p, 1, 1), (d, 1, 1))
        for k in (1, 2, 3):
            yield F.adaptive(kind, 2, (1, 2), k)
            yield F.adaptive(kind, 3, (1, 2, 2), k)
        yield F.adaptive(kind, 2, (1, 1), 3, fill="replicate")
    for d in (1, 2, 3) if not deep else (1, 2, 3, 4, 5):
        for fill in (None, "replicate"):
            for shrink in (None, True, "centered", "lagging"):
                yield F.delay(d, fill, shrink)
        yield F.delay(d, cn="SelectOrDelay")
        yield F.retro(d)
    yield F.delay(0)


def batch(lab, items):
    for subj in items:
        n = subj.delay + 2 * subj.ring + 2 * subj.stride + 1
        F.stepped(lab, subj, n)


def run(lab, tier):
    items = list(grid(tier))
    for i in range(0, len(items), 6):
        lab.job(batch, items[i:i + 6])
