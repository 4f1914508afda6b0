"""Minimisation of a failing choice list (same violation class)."""
import time

from . import core


def minimise(mod, choices, kind, tier, budget):
    t0 = time.monotonic()
    tried = 0
    best = list(choices)

    def fails(c):
        nonlocal tried
        if time.monotonic() - t0 > budget:
            return None
        tried += 1
        r = core.execute(mod, choices=c, tier=tier, keep_log=True)
        v = r['violation']
        if v and v['kind'] == kind:
            used = r['choices']
            while used and used[-1] == 0:
                used = used[:-1]
            return used
        return None

    c = fails(best)
    if c is None:
        return dict(ok=False, choices=best, tried=tried)
    if len(c) <= len(best):
        best = c
    improved = True
    while improved and time.monotonic() - t0 < budget:
        improved = False
        # delete chunks
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                cand = best[:i] + best[i + size:]
                c = fails(cand)
                if c is not None and _lt(c, best):
                    best = c
                    improved = True
                else:
                    i += size
                if time.monotonic() - t0 > budget:
                    break
            size //= 2
        # zero chunks, then lower single values
        size = max(1, len(best) // 4)
        while size >= 1:
            i = 0
            while i < len(best):
                if any(best[i:i + size]):
                    n = len(best[i:i + size])
                    cand = best[:i] + [0] * n + best[i + n:]
                    c = fails(cand)
                    if c is not None and _lt(c, best):
                        best = c
                        improved = True
                i += size
                if time.monotonic() - t0 > budget:
                    break
            size //= 2
        for i in range(len(best)):
            if i >= len(best) or time.monotonic() - t0 > budget:
                break
            for v in {1, best[i] // 2, best[i] - 1}:
                if 0 < v < best[i]:
                    cand = best[:i] + [v] + best[i + 1:]
                    c = fails(cand)
                    if c is not None and _lt(c, best):
                        best = c
                        improved = True
                        break
    return dict(ok=True, choices=best, tried=tried)


def _lt(a, b):
    return (len(a), sum(a), a) < (len(b), sum(b), b)
