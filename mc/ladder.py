"""Structured families of point lists, one for every size up to a bound: behaviour that
depends on the size of the data, which enumeration over small lists cannot show."""


def orders(pts):
    n = len(pts)
    yield list(pts)
    yield list(pts)[::-1]
    if n > 3:
        k = next(k for k in range(max(2, n // 3), n + n) if _coprime(k, n))
        yield [pts[(i * k) % n] for i in range(n)]


def _coprime(a, b):
    while b:
        a, b = b, a % b
    return a == 1


def staircase(n, d):
    """n mutually non-dominated points"""
    return [tuple([i, n - 1 - i] + [(i * (k + 3) + k) % n for k in range(d - 2)])[:d] if d > 1 else (0,)
            for i in range(n)]


def chain(n, d):
    return [(i,) * d for i in range(n)]


def equal(n, d):
    return [(1,) * d] * n


def blocks(n, d, size=4):
    """fronts of `size` points, one behind another"""
    out = []
    for i in range(n):
        b, j = divmod(i, size)
        out.append(tuple([b * size + j, b * size + size - 1 - j] + [b] * (d - 2))[:d])
    return out


def spiral(n, d):
    """neither a front nor a chain"""
    return [tuple((i * (2 * k + 3) + k * k) % (n + k + 1) for k in range(d)) for i in range(n)]


FAMILIES = {"staircase": staircase, "chain": chain, "equal": equal, "blocks": blocks, "spiral": spiral}


def volume(pts, ref):
    """exact measure of the union of the boxes [p, ref), by slabs"""
    pts = [tuple(p) for p in pts if all(x < r for x, r in zip(p, ref))]
    if not pts:
        return 0
    d = len(ref)
    if d == 1:
        return ref[0] - min(p[0] for p in pts)
    if d == 2:
        total, best = 0, None
        for x, y in sorted(set(pts)):
            if best is None or y < best:
                total += (ref[0] - x) * ((ref[1] if best is None else best) - y)
                best = y
        return total
    cuts = sorted({p[-1] for p in pts}) + [ref[-1]]
    total = 0
    for lo, hi in zip(cuts, cuts[1:]):
        total += (hi - lo) * volume([p[:-1] for p in pts if p[-1] <= lo], ref[:-1])
    return total
