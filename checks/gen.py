"""Input generators (independent of the code under test)"""
import math
from fractions import Fraction


def grid(rng, n=10):
    return (rng.randint(-n, n), rng.randint(-n, n))


def coord(rng):
    """A finite coordinate of various magnitudes"""
    k = rng.random()
    if k < .3:
        return float(rng.randint(-20, 20))
    elif k < .6:
        return round(rng.uniform(-100, 100), 2)
    elif k < .8:
        return rng.uniform(-1e3, 1e3)
    elif k < .9:
        return rng.uniform(-1, 1)
    elif k < .95:
        return rng.uniform(-1, 1) * 10**rng.randint(-3, 5)
    else:
        return 0.


def point(rng):
    return (coord(rng), coord(rng))


def fpoint(rng, r=100.):
    return (rng.uniform(-r, r), rng.uniform(-r, r))


def nonzero(rng, f=point, minimum=1e-3):
    while True:
        p = f(rng)
        if math.hypot(*p) > minimum:
            return p


def angle(rng):
    k = rng.random()
    if k < .3:
        return float(rng.choice([0, 30, 45, 60, 90, 120, 135, 180, 225, 270, 300, 315, 360, -30, -45, -90, -120, -180, -270, 400, 720, -400]))
    elif k < .6:
        return float(rng.randint(-360, 360))
    return rng.uniform(-400, 400)


def scalar(rng):
    k = rng.random()
    if k < .3:
        return float(rng.randint(-5, 5))
    elif k < .8:
        return rng.uniform(-10, 10)
    return rng.uniform(-1e3, 1e3)


def distinct_points(rng, n, f):
    out = []
    while len(out) < n:
        p = f(rng)
        if p not in out:
            out.append(p)
    return out


# Exact predicates ##################################################################################

def F(p):
    return (Fraction(p[0]), Fraction(p[1]))


def orient(a, b, c):
    """sign of the exact cross product (b-a) x (c-a)"""
    a, b, c = F(a), F(b), F(c)
    d = (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0])
    return (d > 0) - (d < 0)


def on_segment(a, b, c):
    """c on the closed segment [a, b], exact"""
    return (orient(a, b, c) == 0 and
            min(a[0], b[0]) <= c[0] <= max(a[0], b[0]) and
            min(a[1], b[1]) <= c[1] <= max(a[1], b[1]))


def segments_intersect(a, b, c, d):
    o1, o2, o3, o4 = orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)
    if o1*o2 < 0 and o3*o4 < 0:
        return True
    return on_segment(a, b, c) or on_segment(a, b, d) or on_segment(c, d, a) or on_segment(c, d, b)


def area2(points):
    """twice the exact signed area"""
    n = len(points)
    P = [F(p) for p in points]
    return sum(P[i][0]*P[(i+1) % n][1] - P[(i+1) % n][0]*P[i][1] for i in range(n))


def is_simple(points):
    """exact; requires distinct consecutive vertices"""
    n = len(points)
    for i in range(n):
        a, b = points[i], points[(i+1) % n]
        for j in range(i+1, n):
            c, d = points[j], points[(j+1) % n]
            if j == i+1 or (i == 0 and j == n-1):
                # adjacent edges share exactly one vertex
                if j == i+1:
                    s, e, f = b, a, d
                else:
                    s, e, f = a, b, c
                if n == 3 and False:
                    pass
                if orient(s, e, f) == 0:
                    S, E, G = F(s), F(e), F(f)
                    if (E[0]-S[0])*(G[0]-S[0]) + (E[1]-S[1])*(G[1]-S[1]) > 0:
                        return False
            elif segments_intersect(a, b, c, d):
                return False
    return True


def is_convex(points):
    n = len(points)
    signs = set(orient(points[i-1], points[i], points[(i+1) % n]) for i in range(n)) - {0}
    return len(signs) == 1 and is_simple(points)


def point_in_polygon(points, p):
    """-1 outside, 0 on the boundary, 1 inside; exact even-odd for a simple polygon"""
    n = len(points)
    inside = False
    x, y = F(p)
    for i in range(n):
        a, b = points[i], points[(i+1) % n]
        if on_segment(a, b, p):
            return 0
        (ax, ay), (bx, by) = F(a), F(b)
        if (ay > y) != (by > y):
            xi = ax + (y-ay)*(bx-ax)/(by-ay)
            if x < xi:
                inside = not inside
    return 1 if inside else -1


def convex_hull(points):
    """Andrew monotone chain, strict (no collinear vertex), ccw"""
    P = sorted(set(points))
    if len(P) <= 2:
        return P

    def half(it):
        h = []
        for p in it:
            while len(h) >= 2 and orient(h[-2], h[-1], p) <= 0:
                h.pop()
            h.append(p)
        return h
    lower, upper = half(P), half(reversed(P))
    return lower[:-1] + upper[:-1]


def star_polygon(rng, n, radius=50., jitter=.9, center=(0., 0.), ndigits=None):
    """random simple star-shaped polygon around its center"""
    angles = sorted(rng.uniform(0, 2*math.pi) for _ in range(n))
    pts = []
    for a in angles:
        r = radius*(1 - jitter*rng.random())
        p = (center[0] + r*math.cos(a), center[1] + r*math.sin(a))
        if ndigits is not None:
            p = (round(p[0], ndigits), round(p[1], ndigits))
        pts.append(p)
    if rng.random() < .5:
        pts.reverse()
    return pts


def two_opt_polygon(rng, points):
    """untangle a random grid point set into a simple polygon (2-opt moves); None if it fails"""
    pts = list(points)
    rng.shuffle(pts)
    n = len(pts)
    for _ in range(200):
        changed = False
        for i in range(n-1):
            for j in range(i+2, n):
                if i == 0 and j == n-1:
                    continue
                a, b, c, d = pts[i], pts[i+1], pts[j], pts[(j+1) % n]
                if segments_intersect(a, b, c, d):
                    pts[i+1:j+1] = reversed(pts[i+1:j+1])
                    changed = True
        if not changed:
            break
    return pts if is_simple(pts) else None


def point_segment_distance(p, a, b):
    dx, dy = b[0]-a[0], b[1]-a[1]
    l2 = dx*dx+dy*dy
    t = 0 if l2 == 0 else max(0, min(1, ((p[0]-a[0])*dx + (p[1]-a[1])*dy)/l2))
    return math.hypot(p[0]-a[0]-t*dx, p[1]-a[1]-t*dy)
