"""Reference geometry of SVG paths (independent of the code under test)"""
import math


def arc_center(p1, p2, rx, ry, phi, large, sweep):
    """centre, radii, start angle and signed span (degrees) of the W3C arc, None when it is a line"""
    rx, ry = abs(rx), abs(ry)
    if not rx or not ry or p1 == p2:
        return None
    r = math.radians(phi)
    co, si = math.cos(r), math.sin(r)
    unit = lambda p: ((p[0]*co + p[1]*si)/rx, (-p[0]*si + p[1]*co)/ry)
    a, b = unit(p1), unit(p2)
    d = math.dist(a, b)
    if d > 2:
        k = d/2
        rx, ry = rx*k, ry*k
        a, b = (a[0]/k, a[1]/k), (b[0]/k, b[1]/k)
        d = 2
    mid = ((a[0]+b[0])/2, (a[1]+b[1])/2)
    h = math.sqrt(max(0, 1 - d*d/4))
    n = (-(b[1]-a[1])/d, (b[0]-a[0])/d)
    best = None
    for s in (1, -1):
        cu = (mid[0]+s*h*n[0], mid[1]+s*h*n[1])
        t1 = math.degrees(math.atan2(a[1]-cu[1], a[0]-cu[0]))
        t2 = math.degrees(math.atan2(b[1]-cu[1], b[0]-cu[0]))
        span = (t2-t1) % 360
        if not sweep:
            span -= 360
        if best is None or (abs(span) > 180) == bool(large):
            best = cu, t1, span
    cu, t1, span = best
    x, y = cu[0]*rx, cu[1]*ry
    return (x*co - y*si, x*si + y*co), rx, ry, t1, span


def arc_point(c, rx, ry, phi, a):
    a, phi = math.radians(a), math.radians(phi)
    x, y = rx*math.cos(a), ry*math.sin(a)
    return (c[0] + x*math.cos(phi) - y*math.sin(phi), c[1] + x*math.sin(phi) + y*math.cos(phi))


def sample_arc(p1, p2, rx, ry, phi, large, sweep, n=9):
    a = arc_center(p1, p2, rx, ry, phi, large, sweep)
    if a is None:
        return [lerp(p1, p2, i/(n-1)) for i in range(n)]
    c, rx, ry, t1, span = a
    return [arc_point(c, rx, ry, phi, t1 + span*i/(n-1)) for i in range(n)]


def lerp(a, b, t):
    return (a[0]+t*(b[0]-a[0]), a[1]+t*(b[1]-a[1]))


def casteljau(points, t):
    points = list(points)
    while len(points) > 1:
        points = [lerp(a, b, t) for a, b in zip(points, points[1:])]
    return points[0]


def polyline_distance(p, pts):
    best = float('inf')
    for a, b in zip(pts, pts[1:]):
        dx, dy = b[0]-a[0], b[1]-a[1]
        l2 = dx*dx+dy*dy
        t = 0 if l2 == 0 else max(0, min(1, ((p[0]-a[0])*dx+(p[1]-a[1])*dy)/l2))
        best = min(best, math.hypot(p[0]-a[0]-t*dx, p[1]-a[1]-t*dy))
    return best


NUMBER_OF_ARGS = dict(m=2, l=2, h=1, v=1, c=6, s=4, q=4, t=2, a=7, z=0)


def tokenize(text):
    """path data -> [(letter, args)], written for the checks (regular inputs only: flags are separated)"""
    import re
    tokens = re.findall(r'[MmLlHhVvCcSsQqTtAaZz]|[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?', text)
    rest = re.sub(r'[MmLlHhVvCcSsQqTtAaZz]|[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|[\s,]', '', text)
    if rest:
        raise ValueError(rest)
    out = []
    i = 0
    letter = None
    while i < len(tokens):
        if tokens[i].isalpha():
            letter = tokens[i]
            i += 1
        n = NUMBER_OF_ARGS[letter.lower()]
        args = [float(x) for x in tokens[i:i+n]]
        if len(args) != n:
            raise ValueError('arguments of %s' % letter)
        out.append((letter, args))
        i += n
        letter = dict(m='l', M='L').get(letter, letter)
    return out


def resolve(commands):
    """[(letter, args)] -> absolute segments [(kind, points, extra)] and closed flag, one subpath"""
    current = start = None
    previous = None
    out = []
    closed = False
    for letter, args in commands:
        k = letter.upper()
        rel = letter != k
        o = current if rel and current is not None else (0., 0.)
        pts = [(args[i]+o[0], args[i+1]+o[1]) for i in range(0, len(args)-1, 2)] if k in 'MLCSQT' else []
        if k == 'M':
            assert current is None, 'one subpath'
            current = start = pts[0]
            continue
        extra = None
        if k == 'H':
            pts, kind = [(args[0]+o[0], current[1])], 'L'
        elif k == 'V':
            pts, kind = [(current[0], args[0]+o[1])], 'L'
        elif k == 'Z':
            pts, kind, closed = [start], 'L', True
        elif k == 'A':
            pts, kind, extra = [(args[5]+o[0], args[6]+o[1])], 'A', (args[0], args[1], args[2], bool(args[3]), bool(args[4]))
        elif k == 'S':
            c = current
            if previous is not None and previous[0] == 'C':
                c = (2*current[0]-previous[1][2][0], 2*current[1]-previous[1][2][1])
            pts, kind = [c] + pts, 'C'
        elif k == 'T':
            c = current
            if previous is not None and previous[0] == 'Q':
                c = (2*current[0]-previous[1][1][0], 2*current[1]-previous[1][1][1])
            pts, kind = [c] + pts, 'Q'
        else:
            kind = k
        previous = (kind, [current] + pts, extra)
        out.append(previous)
        current = pts[-1]
    return start, out, closed


def sample_segment(segment, n=9):
    kind, pts, extra = segment
    if kind == 'A':
        return sample_arc(pts[0], pts[1], *extra, n=n)
    return [casteljau(pts, i/(n-1)) for i in range(n)]


def apply(m, p):
    """m: a b c d e f"""
    a, b, c, d, e, f = m
    return (a*p[0]+c*p[1]+e, b*p[0]+d*p[1]+f)


def compose(m, n):
    """m after n"""
    a, b, c, d, e, f = m
    A, B, C, D, E, F = n
    return (a*A+c*B, b*A+d*B, a*C+c*D, b*C+d*D, a*E+c*F+e, b*E+d*F+f)


IDENTITY = (1., 0., 0., 1., 0., 0.)


def matrix(name, v):
    if name == 'matrix':
        return tuple(v)
    if name == 'translate':
        return (1, 0, 0, 1, v[0], v[1] if len(v) > 1 else 0)
    if name == 'scale':
        return (v[0], 0, 0, v[1] if len(v) > 1 else v[0], 0, 0)
    if name == 'rotate':
        r = math.radians(v[0])
        m = (math.cos(r), math.sin(r), -math.sin(r), math.cos(r), 0, 0)
        if len(v) == 3:
            m = compose(compose((1, 0, 0, 1, v[1], v[2]), m), (1, 0, 0, 1, -v[1], -v[2]))
        return m
    if name == 'skewX':
        return (1, 0, math.tan(math.radians(v[0])), 1, 0, 0)
    if name == 'skewY':
        return (1, math.tan(math.radians(v[0])), 0, 1, 0, 0)
    raise ValueError(name)
