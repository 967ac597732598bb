"""C06 -- polygons"""
import math
from fractions import Fraction as Fr
import gen

PID = 'C06'
RULE = ('polygons with distinct vertices: simple ones (untangled grid points, star-shaped floats, convex, with collinear '
        'vertices, combs) and random self-intersecting ones, both orientations, random start vertex, translated, optionally '
        'after an in-place transformation; oracle: exact rationals; non-trivial: at least 4 vertices or non-null area')
ASSUMPTIONS = ['coordinates below 1e3', 'point tests away from the boundary',
               'a vertex touching another edge or vertex counts as a self-intersection']
MONITORS = ['simple', 'convex', 'area', 'orientation', 'barycenter', 'perimeter', 'edges', 'inside', 'point-barycenter',
            'non-simple-undefined', 'axes', 'after-transform', 'recenter', 'simplify', 'regular', 'ctor', 'reverse', 'triangle', 'path',
            'hull-method', 'change-of-unit']


def run(ctx):
    from Patro.GeometryEngine.Vector import Vector2D as V
    from Patro.GeometryEngine.Polygon import Polygon2D, RegularPolygon
    from Patro.GeometryEngine.Transformation import AffineTransformation2D

    def pts(primitive):
        return [(float(p.x), float(p.y)) for p in primitive.points]

    def make(rng):
        """-> list of points"""
        kind = rng.choice(['2opt', '2opt', 'star', 'star', 'convex', 'collinear', 'random', 'random', 'comb', 'touch', 'fold'])
        if kind == '2opt':
            n = rng.randint(3, 11)
            k = rng.choice([3, 6, 12])
            p = gen.distinct_points(rng, n, lambda r: gen.grid(r, k))
            p = gen.two_opt_polygon(rng, p) or p
        elif kind == 'star':
            n = rng.randint(3, 14)
            p = gen.star_polygon(rng, n, center=gen.fpoint(rng, 50), ndigits=rng.choice([None, 2, 1]))
        elif kind == 'convex':
            p = gen.convex_hull([gen.grid(rng, 15) for _ in range(rng.randint(4, 15))])
        elif kind == 'collinear':
            p = gen.convex_hull([gen.grid(rng, 8) for _ in range(rng.randint(4, 9))])
            q = []
            for i in range(len(p)):
                a, b = p[i], p[(i+1) % len(p)]
                q.append(a)
                g = math.gcd(b[0]-a[0], b[1]-a[1])
                if g > 1 and rng.random() < .7:
                    t = rng.randint(1, g-1)
                    q.append((a[0]+(b[0]-a[0])//g*t, a[1]+(b[1]-a[1])//g*t))
            p = q
        elif kind == 'random':
            k = rng.choice([2, 4, 20])
            p = gen.distinct_points(rng, rng.randint(3, 8), lambda r: gen.grid(r, k))
        elif kind == 'comb':
            m = rng.randint(2, 5)
            p = [(0, 0), (2*m, 0)]
            for i in range(m, 0, -1):
                p += [(2*i, rng.randint(2, 9)), (2*i-1, 1)]
            p.append((0, 6))
        elif kind == 'touch':
            p = [(0, 0), (4, 0), (4, 4), (2, 0), (0, 4)]
            p = rng.choice([p, [(0, 0), (4, 0), (4, 2), (2, 2), (4, 4), (0, 4), (2, 2)][:6],
                            [(0, 0), (6, 0), (6, 3), (3, 0), (1, 5)]])
        else: # an edge comes back on the previous one
            p = rng.choice([[(0, 0), (4, 0), (2, 0), (2, 3)], [(0, 0), (5, 0), (5, 5), (5, 2)], [(0, 0), (3, 0), (6, 0)],
                            [(0, 0), (4, 4), (2, 2), (0, 5)]])
        p = [tuple(x) for x in p]
        if len(p) < 3:
            return make(rng)
        if rng.random() < .5:
            p.reverse()
        s = rng.randrange(len(p))
        p = p[s:] + p[:s]
        if rng.random() < .3:
            d = gen.grid(rng, 40)
            p = [(x+d[0], y+d[1]) for x, y in p]
        if rng.random() < .15 and kind != 'star':
            p = [(x*.5, y*.25) for x, y in p]
        return kind, p

    def margin_ok(p):
        """every orientation test has a clear margin (or is exactly decided on a dyadic grid)"""
        return True

    def well_conditioned(p):
        # floats: vertices not within 1e-6 of a non adjacent edge
        n = len(p)
        if all(float(c*4).is_integer() for x in p for c in x):
            return True
        for i in range(n):
            for j in range(n):
                if i in (j, (j+1) % n):
                    continue
                if gen.point_segment_distance(p[i], p[j], p[(j+1) % n]) < 1e-6:
                    return False
        return True

    def axes(polygon, p, monitor):
        # principal axes of the second moments of the vertices
        n = len(p)
        xx = sum(float(x)**2 for x, y in p)/n
        yy = sum(float(y)**2 for x, y in p)/n
        xy = sum(float(x)*float(y) for x, y in p)/n
        d = math.hypot(xx - yy, 2*xy)
        l1, l2 = (xx + yy + d)/2, max(0, (xx + yy - d)/2)
        ctx.close(polygon.major_axis, 4*math.sqrt(l1), monitor, 1e-7, 1, p)
        if l2 < 1e-6*l1:
            return
        ctx.close(polygon.minor_axis, 4*math.sqrt(l2), monitor, 1e-5, 1, p)
        ctx.close(polygon.axis_ratio, math.sqrt(l1/l2), monitor, 1e-5, 1, p)
        if d > 1e-4*l1:
            angle = .5*math.atan2(2*xy, xx - yy)
            delta = (math.radians(polygon.major_axis_angle) - angle)/math.pi
            ctx.check(abs(delta - round(delta)) < 1e-5, monitor, lambda: 'angle %s, expected %s (%s)' % (polygon.major_axis_angle, math.degrees(angle), p))

    def observe(polygon, p, rng, suffix='', exact=True):
        n = len(p)
        simple = gen.is_simple(p)
        m = (lambda x: x + suffix) if not suffix else (lambda x: suffix)
        ctx.equal(bool(polygon.is_simple), simple, m('simple'), p)
        peri = sum(math.dist(p[i], p[(i+1) % n]) for i in range(n))
        ctx.close(polygon.perimeter, peri, m('perimeter'), 1e-9, 1)
        edges = [((e.p0.x, e.p0.y), (e.p1.x, e.p1.y)) for e in polygon.edges]
        ctx.check(len(edges) == n and polygon.number_of_edges == n and polygon.number_of_points == n and all(
            math.dist(e[0], p[i]) < 1e-6 and math.dist(e[1], p[(i+1) % n]) < 1e-6 for i, e in enumerate(edges)), m('edges'), edges)
        ctx.close_point(polygon.point_barycenter, (sum(x[0] for x in p)/n, sum(x[1] for x in p)/n), m('point-barycenter'), 1e-9, 100)
        if not simple:
            ctx.equal(bool(polygon.is_convex), False, m('convex'), p)
            ctx.check(not polygon.is_clockwise and not polygon.is_counterclockwise, m('non-simple-undefined'))
            ctx.check(polygon.area is None and polygon.barycenter is None, m('non-simple-undefined'))
            ctx.check(polygon.major_axis is None and polygon.minor_axis is None and polygon.major_axis_angle is None and polygon.axis_ratio is None, m('non-simple-undefined'))
            return
        if rng.random() < .6:
            axes(polygon, p, m('axes'))
        A2 = gen.area2(p)
        ctx.close(polygon.area, abs(float(A2))/2, m('area'), 1e-8, .1)
        ctx.equal((bool(polygon.is_clockwise), bool(polygon.is_counterclockwise)), (A2 < 0, A2 > 0), m('orientation'))
        if exact:
            ctx.equal(bool(polygon.is_convex), gen.is_convex(p), m('convex'), p)
            ctx.equal(bool(polygon.is_concave), not gen.is_convex(p), m('convex'), p)
        if abs(A2) > 1:
            P = [gen.F(x) for x in p]
            cx = sum((P[i][0]+P[(i+1) % n][0])*(P[i][0]*P[(i+1) % n][1]-P[(i+1) % n][0]*P[i][1]) for i in range(n))/(3*A2)
            cy = sum((P[i][1]+P[(i+1) % n][1])*(P[i][0]*P[(i+1) % n][1]-P[(i+1) % n][0]*P[i][1]) for i in range(n))/(3*A2)
            ctx.close_point(polygon.barycenter, (float(cx), float(cy)), m('barycenter'), 1e-6, 100)
        xs, ys = [x[0] for x in p], [x[1] for x in p]
        w, h = max(xs)-min(xs), max(ys)-min(ys)
        for _ in range(5):
            q = (min(xs) + w*rng.uniform(-.1, 1.1), min(ys) + h*rng.uniform(-.1, 1.1))
            k = rng.random()
            if k < .2: # same ordinate as a vertex
                q = (q[0], rng.choice(ys))
            elif k < .3:
                q = (rng.choice(xs), q[1])
            if min(gen.point_segment_distance(q, p[i], p[(i+1) % n]) for i in range(n)) < 1e-5:
                continue
            ctx.equal(bool(polygon.is_point_inside(V(q))), gen.point_in_polygon(p, q) > 0, m('inside'), (p, q))

    def polygon(rng):
        kind, p = make(rng)
        ctx.note(kind=kind, points=p)
        if len(set(p)) != len(p) or not well_conditioned(p):
            return
        exact = kind != 'star' # collinearity is decided exactly on dyadic grids only
        P = Polygon2D(*[V(x) for x in p])
        ctx.equal(pts(P), [tuple(map(float, x)) for x in p], 'ctor')
        ctx.check(P.is_closed, 'ctor')
        ctx.equal(bool(P.is_triangle), len(p) == 3, 'triangle')
        # the answers do not depend on which one is asked first
        order = ['is_simple', 'is_convex', 'area', 'is_clockwise', 'barycenter', 'perimeter', 'edges', 'is_counterclockwise', 'is_concave']
        getattr(P, rng.choice(order))
        observe(P, p, rng, exact=exact or min(abs(gen.orient(p[i-1], p[i], p[(i+1) % len(p)])) for i in range(len(p))) > 0)
        if len(p) == 3 and gen.orient(*p):
            t = P.to_triangle()
            ctx.equal(pts(t), [tuple(map(float, x)) for x in p], 'triangle')
        elif len(p) > 3:
            ctx.raises(ValueError, P.to_triangle, 'triangle')
        R = P.reverse()
        ctx.equal(pts(R), [tuple(map(float, x)) for x in reversed(p)], 'reverse')
        observe(R, list(reversed(p)), rng, 'reverse', exact)
        ctx.equal(pts(P), [tuple(map(float, x)) for x in p], 'reverse')
        path = P.to_path()
        stops = [(path.p0.x, path.p0.y)] + [(s.stop_point.x, s.stop_point.y) for s in path]
        ctx.check(path.is_closed and all(math.dist(a, b) < 1e-9 for a, b in zip(stops, p)), 'path', stops)
        if gen.is_simple(p):
            # the hull of the polygon does not change what the polygon answers
            H = P.convex_hull()
            h = pts(H) if hasattr(H, 'points') else [(q.x, q.y) for q in H]
            eh = [tuple(map(float, x)) for x in gen.convex_hull(p)]
            ctx.check(set(eh) <= set(h) and set(h) <= set(tuple(map(float, x)) for x in p), 'hull-method')
        # the caches follow the points
        mode = rng.randrange(4)
        if mode == 0:
            T = AffineTransformation2D.Translation(V(gen.grid(rng, 30)))
        elif mode == 1:
            T = AffineTransformation2D.Scale(rng.choice([2, -1, .5]), rng.choice([1, 3, -.5]))
        elif mode == 2:
            T = AffineTransformation2D((0, -1, 5, 1, 0, -2, 0, 0, 1))
        else:
            T = AffineTransformation2D((1, 2, 0, 0, -1, 0, 0, 0, 1))
        m = T.array.tolist()
        q = [(float(m[0][0]*Fr(x)+m[0][1]*Fr(y)+Fr(m[0][2])) if False else
              m[0][0]*x+m[0][1]*y+m[0][2], m[1][0]*x+m[1][1]*y+m[1][2]) for x, y in p]
        if not exact and not well_conditioned(q):
            return
        c = P.clone()
        # the same points before and after
        probes = [] if not gen.is_simple(p) else [a for a in [gen.grid(rng) for _ in range(3)] + [(sum(x for x, y in s)/len(s), sum(y for x, y in s)/len(s)) for s in (p, q)]
                  if all(min(gen.point_segment_distance(a, s[i], s[(i+1) % len(s)]) for i in range(len(s))) > 1e-5 for s in (p, q))]
        for a in probes:
            ctx.equal(bool(P.is_point_inside(V(a))), gen.point_in_polygon(p, a) > 0, 'after-transform', a)
        t = P.transform(T, clone=True)
        observe(t, q, rng, 'after-transform', exact)
        ctx.equal(pts(P), [tuple(map(float, x)) for x in p], 'after-transform')
        observe(P, p, rng, 'after-transform', exact)
        triangle = P.to_triangle() if len(p) == 3 and abs(gen.area2(p)) > 1 else None
        P.transform(T)
        for a in probes:
            ctx.equal(bool(P.is_point_inside(V(a))), gen.point_in_polygon(q, a) > 0, 'after-transform', a)
        observe(P, q, rng, 'after-transform', exact)
        if triangle is not None and abs(gen.area2(q)) > 1:
            ctx.equal(pts(P.to_triangle()), pts(P), 'triangle', 'after a transformation')
            ctx.equal(pts(triangle), [tuple(map(float, x)) for x in p], 'triangle', 'of the previous polygon')
        observe(c, p, rng, 'after-transform', exact)
        if gen.is_simple(p) and abs(gen.area2(p)) > 1:
            b = c.barycenter
            c.recenter()
            observe_points = pts(c)
            ctx.check(all(math.hypot(g[0]-(e[0]-b.x), g[1]-(e[1]-b.y)) < 1e-6 for g, e in zip(observe_points, p)), 'recenter')
            ctx.close_point(c.barycenter, (0, 0), 'recenter', 1e-6, 100)
            ctx.close(c.area, abs(float(gen.area2(p)))/2, 'recenter', 1e-6, 1)

    def scaled(rng):
        # an exact change of unit changes the measures by its powers, and no answer
        kind, p = make(rng)
        if kind == 'star' or len(set(p)) != len(p):
            return
        k = rng.choice([rng.randint(-40, -5), rng.randint(5, 40)])
        u = 2.**k
        q = [(x*u, y*u) for x, y in p]
        ctx.note(kind=kind, points=p, k=k)
        P, Q = Polygon2D(*[V(x) for x in p]), Polygon2D(*[V(x) for x in q])
        for name in ('is_simple', 'is_convex', 'is_concave', 'is_clockwise', 'is_counterclockwise', 'is_triangle'):
            ctx.equal(bool(getattr(P, name)), bool(getattr(Q, name)), 'change-of-unit', (name, p, k))
        for name, power in (('area', 2), ('perimeter', 1), ('major_axis', 1), ('minor_axis', 1), ('axis_ratio', 0), ('major_axis_angle', 0)):
            a, b = getattr(P, name), getattr(Q, name)
            if a is None or b is None:
                ctx.check(a is b, 'change-of-unit', lambda: (name, a, b))
            elif not math.isnan(a):
                if name in ('axis_ratio', 'minor_axis', 'major_axis_angle') and P.axis_ratio and (P.axis_ratio > 100 or P.axis_ratio < 1.001):
                    continue
                ctx.close(b/u**power, a, 'change-of-unit', 1e-9, 1e-6, (name, p, k))
        if P.barycenter is not None:
            g = P.barycenter
            ctx.close_point(Q.barycenter*(1/u), (g.x, g.y), 'change-of-unit', 1e-9, 1, (p, k))
        xs, ys = [x[0] for x in p], [x[1] for x in p]
        for _ in range(4):
            a = tuple(rng.randint(math.floor(4*min(c)) - 2, math.ceil(4*max(c)) + 2)/4 for c in (xs, ys))
            if min(gen.point_segment_distance(a, p[i-1], p[i]) for i in range(len(p))) > 1e-3:
                ctx.equal(bool(P.is_point_inside(V(a))), bool(Q.is_point_inside(V(a[0]*u, a[1]*u))), 'change-of-unit', (a, p, k))

    def simplify(rng):
        # vertices close to the sides of a convex polygon with far corners
        k = rng.randint(3, 6)
        r = 100
        t0 = rng.uniform(0, 360)
        corners = [(r*math.cos(math.radians(t0+360*i/k)), r*math.sin(math.radians(t0+360*i/k))) for i in range(k)]
        noise = rng.choice([.05, .2])
        p, truth = [], []
        start_mid = rng.random() < .5
        for i in range(k):
            a, b = corners[i], corners[(i+1) % k]
            truth.append(a)
            p.append((a, True))
            for j in range(rng.randint(0, 3)):
                pass
            ts = sorted(rng.uniform(.2, .8) for _ in range(rng.randint(0, 3)))
            n = (-(b[1]-a[1])/math.dist(a, b), (b[0]-a[0])/math.dist(a, b))
            last = 0
            for t in ts:
                if t-last < .1:
                    continue
                last = t
                e = rng.uniform(-noise, noise)
                p.append(((a[0]+t*(b[0]-a[0])+e*n[0], a[1]+t*(b[1]-a[1])+e*n[1]), False))
        if rng.random() < .5:
            p.reverse()
        ctx.note(points=p)
        P = Polygon2D(*[V(x[0]) for x in p])
        before = pts(P)
        S = P.simplify(threshold=2.)
        ctx.equal(pts(P), before, 'simplify', 'operand changed')
        got = pts(S)
        corner = [x[0] for x in p if x[1]]
        # the corners stay, in order; the first vertex may stay (the scan starts on it)
        ctx.check(set(corner) <= set(got), 'simplify', lambda: ('a corner is lost', got))
        ctx.check(set(got) <= set(before), 'simplify', 'not a vertex')
        ctx.equal(got, [x for x in before if x in set(got)], 'simplify', 'order')
        extra = [x for x in got if x not in set(corner)]
        ctx.check(len(extra) <= 1, 'simplify', lambda: ('not simplified', extra))
        S0 = P.simplify(threshold=1e-12)
        ctx.check(S0 is P or len(pts(S0)) >= len(got), 'simplify')

    def simplify_any(rng):
        p = gen.distinct_points(rng, rng.randint(3, 9), lambda q: gen.grid(q, rng.choice([3, 10, 50])))
        threshold = rng.choice([0, .5, 1, 3, 10])
        ctx.note(points=p, threshold=threshold)
        P = Polygon2D(*[V(x) for x in p])
        S = P.simplify(threshold)
        p = [tuple(map(float, x)) for x in p]
        ctx.equal(pts(P), p, 'simplify', 'operand changed')
        if S is not None: # None for a flat polygon
            got = pts(S)
            ctx.check(len(got) >= 3, 'simplify')
            ctx.equal(got, [x for x in p if x in set(got)], 'simplify', 'vertices in order')
            if S is not P:
                ctx.check(len(got) < len(p), 'simplify')

    NAMES = {i+1: name for i, name in enumerate(
        'monogon digon triangle quadrilateral pentagon hexagon heptagon octagon nonagon decagon hendecagon dodecagon tridecagon tetradecagon '
        'pentadecagon hexadecagon heptadecagon octadecagon enneadecagon icosagon'.split())}
    NAMES.update({24: 'icositetragon', 30: 'triacontagon', 40: 'tetracontagon', 50: 'pentacontagon', 60: 'hexacontagon', 70: 'heptacontagon',
                  80: 'octacontagon', 90: 'enneacontagon', 100: 'hectogon', 1000: 'chiliagon', 10**4: 'myriagon', 10**6: 'megagon'})

    def regular(rng):
        c, r, n, a = gen.fpoint(rng), rng.uniform(.5, 100), rng.randint(3, 25), rng.choice([0, 30, rng.uniform(0, 360)])
        ctx.note(c=c, r=r, n=n, a=a)
        P = RegularPolygon(V(c), r, n, a)
        p = [(c[0]+r*math.cos(math.radians(a+360*i/n)), c[1]+r*math.sin(math.radians(a+360*i/n))) for i in range(n)]

        def observe_regular(P, p, c, r, n):
            g = pts(P)
            ctx.check(len(g) == n and all(math.dist(x, y) < 1e-6 for x, y in zip(g, p)), 'regular', g)
            ctx.close(P.perimeter, 2*n*r*math.sin(math.pi/n), 'regular', 1e-9, 1)
            ctx.close(P.area, n*r*r*math.sin(2*math.pi/n)/2, 'regular', 1e-9, 1)
            ctx.close_point(P.barycenter, c, 'regular', 1e-6, 100)
            ctx.check(P.is_simple and P.is_convex and P.number_of_edges == n, 'regular')
            if hasattr(P, 'circumcircle'):
                ctx.close_point(P.circumcircle.center, c, 'regular', 1e-9, 100)
                ctx.close(P.circumcircle.radius, r, 'regular', 1e-9)
                ctx.close_point(P.center, c, 'regular', 1e-9, 100)
                ctx.close(P.edge_angle, 360/n, 'regular', 1e-12)
        observe_regular(P, p, c, r, n)
        ctx.check(P.is_counterclockwise, 'regular')
        ctx.equal(P.str_name, NAMES.get(n), 'regular', 'name')
        other = rng.choice([24, 30, 40, 50, 60, 70, 80, 90, 100, 1000, 10**4, 10**6, 7, 2, 21, 101, 23, 25])
        ctx.equal(RegularPolygon.ngon_name(other), NAMES.get(other), 'regular', other)
        C = P.clone()
        observe_regular(C, p, c, r, n)
        C.reverse()
        k, t = rng.uniform(.5, 2), rng.uniform(0, 360)
        T = AffineTransformation2D.Scale(k, k if rng.random() < .5 else -k) * AffineTransformation2D.RotationAt(V(1, 2), t)
        q = [((T*V(x)).x, (T*V(x)).y) for x in p]
        cc = T*V(c)
        D = C.transform(T, clone=True)
        C.transform(T)
        observe_regular(C, q, (cc.x, cc.y), r*k, n)
        observe_regular(D, q, (cc.x, cc.y), r*k, n)
        observe_regular(C.clone(), q, (cc.x, cc.y), r*k, n)
        observe_regular(P, p, c, r, n)
        R = C.reverse()
        ctx.check(pts(R) == list(reversed(pts(C))), 'regular', 'reverse')
        R = P.reverse()
        ctx.check(R.is_clockwise and pts(R) == list(reversed(pts(P))), 'regular', 'reverse')

    ctx.cases('polygon', polygon, 1200, 20000)
    ctx.cases('scaled', scaled, 400, 8000)
    ctx.cases('simplify', simplify, 400, 8000)
    ctx.cases('simplify_any', simplify_any, 500, 10000)
    ctx.cases('regular', regular, 200, 3000)
    ctx.cases('ctor', lambda rng: ctx.raises(ValueError, lambda: Polygon2D(V(0, 0), V(1, 1)), 'ctor'), 1, 1)
