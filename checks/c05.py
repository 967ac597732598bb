"""C05 -- triangles, rectangles, polylines: measures, classification, inside tests"""
import math
from fractions import Fraction as Fr
import battery
import gen

PID = 'C05'
QUICK_FACTOR = 4
RULE = ('triangles (integer grid, right, isosceles, equilateral, floats), rectangles of any diagonal, polylines of 2 to 10 '
        'points, with test points inside, outside and far; non-trivial: not flat')
ASSUMPTIONS = ['coordinates below 1e3', 'point inside tests away from the boundary, or exactly on it on the grid']
MONITORS = ['triangle-measure', 'triangle-class', 'triangle-inside', 'triangle-bisector', 'triangle-flat', 'triangle-edges',
            'triangle-orientation', 'same-side', 'triangle-after-transform',
            'rectangle-measure', 'rectangle-inside', 'rectangle-corners', 'rectangle-ctor',
            'polyline-length', 'polyline-distance', 'polyline-edges', 'polyline-ctor', 'polyline-after-transform', 'convert', 'path', 'again']


def run(ctx):
    from Patro.GeometryEngine.Vector import Vector2D as V
    from Patro.GeometryEngine.Triangle import Triangle2D, triangle_orientation, same_side
    from Patro.GeometryEngine.Rectangle import Rectangle2D
    from Patro.GeometryEngine.Polyline import Polyline2D
    from Patro.GeometryEngine.Transformation import AffineTransformation2D

    def pts(primitive):
        return [(p.x, p.y) for p in primitive.points]

    def segs(primitive):
        return [((e.p0.x, e.p0.y), (e.p1.x, e.p1.y)) for e in primitive.edges]

    def same(got, expected, monitor, tol=1e-9):
        ctx.check(len(got) == len(expected) and all(
            math.hypot(g[0]-e[0], g[1]-e[1]) < tol*1e3 for g, e in zip(got, expected)), monitor, lambda: (got, expected))

    def d2(a, b):
        return (Fr(a[0])-Fr(b[0]))**2 + (Fr(a[1])-Fr(b[1]))**2

    def triangle_measures(t, a, b, c, monitor):
        ab, bc, ca = math.dist(a, b), math.dist(b, c), math.dist(c, a)
        area = abs((b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0]))/2
        ctx.close(t.perimeter, ab+bc+ca, monitor, 1e-9)
        ctx.close(t.area, area, monitor, 1e-9, 1e-3)
        same([x for e in segs(t) for x in e], [a, b, b, c, c, a], 'triangle-edges')

    def triangle(rng):
        kind = rng.choice(['grid', 'grid', 'float', 'right', 'isosceles', 'equilateral', 'nearly'])
        exact = kind in ('grid', 'right')
        if kind == 'grid':
            a, b, c = [gen.grid(rng, rng.choice([3, 8, 30])) for _ in range(3)]
        elif kind == 'float':
            a, b, c = [gen.fpoint(rng) for _ in range(3)]
        elif kind == 'right':
            a, u = gen.grid(rng), gen.nonzero(rng, gen.grid)
            k = rng.choice([1, -1, 2, 3])
            b, c = (a[0]+u[0], a[1]+u[1]), (a[0]-k*u[1], a[1]+k*u[0])
        elif kind == 'nearly':
            # nearly right, isosceles or equilateral
            e = rng.choice([1e-2, 1e-3, 1e-4, 1e-5])*rng.choice([-1, 1])
            a, k, t = gen.fpoint(rng), rng.uniform(5, 50), rng.uniform(0, 7)
            near = rng.choice(['right', 'isosceles', 'equilateral'])
            if near == 'right':
                d, m = math.pi/2 + e, k*rng.uniform(1.2, 3)
            elif near == 'isosceles':
                d, m = rng.choice([rng.uniform(.3, .9), rng.uniform(1.2, 1.4), rng.uniform(1.7, 2.5)]), k*(1 + e)
            else:
                d, m = math.pi/3, k*(1 + e)
            b, c = (a[0]+k*math.cos(t), a[1]+k*math.sin(t)), (a[0]+m*math.cos(t+d), a[1]+m*math.sin(t+d))
        else:
            o, r, t = gen.fpoint(rng), rng.uniform(1, 100), math.radians(rng.uniform(0, 360))
            if kind == 'equilateral':
                th = [0, 120, 240]
            else:
                d = rng.uniform(15, 165)
                while abs(d-120) < 3 or abs(d-90) < 3: # right angle is at d=90
                    d = rng.uniform(15, 165)
                th = [0, d, -d]
            a, b, c = [(o[0]+r*math.cos(t+math.radians(x)), o[1]+r*math.sin(t+math.radians(x))) for x in th]
        l = [a, b, c]
        rng.shuffle(l)
        a, b, c = l
        cross = Fr(b[0]-a[0])*Fr(c[1]-a[1]) - Fr(b[1]-a[1])*Fr(c[0]-a[0])
        ctx.note(kind=kind, a=a, b=b, c=c, trivial=cross == 0)
        A, B, C = V(a), V(b), V(c)
        if cross == 0:
            ctx.raises(ValueError, lambda: Triangle2D(A, B, C), 'triangle-flat')
            return
        if abs(cross) < 1e-2*max(d2(a, b), d2(b, c), d2(a, c)):
            return
        ctx.equal(triangle_orientation(A, B, C), 1 if cross > 0 else -1, 'triangle-orientation')
        t = Triangle2D(A, B, C)
        triangle_measures(t, a, b, c, 'triangle-measure')
        ctx.check(t.is_closed and t.number_of_points == 3, 'triangle-measure')
        same(pts(t.to_polygon()), [a, b, c], 'convert')
        same([(p.x, p.y) for p in t.closed_points], [a, b, c, a], 'triangle-edges')
        # classification
        s = sorted([d2(a, b), d2(b, c), d2(c, a)])
        if exact:
            eq, iso = s[0] == s[2], (s[0] == s[1]) != (s[1] == s[2]) # no equilateral on the grid
            right = s[0]+s[1] == s[2]
            obtuse = s[0]+s[1] < s[2]
        else:
            S = [math.sqrt(x) for x in s]
            eq = kind == 'equilateral'
            iso = kind == 'isosceles'
            if kind == 'float' and min(S[1]-S[0], S[2]-S[1]) < 1e-3:
                return
            m = (s[0]+s[1]-s[2])/s[2]
            if kind == 'nearly':
                if abs(m) < 1e-6:
                    return
            elif abs(m) < 1e-3:
                return
            right, obtuse = False, m < 0
        ctx.equal((bool(t.is_equilateral), bool(t.is_isosceles), bool(t.is_scalene)), (eq, iso, not (eq or iso)), 'triangle-class')
        ctx.equal((bool(t.is_right), bool(t.is_obtuse), bool(t.is_acute)), (right, obtuse, not (right or obtuse)), 'triangle-class')
        ctx.equal(bool(t.is_oblique), not right, 'triangle-class')
        # bisectors have the same angle with both edges
        for i, (p, q, r) in enumerate(((a, b, c), (b, a, c), (c, a, b))):
            v = getattr(t, 'bisector_vector%d' % i)
            l = getattr(t, 'bisector_line%d' % i)
            u1 = ((q[0]-p[0])/math.dist(p, q), (q[1]-p[1])/math.dist(p, q))
            u2 = ((r[0]-p[0])/math.dist(p, r), (r[1]-p[1])/math.dist(p, r))
            c1, c2 = v.x*u1[0]+v.y*u1[1], v.x*u2[0]+v.y*u2[1]
            ctx.check(abs(c1-c2) < 1e-7*math.hypot(v.x, v.y) and c1+c2 > 0, 'triangle-bisector', i)
            ctx.close_point(l.p, p, 'triangle-bisector', 1e-9, 100)
            ctx.check(abs(l.v.x*v.y-l.v.y*v.x) < 1e-7*v.magnitude*l.v.magnitude, 'triangle-bisector', i)
        # inside
        for _ in range(4):
            w = [rng.uniform(-.6, 1.2) for _ in range(3)]
            if rng.random() < .4:
                w = [rng.random() for _ in range(3)]
            z = sum(w)
            if abs(z) < .05:
                continue
            w = [x/z for x in w]
            if min(abs(x) for x in w) < 1e-4:
                continue
            p = (w[0]*a[0]+w[1]*b[0]+w[2]*c[0], w[0]*a[1]+w[1]*b[1]+w[2]*c[1])
            ctx.equal(bool(t.is_point_inside(V(p))), min(w) > 0, 'triangle-inside', (p, w))
            ctx.equal(bool(same_side(V(p), A, B, C)), w[0] > 0, 'same-side')
        # the boundary, whose products are exact on the grid
        if exact:
            for p, q, r in ((a, b, c), (b, c, a), (c, a, b)):
                k = rng.choice([0, .5, .25, .75])
                x = (p[0]+k*(q[0]-p[0]), p[1]+k*(q[1]-p[1]))
                ctx.equal(bool(t.is_point_inside(V(x))), True, 'triangle-inside', ('boundary', x))
                k = rng.choice([-.25, 1.25, -1, 2])
                x = (p[0]+k*(q[0]-p[0]), p[1]+k*(q[1]-p[1]))
                ctx.equal(bool(t.is_point_inside(V(x))), False, 'triangle-inside', ('line of an edge', x))
        # a triangle of any size is the same triangle
        # Note: two vectors are parallel when their cross product is null at 1e-7
        k = max(10.**rng.randint(-7, 6), math.sqrt(rng.choice([1e-6, 1e-5])/abs(float(cross))))
        small = Triangle2D(*[V(k*(x[0]-a[0]), k*(x[1]-a[1])) for x in (a, b, c)])
        size = math.sqrt(float(s[2]))
        ctx.close(small.perimeter, k*t.perimeter, 'triangle-measure', 1e-9, k*size*100)
        for _ in range(3):
            w = [rng.uniform(-.3, 1) for _ in range(2)]
            w.append(1 - sum(w))
            if min(abs(x) for x in w) > 1e-3:
                p = [k*(w[1]*(b[i]-a[i]) + w[2]*(c[i]-a[i])) for i in (0, 1)]
                ctx.equal(bool(small.is_point_inside(V(p))), min(w) > 0, 'triangle-inside', ('size', k, w))
        # a vertex is moved
        other = Triangle2D(*[V(x) for x in (a, b, c)])
        other.perimeter, other.area, other.is_right, other.is_scalene, other.bisector_vector0, other.is_point_inside(V(0, 0)), tuple(other.edges)
        i, f = rng.randrange(3), rng.uniform(.4, .9)
        m = [a, b, c]
        m[i] = tuple(f*x + (1-f)*(y+z)/2 for x, y, z in zip(m[i], m[i-1], m[i-2]))
        setattr(other, 'p%d' % i, V(m[i]))
        triangle_measures(other, *m, 'triangle-after-transform')
        fresh = Triangle2D(*[V(x) for x in m])
        names = ('is_right', 'is_obtuse', 'is_acute', 'is_scalene', 'is_equilateral', 'is_isosceles')
        ctx.equal([bool(getattr(other, x)) for x in names], [bool(getattr(fresh, x)) for x in names], 'triangle-after-transform')
        # after an in place similarity
        k, ang = rng.uniform(.5, 3), rng.uniform(0, 360)
        T = AffineTransformation2D.Scale(k, k) * AffineTransformation2D.RotationAt(V(3, 4), ang)
        q = [((T*V(x)).x, (T*V(x)).y) for x in (a, b, c)]
        t.transform(T)
        triangle_measures(t, *q, 'triangle-after-transform')
        ctx.equal((bool(t.is_obtuse), bool(t.is_scalene)), (obtuse, not (eq or iso)), 'triangle-after-transform')

    def rectangle(rng):
        f = gen.grid if rng.random() < .5 else gen.fpoint
        a, b = f(rng), f(rng)
        ctx.note(a=a, b=b, trivial=a[0] == b[0] or a[1] == b[1])
        kind = rng.randrange(3)
        if kind == 0:
            r = Rectangle2D(V(a), V(b))
        elif kind == 1:
            r = Rectangle2D.from_point_and_offset(V(a), V(b[0]-a[0], b[1]-a[1]))
        else:
            c, h = ((a[0]+b[0])/2, (a[1]+b[1])/2), ((b[0]-a[0])/2, (b[1]-a[1])/2)
            r = Rectangle2D.from_point_and_radius(V(c), V(h))
        same(pts(r), [a, b], 'rectangle-ctor')
        w, h = abs(b[0]-a[0]), abs(b[1]-a[1])
        ctx.close(r.area, w*h, 'rectangle-measure', 1e-9, 1)
        ctx.close(r.perimeter, 2*(w+h), 'rectangle-measure', 1e-9, 1)
        ctx.close_point(r.diagonal, (b[0]-a[0], b[1]-a[1]), 'rectangle-measure', 1e-9, 1)
        ctx.check(r.is_closed, 'rectangle-measure')
        bb = r.bounding_box
        ctx.close_point((bb.x.inf, bb.y.inf), (min(a[0], b[0]), min(a[1], b[1])), 'rectangle-measure', 1e-9, 100)
        ctx.close_point((bb.x.sup, bb.y.sup), (max(a[0], b[0]), max(a[1], b[1])), 'rectangle-measure', 1e-9, 100)
        corners = {(a[0], a[1]), (a[0], b[1]), (b[0], a[1]), (b[0], b[1])}
        near = lambda p: min(math.dist(p, c) for c in corners) < 1e-6

        def loop(edges, monitor):
            ctx.equal(len(edges), 4, monitor)
            ctx.check(all(near(p) for e in edges for p in e), monitor, edges)
            ctx.check(all(math.dist(edges[i][1], edges[(i+1) % 4][0]) < 1e-6 for i in range(4)), monitor, edges)
            area = sum(e[0][0]*e[1][1]-e[1][0]*e[0][1] for e in edges)/2
            ctx.close(abs(area), w*h, monitor, 1e-6, 100)
        loop(segs(r), 'rectangle-corners')
        if w and h:
            loop(segs(r.to_polygon()), 'convert')
            q = r.to_polygon()
            ctx.close(q.area, w*h, 'convert', 1e-9, 1)
            k = rng.choice([0, .5, .25, 1])
            for p in rng.sample([(a[0], a[1]+k*(b[1]-a[1])), (b[0], a[1]+k*(b[1]-a[1])), (a[0]+k*(b[0]-a[0]), a[1]), (a[0]+k*(b[0]-a[0]), b[1])], 2):
                if all(float(x).is_integer() for x in (*a, *b)):
                    ctx.equal(bool(r.is_point_inside(V(p))), True, 'rectangle-inside', ('boundary', p))
            for _ in range(3):
                p = (a[0]+(b[0]-a[0])*rng.uniform(-.5, 1.5), a[1]+(b[1]-a[1])*rng.uniform(-.5, 1.5))
                dx = min(abs(p[0]-a[0]), abs(p[0]-b[0]))
                dy = min(abs(p[1]-a[1]), abs(p[1]-b[1]))
                if min(dx, dy) < 1e-6:
                    continue
                e = min(a[0], b[0]) < p[0] < max(a[0], b[0]) and min(a[1], b[1]) < p[1] < max(a[1], b[1])
                ctx.equal(bool(r.is_point_inside(V(p))), e, 'rectangle-inside')

    def check_polyline(pl, p, rng, monitor):
        n = len(p)
        ctx.close(pl.length, sum(math.dist(p[i], p[i+1]) for i in range(n-1)), monitor, 1e-9, 1)
        es = segs(pl)
        same([x for e in es for x in e], [x for i in range(n-1) for x in (p[i], p[i+1])], 'polyline-edges')
        for _ in range(2):
            q = gen.fpoint(rng, 150)
            d = min(gen.point_segment_distance(q, p[i], p[i+1]) for i in range(n-1))
            ctx.close(pl.distance_to_point(V(q)), d, 'polyline-distance', 1e-8, 100)
        # on the polyline
        i, k = rng.randrange(n-1), rng.choice([0, 0, 1, .5, .25])
        q = (p[i][0]+k*(p[i+1][0]-p[i][0]), p[i][1]+k*(p[i+1][1]-p[i][1]))
        ctx.close(pl.distance_to_point(V(q)), 0, 'polyline-distance', 1e-8, 100, 'on an edge')

    def polyline(rng):
        n = rng.randint(2, 10)
        f = gen.grid if rng.random() < .5 else gen.fpoint
        p = [f(rng) for _ in range(n)]
        ctx.note(points=p)
        pl = Polyline2D(*[V(x) for x in p])
        ctx.equal((pl.number_of_points, len(pl), bool(pl.is_closed)), (n, n, False), 'polyline-ctor')
        same(pts(pl), p, 'polyline-ctor')
        same([(pl.start_point.x, pl.start_point.y), (pl.end_point.x, pl.end_point.y)], [p[0], p[-1]], 'polyline-ctor')
        ctx.raises(ValueError, lambda: Polyline2D(V(p[0])), 'polyline-ctor')
        check_polyline(pl, p, rng, 'polyline-length')
        path = pl.to_path()
        got = [(path.p0.x, path.p0.y)] + [(s.stop_point.x, s.stop_point.y) for s in path]
        same(got, p, 'path')
        T = AffineTransformation2D.RotationAt(V(1, -2), rng.uniform(0, 360)) * AffineTransformation2D.Scale(rng.uniform(.5, 3), rng.uniform(.5, 3))
        q = [((T*V(x)).x, (T*V(x)).y) for x in p]
        c = pl.clone()
        pl.transform(T)
        check_polyline(pl, q, rng, 'polyline-after-transform')
        check_polyline(c, p, rng, 'polyline-after-transform')

    def again(rng):
        # a figure which was observed and then modified is as a new one
        cls, n = rng.choice([(Triangle2D, 3), (Rectangle2D, 2), (Rectangle2D, 2), (Polyline2D, rng.randint(2, 5))])
        f = gen.grid if rng.random() < .5 else gen.fpoint
        p = [f(rng) for _ in range(n)]
        flat = lambda p: cls is Triangle2D and abs((p[1][0]-p[0][0])*(p[2][1]-p[0][1]) - (p[1][1]-p[0][1])*(p[2][0]-p[0][0])) < 1
        if flat(p):
            return
        o = cls(*[V(x) for x in p])
        log = []
        ctx.note(cls=cls.__name__, points=p, log=log)
        special = [((0, 0), (4, 0), (0, 3)), ((0, 0), (4, 0), (2, 7)), ((0, 0), (4, 0), (2, math.sqrt(12))), ((0, 0), (4, 0), (1, 1))]

        def look(o):
            r = battery.observe(o, *probes)
            for name in ('is_equilateral', 'is_scalene', 'is_isosceles', 'is_right', 'is_obtuse', 'is_acute', 'is_oblique', 'to_polygon', 'to_path'):
                if hasattr(o, name):
                    try:
                        x = getattr(o, name)
                        x = x() if callable(x) else x
                        r[name] = battery.normal(x)
                    except Exception as e:
                        r[name] = type(e).__name__
            return r
        probes = [V(gen.fpoint(rng)), V(p[0])], [.3]
        for _ in range(rng.randint(1, 3)):
            look(o)
            op = rng.choice(['setter', 'setter', 'coordinate', 'transform', 'scale', 'special'])
            if op == 'setter' and cls is not Polyline2D:
                setattr(o, 'p%u' % rng.randrange(n), V(f(rng)))
            elif op == 'special' and cls is Triangle2D:
                for i, x in enumerate(rng.choice(special)):
                    setattr(o, 'p%u' % i, V(x))
            elif op == 'coordinate' and cls is not Polyline2D:
                getattr(o, 'p%u' % rng.randrange(n)).x += 3
            elif op == 'scale':
                o.scale(rng.choice([-2, .5]), rng.choice([-1, 3]))
            else:
                op = 'transform'
                o.transform(AffineTransformation2D.RotationAt(V(1, -2), rng.choice([90, 30])))
            log.append(op)
            if flat(pts(o)):
                return
            d = battery.differences(look(o), look(cls(*[V(x.x, x.y) for x in o.points])))
            ctx.check(not d, 'again', lambda: (log, pts(o), d[:3]))

    ctx.cases('again', again, 400, 12000)
    ctx.cases('triangle', triangle, 2500, 60000)
    ctx.cases('rectangle', rectangle, 1000, 30000)
    ctx.cases('polyline', polyline, 800, 20000)
