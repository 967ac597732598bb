"""C03 -- contract shared by the primitives defined by points"""
import math
import battery
import gen

PID = 'C03'
QUICK_FACTOR = 5
RULE = ('random histories of clone, transform, mirror, rotate, scale, reverse and point assignments on live primitives of each '
        'class (segment, triangle, rectangle, polyline, polygon, Bezier curves, splines), all the objects of the history being '
        'compared with shadow point lists after each step; non-trivial: at least one transformation which is not the identity')
ASSUMPTIONS = ['coordinates below 1e6', 'rectangles: only the two defining points are transformed']
MONITORS = ['again', 'ctor', 'shadow', 'clone', 'transform', 'in-place', 'reverse', 'reverse-parameter', 'bounding-box', 'array', 'equality', 'closeness',
            'ends', 'setter', 'closed', 'cross-type', 'convert-polygon', 'convert-path', 'interpolate', 'nuplets', 'fresh', 'repeated-points', 'near-miss', 'collapse']


def run(ctx):
    from Patro.GeometryEngine.Vector import Vector2D as V
    from Patro.GeometryEngine.Segment import Segment2D
    from Patro.GeometryEngine.Triangle import Triangle2D
    from Patro.GeometryEngine.Rectangle import Rectangle2D
    from Patro.GeometryEngine.Polyline import Polyline2D
    from Patro.GeometryEngine.Polygon import Polygon2D
    from Patro.GeometryEngine.Bezier import QuadraticBezier2D, CubicBezier2D
    from Patro.GeometryEngine.Spline import QuadraticUniformSpline2D, CubicUniformSpline2D, BSpline2D
    from Patro.GeometryEngine.Transformation import Transformation2D, AffineTransformation2D

    SIZES = {
        Segment2D: 2, Rectangle2D: 2, Triangle2D: 3, QuadraticBezier2D: 3, QuadraticUniformSpline2D: 3,
        CubicBezier2D: 4, CubicUniformSpline2D: 4, Polyline2D: None, Polygon2D: None, BSpline2D: None,
    }
    CLASSES = list(SIZES)
    CLOSED = (Triangle2D, Rectangle2D, Polygon2D)

    def xy(points):
        return [(float(p.x), float(p.y)) for p in points]

    def make(rng, cls):
        n = SIZES[cls] or rng.randint(3, 8)
        f = gen.fpoint if rng.random() < .5 else gen.grid
        while True:
            p = gen.distinct_points(rng, n, f)
            if n == 3 and abs(gen.orient(*p)) == 0:
                continue
            if n == 3 and abs((p[1][0]-p[0][0])*(p[2][1]-p[0][1])-(p[1][1]-p[0][1])*(p[2][0]-p[0][0])) < 1:
                continue
            break
        p = [tuple(map(float, x)) for x in p]
        v = [V(x) for x in p]
        if cls is BSpline2D:
            return cls(v, 2), p, v
        return cls(*v), p, v

    def matrix(rng):
        kind = rng.choice(['identity', 'rotation', 'scale', 'scale2', 'mirror', 'affine', 'translation', 'rotation_at'])
        c = lambda a: (math.cos(math.radians(a)), math.sin(math.radians(a)))
        if kind == 'identity':
            return kind, rng.choice([Transformation2D.Identity(), AffineTransformation2D.Identity()]), (1, 0, 0, 0, 1, 0)
        elif kind == 'rotation':
            a = gen.angle(rng)
            x, y = c(a)
            return kind, Transformation2D.Rotation(a), (x, -y, 0, y, x, 0)
        elif kind == 'scale':
            k = rng.choice([-1, 2, .5, rng.uniform(.5, 2)])
            return kind, Transformation2D.Scale(k), (k, 0, 0, 0, k, 0)
        elif kind == 'scale2':
            k, l = rng.uniform(.5, 2), rng.uniform(-2, -.5)
            return kind, Transformation2D.Scale(k, l), (k, 0, 0, 0, l, 0)
        elif kind == 'mirror':
            k, l = rng.choice([(-1, 1), (1, -1), (-1, -1)])
            return kind, Transformation2D.Scale(k, l), (k, 0, 0, 0, l, 0)
        elif kind == 'translation':
            p = gen.fpoint(rng)
            return kind, AffineTransformation2D.Translation(V(p)), (1, 0, p[0], 0, 1, p[1])
        elif kind == 'rotation_at':
            p, a = gen.fpoint(rng), gen.angle(rng)
            x, y = c(a)
            return kind, AffineTransformation2D.RotationAt(V(p), a), (x, -y, p[0]-x*p[0]+y*p[1], y, x, p[1]-y*p[0]-x*p[1])
        m = [rng.uniform(-2, 2), rng.uniform(-1, 1), rng.uniform(-9, 9), rng.uniform(-1, 1), rng.uniform(1.5, 3), rng.uniform(-9, 9)]
        m[0] = rng.choice([-1, 1])*rng.uniform(1, 2)
        return kind, AffineTransformation2D(m + [0, 0, 1]), tuple(m)

    def apply(m, p):
        return [(m[0]*x+m[1]*y+m[2], m[3]*x+m[4]*y+m[5]) for x, y in p]

    def same(g, e, tol=1e-8):
        if len(g) != len(e):
            return False
        s = max([100] + [abs(c) for p in e for c in p])
        return all(math.dist(a, b) <= tol*s for a, b in zip(g, e))

    def observe(o, p, monitor='shadow'):
        """a live object against its shadow"""
        g = xy(o.points)
        ctx.check(same(g, p), monitor, lambda: (type(o).__name__, g, p))
        ctx.equal((o.number_of_points, len(o), o.dimension), (len(p), len(p), 2), 'ctor')
        a = o.point_array
        ctx.check(a.shape == (2, len(p)) and same(list(zip(a[0], a[1])), p), 'array', lambda: (type(o).__name__, a.tolist(), p))
        b = o.bounding_box
        xs, ys = [x for x, _ in p], [y for _, y in p]
        ctx.close_point((b.x.inf, b.y.inf), (min(xs), min(ys)), 'bounding-box', 1e-8, 100, type(o).__name__)
        ctx.close_point((b.x.sup, b.y.sup), (max(xs), max(ys)), 'bounding-box', 1e-8, 100, type(o).__name__)
        if hasattr(o, 'start_point'):
            ctx.close_point(o.start_point, p[0], 'ends', 1e-8, 100)
            ctx.close_point(o.end_point, p[-1], 'ends', 1e-8, 100)
        for i, q in enumerate(p[:4]):
            if hasattr(o, 'p%d' % i):
                ctx.close_point(getattr(o, 'p%d' % i), q, 'ends', 1e-8, 100)
        if hasattr(o, 'iter_from_second_point'):
            ctx.check(same(xy(o.iter_from_second_point()), p[1:]), 'ends', 'iter_from_second_point')
        ctx.equal(bool(o.is_closed), isinstance(o, CLOSED), 'closed', type(o).__name__)
        ctx.check(not o.is_infinite, 'closed')
        if isinstance(o, CLOSED):
            ctx.check(same(xy(o.closed_points), p + p[:1]), 'closed', 'closed_points')
            a = o.closed_point_array
            ctx.check(same(list(zip(a[0], a[1])), p + p[:1]), 'closed', 'closed_point_array')
            pairs = [xy(x) for x in o.closed_pairwise_points]
            ctx.check(len(pairs) == len(p) and all(same(x, [p[i], p[(i+1) % len(p)]]) for i, x in enumerate(pairs)),
                      'closed', 'closed_pairwise_points')

    def fresh(o):
        p = [V(x) for x in xy(o.points)]
        return type(o)(p, 2) if isinstance(o, BSpline2D) else type(o)(*p)

    def history(rng):
        cls = rng.choice(CLASSES)
        o, p, v = make(rng, cls)
        # everything is observed at each step, so as to fill any cache
        probes = None
        if rng.random() < (.1 if cls in (QuadraticBezier2D, CubicBezier2D) else .5):
            probes = [V(gen.fpoint(rng)), V(p[0])], [rng.random()]
        live = [(o, p)]
        log = []
        observe(o, p, 'ctor')
        # the arguments are copied
        for x in v:
            x += V(100, 200)
        observe(o, p, 'ctor')
        for _ in range(rng.randint(1, 6)):
            i = rng.randrange(len(live))
            o, p = live[i]
            if probes:
                battery.observe(o, *probes)
            op = rng.choice(['clone', 'transform', 'transform', 'transform-clone', 'named', 'reverse', 'setter', 'observe'])
            if op == 'clone':
                c = o.clone()
                ctx.check(type(c) is type(o) and c is not o, 'clone')
                live.append((c, list(p)))
                log.append((i, op))
            elif op in ('transform', 'transform-clone'):
                kind, T, m = matrix(rng)
                log.append((i, op, kind, m))
                before = T.array.copy()
                r = o.transform(T, clone=True) if op == 'transform-clone' else o.transform(T)
                q = apply(m, p)
                if op == 'transform':
                    ctx.check(r is o, 'in-place', kind)
                    live[i] = (o, q)
                else:
                    ctx.check(r is not o, 'in-place', kind)
                    live.append((r, q))
                observe(r, q, 'transform')
                ctx.check((before == T.array).all(), 'transform', 'transformation changed')
            elif op == 'named':
                name = rng.choice(['mirror', 'x_mirror', 'y_mirror', 'rotate', 'scale', 'scale2'])
                clone = rng.random() < .5
                a, k, l = gen.angle(rng), rng.uniform(.5, 2), rng.uniform(.5, 2)
                # in place unless a clone is required
                named = dict(clone=clone) if clone or rng.random() < .5 else {}
                if name == 'mirror':
                    r, m = o.mirror(**named), (-1, 0, 0, 0, -1, 0)
                elif name == 'x_mirror':
                    r, m = o.x_mirror(**named), (-1, 0, 0, 0, 1, 0)
                elif name == 'y_mirror':
                    r, m = o.y_mirror(**named), (1, 0, 0, 0, -1, 0)
                elif name == 'rotate':
                    x, y = math.cos(math.radians(a)), math.sin(math.radians(a))
                    r, m = o.rotate(a, **named), (x, -y, 0, y, x, 0)
                elif name == 'scale':
                    r, m = o.scale(k, **named), (k, 0, 0, 0, k, 0)
                else:
                    r, m = o.scale(k, l, **named), (k, 0, 0, 0, l, 0)
                log.append((i, name, clone, m))
                q = apply(m, p)
                ctx.check((r is o) != clone, 'in-place', name)
                if rng.random() < .25: # the same one again
                    log.append('twice')
                    q = apply(m, q)
                    args = {'rotate': (a,), 'scale': (k,), 'scale2': (k, l)}.get(name, ())
                    r = getattr(r, name.rstrip('2'))(*args, **named)
                if clone:
                    live.append((r, q))
                else:
                    live[i] = (o, q)
                observe(r, q, 'transform')
            elif op == 'reverse':
                log.append((i, op))
                ctx.check(o.is_reversible, 'reverse')
                r = o.reverse()
                ctx.check(r is not o and type(r) is type(o), 'reverse')
                live.append((r, p[::-1]))
                observe(r, p[::-1], 'reverse')
                if hasattr(o, 'point_at_t') and not isinstance(o, BSpline2D):
                    t = rng.random()
                    a = o.point_at_t(t)
                    ctx.close_point(r.point_at_t(1-t), (a.x, a.y), 'reverse-parameter', 1e-8, 1000, type(o).__name__)
            elif op == 'setter' and SIZES[cls]:
                j = rng.randrange(len(p))
                x = gen.fpoint(rng)
                log.append((i, op, j, x))
                w = V(x)
                setattr(o, 'p%d' % j, w)
                q = list(p)
                q[j] = x
                w += V(7, 7) # the value is copied
                live[i] = (o, q)
                observe(o, q, 'setter')
        ctx.note(cls=cls.__name__, points=live[0][1], log=log, trivial=not log)
        # no object of the history was changed by an operation on another one
        for o, p in live:
            observe(o, p)
        # comparisons depend on the present points
        o, p = rng.choice(live)
        t = fresh(o)
        queries = ('is_point_equal', 'is_point_close', '__eq__')
        table = [(n, (x,)) for n in queries for x in (t, live[0][0], live[-1][0]) if hasattr(o, n)]
        if hasattr(o, '__getitem__'):
            table += [('__getitem__', (i,)) for i in range(len(p))]
        d = battery.differences(battery.calls(o, table), battery.calls(fresh(o), table))
        ctx.check(not d, 'again', lambda: (log, d[:3]))
        o.scale(2, -1.5)
        d = battery.differences(battery.calls(o, table), battery.calls(fresh(o), table))
        ctx.check(not d, 'again', lambda: (log, 'scaled', d[:3]))
        live = [(a, [(x*2, y*-1.5) for x, y in q] if a is o else q) for a, q in live]
        # an object which was modified is as a new one which has the same points
        if probes:
            for o, p in live:
                d = battery.differences(battery.observe(o, *probes), battery.observe(fresh(o), *probes))
                ctx.check(not d, 'fresh', lambda: (type(o).__name__, p, d[:3]))
        # equality and closeness
        o, p = live[-1]
        c = o.clone()
        ctx.check(o == c and o.is_point_close(c), 'equality')
        d = o.transform(AffineTransformation2D.Translation(V(1e-11, 0)), clone=True)
        ctx.check(o.is_point_close(d), 'closeness')
        d = o.transform(AffineTransformation2D.Translation(V(rng.choice([-1, 1])*50., 500.)), clone=True)
        ctx.check(not o == d and not o.is_point_close(d), 'closeness')
        j = rng.randrange(len(p))
        # one point which is only slightly elsewhere
        if SIZES[cls] and max(abs(c) for c in p[j]) > 1 and rng.random() < .3:
            d = o.clone()
            k = max(abs(c) for c in p[j]) * 10**rng.uniform(-4, -2)
            setattr(d, 'p%d' % j, V(p[j][0] + (k if abs(p[j][0]) > abs(p[j][1]) else 0), p[j][1] + (k if abs(p[j][0]) <= abs(p[j][1]) else 0)))
            ctx.check(not o.is_point_close(d) and not o == d, 'near-miss', lambda: (cls.__name__, xy(o.points), xy(d.points)))
        q = list(p)
        q[j] = (q[j][0] + 17, q[j][1]+1000)
        if cls not in (BSpline2D,):
            if cls is not Triangle2D or abs(gen.orient(*q)) == 1:
                d = cls(*[V(x) for x in q])
                ctx.check(not o == d and not o.is_point_close(d), 'equality', 'one point differs')
        if len(p) > 2 or p[0] != p[-1]:
            ctx.check(not o == o.reverse() or p == p[::-1], 'equality', 'order of the points')
        if hasattr(o, 'to_polygon') and len(p) > 2:
            observe(o.to_polygon(), p, 'convert-polygon')
        if hasattr(o, 'to_path') and cls is not Rectangle2D:
            path = o.to_path()
            g = [(path.p0.x, path.p0.y)] + [(s.stop_point.x, s.stop_point.y) for s in path]
            ctx.check(same(g[:len(p)], p) and bool(path.is_closed) == bool(o.is_closed), 'convert-path', (type(o).__name__, g, p))
        if cls is Segment2D:
            t = rng.uniform(-1, 2)
            ctx.close_point(o.interpolate(t), (p[0][0]*(1-t)+p[1][0]*t, p[0][1]*(1-t)+p[1][1]*t), 'interpolate', 1e-8, 1000)
        if hasattr(o, 'iter_on_nuplets'):
            k = rng.randint(1, len(p))
            g = [xy(x) for x in o.iter_on_nuplets(k)]
            ctx.check(len(g) == len(p)-k+1 and all(same(x, p[i:i+k]) for i, x in enumerate(g)), 'nuplets')
            ctx.raises(ValueError, lambda: list(o.iter_on_nuplets(len(p)+1)), 'nuplets')
            ctx.check(same(xy(o[i] for i in range(len(p))), p), 'nuplets', 'getitem')
        ctx.seen('cross-type')
        for o, p in live:
            observe(o, p)

    def repeated(rng):
        """points which come back are kept"""
        cls = rng.choice([Polyline2D, Polygon2D])
        base = [tuple(map(float, x)) for x in gen.distinct_points(rng, rng.randint(3, 5), gen.grid)]
        p = base + [rng.choice(base) for _ in range(rng.randint(1, 3))]
        rng.shuffle(p)
        if rng.random() < .3:
            p.insert(rng.randrange(1, len(p)), p[0])
        if cls is Polygon2D and p[0] == p[-1]:
            p.append(next(x for x in base if x != p[0]))
        ctx.note(cls=cls.__name__, points=p)
        o = cls(*[V(x) for x in p])
        ctx.check(same(xy(o.points), p), 'repeated-points', 'points')
        observe(o.clone(), p, 'repeated-points')
        observe(o.reverse(), p[::-1], 'repeated-points')
        if hasattr(o, 'to_polygon'):
            observe(o.to_polygon(), p, 'repeated-points')
        if hasattr(o, 'to_path') and all(a != b for a, b in zip(p, p[1:])):
            path = o.to_path()
            g = [(path.p0.x, path.p0.y)] + [(s.stop_point.x, s.stop_point.y) for s in path]
            ctx.check(same(g[:len(p)], p) and bool(path.is_closed) == bool(o.is_closed), 'repeated-points', lambda: ('to_path', g))

    def collapse(rng):
        """a null factor collapses the object on an axis"""
        cls = rng.choice([Segment2D, Polyline2D, QuadraticBezier2D, CubicBezier2D])
        o, p, v = make(rng, cls)
        k, axis = rng.uniform(.5, 2), rng.random() < .5
        f = (k, 0) if axis else (0, k)
        if rng.random() < .5:
            f = tuple(type(x)(x) if x else rng.choice([0, 0., -0.]) for x in f)
        clone = rng.random() < .5
        ctx.note(cls=cls.__name__, points=p, factors=f)
        r = o.scale(*f, clone=clone)
        ctx.check(same(xy(r.points), [(x*f[0], y*f[1]) for x, y in p]), 'collapse', lambda: xy(r.points))
        ctx.check(same(xy(o.points), p) if clone else r is o, 'collapse')

    ctx.cases('history', history, 1500, 40000)
    ctx.cases('repeated', repeated, 200, 4000)
    ctx.cases('collapse', collapse, 100, 2000)
