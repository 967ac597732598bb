"""C09 -- Bezier curve: intersection with a line, closest point"""
import math
import numpy as np
import gen
import bezref

PID = 'C09'
QUICK_FACTOR = 2
RULE = ('quadratic and cubic curves (general, grid, straight, closed, degenerate degree) against lines of any position and '
        'direction and points near, far, on the curve, beyond its ends; oracles: sign changes of the exact polynomial over '
        'dense samples, brute force distance; non-trivial: control points not all equal')
ASSUMPTIONS = ['coordinates below 1e3', 'tangential contacts are skipped: the number of roots is not decidable in floats',
               'the root solver takes 10 to 100 ms, which bounds the number of cases']
MONITORS = ['line-soundness', 'line-completeness', 'line-none', 'closest', 'distance', 'closest-on-curve', 'operands-unchanged', 'degenerate-degree', 'history-line', 'history-closest']


def run(ctx):
    from Patro.GeometryEngine.Vector import Vector2D as V
    from Patro.GeometryEngine.Bezier import QuadraticBezier2D, CubicBezier2D
    from Patro.GeometryEngine.Line import Line2D
    from Patro.GeometryEngine.Transformation import AffineTransformation2D

    def make(rng, n):
        kind = rng.choice(['general', 'general', 'grid', 'straight', 'closed', 'elevated', 'flat', 'almost'])
        p = [gen.fpoint(rng) for _ in range(n)]
        if kind == 'grid':
            p = [gen.grid(rng, 6) for _ in range(n)]
        elif kind == 'straight':
            a, u = gen.grid(rng), gen.nonzero(rng, gen.grid)
            p = [(a[0]+u[0]*t, a[1]+u[1]*t) for t in (range(n) if rng.random() < .5 else sorted(rng.randint(-6, 6) for _ in range(n)))]
        elif kind == 'closed':
            p[-1] = p[0]
        elif kind == 'elevated' and n == 4:
            a, b, c = [gen.grid(rng, 9) for _ in range(3)]
            p = [(3*a[0], 3*a[1]), (a[0]+2*b[0], a[1]+2*b[1]), (c[0]+2*b[0], c[1]+2*b[1]), (3*c[0], 3*c[1])]
        elif kind == 'flat':
            p = [(x, y*1e-2) for x, y in p]
        elif kind == 'almost': # the leading coefficient is nearly null
            a, u = gen.grid(rng), gen.nonzero(rng, gen.grid)
            p = [(a[0]+u[0]*t/3, a[1]+u[1]*t/3) for t in range(n)]
        return kind, [tuple(map(float, x)) for x in p]

    def as_list(roots):
        if roots is None:
            return []
        try:
            return [float(r) for r in roots]
        except TypeError:
            return [float(roots)]

    def line(rng):
        n = rng.choice([3, 4])
        kind, p = make(rng, n)
        if all(q == p[0] for q in p):
            return
        mode = rng.choice(['through', 'through', 'any', 'axis', 'far'])
        v = gen.nonzero(rng, gen.fpoint, .5)
        if mode == 'axis':
            v = rng.choice([(1., 0.), (0., 1.), (-3., 0.), (0., -2.)])
        if mode == 'far':
            o = (500., 500.)
        elif mode == 'any':
            o = gen.fpoint(rng)
        else:
            o = bezref.evaluate(p, rng.uniform(.05, .95))
            k = rng.uniform(-2, 2)
            o = (o[0]+k*v[0], o[1]+k*v[1])
        z = 1
        if rng.random() < .3:
            # a microscopic or an astronomical drawing, the vector of the line has any magnitude
            z, k = 10**rng.uniform(-6, 6), 10**rng.uniform(-6, 6)
            p = [(z*x, z*y) for x, y in p]
            o, v = (z*o[0], z*o[1]), (k*v[0], k*v[1])
        ctx.note(kind=kind, points=p, o=o, v=v)
        cls = QuadraticBezier2D if n == 3 else CubicBezier2D
        c, L = cls(*[V(x) for x in p]), Line2D(V(o), V(v))
        m = math.hypot(*v)
        dist = lambda q: (v[0]*(q[1]-o[1])-v[1]*(q[0]-o[0]))/m
        S = max(abs(x) for q in p for x in q) + abs(o[0]) + abs(o[1]) + z
        # dense samples of the signed distance
        N = 2000
        t = np.linspace(0, 1, N+1)
        q = bezref.evaluate_array(p, t)
        d = (v[0]*(q[:, 1]-o[1])-v[1]*(q[:, 0]-o[0]))/m
        if np.abs(d).max() < 1e-6*S:
            return # the curve lies on the line
        slopes = np.abs(np.diff(d))*N
        # near tangency or contact at an end: not decided
        changes = [i for i in range(N) if (d[i] > 0) != (d[i+1] > 0)]
        gap = 1e-5*S
        if abs(d[0]) < gap or abs(d[-1]) < gap or any(slopes[i] < 1e-2*z for i in changes):
            return
        inner = [i for i in range(1, N) if (d[i]-d[i-1])*(d[i+1]-d[i]) <= 0 and abs(d[i]) < gap + 1e-3*slopes.max()]
        if inner:
            return
        roots = as_list(c.intersect_line(L))
        ctx.check((L.p.x, L.p.y, L.v.x, L.v.y) == o+v, 'operands-unchanged')
        ctx.check([(a.x, a.y) for a in c.points] == p, 'operands-unchanged')
        inside = sorted(r for r in roots if 0 <= r <= 1)
        for r in inside:
            ctx.check(abs(dist(bezref.evaluate(p, r))) < 1e-6*S, 'line-soundness', lambda: (roots, dist(bezref.evaluate(p, r))))
            if kind in ('elevated', 'straight', 'almost'):
                ctx.seen('degenerate-degree')
        distinct = [r for i, r in enumerate(inside) if i == 0 or r-inside[i-1] > 1e-7]
        ok = len(distinct) == len(changes) and all(i/N - 1e-6 <= r <= (i+1)/N + 1e-6 for i, r in zip(changes, distinct))
        ctx.check(ok, 'line-completeness' if changes else 'line-none', lambda: (inside, [t[i] for i in changes]))

    def closest(rng, sizes=(3, 3, 4), wiggly=False, scaled=False):
        n = rng.choice(sizes)
        kind, p = make(rng, n)
        if rng.random() < .03:
            kind, p = 'point', [p[0]]*n
        mode = rng.choice(['near', 'any', 'far', 'on', 'end', 'grid'])
        if mode == 'any':
            q = gen.fpoint(rng)
        elif mode == 'far':
            q = gen.fpoint(rng, 1000)
        elif mode == 'grid':
            q = tuple(map(float, gen.grid(rng, 20)))
        elif mode == 'end':
            e, f = (p[0], p[1]) if rng.random() < .5 else (p[-1], p[-2])
            k = rng.uniform(.1, 2)
            q = (e[0]-k*(f[0]-e[0]), e[1]-k*(f[1]-e[1]))
        else:
            q = bezref.evaluate(p, rng.random())
            if mode == 'near':
                q = (q[0]+rng.uniform(-5, 5), q[1]+rng.uniform(-5, 5))
        if wiggly:
            # many stationary points, the closest is one of the last or of the first
            best = None
            t = np.linspace(0, 1, 401)
            for _ in range(150):
                k = rng.uniform(1, 4)
                p = [gen.fpoint(rng, 10) for _ in range(n)]
                p = [p[0], (k*p[1][0], k*p[1][1]), (k*p[2][0], k*p[2][1]), p[3]] if n == 4 else p
                q = bezref.evaluate(p, rng.random())
                q = (q[0]+rng.uniform(-3, 3), q[1]+rng.uniform(-3, 3))
                c = bezref.evaluate_array(p, t)
                d = np.hypot(c[:, 0]-q[0], c[:, 1]-q[1])
                stationary = int((np.diff(np.sign(np.diff(d))) != 0).sum())
                i = int(d.argmin())
                rank = int((np.diff(np.sign(np.diff(d)))[:max(0, i-1)] != 0).sum())
                rank = max(rank, stationary-1-rank)
                if 0 < i < 400 and (best is None or (rank, stationary) > best[0]):
                    best = (rank, stationary), p, q
            if best is None:
                return
            kind = 'stationary %u rank %u' % (best[0][1], best[0][0])
            p, q = best[1:]
            if rng.random() < .6:
                p = p[::-1]
        if scaled:
            k = 10**rng.uniform(-6, 6)
            p = [(k*x, k*y) for x, y in p]
            q = k*q[0], k*q[1]
        ctx.note(kind=kind, points=p, q=q)
        cls = QuadraticBezier2D if n == 3 else CubicBezier2D
        c, Q = cls(*[V(x) for x in p]), V(q)
        S = max(abs(x) for r in p for x in r) + abs(q[0]) + abs(q[1])
        e = bezref.min_distance(p, q)
        g = c.closest_point(Q)
        gd = math.hypot(float(g.x)-q[0], float(g.y)-q[1])
        ctx.check(abs(gd - e) < 1e-5*S, 'closest', lambda: ('distance', gd, 'expected', e))
        ctx.check(bezref.min_distance(p, (float(g.x), float(g.y))) < 1e-5*S, 'closest-on-curve', g)
        ctx.close(c.distance_to_point(Q), e, 'distance', 1e-5, S)
        ctx.check([(a.x, a.y) for a in c.points] == p and (Q.x, Q.y) == q, 'operands-unchanged')

    def history(rng):
        # the answers depend on the present curve, line and point only
        n = rng.choice([3, 3, 4])
        cls = QuadraticBezier2D if n == 3 else CubicBezier2D
        c, L, Q = cls(*[V(gen.fpoint(rng, 20)) for _ in range(n)]), Line2D(V(gen.fpoint(rng, 5)), V(gen.nonzero(rng, gen.fpoint, .5))), V(gen.fpoint(rng, 20))
        log = []
        ctx.note(log=log)
        for _ in range(rng.randint(3, 5)):
            op = rng.choice(['point', 'point', 'coordinate', 'transform', 'line-point', 'line-vector', 'line', 'query', 'clone', 'none'])
            i = rng.randrange(n)
            if op == 'point':
                setattr(c, 'p%u' % i, V(gen.fpoint(rng, 20)))
            elif op == 'coordinate':
                getattr(c, 'p%u' % i).x += rng.choice([-3, 3])
            elif op == 'transform':
                c.transform(AffineTransformation2D.Rotation(rng.choice([90, 30, -45])))
            elif op == 'line-point':
                L.p = V(gen.fpoint(rng, 5))
            elif op == 'line-vector':
                L.v = V(gen.nonzero(rng, gen.fpoint, .5))
            elif op == 'line':
                L.p.x, L.v.y = rng.uniform(-5, 5), rng.choice([-1, 1])*rng.uniform(1, 5)
            elif op == 'query':
                Q.x = rng.uniform(-20, 20)
            elif op == 'clone':
                c = c.clone()
            log.append(op)
            fresh = cls(*[V(p.x, p.y) for p in c.points])
            line, point = Line2D(V(L.p.x, L.p.y), V(L.v.x, L.v.y)), V(Q.x, Q.y)
            a, b = sorted(as_list(c.intersect_line(L))), sorted(as_list(fresh.intersect_line(line)))
            ctx.check(len(a) == len(b) and all(abs(x-y) < 1e-9 for x, y in zip(a, b)), 'history-line', lambda: (log, a, b))
            if rng.random() < .6:
                p, q = c.closest_point(Q), fresh.closest_point(point)
                ctx.close_point(p, (float(q.x), float(q.y)), 'history-closest', 1e-9, 100, log)
                ctx.close(c.distance_to_point(Q), fresh.distance_to_point(point), 'history-closest', 1e-9, 100, log)

    ctx.cases('history', history, 80, 1000)
    ctx.cases('line', line, 400, 5000)
    ctx.cases('closest', closest, 120, 1500)
    ctx.cases('closest-wiggly', lambda rng: closest(rng, (4,), wiggly=True), 50, 800)
    ctx.cases('closest-scaled', lambda rng: closest(rng, (3, 3, 3, 4), scaled=True), 150, 2000)
    ctx.cases('closest-quadratic', lambda rng: closest(rng, (3,)), 400, 4000)
