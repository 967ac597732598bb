"""C08 -- Bezier curves: evaluation, subdivision, conversion, length, area, tangents, enclosures"""
import math
import battery
import gen
import bezref

PID = 'C08'
RULE = ('quadratic and cubic curves with random control points: general, grid, straight, u-turn, closed, elevated quadratic, '
        'loop, coincident control points; parameters in [0, 1] including the ends; non-trivial: control points not all equal')
ASSUMPTIONS = ['coordinates below 1e3', 'reference: de Casteljau evaluation and Gauss quadrature',
               'the length of a cubic curve is an approximation: relative tolerance 5e-3']
MONITORS = ['evaluate', 'split', 'split-two', 'elevate', 'spline', 'quadratic-length', 'cubic-length', 'interpolated-length',
            'length-at-t', 't-at-length', 'tangent', 'area', 'flat', 'fat-line', 'non-parametric', 'quadratic-approximation',
            'operands-unchanged', 'end-tangent', 'again']


def run(ctx):
    from Patro.GeometryEngine.Vector import Vector2D as V
    from Patro.GeometryEngine.Bezier import QuadraticBezier2D, CubicBezier2D
    from Patro.GeometryEngine.Line import Line2D
    from Patro.GeometryEngine.Transformation import AffineTransformation2D

    def pts(curve):
        return [(float(p.x), float(p.y)) for p in curve.points]

    def make(rng, n):
        kind = rng.choice(['general', 'general', 'general', 'grid', 'straight', 'uturn', 'closed', 'coincident', 'small'] +
                          (['elevated', 'loop'] if n == 4 else []))
        f = gen.fpoint
        if kind == 'general':
            p = [f(rng) for _ in range(n)]
        elif kind == 'small':
            p = [gen.fpoint(rng, 2) for _ in range(n)]
        elif kind == 'grid':
            p = [gen.grid(rng, 5) for _ in range(n)]
        elif kind in ('straight', 'uturn'):
            a, u = gen.grid(rng), gen.nonzero(rng, gen.grid)
            ts = [rng.randint(-6, 6) for _ in range(n)]
            if kind == 'straight':
                ts.sort()
            p = [(a[0]+u[0]*t, a[1]+u[1]*t) for t in ts]
        elif kind == 'closed':
            p = [f(rng) for _ in range(n)]
            p[-1] = p[0]
        elif kind == 'coincident':
            p = [f(rng) for _ in range(n)]
            i = rng.randrange(n-1)
            p[i+1] = p[i]
        elif kind == 'elevated':
            a, b, c = [f(rng) for _ in range(3)]
            p = [a, ((a[0]+2*b[0])/3, (a[1]+2*b[1])/3), ((c[0]+2*b[0])/3, (c[1]+2*b[1])/3), c]
        else:
            a, b = f(rng), f(rng)
            d = (b[0]-a[0], b[1]-a[1])
            k = rng.uniform(.5, 3)
            p = [a, (b[0]+k*d[0]-d[1], b[1]+k*d[1]+d[0]), (a[0]-k*d[0]-d[1], a[1]-k*d[1]+d[0]), b]
        return kind, p

    def params(rng):
        return [0, 1, .5, rng.random(), rng.random()]

    def curve(rng):
        n = rng.choice([3, 4])
        kind, p = make(rng, n)
        size = max(math.dist(a, b) for a in p for b in p)
        ctx.note(kind=kind, points=p, trivial=size == 0)
        cls = QuadraticBezier2D if n == 3 else CubicBezier2D
        c = cls(*[V(x) for x in p])
        S = max(1, size, max(abs(x) for q in p for x in q))
        same = lambda got, expected, monitor, detail=None: ctx.check(
            len(got) == len(expected) and all(math.dist(a, b) <= 1e-9*S for a, b in zip(got, expected)), monitor, (got, expected, detail))
        for t in params(rng):
            q = c.point_at_t(t)
            ctx.close_point(q, bezref.evaluate(p, t), 'evaluate', 1e-10, S, t)
            # the derivative direction
            d, e = c.tangent_at(t), bezref.derivative(p, t)
            me = math.hypot(*e)
            if me > 1e-6*S:
                ctx.check(abs(d.x*e[1]-d.y*e[0]) <= 1e-8*S*me and d.x*e[0]+d.y*e[1] > 0, 'tangent', (t, d, e))
        same(pts(c), p, 'operands-unchanged', 'evaluate')
        # split
        t = rng.choice([.5, rng.uniform(.01, .99), rng.uniform(.001, .999)])
        l, r = c.split_at_t(t)
        for u in (0, 1, rng.random(), rng.random()):
            ctx.close_point(l.point_at_t(u), bezref.evaluate(p, t*u), 'split', 1e-9, S, ('left', t, u))
            ctx.close_point(r.point_at_t(u), bezref.evaluate(p, t+(1-t)*u), 'split', 1e-9, S, ('right', t, u))
            # the parts are Bezier curves with these control points
            ctx.close_point(bezref.evaluate(pts(l), u), bezref.evaluate(p, t*u), 'split', 1e-9, S, ('left', t, u))
        t1, t2 = rng.choice([0, rng.random()]), rng.choice([1, rng.random()])
        if rng.random() < .3:
            # a tiny part
            t1 = rng.uniform(.05, .95)
            t2 = t1 + rng.choice([-1, 1])*10**rng.uniform(-8, -2)
        if t1 != t2 and max(t1, t2) - min(t1, t2) < 1:
            s = c.split_at_two_t(t1, t2)
            lo, hi = min(t1, t2), max(t1, t2)
            for u in (0, 1, rng.random()):
                ctx.close_point(s.point_at_t(u), bezref.evaluate(p, lo+(hi-lo)*u), 'split-two', 1e-9, S, (t1, t2, u))
        s = c.split_at_two_t(t, t)
        ctx.close_point(s, bezref.evaluate(p, t), 'split-two', 1e-9, S)
        same(pts(c), p, 'operands-unchanged', 'split')
        # conversion
        if n == 3:
            e = c.to_cubic()
            for u in params(rng):
                ctx.close_point(e.point_at_t(u), bezref.evaluate(p, u), 'elevate', 1e-10, S, u)
        else:
            s = c.to_spline()
            for u in (0, rng.random(), rng.random(), 1):
                # a uniform cubic B-spline piece
                q = pts(s)
                b = ((1-u)**3/6, (3*u**3-6*u*u+4)/6, (-3*u**3+3*u*u+3*u+1)/6, u**3/6)
                g = (sum(w*x[0] for w, x in zip(b, q)), sum(w*x[1] for w, x in zip(b, q)))
                ctx.close_point(g, bezref.evaluate(p, u), 'spline', 1e-8, S, u)
            if size:
                m = c.mid_point_quadratic_approximation()
                q = pts(m)
                ctx.check(math.dist(q[0], p[0]) < 1e-9*S and math.dist(q[2], p[3]) < 1e-9*S, 'quadratic-approximation', q)
                ctx.close_point(bezref.evaluate(q, .5), bezref.evaluate(p, .5), 'quadratic-approximation', 1e-9, S)
            if kind == 'elevated':
                for u in (.25, rng.random()):
                    ctx.close_point(m.point_at_t(u), bezref.evaluate(p, u), 'quadratic-approximation', 1e-9, S)
            ctx.close(c.area, bezref.area(p), 'area', 1e-9, S*S)
        # end tangents
        for name, a, b in (('tangent0', p[0], p[1]), ('tangent1', p[-2], p[-1])):
            if hasattr(c, name) and math.dist(a, b) > 1e-6:
                d = getattr(c, name)
                m = math.dist(a, b)
                ctx.close_point(d, ((b[0]-a[0])/m, (b[1]-a[1])/m), 'end-tangent', 1e-9, detail=name)
        same(pts(c), p, 'operands-unchanged', 'tangents')
        # enclosures
        if math.dist(p[0], p[-1]) > 1e-3*S:
            line, dmin, dmax = c.fat_line()
            for i in range(41):
                q = bezref.evaluate(p, i/40)
                a, b = p[0], p[-1]
                d = ((b[0]-a[0])*(q[1]-a[1]) - (b[1]-a[1])*(q[0]-a[0]))/math.dist(a, b)
                g = line.distance_to_line(V(q))
                ctx.check(abs(abs(g)-abs(d)) < 1e-8*S, 'fat-line', 'the base line joins the end points')
                ctx.check(dmin - 1e-8*S <= g <= dmax + 1e-8*S, 'fat-line', lambda: ('curve outside of the fat line', i/40, g, dmin, dmax))
            # not wider than the control polygon, and than the curve for a quadratic one
            k = .5 if n == 3 else 1
            g = [k*line.distance_to_line(V(q)) for q in p[1:-1]] + [0]
            ctx.check(dmin >= min(g) - 1e-8*S and dmax <= max(g) + 1e-8*S, 'fat-line', lambda: ('too wide', dmin, dmax, g))
            v = gen.nonzero(rng, gen.fpoint, .5)
            o = gen.fpoint(rng)
            L = Line2D(V(o), V(v))
            D = c.non_parametric_curve(L)
            for u in (0, 1, rng.random()):
                q = bezref.evaluate(p, u)
                d = (v[0]*(q[1]-o[1]) - v[1]*(q[0]-o[0]))/math.hypot(*v)
                g = bezref.evaluate(pts(D), u)
                ctx.close_point(g, (u, d), 'non-parametric', 1e-9, 300)
        if n == 4:
            # deviation to the chord, parameter by parameter
            chord = lambda u: (p[0][0]+u*(p[3][0]-p[0][0]), p[0][1]+u*(p[3][1]-p[0][1]))
            deviation = max(math.dist(bezref.evaluate(p, i/200), chord(i/200)) for i in range(201))
            for flatness in (rng.choice([.01, .1, 1, 10, size/4 or 1]), deviation*.99, deviation*rng.uniform(.3, .99), deviation*3.1):
                if flatness <= 1e-9*S:
                    continue
                flat = c.is_flat_enough(flatness)
                if deviation > flatness*(1+1e-9)+1e-12:
                    ctx.check(not flat, 'flat', lambda: ('not flat', deviation, flatness))
                elif flatness > deviation*3:
                    # the bound is not arbitrarily loose
                    ctx.check(flat, 'flat', lambda: ('flat curve rejected', deviation, flatness))
        same(pts(c), p, 'operands-unchanged', 'enclosures')

    def length(rng):
        n = rng.choice([3, 4])
        kind, p = make(rng, n)
        size = max(math.dist(a, b) for a in p for b in p)
        ctx.note(kind=kind, points=p, trivial=size == 0)
        if size == 0:
            return
        cls = QuadraticBezier2D if n == 3 else CubicBezier2D
        c = cls(*[V(x) for x in p])
        e = bezref.length(p)
        g = c.length
        if n == 3:
            ctx.close(g, e, 'quadratic-length', 1e-5)
            tol = 2e-5
        else:
            ctx.close(g, e, 'cubic-length', 5e-3, size)
            tol = 5e-3
        if rng.random() < .25 and size > 10:
            ctx.close(c.interpolated_length(), e, 'interpolated-length', 1e-3, size)
            ctx.close(c.interpolated_length(dt=.001), e, 'interpolated-length', 1e-3, size)
        t = rng.choice([0, 1, .5, rng.random()])
        lt = bezref.length(p, 0, t) if t else 0
        ctx.close(c.length_at_t(t), lt, 'length-at-t', tol, size)
        # the cache doesn't change the answer
        ctx.close(c.length_at_t(t, cache=True), lt, 'length-at-t', tol, size)
        ctx.close(c.length_at_t(t, cache=True), lt, 'length-at-t', tol, size)
        if kind in ('uturn', 'coincident'):
            return
        if n == 3 or rng.random() < .15:
            k = rng.choice([0, 1, .5, rng.random()])
            t = c.t_at_length(g*k)
            ctx.check(0 <= t <= 1, 't-at-length', t)
            ctx.close(bezref.length(p, 0, t) if t else 0, e*k, 't-at-length', tol, size, k)
        ctx.raises(ValueError, lambda: c.t_at_length(-1), 't-at-length')
        ctx.raises(ValueError, lambda: c.t_at_length(g*1.1+1), 't-at-length')
        # the length follows the control points
        k = rng.uniform(.5, 2)
        c.transform(AffineTransformation2D.Scale(k, k) * AffineTransformation2D.Rotation(30))
        ctx.close(c.length_at_t(1, cache=True), k*e, 'length-at-t', tol, size)
        ctx.close(c.length, k*e, 'quadratic-length' if n == 3 else 'cubic-length', tol, size)

    def magnitude(rng):
        """the same relations for microscopic and for astronomical curves"""
        n = rng.choice([3, 4])
        kind, p = make(rng, n)
        k = 10**rng.uniform(-6, 6)
        o = rng.choice([(0, 0), (0, 0), gen.fpoint(rng)])
        p = [(k*(x+o[0]), k*(y+o[1])) for x, y in p]
        size = max(math.dist(a, b) for a in p for b in p)
        ctx.note(kind=kind, points=p, k=k, trivial=size == 0)
        if size == 0:
            return
        cls = QuadraticBezier2D if n == 3 else CubicBezier2D
        c = cls(*[V(x) for x in p])
        S = max(abs(x) for q in p for x in q)
        for t in params(rng):
            ctx.close_point(c.point_at_t(t), bezref.evaluate(p, t), 'evaluate', 1e-10, S, t)
        t, u = rng.uniform(.01, .99), rng.random()
        l, r = c.split_at_t(t)
        ctx.close_point(l.point_at_t(u), bezref.evaluate(p, t*u), 'split', 1e-9, S, ('left', t, u))
        ctx.close_point(r.point_at_t(u), bezref.evaluate(p, t+(1-t)*u), 'split', 1e-9, S, ('right', t, u))
        for name, a, b in (('tangent0', p[0], p[1]), ('tangent1', p[-2], p[-1])):
            m = math.dist(a, b)
            if hasattr(c, name) and m > 1e-6*size:
                e = (b[0]-a[0])/m, (b[1]-a[1])/m
                ctx.close_point(getattr(c, name), e, 'end-tangent', 1e-9, detail=name)
                normal = 'normal' + name[-1]
                if hasattr(c, normal):
                    ctx.close_point(getattr(c, normal), (-e[1], e[0]), 'end-tangent', 1e-9, detail=normal)
        e = bezref.length(p)
        g = c.length
        if n == 3:
            ctx.close(g, e, 'quadratic-length', 1e-6, size)
            ctx.close(c.length_at_t(t), bezref.length(p, 0, t), 'length-at-t', 1e-6, size)
            ctx.close_point(c.to_cubic().point_at_t(u), bezref.evaluate(p, u), 'elevate', 1e-10, S, u)
        else:
            # the precision of the approximation is absolute
            ctx.close(g, e, 'cubic-length', 1e-5, max(size, 1e3), size)
            ctx.close(c.area, bezref.area(p), 'area', 1e-9, S*S)
            q = pts(c.to_spline())
            b = ((1-u)**3/6, (3*u**3-6*u*u+4)/6, (-3*u**3+3*u*u+3*u+1)/6, u**3/6)
            ctx.close_point((sum(w*x[0] for w, x in zip(b, q)), sum(w*x[1] for w, x in zip(b, q))), bezref.evaluate(p, u), 'spline', 1e-8, S, u)
            f = size*rng.choice([1e-9, 3])
            ctx.equal(bool(c.is_flat_enough(f)), f > size or max(math.dist(bezref.evaluate(p, i/20), bezref.evaluate([p[0], p[3]], i/20)) for i in range(21)) < f, 'flat')

    def memory(rng):
        """the lengths follow each control point, whatever was asked before, the precision is that which is asked"""
        n = rng.choice([3, 3, 4])
        kind, p = make(rng, n)
        cls = QuadraticBezier2D if n == 3 else CubicBezier2D
        c = cls(*[V(x) for x in p])
        other = cls(*[V(x) for x in p])
        t = rng.choice([1, .5, .25, rng.random()])
        steps = []
        for step in range(rng.randint(1, 3)):
            p = pts(c)
            size = max(math.dist(a, b) for a in p for b in p)
            ctx.note(kind=kind, points=p, t=t, steps=steps, trivial=size == 0)
            fresh = cls(*[V(x) for x in p])
            e = fresh.length_at_t(t)
            ctx.close(c.length_at_t(t, cache=True), e, 'length-at-t', 1e-9, max(size, 1e-9), ('memory', steps))
            ctx.close(c.length_at_t(t, cache=True), e, 'length-at-t', 1e-9, max(size, 1e-9), ('memory', steps))
            l = fresh.length
            if size > 1e-3 and kind not in ('uturn', 'coincident', 'straight') and (n == 3 or rng.random() < .2):
                k = l*rng.random()
                precision = rng.choice([1e-6, 1e-6, 1e-3, 1e-2])
                args = () if precision == 1e-6 else (precision,)
                s = c.t_at_length(k, *args)
                ctx.close(fresh.length_at_t(s) if s else 0, k, 't-at-length', precision*1.01 + 1e-12*l, 1, (k, s, precision))
            i = rng.randrange(n)
            q = gen.fpoint(rng)
            how = rng.choice(['set', 'set', 'in place', 'transform', 'other'])
            steps = steps + [(how, i, q)]
            if how == 'set':
                setattr(c, 'p%u' % i, V(q))
            elif how == 'in place':
                getattr(c, 'p%u' % i).set(*q) if hasattr(V, 'set') else setattr(c, 'p%u' % i, V(q))
            elif how == 'transform':
                from Patro.GeometryEngine.Transformation import AffineTransformation2D as A
                c.transform(A.Scale(rng.uniform(.5, 2), rng.uniform(.5, 2)))
            else:
                # another curve
                setattr(other, 'p%u' % i, V(q))
                c, other = other, c

    def again(rng):
        # a curve which was observed and then modified is as a new one
        n = rng.choice([3, 4])
        kind, p = make(rng, n)
        cls = QuadraticBezier2D if n == 3 else CubicBezier2D
        c = cls(*[V(x) for x in p])
        log = []
        ctx.note(kind=kind, points=p, log=log)
        t, u = rng.random(), rng.random()
        PROPERTIES = ['tangent0', 'tangent1', 'normal0', 'normal1', 'area', 'bounding_box', 'is_closed', 'start_point', 'end_point'] + ['length']*(n == 3)
        METHODS = ['to_cubic', 'to_spline', 'fat_line', 'clone', 'reverse', 'q_length', 'mid_point_quadratic_approximation']

        def look(c):
            r = {}

            def get(name, f):
                try:
                    r[name] = battery.normal(f())
                except Exception as e:
                    r[name] = type(e).__name__
            for name in PROPERTIES:
                if hasattr(type(c), name):
                    get(name, lambda: getattr(c, name))
            for name in METHODS:
                if hasattr(c, name):
                    get(name, lambda: getattr(c, name)())
            for name, args in (('point_at_t', (t,)), ('tangent_at', (t,)), ('split_at_t', (t,)), ('split_at_two_t', (t, u)), ('interpolated_length', (.1,)), ('length_at_t', (t,)), *slow, ('is_flat_enough', (5,)), ('non_parametric_curve', (LINE,))):
                get((name, args[:1]), lambda: getattr(c, name)(*args))
            return r
        LINE = Line2D(V(1, 2), V(3, 1))
        slow = [('t_at_length', (3, 1e-2))]*(rng.random() < .04)
        for _ in range(rng.randint(1, 3)):
            look(c)
            i = rng.randrange(n)
            op = rng.choice(['set', 'set', 'coordinate', 'transform', 'scale'])
            if op == 'set':
                setattr(c, 'p%u' % i, V(gen.fpoint(rng)))
            elif op == 'coordinate':
                getattr(c, 'p%u' % i).y -= 5
            elif op == 'transform':
                c.transform(AffineTransformation2D.RotationAt(V(1, -2), rng.choice([90, 30])))
            else:
                c.scale(rng.choice([-2, .5]), rng.choice([-1, 3]))
            log.append((op, i))
            d = battery.differences(look(c), look(cls(*[V(x) for x in pts(c)])))
            ctx.check(not d, 'again', lambda: (log, pts(c), d[:3]))

    ctx.cases('again', again, 300, 10000)
    ctx.cases('magnitude', magnitude, 600, 10000)
    ctx.cases('memory', memory, 150, 3000)
    ctx.cases('curve', curve, 2000, 40000)
    ctx.cases('length', length, 400, 6000)
