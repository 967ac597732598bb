"""C10 -- B-spline curves"""
import math
import numpy as np
import battery
import gen
import bezref

PID = 'C10'
QUICK_FACTOR = 5
RULE = ('open B-splines of degree 1 to 5 with up to degree + 8 control points, uniform or with random clamped knots of any '
        'multiplicity, knots and parameters including the span ends; histories of knot insertions; oracle: scipy BSpline; '
        'non-trivial: control points not all equal')
ASSUMPTIONS = ['clamped splines (a closed one is a clamped one whose ends coincide)', 'coordinates below 1e3', 'scipy.interpolate.BSpline']
MONITORS = ['evaluate', 'evaluate-naive', 'basis', 'ends', 'insert', 'insert-knots', 'bezier-form', 'to-bezier', 'out-of-range', 'multiplicity',
            'operands-unchanged', 'clone', 'reverse', 'transform', 'uniform-knots', 'uniform-piece', 'ctor', 'again']


def run(ctx):
    from scipy.interpolate import BSpline
    from Patro.GeometryEngine.Vector import Vector2D as V
    from Patro.GeometryEngine.Spline import BSpline2D, QuadraticUniformSpline2D, CubicUniformSpline2D
    from Patro.GeometryEngine.Transformation import AffineTransformation2D

    def pts(curve):
        return [(float(p.x), float(p.y)) for p in curve.points]

    def reference(p, degree, knots, t):
        s = BSpline(np.array(knots, float), np.array(p, float), degree, extrapolate=False)
        if t >= knots[-1]:
            return p[-1]
        return tuple(float(x) for x in s(t))

    def uniform_knots(degree, n):
        return [0]*degree + list(range(n-degree+1)) + [n-degree]*degree

    def make(rng, uniform=None):
        degree = rng.choice([1, 2, 2, 3, 3, 3, 4, 5])
        n = degree + rng.randint(1, 8)
        f = rng.choice([gen.fpoint, gen.grid])
        p = [tuple(map(float, f(rng))) for _ in range(n)]
        closed = rng.random() < .15
        if closed:
            p[-1] = p[0]
        if uniform is None:
            uniform = rng.random() < .5
        if uniform:
            knots = uniform_knots(degree, n)
            s = BSpline2D([V(x) for x in p], degree, closed)
        else:
            inner = sorted(rng.choice([rng.randint(1, 9), rng.uniform(.1, 9.9)]) for _ in range(n-degree-1))
            # an inner multiplicity of at most degree: the curve is continuous
            for i in range(len(inner)):
                if inner.count(inner[i]) > degree:
                    return make(rng, uniform)
            a, b = rng.choice([(0, 10), (-2., 10.5), (0, 10)])
            knots = [a]*(degree+1) + inner + [b]*(degree+1)
            if rng.random() < .25:
                # not clamped: the domain doesn't start at the first knot
                step = rng.choice([lambda: 1, lambda: rng.uniform(.2, 2)])
                knots = [rng.choice([0, -3.])]
                while len(knots) < n + degree + 1:
                    knots.append(knots[-1] + step())
            given = rng.choice([list, tuple])(knots)
            s = BSpline2D([V(x) for x in p], degree, closed, given)
            if isinstance(given, list):
                # the list of the caller
                given[:] = [99.]*len(given)
        return degree, p, knots, uniform, s

    def params(rng, knots, degree=0):
        knots = knots[degree:len(knots)-degree]
        a, b = knots[0], knots[-1]
        return [a, b, rng.choice(knots), rng.choice(knots), rng.uniform(a, b), rng.uniform(a, b), rng.uniform(a, b)]

    def check_curve(s, p, degree, knots, ts, monitor):
        for t in ts:
            e = reference(p, degree, knots, t)
            ctx.close_point(s.point_at_t(t), e, monitor, 1e-8, 100, lambda: (t, list(s.knots)))

    def spline(rng):
        degree, p, knots, uniform, s = make(rng)
        ctx.note(degree=degree, points=p, knots=knots)
        ctx.equal((s.degree, s.order, s.number_of_points, bool(s.uniform)), (degree, degree+1, len(p), uniform), 'ctor')
        ctx.equal([float(x) for x in s.knots], [float(x) for x in knots], 'uniform-knots')
        lo, hi = knots[degree], knots[len(p)]
        clamped = lo == knots[0] and hi == knots[-1]
        ctx.equal((float(s.start_knot), float(s.end_knot)), (float(lo), float(hi)), 'uniform-knots')
        ts = params(rng, knots, degree)
        check_curve(s, p, degree, knots, ts, 'evaluate')
        for t in ts:
            ctx.close_point(s.point_at_t(t, naive=True), reference(p, degree, knots, t), 'evaluate-naive', 1e-8, 100, t)
            if t < hi:
                b = [s.basis_function(i, degree, t) for i in range(len(p))]
                ctx.check(abs(sum(b)-1) < 1e-9 and min(b) > -1e-9, 'basis', (t, b))
        if clamped:
            ctx.close_point(s.point_at_t(lo), p[0], 'ends', 1e-9, 100)
            ctx.close_point(s.point_at_t(hi), p[-1], 'ends', 1e-9, 100)
        for t in (lo-.5, hi+.5, lo-1e-3, hi+1e-3):
            ctx.raises(ValueError, lambda: s.point_at_t(t), 'out-of-range')
        for k in set(knots):
            ctx.equal(s.knot_multiplicity(k), knots.count(k), 'multiplicity')
        # insertion history
        c, ck = s, list(knots)
        for _ in range(rng.randint(1, 4)):
            inner = [k for k in ck if lo < k < hi]
            t = rng.choice([rng.uniform(lo, hi), rng.choice(inner) if inner else rng.uniform(lo, hi)])
            if ck.count(t) > degree-1 or not lo < t < hi:
                continue
            before = pts(c)
            d = c.insert_knot(t)
            ctx.equal(pts(c), before, 'operands-unchanged', 'insert_knot')
            ck = sorted(ck + [t])
            ctx.equal([float(x) for x in d.knots], [float(x) for x in ck], 'insert-knots')
            ctx.equal((d.number_of_points, d.degree, d.is_closed), (c.number_of_points+1, degree, s.is_closed), 'insert-knots')
            c = d
        check_curve(c, p, degree, knots, ts, 'insert')
        # the control points of the result define the same curve
        q = pts(c)
        for t in ts:
            if t < hi:
                ctx.close_point(reference(q, degree, ck, t), reference(p, degree, knots, t), 'insert', 1e-8, 100, t)
        # clone, reverse
        k = s.clone()
        ctx.check(k.is_closed == s.is_closed == s.reverse().is_closed, 'clone')
        if uniform:
            ctx.equal(s.number_of_spans, len(p) - degree, 'uniform-knots')
        check_curve(k, p, degree, knots, ts[:4], 'clone')
        ctx.equal([float(x) for x in k.knots], [float(x) for x in knots], 'clone')
        # the clone doesn't share its knots nor its points
        k2 = s.clone()
        if isinstance(k2.knots, list):
            k2.knots[-1] = 77
        k2.transform(AffineTransformation2D.Scale(3))
        ctx.equal([float(x) for x in s.knots], [float(x) for x in knots], 'operands-unchanged', 'clone')
        r = s.reverse()
        for t in ts:
            if t in knots[1:-1]:
                continue
            ctx.close_point(r.point_at_t(knots[0]+knots[-1]-t), reference(p, degree, knots, t), 'reverse', 1e-8, 100, t)
        # affine invariance
        T = AffineTransformation2D.RotationAt(V(1, 2), rng.uniform(0, 360)) * AffineTransformation2D.Scale(rng.uniform(.5, 2), rng.uniform(.5, 2))
        k.transform(T)
        for t in ts[:5]:
            e = T * V(reference(p, degree, knots, t))
            ctx.close_point(k.point_at_t(t), (e.x, e.y), 'transform', 1e-8, 100)
        ctx.equal(pts(s), p, 'operands-unchanged')
        check_curve(s, p, degree, knots, ts[:3], 'operands-unchanged')

    def bezier(rng):
        degree, p, knots, uniform, s = make(rng, True)
        ctx.note(degree=degree, points=p)
        spans = knots[-1]
        form = s.to_bezier_form()
        ts = params(rng, knots)
        check_curve(form, p, degree, knots, [t for t in ts], 'bezier-form')
        ctx.equal(form.number_of_points, spans*(degree+1), 'bezier-form')
        q = pts(form)
        for i in range(spans):
            b = q[i*(degree+1):(i+1)*(degree+1)]
            for u in (0, rng.random(), 1):
                ctx.close_point(bezref.evaluate(b, u), reference(p, degree, knots, i+u), 'bezier-form', 1e-8, 100, (i, u))
        if degree in (2, 3):
            curves = s.to_bezier()
            ctx.equal(len(curves), spans, 'to-bezier')
            for i, b in enumerate(curves):
                ctx.equal(b.number_of_points, degree+1, 'to-bezier')
                for u in (0, rng.random(), 1):
                    ctx.close_point(b.point_at_t(u), reference(p, degree, knots, i+u), 'to-bezier', 1e-8, 100, (i, u))
        ctx.equal(pts(s), p, 'operands-unchanged')
        ctx.raises(ValueError, lambda: BSpline2D([V(x) for x in p[:degree]], degree), 'ctor')
        bad = list(knots)
        bad[0] = 1000
        ctx.raises(ValueError, lambda: BSpline2D([V(x) for x in p], degree, knots=bad), 'ctor')

    def piece(rng):
        n = rng.choice([3, 4])
        p = [gen.fpoint(rng) for _ in range(n)]
        ctx.note(points=p)
        s = (QuadraticUniformSpline2D if n == 3 else CubicUniformSpline2D)(*[V(x) for x in p])
        knots = list(range(2*n))
        b = s.to_bezier()
        for u in (0, .5, rng.random(), 1):
            # one span of the uniform spline
            r = BSpline(np.arange(2*n, dtype=float), np.array(p), n-1)(n-1+u)
            ctx.close_point(s.point_at_t(u), r, 'uniform-piece', 1e-9, 100, u)
            ctx.close_point(b.point_at_t(u), r, 'uniform-piece', 1e-9, 100, ('bezier', u))
            if n == 4:
                ctx.close_point(b.to_spline().point_at_t(u), r, 'uniform-piece', 1e-8, 100, ('spline', u))

    def again(rng):
        # a spline which was observed and then modified is as a new one
        degree, p, knots, uniform, s = make(rng)
        n = rng.choice([0, 0, 3, 4])
        if n:
            cls = QuadraticUniformSpline2D if n == 3 else CubicUniformSpline2D
            p = [gen.fpoint(rng) for _ in range(n)]
            s, ts = cls(*[V(x) for x in p]), [rng.random()]
            fresh = lambda: cls(*[V(x) for x in pts(s)])
            names = ['to_bezier', 'reverse', 'clone']
        else:
            ts = params(rng, knots, degree)[-3:]
            fresh = lambda: BSpline2D([V(x) for x in pts(s)], degree, s.is_closed, None if uniform else list(knots))
            names = ['order', 'start_knot', 'end_knot', 'number_of_spans', 'knots', 'reverse', 'clone', 'uniform']
            if uniform and degree in (2, 3):
                names += ['to_bezier', 'to_bezier_form']
        log = []
        ctx.note(degree=n or degree, points=p, log=log)

        def look(s):
            r = {}
            for name in names + ['bounding_box', 'point_array', 'number_of_points', 'start_point', 'end_point']:
                try:
                    x = getattr(s, name)
                    r[name] = battery.normal(x() if callable(x) else x)
                except Exception as e:
                    r[name] = type(e).__name__
            for t in ts:
                r['point', t] = battery.normal(s.point_at_t(t))
                if not n:
                    r['span', t] = list(battery.calls(s, [('span', (t,)), ('knot_multiplicity', (t,)), ('basis_function', (0, degree, t)), ('basis_function', (1, degree, t)),
                                                     ('basis_function', (1, 0, t)), ('basis_function', (0, 1, t))]).values())
                    r['naive', t] = battery.normal(s.point_at_t(t, naive=True))
                    try:
                        d = s.insert_knot(t)
                        r['insert', t] = battery.normal([d, list(d.knots)])
                    except ValueError:
                        r['insert', t] = 'ValueError'
            return r
        for _ in range(rng.randint(1, 2)):
            look(s)
            op = rng.choice(['transform', 'scale', 'coordinate', 'set'])
            if op == 'set' and n:
                setattr(s, 'p%u' % rng.randrange(n), V(gen.fpoint(rng)))
            elif op == 'coordinate':
                next(iter(s.points)).x += 4
            elif op == 'scale':
                s.scale(rng.choice([-2, .5]), rng.choice([-1, 3]))
            else:
                op = 'transform'
                s.transform(AffineTransformation2D.RotationAt(V(1, -2), rng.choice([90, 30])))
            log.append(op)
            d = battery.differences(look(s), look(fresh()))
            ctx.check(not d, 'again', lambda: (log, pts(s), d[:3]))

    ctx.cases('again', again, 150, 4000)
    ctx.cases('spline', spline, 500, 10000)
    ctx.cases('bezier', bezier, 200, 4000)
    ctx.cases('piece', piece, 300, 6000)
