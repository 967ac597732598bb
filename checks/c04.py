"""C04 -- lines and segments: incidence, projection, distances, orientation predicates"""
import math
from fractions import Fraction as Fr
import battery
import gen

PID = 'C04'
QUICK_FACTOR = 5
RULE = ('random lines, points and segment pairs; segment pairs and points come from a small integer grid (many collinear, '
        'touching, overlapping and shared-vertex cases, decided exactly with rationals) or from floats in general position; '
        'non-trivial: segments of non-null length')
ASSUMPTIONS = ['lines with a vector of magnitude between 0.1 and 1e4', 'parallelism is decided on integer vectors or with a clear margin']
MONITORS = ['again', 'line-intersection', 'line-parallel', 'line-orthogonal', 'line-projection', 'line-distance', 'line-construct',
            'line-xy', 'line-box', 'line-triangle', 'line-clone', 'line-abscissa-distance',
            'segment-intersect', 'segment-intersection', 'segment-side', 'segment-distance', 'segment-contain',
            'segment-measure', 'segment-share-vertex', 'operands-unchanged', 'segment-interpolate']


def run(ctx):
    from Patro.GeometryEngine.Vector import Vector2D as V
    from Patro.GeometryEngine.Line import Line2D
    from Patro.GeometryEngine.Segment import Segment2D
    from IntervalArithmetic import Interval2D

    def line_of(rng, kind=None):
        if kind is None:
            kind = rng.randrange(4)
        if kind == 0:
            p, v = gen.grid(rng), gen.nonzero(rng, gen.grid)
        elif kind == 1:
            p, v = gen.fpoint(rng), rng.choice([(1., 0.), (0., 1.), (-2., 0.), (0., -3.), (5., 5.)])
        else:
            p, v = gen.fpoint(rng), gen.nonzero(rng, lambda r: gen.fpoint(r, rng.choice([1, 10, 100])), .1)
        return p, v

    def modified(rng, cls, names, values):
        """an object which has these values since its construction, or by assignment, or by transformation, after it was observed"""
        values = [V(x) for x in values]
        k = rng.random()
        if k < .7:
            return cls(*values)
        if k < .85 or cls is Line2D:
            o = cls(*[V(gen.nonzero(rng, gen.fpoint)) if rng.random() < .5 else x.clone() for x in values])
            battery.observe(o, [V(1, 2)], [.3])
            for name, x in zip(names, values):
                setattr(o, name, x)
        else:
            # exact
            o = cls(*[x * 2 for x in values])
            battery.observe(o, [V(1, 2)], [.3])
            o.scale(.5)
        return o

    def line_object(rng, p, v):
        return modified(rng, Line2D, ('p', 'v'), (p, v))

    def segment_object(rng, a, b):
        return modified(rng, Segment2D, ('p0', 'p1'), (a, b))

    def lines(rng):
        k = rng.randrange(3)
        (p, v), (q, w) = line_of(rng, k), line_of(rng, k)
        if rng.random() < .15:
            m = rng.choice([-2, 1, 3])
            w = (v[0]*m, v[1]*m)
        elif rng.random() < .1:
            w = (-v[1], v[0])
        ctx.note(p=p, v=v, q=q, w=w)
        l1, l2 = line_object(rng, p, v), line_object(rng, q, w)
        cross = Fr(v[0])*Fr(w[1]) - Fr(v[1])*Fr(w[0])
        dot = Fr(v[0])*Fr(w[0]) + Fr(v[1])*Fr(w[1])
        mv, mw = math.hypot(*v), math.hypot(*w)
        sine = abs(float(cross))/(mv*mw)
        if cross == 0 or abs(cross) > 1e-3:
            if cross != 0 or k == 0:
                ctx.equal(bool(l1.is_parallel(l2)), cross == 0, 'line-parallel')
            if cross == 0 and k == 0:
                ctx.check(l1.intersection(l2) is None, 'line-intersection', 'parallel lines')
                ctx.equal(tuple(l1.intersection_abscissae(l2)), (None, None), 'line-intersection')
            elif sine > 1e-3:
                s1 = float(((Fr(q[0])-Fr(p[0]))*Fr(w[1]) - (Fr(q[1])-Fr(p[1]))*Fr(w[0]))/cross)
                s2 = float(((Fr(q[0])-Fr(p[0]))*Fr(v[1]) - (Fr(q[1])-Fr(p[1]))*Fr(v[0]))/cross)
                e = (p[0]+s1*v[0], p[1]+s1*v[1])
                scale = 100 + abs(e[0]) + abs(e[1])
                g = l1.intersection(l2)
                ctx.close_point(g, e, 'line-intersection', 1e-8, scale)
                ctx.close_point(l2.intersection(l1), e, 'line-intersection', 1e-8, scale)
                a, b = l1.intersection_abscissae(l2)
                ctx.close(a, s1, 'line-intersection', 1e-7, 1 + 100/mv)
                ctx.close(b, s2, 'line-intersection', 1e-7, 1 + 100/mw)
        if abs(dot) > 1e-3 or (dot == 0 and k == 0):
            ctx.equal(bool(l1.is_orthogonal(l2)), dot == 0, 'line-orthogonal')
        ctx.check((l1.p.x, l1.p.y, l1.v.x, l1.v.y) == tuple(map(float, p+v)), 'operands-unchanged')

    def line(rng):
        p, v = line_of(rng)
        a = gen.fpoint(rng)
        ctx.note(p=p, v=v, a=a)
        m = math.hypot(*v)
        u = (v[0]/m, v[1]/m)
        n = (-u[1], u[0])
        l = line_object(rng, p, v)
        A = V(a)
        da = (a[0]-p[0], a[1]-p[1])
        along, across = da[0]*u[0]+da[1]*u[1], da[0]*n[0]+da[1]*n[1]
        S = 300
        s = rng.uniform(-10, 10)
        at_s = (p[0]+s*v[0], p[1]+s*v[1])
        for f in (l.interpolate, l.point_at_s, l.point_at_t):
            ctx.close_point(f(s), at_s, 'line-construct', 1e-9, S)
        ctx.close_point(l.vn, u, 'line-construct', 1e-9)
        ctx.check(l.is_infinite and l.bounding_box is None, 'line-construct')
        # projection
        foot = (p[0]+along*u[0], p[1]+along*u[1])
        ctx.close_point(l.projected_point(A), foot, 'line-projection', 1e-9, S)
        ctx.close_point(l.interpolate(l.projected_abscissa(A)), foot, 'line-projection', 1e-9, S)
        # signed distance, positive on the left
        ctx.close(l.distance_to_line(A), across, 'line-distance', 1e-9, S)
        d, _ = l.distance_and_abscissa_to_line(A)
        ctx.close(d, across, 'line-distance', 1e-9, S)
        if abs(m-1) < 1e-12:
            ctx.close(_, along, 'line-distance', 1e-9, S)
        ctx.equal(tuple(l.distance_and_abscissa_to_line(V(p))), (0, 0), 'line-distance')
        # constructions
        o = l.orthogonal_line_at(A)
        ctx.close_point(o.p, a, 'line-construct', 1e-12, S)
        ctx.check(abs(o.v.x*u[0]+o.v.y*u[1]) < 1e-9*o.v.magnitude and o.v.magnitude > 0, 'line-construct', 'orthogonal_line_at')
        o = l.orthogonal_line_at_abscissa(s)
        ctx.close_point(o.p, at_s, 'line-construct', 1e-9, S)
        ctx.check(abs(o.v.x*u[0]+o.v.y*u[1]) < 1e-9*o.v.magnitude, 'line-construct', 'orthogonal_line_at_abscissa')
        o = l.parallel_line_at(A)
        ctx.close_point(o.p, a, 'line-construct', 1e-12, S)
        ctx.check(abs(o.v.x*n[0]+o.v.y*n[1]) < 1e-9*o.v.magnitude, 'line-construct', 'parallel_line_at')
        k = rng.uniform(-50, 50)
        o = l.shifted_parallel_line(k)
        od = (o.p.x-p[0], o.p.y-p[1])
        ctx.close(od[0]*n[0]+od[1]*n[1], k, 'line-construct', 1e-9, S, 'shifted_parallel_line')
        ctx.check(abs(o.v.x*n[0]+o.v.y*n[1]) < 1e-9*o.v.magnitude, 'line-construct', 'shifted_parallel_line')
        ctx.close_point(l.point_at_distance(k), (p[0]+k*u[0], p[1]+k*u[1]), 'line-construct', 1e-9, S)
        ctx.close_point(l.point_at_distance(k, A), (a[0]+k*u[0], a[1]+k*u[1]), 'line-construct', 1e-9, S)
        t = rng.uniform(-10, 10)
        ctx.close(l.compute_distance_between_abscissae(s, t), abs(s-t)*m, 'line-abscissa-distance', 1e-9)
        ds = l.compute_distance([s, t, 0.])
        ctx.equal(len(ds), 2, 'line-abscissa-distance')
        ctx.close(ds[0], abs(s-t)*m, 'line-abscissa-distance', 1e-9)
        ctx.close(ds[1], abs(t)*m, 'line-abscissa-distance', 1e-9)
        if abs(u[0]) > 1e-2:
            x = rng.uniform(-100, 100)
            y = l.get_y_from_x(x)
            ctx.check(abs((x-p[0])*v[1] - (y-p[1])*v[0]) < 1e-7*m*(S+abs(y)), 'line-xy')
        if abs(u[1]) > 1e-2:
            y = rng.uniform(-100, 100)
            x = l.get_x_from_y(y)
            ctx.check(abs((x-p[0])*v[1] - (y-p[1])*v[0]) < 1e-7*m*(S+abs(x)), 'line-xy')
        # clip
        x0, y0 = gen.fpoint(rng)
        w, h = rng.uniform(1, 50), rng.uniform(1, 50)
        for e in l.get_x_y_from_bounding_box(Interval2D((x0, x0+w), (y0, y0+h))):
            ctx.check(abs((e.x-p[0])*v[1] - (e.y-p[1])*v[0]) < 1e-7*m*(S+abs(e.x)+abs(e.y)), 'line-box', 'not on the line')
            ctx.check(min(abs(e.x-x0), abs(e.x-x0-w), abs(e.y-y0), abs(e.y-y0-h)) < 1e-7, 'line-box', 'not on a side')
        # third vertex of a triangle
        d = abs(across) + rng.uniform(.1, 50)
        for reverse in (False, True):
            r = l.triangle_projected_point(A, d, reverse=reverse) if reverse or rng.random() < .5 else l.triangle_projected_point(A, d)
            ctx.close(math.hypot(r.x-a[0], r.y-a[1]), d, 'line-triangle', 1e-8, S)
            ctx.check(abs((r.x-p[0])*n[0]+(r.y-p[1])*n[1]) < 1e-8*S, 'line-triangle')
            side = (r.x-foot[0])*u[0]+(r.y-foot[1])*u[1]
            ctx.check((side < 0) == reverse, 'line-triangle', 'wrong side')
        ctx.check((A.x, A.y) == a and (l.p.x, l.p.y, l.v.x, l.v.y) == tuple(map(float, p+v)), 'operands-unchanged')
        # clone
        c = l.clone()
        ctx.check(c.p == l.p and c.v == l.v, 'line-clone')
        c.p += V(1, 1)
        c.v *= 2
        ctx.check((l.p.x, l.p.y, l.v.x, l.v.y) == tuple(map(float, p+v)), 'line-clone', 'aliased')
        b = gen.fpoint(rng)
        l = Line2D.from_two_points(A, V(b))
        ctx.close_point(l.interpolate(0), a, 'line-construct', 1e-9, S)
        ctx.close_point(l.interpolate(1), b, 'line-construct', 1e-9, S)

    def segment_pair(rng):
        k = rng.choice([2, 3, 5, 5, 20])
        mode = rng.random()
        if mode < .75:
            f = lambda r: gen.grid(r, k)
        else:
            f = gen.fpoint
        a, b, c, d = f(rng), f(rng), f(rng), f(rng)
        if mode < .15: # collinear
            u = gen.nonzero(rng, lambda r: gen.grid(r, 2), .5)
            t = [rng.randint(-4, 4) for _ in range(4)]
            a, b, c, d = [(a[0]+u[0]*x, a[1]+u[1]*x) for x in t]
        elif mode < .25:
            c = rng.choice([a, b])
            if rng.random() < .3:
                d = rng.choice([a, b])
        ctx.note(a=a, b=b, c=c, d=d, trivial=a == b or c == d)
        if a == b or c == d:
            return
        s1, s2 = segment_object(rng, a, b), segment_object(rng, c, d)
        e = gen.segments_intersect(a, b, c, d)
        for x, y in ((s1, s2), (s2, s1), (s1.reverse(), s2), (s1, s2.reverse())):
            ctx.equal(bool(x.intersect_with(y)), e, 'segment-intersect')
        cross = (Fr(b[0])-Fr(a[0]))*(Fr(d[1])-Fr(c[1])) - (Fr(b[1])-Fr(a[1]))*(Fr(d[0])-Fr(c[0]))
        p, i = s1.intersection(s2)
        if cross == 0:
            ctx.equal((p, i), (None, None), 'segment-intersection')
        elif abs(cross) > 1e-3:
            t = ((Fr(c[0])-Fr(a[0]))*(Fr(d[1])-Fr(c[1])) - (Fr(c[1])-Fr(a[1]))*(Fr(d[0])-Fr(c[0])))/cross
            u = ((Fr(c[0])-Fr(a[0]))*(Fr(b[1])-Fr(a[1])) - (Fr(c[1])-Fr(a[1]))*(Fr(b[0])-Fr(a[0])))/cross
            x = (float(a[0] + t*(Fr(b[0])-Fr(a[0]))), float(a[1] + t*(Fr(b[1])-Fr(a[1]))))
            ctx.close_point(p, x, 'segment-intersection', 1e-8, 100*(1+abs(float(t))))
            margin = min(abs(t), abs(1-t), abs(u), abs(1-u))
            if margin > 1e-9: # a contact at an end point is within the rounding error
                ctx.equal(bool(i), e, 'segment-intersection')
        v = s1.share_vertex_with(s2)
        shared = {tuple(map(float, x)) for x in {a, b} & {c, d}}
        if shared:
            ctx.check(v is not None and (v.x, v.y) in shared, 'segment-share-vertex')
        else:
            ctx.check(v is None, 'segment-share-vertex')

    def segment(rng):
        f = (lambda r: gen.grid(r, 6)) if rng.random() < .6 else gen.fpoint
        a, b, p = f(rng), f(rng), f(rng)
        if rng.random() < .3:
            t = rng.choice([0, 1, .5, .25, .75, 2, -1, 1.5])
            p = (a[0]+t*(b[0]-a[0]), a[1]+t*(b[1]-a[1]))
        elif rng.random() < .2:
            # very close to an end point
            q, e, w = rng.choice([a, b]), 10**rng.uniform(-7, -2), rng.uniform(0, 2*math.pi)
            p = (q[0]+e*math.cos(w), q[1]+e*math.sin(w))
        ctx.note(a=a, b=b, p=p, trivial=a == b)
        s, P = segment_object(rng, a, b), V(p)
        m = math.hypot(b[0]-a[0], b[1]-a[1])
        ctx.close(s.length, m, 'segment-measure', 1e-12, 1e-9)
        ctx.close_point(s.vector, (b[0]-a[0], b[1]-a[1]), 'segment-measure', 1e-12, 1)
        ctx.close_point(s.center, ((a[0]+b[0])/2, (a[1]+b[1])/2), 'segment-measure', 1e-12, 1)
        ctx.close(s.cross_product, a[0]*b[1]-a[1]*b[0], 'segment-measure', 1e-9, 1e4)
        q, r = f(rng), f(rng)
        ctx.close(s.cross(Segment2D(V(q), V(r))), (b[0]-a[0])*(r[1]-q[1])-(b[1]-a[1])*(r[0]-q[0]), 'segment-measure', 1e-9, 1e4)
        d = gen.point_segment_distance(p, a, b)
        ctx.close(s.distance_to_point(P), d, 'segment-distance', 1e-8, 100)
        if a == b:
            return
        t = rng.choice([0, 1, .5, rng.uniform(-1, 2)])
        x = (a[0]*(1-t)+b[0]*t, a[1]*(1-t)+b[1]*t)
        for g in (s.interpolate(t), s.point_at_t(t), s.to_line().interpolate(t)):
            ctx.close_point(g, x, 'segment-interpolate', 1e-9, 100)
        o = gen.orient(a, b, p)
        cr = float((Fr(b[0])-Fr(a[0]))*(Fr(p[1])-Fr(a[1])) - (Fr(b[1])-Fr(a[1]))*(Fr(p[0])-Fr(a[0])))
        if abs(cr) > 1e-6 or all(isinstance(x, int) for x in a+b+p):
            g = s.side_of(P)
            ctx.equal((g > 0) - (g < 0), o, 'segment-side')
            ctx.equal((bool(s.left_of(P)), bool(s.right_of(P)), bool(s.is_collinear(P))), (o > 0, o < 0, o == 0), 'segment-side')
        if d > 1e-3:
            ctx.equal(bool(s.contain_point(P)), False, 'segment-contain')
        elif d < 1e-10:
            ctx.equal(bool(s.contain_point(P)), True, 'segment-contain')
        ctx.check((s.p0.x, s.p0.y, s.p1.x, s.p1.y, P.x, P.y) == tuple(map(float, a+b+p)), 'operands-unchanged')

    def again(rng):
        # a line or a segment which was queried and then modified is as a new one, for the same queries
        line = rng.random() < .5
        cls = Line2D if line else Segment2D
        grid = rng.random() < .5
        f = gen.grid if grid else gen.fpoint
        make = lambda: (f(rng), gen.nonzero(rng, f)) if line else (f(rng), f(rng))
        o = cls(*[V(x) for x in make()])
        # a few of them are parallel, or share a vertex
        a, b = (o.p, o.v) if line else (o.p0, o.p1)
        others = [cls(*[V(x) for x in make()]), cls(a.clone(), b.clone()), cls(V(1, 2), V(3, 0)), cls(V(-2, -5), V(0, 7))]
        points = [V(f(rng)), a.clone(), V(0, 0)]
        if line:
            box = Interval2D((-8, 9), (-7, 6))
            table = [(n, (x,)) for n in ('interpolate', 'point_at_distance', 'get_y_from_x', 'get_x_from_y', 'shifted_parallel_line', 'orthogonal_line_at_abscissa') for x in (0, 1.5, -4)]
            table += [(n, (x,)) for n in ('parallel_line_at', 'orthogonal_line_at', 'projected_abscissa', 'projected_point', 'distance_to_line',
                                          'distance_and_abscissa_to_line') for x in points]
            table += [('triangle_projected_point', (x, 30)) for x in points] + [('get_x_y_from_bounding_box', (box,)), ('point_at_distance', (2, points[0])),
                      ('compute_distance_between_abscissae', (1, 3)), ('compute_distance', ([0, 1, 3],))]
            table += [(n, (x,)) for n in ('is_parallel', 'is_orthogonal', 'intersection') for x in others] + [('is_parallel', (x, True)) for x in others]
        else:
            table = [(n, (x,)) for n in ('cross', 'intersect_with', 'intersection', 'share_vertex_with', 'is_point_equal', 'is_point_close', '__eq__') for x in others]
            table += [(n, (x,)) for n in ('side_of', 'left_of', 'right_of', 'is_collinear', 'distance_to_point', 'contain_point') for x in points]
            table += [('point_at_t', (t,)) for t in (0, .3, 1)] + [('__getitem__', (i,)) for i in (0, 1)]
        names = ('p', 'v') if line else ('p0', 'p1')
        log = []
        ctx.note(line=line, object=[(getattr(o, n).x, getattr(o, n).y) for n in names], log=log)
        for _ in range(rng.randint(1, 4)):
            battery.calls(o, table)
            op = rng.choice(['setter', 'coordinate', 'both', 'transform', 'other'])
            name = rng.choice(names)
            if op == 'coordinate':
                k = rng.choice('xy')
                setattr(getattr(o, name), k, getattr(getattr(o, name), k) + rng.choice([1, -2, 3]))
            elif op == 'both':
                for n, x in zip(names, (others[-1].p, others[-1].v) if line else (others[-1].p0, others[-1].p1)):
                    setattr(o, n, x.clone())
            elif op == 'transform' and not line:
                r = rng.choice([('rotate', 90), ('rotate', 37), ('scale', 2), ('x_mirror',), ('mirror',)])
                op = r
                before = [(p.x, p.y) for p in o.points]
                for _ in range(2): # the same modification twice
                    getattr(o, r[0])(*r[1:])
                c, s = {'rotate': (math.cos(math.radians(2*r[-1])), math.sin(math.radians(2*r[-1]))) if len(r) > 1 else 0, 'scale': (4, 0)}.get(r[0], (1, 0))
                for p, q in zip(o.points, before):
                    ctx.close_point(p, (c*q[0] - s*q[1], s*q[0] + c*q[1]), 'again', 1e-9, 100, r)
            elif op == 'other':
                # the argument changes
                x = rng.choice(others)
                setattr(x, name, V(gen.nonzero(rng, f)))
            else:
                op = 'setter'
                setattr(o, name, V(gen.nonzero(rng, f)))
            log.append((op, name))
            if line and abs(o.v.x) + abs(o.v.y) < .5 or line and any(abs(x.v.x) + abs(x.v.y) < .5 for x in others):
                return
            n = cls(*[getattr(o, n).clone() for n in names])
            new = [(k, tuple(cls(*[getattr(x, m).clone() for m in names]) if isinstance(x, cls) else x for x in args)) for k, args in table]
            d = battery.differences(battery.calls(o, table), battery.calls(n, new))
            ctx.check(not d, 'again', lambda: (log, d[:3]))

    ctx.cases('again', again, 500, 15000)
    ctx.cases('lines', lines, 2500, 80000)
    ctx.cases('line', line, 2000, 50000)
    ctx.cases('segment_pair', segment_pair, 4000, 150000)
    ctx.cases('segment', segment, 2500, 80000)
