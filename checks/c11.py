"""C11 -- circles, arcs and angular domains"""
import math
import battery
import gen

PID = 'C11'
QUICK_FACTOR = 8
RULE = ('circles and arcs (domains ordinary, passing by 0, over 360, negative, wide), points near, on, inside, outside, lines and '
        'circles crossing, tangent or apart, similarity histories; non-trivial: non-null radius')
ASSUMPTIONS = ['radii between 0.1 and 200', 'tangency is tested on exactly representable cases; otherwise with a margin',
               'the segment intersection is documented as ignoring the segment ends and the arc domain']
MONITORS = ['domain', 'domain-length', 'domain-again', 'measure', 'point-at', 'angle-for', 'tangent', 'distance', 'signed-distance', 'arc-distance', 'inside',
            'segment-intersection', 'segment-tangent', 'segment-none', 'circle-intersection', 'circle-none', 'circle-tangent',
            'bounding-box', 'transform', 'transform-rejected', 'clone', 'ctor', 'setters', 'operands-unchanged', 'arc-from-distance']


def run(ctx):
    from Patro.GeometryEngine.Vector import Vector2D as V
    from Patro.GeometryEngine.Conic import Circle2D, AngularDomain
    from Patro.GeometryEngine.Segment import Segment2D
    from Patro.GeometryEngine.Transformation import AffineTransformation2D

    def polar(c, r, a):
        return (c[0]+r*math.cos(math.radians(a)), c[1]+r*math.sin(math.radians(a)))

    def random_domain(rng):
        kind = rng.choice(['ordinary', 'wrap', 'over', 'negative', 'full', 'wide', 'quarter'])
        if kind == 'ordinary':
            a, b = sorted((rng.uniform(0, 360), rng.uniform(0, 360)))
        elif kind == 'wrap': # stop < start: passes by 0
            b, a = sorted((rng.uniform(0, 360), rng.uniform(0, 360)))
        elif kind == 'over':
            a = rng.uniform(180, 360)
            b = a + rng.uniform(5, 355)
        elif kind == 'negative':
            a = rng.uniform(-180, 0)
            b = a + rng.uniform(5, 355)
        elif kind == 'full':
            a, b = rng.choice([(0, 360), (10, 370), (0, 720), (-180, 180)])
        elif kind == 'wide':
            a = rng.uniform(0, 350)
            b = a + rng.uniform(340, 359)
        else:
            a = rng.choice([0, 90, 180, 270])
            b = a + rng.choice([90, 180, 270])
        # counter clockwise sweep
        sweep = 360 if abs(b-a) >= 360 else (b-a) % 360
        return kind, a, b, sweep

    def domain(rng):
        kind, a, b, sweep = random_domain(rng)
        ctx.note(kind=kind, a=a, b=b)
        d = AngularDomain()
        ctx.equal((d.start, d.stop, bool(d.is_closed), bool(d.is_over_closed), bool(d.is_null), bool(d.is_inside(a))),
                  (0, 360, True, False, False, True), 'domain', 'default')
        d = AngularDomain(b)
        ctx.equal((d.start, d.stop), (b, 360), 'domain', 'default stop')
        # exactly, almost and more than one turn, in both directions
        x = rng.choice([0, 10, -180, 90.5])
        for y, closed, over in ((360, True, False), (359.5, False, False), (360.5, True, True)):
            for t in (x+y, x-y):
                e = AngularDomain(x, t)
                ctx.equal((bool(e.is_closed), bool(e.is_over_closed)), (closed, over), 'domain', (x, t))
                if closed:
                    ctx.check(e.is_inside(rng.uniform(-360, 720)), 'domain', (x, t))
                    ctx.close(e.length, 2*math.pi, 'domain-length', 1e-12)
        if rng.random() < .5:
            d = AngularDomain(a, b)
        else:
            d = AngularDomain(math.radians(a), math.radians(b), degrees=False)
        ctx.close(d.start, a, 'domain', 1e-9)
        ctx.close(d.stop, b, 'domain', 1e-9)
        ctx.close(d.start_radians, math.radians(a), 'domain', 1e-9)
        ctx.close(d.stop_radians, math.radians(b), 'domain', 1e-9)
        ctx.close(d.span, abs(b-a), 'domain', 1e-9)
        if abs(abs(b-a)-360) > 1e-6:
            ctx.equal((bool(d.is_closed), bool(d.is_over_closed), bool(d.is_null)), (abs(b-a) > 360, abs(b-a) > 360, a == b), 'domain')
            ctx.equal((bool(d.is_counterclockwise), bool(d.is_clockwise)), (a <= b, b < a), 'domain')
            ctx.close(d.length, math.radians(sweep), 'domain-length', 1e-9)
            for _ in range(6):
                k = rng.choice([0, 0, -360, 360])
                x = rng.uniform(0, 360) + k
                margin = min((x-a) % 360, (a-x) % 360, (x-b) % 360, (b-x) % 360)
                if margin > 1e-6:
                    ctx.equal(bool(d.is_inside(x)), abs(b-a) >= 360 or (x-a) % 360 < sweep, 'domain', (a, b, x))
        elif a == int(a):
            ctx.close(AngularDomain(a, b).length, 2*math.pi, 'domain-length', 1e-9)
        # a domain which was observed and then modified is as a new one, and so is its arc
        if rng.random() < .3:
            d = AngularDomain(a, b)
            arc = Circle2D(V(1, 2), 3, domain=d)
            other = d.__clone__() if hasattr(d, '__clone__') else None
            for _ in range(2):
                look = lambda o: battery.observe(o, [V(5, 5)], [10])
                look(d), look(arc), d.is_inside(10)
                if rng.random() < .5:
                    d.start = a = rng.choice([b, rng.uniform(-360, 360), b - 360])
                else:
                    d.stop = b = rng.choice([a, rng.uniform(-360, 360), a + 360])
                new = AngularDomain(a, b)
                x = battery.differences(look(d), look(new))
                ctx.check(not x and d.is_inside(x0 := rng.uniform(-360, 360)) == new.is_inside(x0), 'domain-again', lambda: (a, b, x[:3]))
                if hasattr(d, '__clone__'):
                    c = d.__clone__()
                    ctx.check((c.start, c.stop) == (a, b) and c is not d, 'domain-again', 'clone')
                arc.domain.start, arc.domain.stop = a, b
                x = battery.differences(look(arc), look(Circle2D(V(1, 2), 3, domain=AngularDomain(a, b))))
                ctx.check(not x, 'domain-again', lambda: (a, b, x[:3]))

    def observe(o, c, r, a, b, sweep, rng, monitor=None):
        m = lambda name: monitor or name
        S = 100 + r
        arc = a is not None
        ctx.close_point(o.center, c, m('ctor'), 1e-9, S)
        ctx.close(o.radius, r, m('ctor'), 1e-9)
        ctx.close(o.diameter, 2*r, m('ctor'), 1e-9)
        ctx.equal(bool(o.is_closed), not arc, m('ctor'))
        ctx.close(o.perimeter, r*math.radians(sweep) if arc else 2*math.pi*r, m('measure'), 1e-9)
        ctx.equal(o.eccentricity, 0, m('measure'))
        if not arc:
            ctx.close(o.area, math.pi*r*r, m('measure'), 1e-9)
        else:
            ctx.close_point(o.start_point, polar(c, r, a), m('point-at'), 1e-8, S)
            ctx.close_point(o.stop_point, polar(c, r, b), m('point-at'), 1e-8, S)
        for _ in range(3):
            x = rng.uniform(-400, 400)
            e = polar(c, r, x)
            p = o.point_at_angle(x)
            ctx.close_point(p, e, m('point-at'), 1e-9, S)
            y = o.angle_for_point(p)
            ctx.check(0 <= y <= 360 and abs((y-x+180) % 360 - 180) < 1e-5, m('angle-for'), (x, y))
            t = o.tangent_at_angle(x)
            ctx.close_point(t.p, e, m('tangent'), 1e-9, S)
            ctx.check(abs(t.v.x*(e[0]-c[0]) + t.v.y*(e[1]-c[1])) < 1e-8*r*t.v.magnitude and
                      (e[0]-c[0])*t.v.y - (e[1]-c[1])*t.v.x > 0, m('tangent'))
            l = rng.uniform(0, 10*r)
            ctx.close_point(o.point_at_distance(l), polar(c, r, math.degrees(l/r)), m('point-at'), 1e-8, S)
            # distances
            k = rng.choice([0.1, .5, .99, 1.01, 2, rng.uniform(0.01, 5)])
            x = rng.uniform(0, 360)
            q = polar(c, r*k, x)
            d = r*k - r
            ctx.close(o.signed_distance_to_point(V(q)), d, m('signed-distance'), 1e-9, S)
            ctx.equal(bool(o.is_point_inside(V(q))), k < 1, m('inside'), k)
            if not arc:
                ctx.close(o.distance_to_point(V(q)), abs(d), m('distance'), 1e-9, S)
            else:
                margin = min((x-a) % 360, (a-x) % 360, (x-b) % 360, (b-x) % 360)
                if margin > 1e-5:
                    if sweep >= 360 or (x-a) % 360 < sweep:
                        e = abs(d)
                    else:
                        e = min(math.dist(q, polar(c, r, a)), math.dist(q, polar(c, r, b)))
                    ctx.close(o.distance_to_point(V(q)), e, m('arc-distance'), 1e-8, S, (a, b, x))
        bb = o.bounding_box
        ctx.close_point((bb.x.inf, bb.y.inf), (c[0]-r, c[1]-r), m('bounding-box'), 1e-9, S)
        ctx.close_point((bb.x.sup, bb.y.sup), (c[0]+r, c[1]+r), m('bounding-box'), 1e-9, S)
        bb |= bb # the caller merges boxes in place
        bb.x.enlarge(10)
        bb = o.bounding_box
        ctx.close_point((bb.x.inf, bb.y.sup), (c[0]-r, c[1]+r), m('bounding-box'), 1e-9, S)

    def circle(rng):
        c = gen.fpoint(rng) if rng.random() < .5 else gen.grid(rng)
        r = rng.choice([1., 5, rng.uniform(.1, 200)])
        arc = rng.random() < .5
        a = b = sweep = kind = None
        center = V(c)
        if arc:
            kind, a, b, sweep = random_domain(rng)
            dom = AngularDomain(a, b)
            if kind == 'full':
                return
            o = Circle2D(center, r, domain=dom)
        else:
            o = rng.choice([lambda: Circle2D(center, r), lambda: Circle2D(center, 2*r, diameter=True),
                            lambda: Circle2D.from_two_points(center, V(c[0]+r*.6, c[1]-r*.8))])()
        ctx.note(c=c, r=r, a=a, b=b)
        observe(o, c, r, a, b, sweep, rng)
        ctx.equal((center.x, center.y), tuple(map(float, c)), 'operands-unchanged')
        # the center is copied
        center += V(50, -70)
        ctx.close_point(o.center, c, 'operands-unchanged', 1e-9, 100)
        # an object which was modified is as a new one
        if rng.random() < .2:
            n = o.clone()
            probes = [V(gen.fpoint(rng)), V(1, 2)], [rng.uniform(0, 360), .3]
            circles_ = [Circle2D(V(gen.fpoint(rng)), rng.uniform(20, 150)), Circle2D(V(c), r), Circle2D(V(0, 0), 50)]
            segments = [Segment2D(V(gen.fpoint(rng)), V(gen.fpoint(rng))), Segment2D(V(c), V(300, 200))]
            table = ([('intersect_circle', (x,)) for x in circles_] + [('intersect_segment', (x,)) for x in segments] +
                     [(name, (x,)) for x in probes[0] for name in ('point_in_circle_frame', 'distance_to_point', 'is_point_inside', 'signed_distance_to_point', 'angle_for_point')])
            battery.observe(n, *probes), battery.calls(n, table)
            c2, r2 = gen.fpoint(rng), rng.uniform(.1, 200)
            other = V(c2)
            changes = [lambda: setattr(n, 'radius', r2), lambda: setattr(n, 'center', other)]
            rng.shuffle(changes)
            for change in changes:
                change()
                if rng.random() < .5:
                    battery.observe(n, *probes), battery.calls(n, table)
            other += V(1, 1)
            if rng.random() < .5:
                battery.observe(n, *probes), battery.calls(n, table)
            fresh = list(table)
            if rng.random() < .5:
                # the other circle changes
                x = circles_[0]
                x.center, x.radius = V(gen.fpoint(rng)), rng.uniform(20, 150)
                fresh[0] = ('intersect_circle', (Circle2D(x.center, x.radius),))
            if arc:
                _, a2, b2, sweep2 = random_domain(rng)
                n.domain = AngularDomain(a2, b2)
                if abs(b2 - a2) < 360:
                    observe(n, c2, r2, a2, b2, sweep2, rng, 'setters')
                new = Circle2D(V(c2), r2, domain=AngularDomain(a2, b2))
            else:
                observe(n, c2, r2, None, None, None, rng, 'setters')
                new = Circle2D(V(c2), r2)
            d = battery.differences(battery.observe(n, *probes), battery.observe(new, *probes)) + battery.differences(battery.calls(n, table), battery.calls(new, fresh))
            ctx.check(not d, 'setters', lambda: d[:3])
            # the source is not concerned
            ctx.close_point(o.center, c, 'setters', 1e-9, 100)
            ctx.close(o.radius, r, 'setters', 1e-9)
        # similarity
        k, t = rng.uniform(.3, 3), rng.uniform(-360, 360)
        mirror = rng.random() < .5
        T = AffineTransformation2D.RotationAt(V(3, -2), t) * AffineTransformation2D.Scale(k, -k if mirror else k)
        tc = T * V(c)
        d = o.clone()
        d.apply_transformation(T)
        if arc:
            # an arc keeps its counter-clockwise sweep
            s, e = (T * V(polar(c, r, x)) for x in ((b, a) if mirror else (a, b)))
            ta = math.degrees(math.atan2(s.y-tc.y, s.x-tc.x))
            observe(d, (tc.x, tc.y), k*r, ta, ta + sweep, sweep, rng, 'transform')
        else:
            observe(d, (tc.x, tc.y), k*r, None, None, None, rng, 'transform')
        observe(o, c, r, a, b, sweep, rng, 'clone')
        # a transformation which is not a similarity is rejected as a whole
        if rng.random() < .3:
            f = o.clone()
            try:
                f.apply_transformation(AffineTransformation2D.RotationAt(V(1, 5), t) * AffineTransformation2D.Scale(k, k*rng.choice([.5, 2, -3])))
            except ValueError:
                observe(f, c, r, a, b, sweep, rng, 'transform-rejected')
        if arc:
            f = o.clone()
            f.domain.start = a + 1
            ctx.close(o.domain.start, a, 'clone', 1e-9, 1)

    def exact(rng):
        """points exactly on, just inside and just outside of the circle"""
        c = gen.grid(rng)
        r, u, v = rng.choice([(5, 3, 4), (13, 5, 12), (25, 7, 24), (17, 8, 15), (10, 6, 8), (10, 10, 0), (1, 0, 1)])
        u, v = rng.choice([(u, v), (v, u)])
        u, v = rng.choice([-1, 1])*u, rng.choice([-1, 1])*v
        k = 2.**rng.choice([-1, 0, 0, 1, 5])
        ctx.note(c=c, r=r, u=u, v=v, k=k)
        o = Circle2D(V(c), r*k)
        p = V(c[0]+u*k, c[1]+v*k)
        ctx.check(bool(o.is_point_inside(p)), 'inside', 'on the circle')
        ctx.close(o.signed_distance_to_point(p), 0, 'signed-distance', 1e-12, r)
        ctx.close(o.distance_to_point(p), 0, 'distance', 1e-12, r)
        for f in (1-1e-9, 1+1e-9):
            ctx.equal(bool(o.is_point_inside(V(c[0]+u*k*f, c[1]+v*k*f))), f < 1, 'inside', 'near the circle')

    def arc_from_distance(rng):
        c, r, a = gen.fpoint(rng), rng.uniform(1, 100), rng.uniform(-180, 360)
        f = rng.uniform(.01, .99)
        d = 2*math.pi*r*f
        ctx.note(c=c, r=r, a=a, d=d)
        o = Circle2D(V(c), r, start_angle=a, distance=d)
        ctx.close(o.perimeter, d, 'arc-from-distance', 1e-9)
        ctx.close_point(o.start_point, polar(c, r, a), 'arc-from-distance', 1e-9, 200)
        ctx.close_point(o.stop_point, polar(c, r, a+360*f), 'arc-from-distance', 1e-9, 200)
        ctx.check(Circle2D(V(c), r, start_angle=a, distance=2*math.pi*r*1.01).is_closed, 'arc-from-distance')

    def points_of(r):
        if r is None:
            return []
        r = list(r)
        return [(float(p[0]), float(p[1])) for p in r]

    def segment(rng):
        c, r = gen.grid(rng), rng.choice([5., 1., 13., rng.uniform(.5, 100)])
        mode = rng.choice(['any', 'any', 'tangent', 'axis', 'far'])
        S = 100 + r
        o = Circle2D(V(c), r)
        if mode == 'tangent':
            # exact tangents: axis-aligned, or integer coordinates (3-4-5)
            u = rng.choice([(1, 0), (0, 1), (-1, 0), (0, -1)])
            a = (c[0]+r*u[0]-u[1]*rng.randint(1, 9), c[1]+r*u[1]+u[0]*rng.randint(1, 9))
            b = (c[0]+r*u[0]+u[1]*rng.randint(1, 9), c[1]+r*u[1]-u[0]*rng.randint(1, 9))
            if r != int(r):
                return
        elif mode == 'axis':
            a = gen.fpoint(rng)
            b = rng.choice([(a[0]+rng.choice([-1, 1])*rng.uniform(1, 50), a[1]), (a[0], a[1]+rng.choice([-1, 1])*rng.uniform(1, 50))])
        else:
            a, b = gen.fpoint(rng), gen.fpoint(rng)
        l = math.dist(a, b)
        if l < .5:
            return
        ctx.note(mode=mode, c=c, r=r, a=a, b=b)
        h = ((b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0]))/l # distance to the supporting line
        got = points_of(o.intersect_segment(Segment2D(V(a), V(b))))
        if mode == 'tangent':
            ctx.check(len(got) == 1, 'segment-tangent', got)
            ctx.check(all(math.dist(p, (c[0]+r*u[0], c[1]+r*u[1])) < 1e-7*S for p in got), 'segment-tangent', got)
            return
        if abs(abs(h)-r) < 1e-6*S:
            return
        if abs(h) > r:
            ctx.equal(got, [], 'segment-none')
            return
        t = ((c[0]-a[0])*(b[0]-a[0]) + (c[1]-a[1])*(b[1]-a[1]))/l
        w = math.sqrt(r*r-h*h)
        e = [(a[0]+(b[0]-a[0])*x/l, a[1]+(b[1]-a[1])*x/l) for x in (t-w, t+w)]
        inside = [p for p, x in zip(e, (t-w, t+w)) if -1e-9 <= x <= l+1e-9]
        # the points of the segment are reported, and every point is on both curves
        ctx.check(all(min([math.dist(p, q) for q in got] or [1e9]) < 1e-6*S for p in inside), 'segment-intersection', lambda: (got, e))
        ctx.check(all(min(math.dist(p, q) for q in e) < 1e-6*S for p in got), 'segment-intersection', lambda: (got, e))
        ctx.check(len(got) == len(set(got)), 'segment-intersection', 'repeated')

    def circles(rng):
        mode = rng.choice(['any', 'any', 'any', 'tangent', 'concentric', 'axis'])
        c1, r1 = gen.grid(rng), rng.choice([3., 5., rng.uniform(.5, 30)])
        c2, r2 = gen.grid(rng), rng.choice([4., 5., rng.uniform(.5, 30)])
        if mode == 'tangent':
            r1, r2 = rng.randint(1, 9), rng.randint(1, 9)
            u = rng.choice([(1, 0), (0, 1), (-1, 0), (0, -1)])
            c2 = (c1[0]+u[0]*(r1+r2), c1[1]+u[1]*(r1+r2))
        elif mode == 'concentric':
            c2 = c1
            if r1 == r2:
                return
        elif mode == 'axis':
            c2 = rng.choice([(c1[0], c1[1]+rng.choice([-1, 1])*rng.uniform(1, 30)), (c1[0]+rng.choice([-1, 1])*rng.uniform(1, 30), c1[1])])
        d = math.dist(c1, c2)
        if mode != 'concentric' and d == 0:
            return
        ctx.note(mode=mode, c1=c1, r1=r1, c2=c2, r2=r2)
        o1, o2 = Circle2D(V(c1), r1), Circle2D(V(c2), r2)
        result = o1.intersect_circle(o2)
        ctx.equal((o1.center.x, o1.center.y, o2.center.x, o2.center.y), tuple(map(float, c1+c2)), 'operands-unchanged')
        if mode == 'concentric':
            ctx.check(result is None, 'circle-none')
            return
        if mode == 'tangent':
            p = result if hasattr(result, 'x') else (result[0] if result else None)
            ctx.close_point(p, (c1[0]+u[0]*r1, c1[1]+u[1]*r1), 'circle-tangent', 1e-6, 50)
            return
        if min(abs(d-r1-r2), abs(d-abs(r1-r2))) < 1e-6:
            return
        if d > r1+r2 or d < abs(r1-r2):
            ctx.check(result is None, 'circle-none', result)
            return
        x = (d*d-r2*r2+r1*r1)/(2*d)
        y = math.sqrt(r1*r1-x*x)
        u = ((c2[0]-c1[0])/d, (c2[1]-c1[1])/d)
        e = [(c1[0]+u[0]*x-s*u[1]*y, c1[1]+u[1]*x+s*u[0]*y) for s in (-1, 1)]
        got = points_of(result)
        ctx.check(len(got) == 2 and all(min(math.dist(p, q) for q in got) < 1e-6*50 for p in e), 'circle-intersection', lambda: (got, e))

    ctx.cases('domain', domain, 1500, 30000)
    ctx.cases('circle', circle, 1000, 20000)
    ctx.cases('exact', exact, 200, 2000)
    ctx.cases('arc_from_distance', arc_from_distance, 200, 4000)
    ctx.cases('segment', segment, 2000, 40000)
    ctx.cases('circles', circles, 1500, 30000)
