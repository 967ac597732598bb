"""C12 -- ellipses, elliptic arcs and the SVG arc"""
import math
import battery
import gen

PID = 'C12'
QUICK_FACTOR = 5
RULE = ('rotated ellipses of either axis order, arcs in both directions, SVG arcs over all flag combinations, radii too small, null or '
        'negative, affine histories; non-trivial: non-null radii')
ASSUMPTIONS = ['radii between 0.2 and 200, ratio at most 50 (3000 for the intersection with a segment)', 'the distance and the intersection of an ellipse arc are documented on the whole ellipse',
               'an SVG arc whose radii are scaled is compared with a tolerance of 1e-6 (square root of a rounding error)']
MONITORS = ['ctor', 'point-at', 'axes', 'eccentricity', 'matrix', 'bounding-box', 'distance', 'nearest-point', 'inside',
            'segment-intersection', 'segment-none', 'bezier', 'bezier-ends', 'svg-arc-ends', 'svg-arc-path', 'svg-arc-radii',
            'svg-arc-degenerate', 'transform', 'transform-arc', 'clone', 'setters', 'operands-unchanged']


def run(ctx):
    from Patro.GeometryEngine.Vector import Vector2D as V
    from Patro.GeometryEngine.Conic import Ellipse2D, Circle2D, AngularDomain
    from Patro.GeometryEngine.Segment import Segment2D
    from Patro.GeometryEngine.Transformation import AffineTransformation2D, Transformation2D

    def on(c, rx, ry, phi, a):
        a, phi = math.radians(a), math.radians(phi)
        x, y = rx*math.cos(a), ry*math.sin(a)
        return (c[0] + x*math.cos(phi) - y*math.sin(phi), c[1] + x*math.sin(phi) + y*math.cos(phi))

    def frame(c, phi, p):
        phi = math.radians(phi)
        x, y = p[0]-c[0], p[1]-c[1]
        return (x*math.cos(phi) + y*math.sin(phi), -x*math.sin(phi) + y*math.cos(phi))

    def nearest(rx, ry, x, y):
        """brute force distance in the frame: dense scan then golden refinement"""
        f = lambda a: math.hypot(rx*math.cos(a)-x, ry*math.sin(a)-y)
        n = 720
        values = [f(2*math.pi*i/n) for i in range(n)]
        best = min(values)
        for i in range(n):
            if values[i] <= values[i-1] and values[i] <= values[(i+1) % n]:
                lo, hi = 2*math.pi*(i-1)/n, 2*math.pi*(i+1)/n
                for _ in range(60):
                    u, v = lo + (hi-lo)*.382, lo + (hi-lo)*.618
                    if f(u) < f(v):
                        hi = v
                    else:
                        lo = u
                best = min(best, f((lo+hi)/2))
        return best

    def parameters(rng):
        c = gen.grid(rng) if rng.random() < .5 else gen.fpoint(rng)
        k = rng.random()
        if k < .3:
            rx, ry = rng.randint(1, 20), rng.randint(1, 20)
        elif k < .4:
            rx = ry = rng.uniform(1, 50)
        else:
            rx = rng.uniform(.5, 100)
            ry = rx * 10**rng.uniform(-1.2, 1.2)
        phi = rng.choice([0, 0, 90, 30, -45, 180, 1, -1, rng.uniform(-360, 360)])
        return c, rx, ry, phi

    def ellipse(rng):
        c, rx, ry, phi = parameters(rng)
        center = V(c)
        o = Ellipse2D(center, rx, ry, phi) if phi or rng.random() < .5 else Ellipse2D(center, rx, ry)
        ctx.note(c=c, rx=rx, ry=ry, phi=phi)
        S = 100 + rx + ry
        observe(o, c, rx, ry, phi, S, rng)
        ctx.equal((center.x, center.y), tuple(map(float, c)), 'operands-unchanged')
        center += V(30, -40)
        ctx.close_point(o.center, c, 'operands-unchanged', 1e-9, S)
        # move by the setters: the answers follow
        d = o.clone()
        rx2, ry2, phi2 = rng.uniform(1, 50), rng.uniform(1, 50), rng.uniform(-180, 180)
        c2 = gen.fpoint(rng)
        probes = [V(gen.fpoint(rng)), V(1, 2)], [rng.uniform(0, 360), .3]
        table = [(n, (x,)) for x in probes[0] for n in ('point_in_ellipse_frame', 'point_from_ellipse_frame', 'distance_to_point', 'is_point_inside')]
        table += [('distance_to_point', (x, True)) for x in probes[0]] + [('intersect_segment', (Segment2D(V(c), V(300, 200)),)), ('point_at_angle', (77,))]
        if rng.random() < .5:
            d.radius_x, d.radius_y, d.angle, d.center = rx2, ry2, phi2, V(c2)
        else:
            changes = [('radius_x', rx2), ('radius_y', ry2), ('angle', phi2), ('center', V(c2))]
            rng.shuffle(changes)
            for name, value in changes:
                battery.observe(d, *probes), battery.calls(d, table)
                setattr(d, name, value)
        observe(d, c2, rx2, ry2, phi2, 300, rng, 'clone')
        e = Ellipse2D(V(c2), rx2, ry2, phi2)
        x = battery.differences(battery.observe(d, *probes), battery.observe(e, *probes)) + battery.differences(battery.calls(d, table), battery.calls(e, table))
        ctx.check(not x, 'setters', lambda: x[:3])
        observe(o, c, rx, ry, phi, S, rng, 'clone')

    def observe(o, c, rx, ry, phi, S, rng, monitor=None):
        m = lambda name: monitor or name
        ctx.close_point(o.center, c, m('ctor'), 1e-9, S)
        ctx.close(o.radius_x, rx, m('ctor'), 1e-9)
        ctx.close(o.radius_y, ry, m('ctor'), 1e-9)
        ctx.close(o.angle, phi, m('ctor'), 1e-9)
        if rx >= ry:
            u, v = o.major_vector, o.minor_vector
            e, f = on((0, 0), rx, ry, phi, 0), on((0, 0), rx, ry, phi, 90)
            ctx.close_point(u, e, m('axes'), 1e-9, S)
            ctx.close_point(v, f, m('axes'), 1e-9, S)
        big, small = max(rx, ry), min(rx, ry)
        ctx.close(o.eccentricity, math.sqrt(1-(small/big)**2), m('eccentricity'), 1e-7)
        Q = o.matrix()
        for _ in range(4):
            a = rng.choice([0, 90, 180, 270, rng.uniform(-400, 400)])
            p = on(c, rx, ry, phi, a)
            ctx.close_point(o.point_at_angle(a), p, m('point-at'), 1e-9, S)
            quad = lambda p: sum(Q[i][j]*(p[0], p[1], 1)[i]*(p[0], p[1], 1)[j] for i in range(3) for j in range(3))
            # the quadric is positive outside, null on the ellipse, negative inside
            k = (rx*ry)**2
            ctx.check(abs(quad(p)) < 1e-6*max(k, (big*S)**2*1e-3), m('matrix'), lambda: (quad(p), k))
            if abs(quad(c) + k) > 1e-6*max(k, (big*S)**2*1e-3):
                ctx.check(False, m('matrix'), 'center %r' % quad(c))
        # bounding box
        r = math.radians(phi)
        hx, hy = math.hypot(rx*math.cos(r), ry*math.sin(r)), math.hypot(rx*math.sin(r), ry*math.cos(r))
        for _ in range(2):
            b = o.bounding_box
            ctx.close_point((b.x.inf, b.y.inf), (c[0]-hx, c[1]-hy), m('bounding-box'), 1e-9, S)
            ctx.close_point((b.x.sup, b.y.sup), (c[0]+hx, c[1]+hy), m('bounding-box'), 1e-9, S)
            b.x.enlarge(5) # the box belongs to the caller
        # distance
        for _ in range(3):
            kind = rng.choice(['any', 'axis-x', 'axis-y', 'center', 'near', 'neg'])
            if kind == 'any':
                x, y = rng.uniform(-3, 3)*rx, rng.uniform(-3, 3)*ry
            elif kind == 'axis-x':
                x, y = rng.uniform(-2, 2)*rx, 0.
            elif kind == 'axis-y':
                x, y = 0., rng.uniform(-2, 2)*ry
            elif kind == 'center':
                x, y = 0., 0.
            elif kind == 'near':
                a, k = rng.uniform(0, 2*math.pi), rng.choice([.9, .99, 1.01, 1.1])
                x, y = k*rx*math.cos(a), k*ry*math.sin(a)
            else:
                x, y = -rng.uniform(0, 1)*rx, -rng.uniform(0, 1)*ry
            rr = math.radians(phi)
            p = (c[0] + x*math.cos(rr) - y*math.sin(rr), c[1] + x*math.sin(rr) + y*math.cos(rr))
            P = V(p)
            e = nearest(rx, ry, x, y)
            ctx.close(o.distance_to_point(P), e, m('distance'), 1e-6, S, (kind, x, y))
            d, q = o.distance_to_point(P, return_point=True)
            ctx.close(d, e, m('distance'), 1e-6, S, (kind, x, y))
            fx, fy = frame(c, phi, (q.x, q.y))
            ctx.check(abs((fx/rx)**2 + (fy/ry)**2 - 1) < 1e-6*(1+S/min(rx, ry)) and
                      abs(math.hypot(q.x-p[0], q.y-p[1]) - e) < 1e-6*S, m('nearest-point'), lambda: (kind, x, y, fx, fy, e))
            k = (x/rx)**2 + (y/ry)**2
            if abs(k-1) > 1e-6:
                ctx.equal(bool(o.is_point_inside(P)), k < 1, m('inside'), (kind, x, y))
            ctx.equal((P.x, P.y), p, m('operands-unchanged'))

    def segment(rng):
        c, rx, ry, phi = parameters(rng)
        flat = rng.random() < .15
        if flat:
            rx = rng.uniform(20, 100)
            ry = rx * 10**-rng.uniform(1.8, 3.5)
            if rng.random() < .5:
                rx, ry = ry, rx
        o = Ellipse2D(V(c), rx, ry, phi)
        S = 100 + rx + ry
        if flat:
            # the tolerance is relative to the magnification of the short axis
            S *= max(rx, ry)/min(rx, ry)/100
        # a line at a known relative distance in the unit circle frame
        h = rng.choice([0, .3, .9, 1.1, 2, rng.uniform(0, .98), rng.uniform(1.02, 3)])
        a = rng.uniform(0, 2*math.pi)
        t0, t1 = sorted((rng.uniform(-3, 3), rng.uniform(-3, 3)))
        if t1 - t0 < .1:
            t1 = t0 + 1
        unit = lambda t: (h*math.cos(a) - t*math.sin(a), h*math.sin(a) + t*math.cos(a))
        back = lambda p: (lambda x, y, r: (c[0]+x*math.cos(r)-y*math.sin(r), c[1]+x*math.sin(r)+y*math.cos(r)))(p[0]*rx, p[1]*ry, math.radians(phi))
        s = Segment2D(V(back(unit(t0))), V(back(unit(t1))))
        ctx.note(c=c, rx=rx, ry=ry, phi=phi, h=h, t0=t0, t1=t1)
        got = o.intersect_segment(s)
        if h > 1:
            ctx.check(not got, 'segment-none', lambda: repr(got))
        else:
            w = math.sqrt(1-h*h)
            e = [back(unit(-w)), back(unit(w))]
            if ctx.check(got is not None and len(got) == 2, 'segment-intersection', lambda: repr(got)):
                k = sorted(got, key=lambda p: math.dist((p.x, p.y), e[0]))
                # tolerance: conditioning of a grazing line
                for p, q in zip(k, e):
                    ctx.close_point(p, q, 'segment-intersection', 1e-6/max(w, .05), S)

    def bezier(rng):
        c, rx, ry, phi = parameters(rng)
        start = rng.uniform(-360, 360)
        span = rng.choice([90, 180, 270, 45, 360, 91, -90, -180, rng.uniform(1, 359), -rng.uniform(1, 359)])
        full = rng.random() < .2
        o = Ellipse2D(V(c), rx, ry, phi, None if full else AngularDomain(start, start+span))
        if full:
            start, span = 0, 360
        S = 100 + rx + ry
        ctx.note(c=c, rx=rx, ry=ry, phi=phi, start=start, span=span)
        curves = o.to_bezier()
        check_bezier(curves, lambda a: on(c, rx, ry, phi, a), lambda p: (lambda f: math.hypot(f[0]/rx, f[1]/ry))(frame(c, phi, p)),
                     start, span, S, max(rx, ry), 'bezier')

    def check_bezier(curves, point, radius, start, span, S, big, name):
        if not ctx.check(len(curves) >= 1, name + '', 'no curve'):
            return
        ctx.close_point(curves[0].p0, point(start), 'bezier-ends', 1e-7, S)
        ctx.close_point(curves[-1].p3, point(start+span), 'bezier-ends', 1e-7, S)
        n = len(curves)
        for i, b in enumerate(curves):
            if i:
                ctx.close_point(b.p0, curves[i-1].p3, 'bezier-ends', 1e-9, S)
            for t in (.1, .25, .5, .75, .9):
                p = b.point_at_t(t)
                ctx.check(abs(radius((p.x, p.y)) - 1) < 1e-3, name, lambda: (i, t, radius((p.x, p.y))))
            # the middle of the curve is the middle of its share of the arc
            p = b.point_at_t(.5)
            e = point(start + span*(i+.5)/n)
            ctx.close_point(p, e, name, 2e-3, big)

    # W3C implementation notes, from the defining constraints rather than the conversion formula

    def svg_reference(p1, p2, rx, ry, phi, large, sweep):
        """center, radii, start, span"""
        rx, ry = abs(rx), abs(ry)
        u = lambda p: (lambda x, y: (x/rx, y/ry))(*frame((0, 0), phi, p))
        a, b = u(p1), u(p2)
        d = math.dist(a, b)
        if d > 2:
            rx, ry, a, b = rx*d/2, ry*d/2, (a[0]*2/d, a[1]*2/d), (b[0]*2/d, b[1]*2/d)
            d = 2
        mid = ((a[0]+b[0])/2, (a[1]+b[1])/2)
        h = math.sqrt(max(0, 1 - d*d/4))
        n = (-(b[1]-a[1])/d, (b[0]-a[0])/d)
        for s in (1, -1):
            cu = (mid[0]+s*h*n[0], mid[1]+s*h*n[1])
            t1 = math.degrees(math.atan2(a[1]-cu[1], a[0]-cu[0]))
            t2 = math.degrees(math.atan2(b[1]-cu[1], b[0]-cu[0]))
            span = (t2-t1) % 360
            if not sweep:
                span -= 360
            if (abs(span) > 180) == bool(large):
                break
        r = math.radians(phi)
        x, y = cu[0]*rx, cu[1]*ry
        c = (x*math.cos(r)-y*math.sin(r), x*math.sin(r)+y*math.cos(r))
        return c, rx, ry, t1, span, d

    def svg_arc(rng):
        p1 = gen.grid(rng, 50)
        p2 = gen.grid(rng, 50)
        kind = rng.choice(['any', 'small', 'zero', 'same', 'negative', 'any', 'any'])
        rx, ry = rng.uniform(5, 100), rng.uniform(5, 100)
        phi = rng.choice([0, 0, 30, 90, -60, rng.uniform(-180, 180)])
        large, sweep = rng.random() < .5, rng.random() < .5
        if kind == 'same':
            p2 = p1
        elif p1 == p2:
            return
        if kind == 'small':
            rx, ry = rng.choice([(rng.uniform(.2, 3), rng.uniform(.2, 3)), (rng.uniform(.02, .9), rng.uniform(.02, .9)),
                                 (rng.uniform(.02, .2), rng.uniform(.5, 1.5)), (rng.uniform(.5, 1.5), rng.uniform(.02, .2))])
        elif kind == 'zero':
            rx, ry = rng.choice([(0, ry), (rx, 0), (0, 0)])
        elif kind == 'negative':
            rx, ry = rng.choice([(-rx, ry), (rx, -ry), (-rx, -ry), (rx, -rx), (-rx, rx), (-rx, -rx)])
        flags = (large, sweep) if rng.random() < .5 else (int(large), int(sweep))
        ctx.note(kind=kind, p1=p1, p2=p2, rx=rx, ry=ry, phi=phi, large=large, sweep=sweep)
        P1, P2 = V(p1), V(p2)
        o = Ellipse2D.svg_arc(P1, P2, rx, ry, phi, *flags)
        ctx.equal((P1.x, P1.y, P2.x, P2.y), tuple(map(float, p1+p2)), 'operands-unchanged')
        if kind in ('same', 'zero'):
            if ctx.check(isinstance(o, Segment2D), 'svg-arc-degenerate', lambda: type(o).__name__):
                ctx.close_point(o.p0, p1, 'svg-arc-degenerate')
                ctx.close_point(o.p1, p2, 'svg-arc-degenerate')
            return
        c, rx_, ry_, start, span, d = svg_reference(p1, p2, rx, ry, phi, large, sweep)
        S = 100 + rx_ + ry_
        tol = 1e-7 if d < 1.99 else 1e-4
        if abs(abs(span)-180) < 1e-3 and d < 2:
            return
        ctx.close(o.radius_x, rx_, 'svg-arc-radii', 1e-8)
        ctx.close(o.radius_y, ry_, 'svg-arc-radii', 1e-8)
        ctx.close_point(o.point_at_angle(o.domain.start), p1, 'svg-arc-ends', max(tol, 1e-7), S)
        ctx.close_point(o.point_at_angle(o.domain.stop), p2, 'svg-arc-ends', max(tol, 1e-7), S)
        ctx.close_point(o.center, c, 'svg-arc-path', tol, S)
        if d < 2:
            ctx.close(o.domain.stop - o.domain.start, span, 'svg-arc-path', tol*100, 360)
        else:
            ctx.check(abs(abs(o.domain.stop - o.domain.start) - 180) < .1 and
                      ((o.domain.stop > o.domain.start) == sweep), 'svg-arc-path', lambda: (o.domain.start, o.domain.stop))
            span = 180 if sweep else -180
        # the Bézier conversion follows the same arc
        curves = o.to_bezier()
        check_bezier(curves, lambda a: on(c, rx_, ry_, phi, a), lambda p: (lambda f: math.hypot(f[0]/rx_, f[1]/ry_))(frame(c, phi, p)),
                     start, span, S*(1 if d < 2 else 100), max(rx_, ry_), 'svg-arc-path')

    def transform(rng):
        c, rx, ry, phi = parameters(rng)
        arc = rng.random() < .6
        start = rng.uniform(-360, 360)
        span = rng.choice([90, 180, -90, rng.uniform(5, 355), -rng.uniform(5, 355)])
        domain = AngularDomain(start, start+span) if arc else None
        o = Ellipse2D(V(c), rx, ry, phi, domain)
        word = []
        T = AffineTransformation2D.Identity()
        for _ in range(rng.randint(1, 3)):
            k = rng.choice(['r', 's', 't', 'm', 'ra'])
            if k == 'r':
                w = rng.uniform(-360, 360); f = AffineTransformation2D.Rotation(w)
            elif k == 's':
                w = (rng.uniform(.3, 2), rng.uniform(.3, 2)); f = AffineTransformation2D.Scale(*w)
            elif k == 'm':
                w = (rng.uniform(.3, 2), -rng.uniform(.3, 2)); f = AffineTransformation2D.Scale(*w)
            elif k == 't':
                w = gen.fpoint(rng); f = AffineTransformation2D.Translation(V(w))
            else:
                w = (gen.grid(rng), rng.uniform(-180, 180)); f = AffineTransformation2D.RotationAt(V(w[0]), w[1])
            word.append((k, w))
            T = f * T
        ctx.note(c=c, rx=rx, ry=ry, phi=phi, start=start, span=span, arc=arc, word=word)
        d = o.clone()
        d.apply_transformation(T)
        S = 500 + (rx + ry)*8
        image = lambda a: (lambda p: (p.x, p.y))(T * V(on(c, rx, ry, phi, a)))
        ic = T * V(c)
        ctx.close_point(d.center, (ic.x, ic.y), 'transform', 1e-9, S)
        # every image point is on the image (relative to its own frame)
        D = (d.center.x, d.center.y)
        for a in range(0, 360, 30):
            p = image(a)
            f = frame(D, d.angle, p)
            ctx.close((f[0]/d.radius_x)**2 + (f[1]/d.radius_y)**2, 1, 'transform', 1e-6*(1+S/min(d.radius_x, d.radius_y)/10))
        if arc:
            # the arc is parametrised affinely: same fraction, same point
            for i in range(9):
                f = i/8
                p = d.point_at_angle(d.domain.start + f*(d.domain.stop-d.domain.start))
                ctx.close_point(p, image(start + f*span), 'transform-arc', 1e-7, S)
        # the source is untouched
        for a in (0, 77):
            ctx.close_point(o.point_at_angle(a), on(c, rx, ry, phi, a), 'clone', 1e-9, S)
        if arc:
            ctx.close(o.domain.start, start, 'clone', 1e-9)
            ctx.close(o.domain.stop, start+span, 'clone', 1e-9)
            e = o.clone()
            ctx.close(e.domain.stop, start+span, 'clone', 1e-9)
        e = o.clone()
        for a in (0, 33):
            ctx.close_point(e.point_at_angle(a), on(c, rx, ry, phi, a), 'clone', 1e-9, S)

    ctx.cases('ellipse', ellipse, 250, 6000)
    ctx.cases('segment', segment, 600, 20000)
    ctx.cases('bezier', bezier, 400, 12000)
    ctx.cases('svg-arc', svg_arc, 1500, 40000)
    ctx.cases('transform', transform, 500, 15000)
