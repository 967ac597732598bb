"""C26 -- import of DXF drawings"""
import math
import os
import shutil
import tempfile

PID = 'C26'
QUICK_FACTOR = 2
RULE = ('random DXF drawings (lines, circles, arcs, ellipses and elliptic arcs, polylines with bulges, open and closed, splines of degree 2 to 5 with uniform and general clamped '
        'knots, entities which are not supported in between, entities in blocks and in the paper space) written by ezdxf, imported, and compared with the curves the format defines; '
        'drawings exported from random scenes; non-trivial: at least two entities')
ASSUMPTIONS = ['entities in the XY plane without extrusion', 'splines without weights']
MONITORS = ['count', 'class', 'line', 'circle', 'arc', 'ellipse', 'ellipse-arc', 'ellipse-bezier', 'polyline', 'polyline-bulge', 'polyline-closed', 'spline', 'spline-knots', 'spline-bezier', 'spline-fit',
            'skipped', 'sequence', 'vertex', 'round-trip']


def deboor(points, degree, knots, t):
    """reference evaluation"""
    n = len(points)
    k = degree
    while k < n - 1 and knots[k+1] <= t:
        k += 1
    d = [list(points[j + k - degree]) for j in range(degree + 1)]
    for r in range(1, degree + 1):
        for j in range(degree, r - 1, -1):
            i = j + k - degree
            w = knots[j + 1 + k - r] - knots[i]
            a = (t - knots[i])/w if w else 0.
            d[j] = [(1 - a)*u + a*v for u, v in zip(d[j-1], d[j])]
    return d[degree]


def run(ctx):
    import logging
    logging.getLogger('ezdxf').setLevel(logging.ERROR)
    import ezdxf
    from pathlib import Path
    from IntervalArithmetic import Interval2D
    from Patro.FileFormat.Dxf.Importer import DxfImporter
    from Patro.FileFormat.Dxf.Polyline import Polyline
    from Patro.GeometryEngine.Bezier import CubicBezier2D, QuadraticBezier2D
    from Patro.GeometryEngine.Conic import Circle2D, Ellipse2D
    from Patro.GeometryEngine.Segment import Segment2D
    from Patro.GeometryEngine.Spline import BSpline2D
    from Patro.GeometryEngine.Vector import Vector2D as V

    directory = tempfile.mkdtemp(prefix='verif-c26-')
    R = 100.
    TOL = 1e-7

    def point(rng):
        if rng.random() < .3:
            return (float(rng.randint(-50, 50)), float(rng.randint(-50, 50)))
        return (rng.uniform(-R, R), rng.uniform(-R, R))

    def near(p, q, monitor, detail=None, tol=TOL):
        ctx.close_point((p.x, p.y), q, monitor, tol, R, detail)

    def sweep_of(domain):
        """counterclockwise sweep"""
        if domain is None or domain.is_closed:
            return 360.
        return (domain.stop - domain.start) % 360

    ####################################################################################################

    def arc_angles(rng):
        k = rng.random()
        if k < .3:
            a, b = rng.sample([0, 30, 45, 90, 135, 180, 225, 270, 300, 315, 350], 2)
        else:
            a, b = rng.uniform(0, 360), rng.uniform(0, 360)
        return float(a), float(b)

    def check_arc(c, center, radius, start, sweep, monitor):
        near(c.center, center, monitor)
        ctx.close(c.radius, radius, monitor, TOL, R)
        d = c.domain
        if not ctx.check(d is not None and abs(sweep_of(d) - sweep) < 1e-6, monitor, lambda: (d, start, sweep)):
            return
        at = lambda a: (center[0] + radius*math.cos(math.radians(a)), center[1] + radius*math.sin(math.radians(a)))
        near(c.start_point, at(start), monitor)
        near(c.stop_point, at(start + sweep), monitor)
        near(c.point_at_angle(d.start + sweep/2), at(start + sweep/2), monitor)
        ctx.check(d.is_inside(d.start + sweep/2), monitor)
        if sweep > 1:
            ctx.close(c.perimeter, math.radians(sweep)*radius, monitor, 1e-6, 1)
        if sweep < 358:
            ctx.check(not d.is_inside(start + sweep + (360 - sweep)/2), monitor, lambda: (d, start, sweep))

    ####################################################################################################

    # Each maker adds an entity and returns the class and the checker

    def line(rng, m, note):
        p, q = point(rng), point(rng)
        if rng.random() < .2:
            p = (p[0], 0.)
        z = rng.choice([0, 0, 5])
        m.add_line(p + (z,), q + (z,))
        note.append(('line', p, q))
        def check(g):
            near(g.start_point, p, 'line')
            near(g.end_point, q, 'line')
        return Segment2D, check

    def circle(rng, m, note):
        p, r = point(rng), rng.uniform(.1, R)
        if rng.random() < .2:
            p = (p[0], 0.)
        m.add_circle(p + (rng.choice([0, 3]),), r)
        note.append(('circle', p, r))
        def check(g):
            near(g.center, p, 'circle')
            ctx.close(g.radius, r, 'circle')
            ctx.check(g.domain is None or g.domain.is_closed, 'circle')
            ctx.close(g.perimeter, 2*math.pi*r, 'circle')
        return Circle2D, check

    def arc(rng, m, note):
        p, r = point(rng), rng.uniform(.1, R)
        a, b = arc_angles(rng)
        if abs(a - b) < 1e-3:
            b = a + 10
        whole = rng.random() < .1
        if whole:
            # an arc of a turn
            a = rng.choice([0., 90., -90., 180., a])
            b = a + 360
        m.add_arc(p + (rng.choice([0, 0, 2]),), r, a, b)
        note.append(('arc', p, r, a, b))
        return Circle2D, lambda g: check_arc(g, p, r, a, 360. if whole else (b - a) % 360, 'arc')

    def ellipse(rng, m, note):
        p = point(rng)
        k = rng.random()
        r = rng.uniform(1, 50)
        if k < .4:
            major = rng.choice([(r, 0.), (0., r), (-r, 0.), (0., -r)])
        else:
            a = rng.uniform(-math.pi, math.pi)
            major = (r*math.cos(a), r*math.sin(a))
        ratio = rng.uniform(.05, 1)
        full = rng.random() < .3
        if full:
            start, stop = 0., 2*math.pi
        else:
            start, stop = rng.uniform(0, 2*math.pi), rng.uniform(0, 2*math.pi)
            if rng.random() < .3:
                start, stop = rng.sample([0, math.pi/2, math.pi, 3*math.pi/2], 2)
            if abs(start - stop) < .05:
                stop = start + 1
        m.add_ellipse(p, major, ratio, start, stop)
        note.append(('ellipse', p, major, ratio, start, stop))
        sweep = 2*math.pi if full else (stop - start) % (2*math.pi)
        minor = (-major[1]*ratio, major[0]*ratio)
        at = lambda t: tuple(p[i] + math.cos(t)*major[i] + math.sin(t)*minor[i] for i in (0, 1))
        monitor = 'ellipse' if full else 'ellipse-arc'
        def check(g):
            near(g.center, p, monitor)
            d = g.domain
            span = 360. if d is None else d.stop - d.start
            ctx.check(abs(span - math.degrees(sweep)) < 1e-6, monitor, lambda: (d, start, stop))
            first = 0. if d is None else d.start
            for i in range(5):
                t = start + i/4*sweep
                near(g.point_at_angle(first + i/4*span), at(t), monitor, lambda: (i, d, g.angle, major))
            # the curves sweep the arc
            curves = g.to_bezier()
            near(curves[0].start_point, at(start), 'ellipse-bezier')
            near(curves[-1].end_point, at(start + sweep), 'ellipse-bezier')
            for i, c in enumerate(curves):
                near(c.point_at_t(.5), at(start + (i + .5)/len(curves)*sweep), 'ellipse-bezier', tol=1e-3)
        return Ellipse2D, check

    def polyline(rng, m, note):
        n = rng.randint(2, 7)
        closed = rng.random() < .5
        vertices = []
        for _ in range(n):
            p = point(rng)
            while vertices and math.dist(p, vertices[-1][:2]) < 1e-2 or (vertices and math.dist(p, vertices[0][:2]) < 1e-2):
                p = point(rng)
            k = rng.random()
            b = 0. if k < .4 else rng.choice([1., -1., .5, -.5, 2., -2., math.tan(math.pi/8)]) if k < .7 else rng.choice([-1, 1])*10**rng.uniform(*rng.choice([(-2, 1), (-2, 1), (-4.5, 4.5)]))
            vertices.append(p + (b,))
        if closed and n > 2 and rng.random() < .2:
            # the last vertex repeats the first one
            vertices.append(vertices[0][:2] + (rng.choice([0., 1., -.5]),))
        m.add_lwpolyline(vertices, format='xyb', close=closed)
        note.append(('polyline', vertices, closed))
        edges = [(vertices[i], vertices[i+1]) for i in range(len(vertices) - 1)]
        if closed:
            edges.append((vertices[-1], vertices[0]))
        def check(g):
            if not ctx.check(len(g) == len(edges), 'polyline-closed', lambda: (len(g), len(edges))):
                return
            for item, (v, w) in zip(g, edges):
                check_edge(item, v, w)
        return list, check

    def check_edge(item, v, w):
        b = v[2]
        if not b or v[:2] == w[:2]:
            # there is no arc between two identical points
            if ctx.check(isinstance(item, Segment2D), 'polyline', item):
                near(item.start_point, v, 'polyline')
                near(item.end_point, w, 'polyline')
            return
        if not ctx.check(isinstance(item, Circle2D), 'polyline-bulge', item):
            return
        # the arc goes from v to w through the point at the sagitta, on the right for a positive bulge
        dx, dy = w[0] - v[0], w[1] - v[1]
        top = ((v[0] + w[0])/2 + dy/2*b, (v[1] + w[1])/2 - dx/2*b)
        sweep = 4*math.degrees(math.atan(abs(b)))
        radius = math.hypot(dx, dy)/4*abs(b + 1/b)
        ends = (v, w) if b > 0 else (w, v)
        tol = 1e-9*max(1, radius/R)*100
        d = item.domain
        ctx.close(item.radius, radius, 'polyline-bulge', TOL, R)
        if ctx.check(d is not None and abs(sweep_of(d) - sweep) < 1e-4 and (d.stop - d.start) % 360 > 0, 'polyline-bulge', lambda: (b, d, sweep)):
            near(item.start_point, ends[0], 'polyline-bulge', b, tol)
            near(item.stop_point, ends[1], 'polyline-bulge', b, tol)
            near(item.point_at_angle(d.start + sweep_of(d)/2), top, 'polyline-bulge', b, max(tol, 1e-6))

    def spline(rng, m, note):
        degree = rng.choice([2, 3, 3, 3, 4, 5])
        n = rng.randint(degree + 1, degree + 6)
        points = [point(rng) for _ in range(n)]
        closed = rng.random() < .15
        if closed:
            points[-1] = points[0]
        if rng.random() < .15:
            return fit_spline(rng, m, note, points)
        spans = n - degree
        uniform = rng.random() < .5
        if uniform:
            interior = list(range(1, spans))
            end = spans
        else:
            end = 10.
            interior = sorted(round(rng.uniform(.5, 9.5), 2) for _ in range(spans - 1))
            if len(interior) > 2 and rng.random() < .4:
                interior[1] = interior[0]
        a, s = (0., 1.) if rng.random() < .5 else (rng.uniform(-5, 5), rng.choice([.1, 2., 1/7]))
        knots = [a + s*x for x in [0]*(degree + 1) + interior + [end]*(degree + 1)]
        uniform = uniform or not interior
        unclamped = rng.random() < .2
        if unclamped:
            # as for the periodic splines
            knots, uniform = [a + s*i for i in range(n + degree + 1)], False
        if uniform and rng.random() < .3:
            s = m.add_open_spline([p + (0,) for p in points], degree=degree)
            knots = [float(x) for x in [0]*(degree + 1) + list(range(1, spans)) + [spans]*(degree + 1)]
        else:
            s = m.add_open_spline([p + (0,) for p in points], degree=degree, knots=knots)
        s.closed = closed
        note.append(('spline', degree, points, knots))
        k0, k1 = knots[degree], knots[n]
        def check(g):
            ctx.check(g.degree == degree and g.number_of_points == n and g.is_closed == closed, 'spline')
            for u, p in zip(g.points, points):
                near(u, p, 'spline')
            t0, t1 = g.start_knot, g.end_knot
            for i in range(9):
                u = i/8 if i in (0, 8) else (i + .1)/8.2
                q = deboor(points, degree, knots, k0 + u*(k1 - k0))
                near(g.point_at_t(t1 if i == 8 else t0 + u*(t1 - t0)), q, 'spline' if uniform else 'spline-knots', lambda: (u, knots, g.knots), 1e-6)
            if uniform and degree in (2, 3):
                curves = g.to_bezier()
                if ctx.check(len(curves) == spans, 'spline-bezier', lambda: (len(curves), spans)):
                    for i, c in enumerate(curves):
                        for v in (0, .3, 1):
                            near(c.point_at_t(v), deboor(points, degree, knots, k0 + (i + v)/spans*(k1 - k0)), 'spline-bezier', None, 1e-6)
        return BSpline2D, check

    def fit_spline(rng, m, note, points):
        m.add_spline([p + (0,) for p in points])
        note.append(('fit', points))
        def check(g):
            # the curve goes through the points, in order, at its knots
            if ctx.check(g.degree == 3, 'spline-fit'):
                knots = sorted(set(g.knots))
                if ctx.check(len(knots) == len(points), 'spline-fit', lambda: (knots, points)):
                    for t, p in zip(knots, points):
                        near(g.point_at_t(t), p, 'spline-fit', None, 1e-6)
        return BSpline2D, check

    def unsupported(rng, d, m):
        k = rng.randrange(6)
        if k == 0:
            m.add_text('text')
        elif k == 1:
            m.add_point((1, 2))
        elif k == 2:
            m.add_polyline2d([(0, 0), (1, 2), (3, 4)])
        elif k == 3:
            m.add_mtext('text')
        elif k == 4:
            m.add_solid([(0, 0), (1, 0), (1, 1)])
        else:
            name = 'B%d' % len(d.blocks)
            b = d.blocks.new(name)
            b.add_line((0, 0), (1, 1))
            m.add_blockref(name, (1, 2))

    MAKERS = [line, line, circle, arc, arc, ellipse, ellipse, polyline, polyline, polyline, spline, spline]

    def imports(rng):
        d = ezdxf.new(rng.choice(['R2000', 'R2004', 'R2010', 'R2018']))
        m = d.modelspace()
        note, expected = [], []
        n = rng.randint(1, 8)
        for _ in range(n):
            if rng.random() < .2:
                unsupported(rng, d, m)
                ctx.seen('skipped')
            expected.append(rng.choice(MAKERS)(rng, m, note))
        if rng.random() < .2:
            d.layout('Layout1').add_line((0, 0), (1, 1))
            ctx.seen('skipped')
        path = os.path.join(directory, 'in.dxf')
        d.saveas(path)
        ctx.note(entities=note, trivial=n < 2)
        importer = DxfImporter(Path(path) if rng.random() < .5 else path)
        got = list(importer)
        if not ctx.check(len(importer) == len(got) == n, 'count', lambda: (len(importer), n, got)):
            return
        ctx.check(all(importer[i] is got[i] for i in range(n)) and importer[:2] == got[:2] and importer[-1] is got[-1], 'sequence')
        for g, (cls, check) in zip(got, expected):
            if ctx.check(isinstance(g, cls), 'class', lambda: (g, cls)):
                check(g)

    def polylines(rng):
        """the polyline alone, with its vertices"""
        closed = rng.random() < .5
        p = Polyline(closed)
        n = rng.randint(2, 6)
        vertices = []
        for i in range(n):
            q = point(rng)
            while any(math.dist(q, v[:2]) < 1e-2 for v in vertices):
                q = point(rng)
            b = rng.choice([0, 0, 1, -1, .3, -.3, 3, -3])
            vertices.append(q + (b,))
            if b == 0 and rng.random() < .5:
                p.add(V(*q))
            else:
                p.add(V(*q), b)
        ctx.note(vertices=vertices, closed=closed)
        ctx.check(len(p) == n and p.closed == closed and [(v.x, v.y, v.bulge) for v in p] == vertices, 'vertex')
        str(p)
        edges = [(i, i+1) for i in range(n - 1)] + ([(n-1, 0)] if closed else [])
        ctx.check([(vertices.index((a.x, a.y, a.bulge)), vertices.index((b.x, b.y, b.bulge))) for a, b in p.iter_on_segment()] == edges, 'vertex', lambda: (edges, list(p.iter_on_segment())))
        for i in range(n):
            v = p[i]
            expected = p[i+1] if i + 1 < n else p[0] if closed else None
            ctx.check(v.next is expected, 'vertex')
            ctx.check(v.prev is (p[i-1] if i or closed else None), 'vertex')
            ctx.check(p.is_last_index(i) == (i == n-1), 'vertex')
        for i, j in edges:
            v, a, b = p[i], vertices[i], vertices[j]
            half = math.dist(a[:2], b[:2])/2
            ctx.close(v.demi_chord, half, 'vertex', 1e-9, R)
            near(v.segment_vector, (b[0] - a[0], b[1] - a[1]), 'vertex')
            ctx.close(abs(v.sagitta), abs(a[2])*half, 'vertex', 1e-9, R)
            ctx.close(v.bulge_radius, half/2*abs(a[2] + 1/a[2]) if a[2] else 0, 'vertex', 1e-9, R)
        geometry = p.geometry()
        if ctx.check(len(geometry) == len(edges), 'polyline-closed'):
            for item, (i, j) in zip(geometry, edges):
                check_edge(item, vertices[i], vertices[j])

    def round_trip(rng):
        """exported by the painter then imported"""
        from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
        from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
        from Patro.GraphicEngine.Painter.DxfPainter import DxfPainter
        from Patro.GraphicEngine.Painter.Paper import PaperSize
        scene = GraphicScene()
        expected = []
        for _ in range(rng.randint(1, 8)):
            if rng.random() < .5:
                q = [point(rng), point(rng)]
                scene.segment(*[V(*p) for p in q], GraphicPathStyle(), user_data=None)
            else:
                q = [point(rng) for _ in range(4)]
                scene.cubic_bezier(*[V(*p) for p in q], GraphicPathStyle(), user_data=None)
            expected.append(q)
        scene.bounding_box = Interval2D((-R, R), (-R, R))
        path = os.path.join(directory, 'out.dxf')
        DxfPainter(path, scene, PaperSize('a4', 'portrait', 10))
        got = list(DxfImporter(path))
        ctx.note(items=expected)
        if not ctx.check(len(got) == len(expected), 'round-trip', lambda: (got, expected)):
            return
        for g, q in zip(got, expected):
            if len(q) == 2:
                ok = isinstance(g, Segment2D)
                points = [g.start_point, g.end_point] if ok else []
            else:
                ok = isinstance(g, BSpline2D) and g.degree == 3 and len(g.to_bezier()) == 1
                points = list(g.to_bezier()[0].points) if ok else []
            if ctx.check(ok, 'round-trip', lambda: (g, q)):
                for u, v in zip(points, q):
                    near(u, (10*v[0], 10*v[1]), 'round-trip', None, 1e-6)

    try:
        ctx.cases('imports', imports, 250)
        ctx.cases('polylines', polylines, 600)
        ctx.cases('round-trip', round_trip, 60)
    finally:
        shutil.rmtree(directory, ignore_errors=True)
