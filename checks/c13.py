"""C13 -- paths"""
import math
import random
import battery
import gen
import svgref

PID = 'C13'
RULE = ('random paths of every part kind (absolute, relative, directional, smooth Bezier, arcs, rounded corners, closed with rounding), '
        'and histories of clone, transformation, start move and further parts, compared with a shadow path; non-trivial: at least two parts')
ASSUMPTIONS = ['rounded corners have an angle between 15 and 165 degrees and a radius which fits', 'bulges are transformed by similarities only']
MONITORS = ['stop-point', 'start-point', 'geometry', 'arc-geometry', 'smooth', 'bulge-tangent', 'bulge-center', 'bulge-arc', 'bulge-trim',
            'bulge-closing', 'clone', 'clone-independent', 'transform', 'transform-arc', 'move', 'bounding-box', 'closed', 'reject', 'sheared',
            'rounded-rectangle', 'straight-corner', 'shallow', 'navigation', 'arrow', 'curvy-arrow', 'to-absolute', 'again']

DIRECTIONS = dict(north=90, south=-90, east=0, west=180, north_east=45, north_west=135, south_east=-45, south_west=-135)


def run(ctx):
    from Patro.FileFormat.Svg.SvgFormat import PathDataAttribute
    from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
    from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
    from Patro.GeometryEngine.Vector import Vector2D as V
    from Patro.GeometryEngine.Path import LinearSegment, Path2D
    from Patro.GeometryEngine.Segment import Segment2D
    from Patro.GeometryEngine.Bezier import QuadraticBezier2D, CubicBezier2D
    from Patro.GeometryEngine.Transformation import AffineTransformation2D
    from Patro.GeometryEngine.Shape.ArrowHead import TriangularHead, TriangularCurvyHead

    xy = lambda p: (float(p.x), float(p.y))

    class Shadow:
        """parts: (kind, absolute flag, data, radius)"""

        def __init__(self, p0):
            self.p0 = p0
            self.parts = []
            self.close_radius = None
            self.closed = False

        def resolve(self):
            """list of (kind, points..., radius)"""
            out = []
            current = self.p0
            previous = None
            for kind, absolute, data, radius in self.parts:
                shift = (lambda p: p) if absolute else (lambda p, c=current: (p[0]+c[0], p[1]+c[1]))
                if kind == 'H':
                    pts = [current, (data, current[1])]
                elif kind == 'V':
                    pts = [current, (current[0], data)]
                elif kind == 'Z':
                    pts = [current, data]
                elif kind == 'A':
                    pts = [current, shift(data[0])]
                elif kind == 'T':
                    c = current
                    if previous and previous[0] in ('Q', 'T'):
                        q = previous[1][1]
                        c = (2*current[0]-q[0], 2*current[1]-q[1])
                    pts = [current, c, shift(data[0])]
                elif kind == 'S':
                    c = current
                    if previous and previous[0] in ('C', 'S'):
                        q = previous[1][2]
                        c = (2*current[0]-q[0], 2*current[1]-q[1])
                    pts = [current, c] + [shift(p) for p in data]
                else:
                    pts = [current] + [shift(p) for p in data]
                previous = (kind, pts, data, radius)
                out.append(previous)
                current = pts[-1]
            return out

        def corner(self, parts, i):
            """geometry of the rounded corner at the start of part i"""
            radius = parts[i][3]
            P = parts[i][1][0]
            A = parts[i-1][1][0]
            B = parts[i][1][-1]
            u = (A[0]-P[0], A[1]-P[1])
            v = (B[0]-P[0], B[1]-P[1])
            lu, lv = math.hypot(*u), math.hypot(*v)
            u, v = (u[0]/lu, u[1]/lu), (v[0]/lv, v[1]/lv)
            theta = math.acos(max(-1, min(1, u[0]*v[0]+u[1]*v[1])))
            if not .01 < theta < 3.13:
                return dict(theta=0, fit=0)
            d = radius/math.tan(theta/2)
            b = (u[0]+v[0], u[1]+v[1])
            lb = math.hypot(*b)
            b = (b[0]/lb, b[1]/lb)
            h = radius/math.sin(theta/2)
            return dict(start=(P[0]+d*u[0], P[1]+d*u[1]), stop=(P[0]+d*v[0], P[1]+d*v[1]), center=(P[0]+h*b[0], P[1]+h*b[1]),
                        middle=(P[0]+(h-radius)*b[0], P[1]+(h-radius)*b[1]), radius=radius, theta=math.degrees(theta), fit=min(lu, lv)/max(d, 1e-12))

        def samples(self):
            """points along each part, rounded corners included, as list of lists"""
            parts = self.resolve()
            n = len(parts)
            out = []
            corners = {i: self.corner(parts, i) for i in range(n) if parts[i][3]}
            for i, (kind, pts, data, radius) in enumerate(parts):
                if kind == 'A':
                    s = svgref.sample_arc(pts[0], pts[1], *data[1:], n=17)
                elif kind in 'QTCS':
                    s = [svgref.casteljau(pts, t/16) for t in range(17)]
                else:
                    a, b = pts[0], pts[-1]
                    if i in corners:
                        a = corners[i]['stop']
                    j = i+1
                    if j == n and self.closed:
                        j = 0
                    if j in corners:
                        b = corners[j]['start']
                    s = [a, b]
                out.append(s)
            return parts, corners, out

    SCALE = 1000.

    def arc_extremes(part, image):
        """points of the image of an arc where it is horizontal or vertical"""
        kind, pts, data, radius = part
        arc = svgref.arc_center(pts[0], pts[1], *data[1:])
        if arc is None:
            return []
        c, rx, ry, t1, span = arc
        phi = data[3]
        C = image(c)
        U, W = image(svgref.arc_point(c, rx, ry, phi, 0)), image(svgref.arc_point(c, rx, ry, phi, 90))
        out = []
        for k in (0, 1):
            a = math.degrees(math.atan2(W[k]-C[k], U[k]-C[k]))
            for angle in (a, a+180):
                if (angle-t1) % 360 < span if span >= 0 else (t1-angle) % 360 < -span:
                    out.append(image(svgref.arc_point(c, rx, ry, phi, angle)))
        return out

    def observe(path, shadow, monitor=None, image=lambda p: p, ratio=1., shape_only=False):
        """compare the path with the image of the shadow"""
        m = lambda name: monitor or name
        parts, corners, samples = shadow.samples()
        ctx.equal(len(path), len(parts), m('navigation'))
        ctx.equal(bool(path.is_closed), shadow.closed, m('closed'))
        ctx.close_point(xy(path.p0), image(shadow.p0), m('start-point'), 1e-8, SCALE)
        mirror = [image((0, 0)), image((1, 0)), image((0, 1))]
        for i, part in enumerate(path):
            kind, pts, data, radius = parts[i]
            ctx.equal(part.index, i, m('navigation'))
            ctx.check(part.path is path, m('navigation'))
            ctx.close_point(xy(part.start_point), image(pts[0]), m('start-point'), 1e-8, SCALE, (i, kind))
            ctx.close_point(xy(part.stop_point), image(pts[-1]), m('stop-point'), 1e-8, SCALE, (i, kind))
            g = part.geometry
            if kind in 'QTCS':
                cls = QuadraticBezier2D if kind in 'QT' else CubicBezier2D
                if ctx.check(isinstance(g, cls), m('geometry'), lambda: type(g).__name__):
                    for p, e in zip(g.points, pts):
                        ctx.close_point(xy(p), image(e), m('smooth' if kind in 'TS' else 'geometry'), 1e-8, SCALE, (i, kind))
            elif kind == 'A':
                s = samples[i]
                if isinstance(g, Segment2D):
                    ctx.close_point(xy(g.p0), image(s[0]), m('arc-geometry'), 1e-7, SCALE)
                    ctx.close_point(xy(g.p1), image(s[-1]), m('arc-geometry'), 1e-7, SCALE)
                    ctx.check(svgref.arc_center(pts[0], pts[1], *data[1:]) is None, m('arc-geometry'))
                else:
                    d = g.domain
                    for k in range(0, 17, 4):
                        p = g.point_at_angle(d.start + (d.stop-d.start)*k/16)
                        ctx.close_point(xy(p), image(s[k]), 'transform-arc' if monitor == 'transform' else m('arc-geometry'), 2e-4 if data[-1] == 'grazing' else 1e-6, SCALE, (i, k))
            else:
                if ctx.check(isinstance(g, Segment2D), m('geometry'), lambda: type(g).__name__):
                    n = len(parts)
                    trimmed = i in corners or (i+1) in corners or (i+1 == n and shadow.closed and 0 in corners)
                    name = m('bulge-trim' if trimmed else 'geometry')
                    ctx.close_point(xy(g.p0), image(samples[i][0]), name, 1e-7, SCALE, i)
                    ctx.close_point(xy(g.p1), image(samples[i][1]), name, 1e-7, SCALE, i)
                c = corners.get(i)
                if c is not None:
                    if ctx.check(part.radius is not None, m('bulge-arc'), 'no radius'):
                        ctx.close(part.radius, c['radius']*ratio, m('bulge-arc'), 1e-7)
                        arc = part.bulge_geometry
                        name = 'bulge-closing' if i == 0 and monitor is None else m('bulge-tangent')
                        ctx.close_point(xy(part.bulge_start_point), image(c['start']), name, 1e-7, SCALE, i)
                        ctx.close_point(xy(part.bulge_stop_point), image(c['stop']), name, 1e-7, SCALE, i)
                        ctx.close_point(xy(part.bulge_center), image(c['center']), m('bulge-center'), 1e-7, SCALE, i)
                        ctx.close_point(xy(arc.center), image(c['center']), m('bulge-center'), 1e-7, SCALE, i)
                        ctx.close(arc.radius, c['radius']*ratio, m('bulge-arc'), 1e-7)
                        sweep = (arc.domain.stop - arc.domain.start) % 360
                        ctx.close(sweep, 180 - c['theta'], m('bulge-arc'), 1e-5, 360, i)
                        ctx.close_point(xy(arc.point_at_angle(arc.domain.start + sweep/2)), image(c['middle']), m('bulge-arc'), 1e-6, SCALE, i)
                elif kind != 'M':
                    ctx.check(part.radius is None, m('bulge-arc'), lambda: (i, part.radius))
        if parts:
            box = path.bounding_box
            every = [image(p) for s in samples for p in s] + [image(c[k]) for c in corners.values() for k in ('start', 'stop', 'middle')]
            every += [p for k in parts if k[0] == 'A' for p in arc_extremes(k, image)]
            e = 1e-6*SCALE
            ctx.check(all(box.x.inf-e <= p[0] <= box.x.sup+e and box.y.inf-e <= p[1] <= box.y.sup+e for p in every), m('bounding-box'),
                      lambda: (repr(box), every))
            if all(k[0] not in 'QTCSA' for k in parts) and not corners:
                xs, ys = [p[0] for p in every], [p[1] for p in every]
                ctx.close_point((box.x.inf, box.y.inf), (min(xs), min(ys)), m('bounding-box'), 1e-8, SCALE)
                ctx.close_point((box.x.sup, box.y.sup), (max(xs), max(ys)), m('bounding-box'), 1e-8, SCALE)
        ctx.check(path[len(parts)] is None and path[-1] is None, m('navigation'))

    def good_corner(c):
        return 15 < c['theta'] < 165 and c['fit'] > 1.05

    def add(path, shadow, rng, rounded):
        """append a random part to both; None if not applicable"""
        parts = shadow.resolve()
        current = parts[-1][1][-1] if parts else shadow.p0
        linear_before = bool(parts) and parts[-1][0] in 'LHVZD'
        kind = rng.choice('LLLHVDDDQTCSA' if not rounded else 'LLHVDD')
        p = lambda: gen.grid(rng, 60)
        absolute = rng.random() < .5
        radius = None
        if linear_before and rounded and rng.random() < .6:
            radius = rng.choice([1, .5, rng.uniform(.1, 3)])
        elif rng.random() < .1:
            radius = 0 if linear_before else None
        r = {} if radius is None else dict(radius=radius)
        # relative by default
        mode = dict(absolute=absolute) if absolute or rng.random() < .5 else {}
        if kind == 'L':
            q = p()
            entry = ('L', absolute, [q], radius)
            call = lambda: path.line_to(V(q) if rng.random() < .5 else q, **mode, **r)
        elif kind in 'HV':
            x = float(rng.randint(-60, 60))
            name = 'horizontal' if kind == 'H' else 'vertical'
            how = rng.choice(['absolute', 'flag', 'relative'])
            if how == 'relative':
                d = (x, 0.) if kind == 'H' else (0., x)
                if x == 0:
                    return
                entry = ('L', False, [d], radius)
                call = lambda: getattr(path, name + '_to')(x, **r)
            else:
                if (current[0] if kind == 'H' else current[1]) == x:
                    return
                entry = (kind, True, x, radius)
                if how == 'absolute':
                    call = lambda: getattr(path, 'absolute_' + name + '_to')(x, **r)
                else:
                    call = lambda: getattr(path, name + '_to')(x, absolute=True, **r)
        elif kind == 'D':
            name = rng.choice(sorted(DIRECTIONS))
            l = rng.choice([10, 20, rng.uniform(5, 60)])
            a = math.radians(DIRECTIONS[name])
            entry = ('L', False, [(l*math.cos(a), l*math.sin(a))], radius)
            call = lambda: getattr(path, name + '_to')(l, **r)
        elif kind == 'Q':
            a, b = p(), p()
            entry = ('Q', absolute, [a, b], None)
            call = lambda: path.quadratic_to(a, b, **mode)
        elif kind == 'T':
            a = p()
            entry = ('T', absolute, [a], None)
            call = lambda: path.stringed_quadratic_to(a, **mode)
        elif kind == 'C':
            a, b, c = p(), p(), p()
            entry = ('C', absolute, [a, b, c], None)
            call = lambda: path.cubic_to(a, b, c, **mode)
        elif kind == 'S':
            a, b = p(), p()
            entry = ('S', absolute, [a, b], None)
            call = lambda: path.stringed_cubic_to(a, b, **mode)
        else:
            a = p()
            stop = a if absolute else (a[0]+current[0], a[1]+current[1])
            rx, ry = rng.choice([(rng.uniform(70, 150), rng.uniform(70, 150)), (5., 8.), (0, 4)])
            data = [a, rx, ry, rng.choice([0, 30, -75, 90]), rng.random() < .5, rng.random() < .5]
            if stop == current:
                return
            ac = svgref.arc_center(current, stop, *data[1:])
            if ac is not None and rx > 50 and abs(abs(ac[4])-180) < 5:
                return
            entry = ('A', absolute, data, None)
            call = lambda: path.arc_to(*data, **mode)
        trial = Shadow(shadow.p0)
        trial.parts = shadow.parts + [entry]
        resolved = trial.resolve()
        if resolved[-1][0] in 'LHV' and math.dist(*resolved[-1][1]) < 1:
            return
        if radius and not good_corner(trial.corner(resolved, len(resolved)-1)):
            entry = entry[:3] + (None,)
            trial.parts[-1] = entry
            r.clear()
        got = call()
        ctx.check(got is path[len(path)-1], 'navigation')
        shadow.parts.append(entry)
        if entry[1] is False and not entry[3] and not r and rng.random() < .15:
            # the same part again
            again = call()
            ctx.check(again is path[len(path)-1] and again is not got, 'navigation')
            shadow.parts.append(entry)

    def transformation(rng, similarity):
        T = AffineTransformation2D.Identity()
        word = []
        ratio = 1.
        for _ in range(rng.randint(1, 3)):
            k = rng.choice('rtsma' if similarity else 'rtsmax')
            if k == 'r':
                w = rng.choice([90, 30, rng.uniform(-180, 180)]); f = AffineTransformation2D.Rotation(w)
            elif k == 't':
                w = gen.grid(rng, 30); f = AffineTransformation2D.Translation(V(w))
            elif k == 's':
                w = rng.uniform(.4, 2); f = AffineTransformation2D.Scale(w, w); ratio *= w
            elif k == 'm':
                w = rng.uniform(.4, 2); f = AffineTransformation2D.Scale(w, -w); ratio *= w
            elif k == 'x':
                w = (rng.uniform(.4, 2), rng.uniform(.4, 2)); f = AffineTransformation2D.Scale(*w)
            else:
                w = (gen.grid(rng, 20), rng.uniform(-180, 180)); f = AffineTransformation2D.RotationAt(V(w[0]), w[1])
            word.append((k, w))
            T = f*T
        # shadow map from three points, affine by C02
        return word, T, ratio

    def build(rng, rounded):
        p0 = tuple(map(float, gen.grid(rng, 30)))
        path, shadow = Path2D(V(p0) if rng.random() < .5 else p0), Shadow(p0)
        for _ in range(rng.randint(1, 8)):
            add(path, shadow, rng, rounded)
        if rounded and len(shadow.parts) >= 2 and rng.random() < .6 and shadow.parts[0][0] in 'LHV' or rng.random() < .2 and len(shadow.parts) >= 2:
            close(path, shadow, rng, rounded)
        return path, shadow

    def close(path, shadow, rng, rounded):
        parts = shadow.resolve()
        if math.dist(parts[-1][1][-1], shadow.p0) < 1:
            return
        trial = Shadow(shadow.p0)
        r = cr = None
        linear = parts[-1][0] in 'LHV'
        if rounded and linear and rng.random() < .7:
            r = rng.uniform(.1, 2)
        if rounded and parts[0][0] in 'LHV' and rng.random() < .7:
            cr = rng.uniform(.1, 2)
        trial.parts = list(shadow.parts) + [('Z', True, shadow.p0, r)]
        trial.closed = True
        if cr is not None:
            trial.parts[0] = trial.parts[0][:3] + (cr,)
        resolved = trial.resolve()
        if r and not good_corner(trial.corner(resolved, len(resolved)-1)):
            r = None
        if cr and not good_corner(trial.corner(resolved, 0)):
            cr = None
        trial.parts[-1] = ('Z', True, shadow.p0, r)
        trial.parts[0] = trial.parts[0][:3] + (cr,)
        kw = {}
        if r:
            kw['radius'] = r
        if cr:
            kw['close_radius'] = cr
        path.close(**kw)
        shadow.parts = trial.parts
        shadow.closed = True

    def history(rng, rounded=False):
        path, shadow = build(rng, rounded)
        if not shadow.parts:
            return
        ctx.note(p0=shadow.p0, parts=shadow.parts, closed=shadow.closed, trivial=len(shadow.parts) < 2)
        observe(path, shadow)
        if shadow.closed:
            ctx.check(path.line_to((1, 2)) is None and len(path) == len(shadow.parts), 'closed')
        clone = path.clone()
        observe(clone, shadow, 'clone')
        # the corners need a similarity
        similarity = any(p[3] for p in shadow.parts)
        word, T, ratio = transformation(rng, similarity)
        image = lambda p: xy(T*V(p))
        which, other = (path, clone) if rng.random() < .5 else (clone, path)
        ctx.note(word=word)
        # first queries before or after
        if rng.random() < .5:
            which.bounding_box
        which.apply_transformation(T)
        observe(which, shadow, 'transform', image, ratio)
        observe(other, shadow, 'clone-independent')
        again = which.clone()
        observe(again, shadow, 'clone', image, ratio)
        # move the start of the other one: relative parts follow
        if not shadow.closed:
            old = shadow.p0
            moved = Shadow((float(rng.randint(-30, 30)), float(rng.randint(-30, 30))))
            moved.parts = shadow.parts
            mp = moved.resolve()
            if all(k[0] in 'QTCSA' or math.dist(*k[1]) > .5 for k in mp) and \
               all(good_corner(moved.corner(mp, i)) for i in range(len(mp)) if mp[i][3]) and \
               not any(k[0] == 'A' for k in mp):
                other.move_to(moved.p0)
                observe(other, moved, 'move')
                observe(which, shadow, 'clone-independent', image, ratio)
                # then go on with the construction
                n = len(moved.parts)
                moved.parts = list(moved.parts)
                for _ in range(2):
                    add(other, moved, rng, rounded)
                observe(other, moved, 'move')

    def rounded_history(rng):
        history(rng, True)

    def smooth(rng):
        """to_absolute keeps the shape"""
        path, shadow = build(rng, False)
        ctx.note(p0=shadow.p0, parts=shadow.parts, closed=shadow.closed)
        for part in path:
            if hasattr(part, 'to_absolute') and rng.random() < .7:
                part.to_absolute()
                if part.index == len(path) - 1 or rng.random() < .3:
                    ctx.seen('to-absolute')
        observe(path, shadow, 'to-absolute')

    def reject(rng):
        path = Path2D((0, 0))
        ctx.note(kind='reject', r=rng.random())
        k = rng.choice(['first', 'bezier'])
        if k == 'bezier':
            path.quadratic_to((1, 1), (2, 0))
        f = rng.choice([lambda: path.line_to((5, 5), radius=1), lambda: path.north_to(5, radius=1), lambda: path.absolute_horizontal_to(9, radius=2)])
        ctx.raises(ValueError, f, 'reject')
        ctx.equal(len(path), 1 if k == 'bezier' else 0, 'reject')
        # a closure is done or not
        path = Path2D((0, 0))
        n = rng.randint(1, 3)
        first = rng.choice(['bezier', 'cubic', 'arc', 'line'])
        if first == 'bezier':
            path.quadratic_to((1, 1), (2, 0))
        elif first == 'cubic':
            path.cubic_to((1, 1), (2, 1), (2, 0))
        elif first == 'arc':
            path.arc_to((2, 0), 3, 3, 0, False, True)
        else:
            path.line_to((2, 0))
        for i in range(n):
            path.line_to((2 + i, 3))
        if first != 'line':
            ctx.raises(ValueError, lambda: path.close(close_radius=.1), 'reject')
            ctx.equal((len(path), path.is_closed), (n + 1, False), 'reject')
            path.close(radius=rng.choice([None, .1]))
        else:
            path.close(radius=rng.choice([None, .1]), close_radius=rng.choice([None, .1]))
        ctx.equal((len(path), path.is_closed), (n + 2, True), 'reject')
        state = lambda: [(xy(a), xy(b), part.has_bulge) for part in path if hasattr(part, 'has_bulge') for a, b in [part.points]]
        before = state()
        if first == 'line' or rng.random() < .5:
            path.close(close_radius=rng.choice([.1, .2]) if first == 'line' else None)
        ctx.check(path.line_to((9, 9)) is None and path.cubic_to((9, 9), (9, 8), (7, 7)) is None, 'reject')
        ctx.equal((len(path), path.is_closed, state()), (n + 2, True, before), 'reject')

    def sheared(rng):
        """a path with round corners cannot be sheared, it is rejected as a whole"""
        path, shadow = build(rng, True)
        if not any(isinstance(part, LinearSegment) and part.has_bulge for part in path):
            return
        ctx.note(p0=shadow.p0, parts=shadow.parts, closed=shadow.closed)
        observe(path, shadow)
        k = rng.uniform(.3, 3)
        kinds = [type(part) for part in path]
        try:
            path.apply_transformation(AffineTransformation2D.RotationAt(V(1, 5), rng.uniform(0, 360)) * AffineTransformation2D.Scale(k, k*rng.choice([.5, 2, -3])))
        except ValueError:
            observe(path, shadow, 'sheared')
            ctx.equal([type(part) for part in path], kinds, 'sheared')

    def straight(rng):
        """a radius has no effect on a straight corner"""
        n = rng.randint(3, 6)
        a0 = rng.uniform(0, 360)
        closed = rng.random() < .6
        P = [(rng.randint(20, 60)*math.cos(math.radians(a0+360*i/n)), rng.randint(20, 60)*math.sin(math.radians(a0+360*i/n))) for i in range(n)]
        P = [(round(x), round(y)) for x, y in P]
        # the cut edges, the first vertex of a closed path can be in an edge
        edges = [(P[i], P[(i+1) % n]) for i in range(n if closed else n-1)]
        points, cuts = [], []
        for i, (a, b) in enumerate(edges):
            points.append(a); cuts.append(False)
            for t in sorted(rng.sample([.25, .5, .75], rng.choice([0, 1, 1, 2]))):
                points.append((a[0]+t*(b[0]-a[0]), a[1]+t*(b[1]-a[1]))); cuts.append(True)
        if not closed:
            points.append(P[-1]); cuts.append(False)
        if not any(cuts):
            return
        if closed:
            k = rng.randrange(len(points))
            points, cuts = points[k:] + points[:k], cuts[k:] + cuts[:k]
        ctx.note(points=points, cuts=cuts, closed=closed)
        radii = [rng.choice([.5, 1, 3]) if c else None for c in cuts]
        # the radius of a part is the one of its first corner
        path = Path2D(points[0])
        for i in range(1, len(points)):
            r = radii[i-1] if i > 1 else None
            kw = {} if r is None else dict(radius=r)
            if rng.random() < .5:
                path.line_to(points[i], absolute=True, **kw)
            else:
                path.line_to((points[i][0]-points[i-1][0], points[i][1]-points[i-1][1]), **kw)
        if closed:
            kw = {}
            if radii[-1] is not None and len(points) > 2:
                kw['radius'] = radii[-1]
            if radii[0] is not None:
                kw['close_radius'] = radii[0]
            path.close(**kw)
        chain = points + [points[0]] if closed else points
        for which in (path, path.clone()):
            for i, part in enumerate(which):
                a, b = part.points
                ctx.close_point(xy(a), chain[i], 'straight-corner', 1e-9, 100, (i, 'start'))
                ctx.close_point(xy(b), chain[i+1], 'straight-corner', 1e-9, 100, (i, 'stop'))
                g = part.geometry
                ctx.close(g.length, math.dist(chain[i], chain[i+1]), 'straight-corner', 1e-9, 100)
            box = which.bounding_box
            ctx.check(all(abs(v - w) < 1e-9 for v, w in zip(box.bounding_box, (min(q[0] for q in chain), min(q[1] for q in chain), max(q[0] for q in chain), max(q[1] for q in chain)))),
                      'straight-corner', lambda: 'box %s' % box)
        style = GraphicPathStyle()
        scene = GraphicScene()
        items = scene.add_path(path, style)
        ctx.equal([tuple(xy(scene.cast_position(p)) if not hasattr(p, 'x') else xy(p) for p in item.positions) for item in items],
                  [(tuple(map(float, xy(a))), tuple(map(float, xy(b)))) for a, b in ((q.points) for q in path)], 'straight-corner', 'scene')
        item = scene.add_path(path, style, as_segments=False)
        ctx.check(all(math.isfinite(c) for s in item for q in s.positions for c in xy(q)), 'straight-corner', 'path item')
        commands = PathDataAttribute.from_geometry(path)
        ctx.check(all(c in 'MLZ' and all(math.isfinite(v) for v in values) for c, values in commands), 'straight-corner', lambda: 'svg %s' % commands)

    def shallow(rng):
        """nearly straight and very sharp corners are rounded as others"""
        turn = math.radians(rng.choice([rng.uniform(.05, 2), rng.uniform(2, 20), rng.uniform(160, 178), rng.uniform(178, 179.9), rng.uniform(20, 160)])*rng.choice([-1, 1]))
        a = rng.uniform(0, 2*math.pi)
        P = gen.fpoint(rng)
        la, lb = rng.uniform(5, 60), rng.uniform(5, 60)
        u, v = (math.cos(a), math.sin(a)), (math.cos(a+turn), math.sin(a+turn))
        A, B = (P[0]-la*u[0], P[1]-la*u[1]), (P[0]+lb*v[0], P[1]+lb*v[1])
        d = rng.uniform(.05, .9)*min(la, lb)
        r = d/math.tan(abs(turn)/2)
        h = r/math.cos(turn/2)
        ctx.note(A=A, P=P, B=B, r=r, turn=math.degrees(turn))
        n = (-u[1]-v[1], u[0]+v[0])
        ln = math.hypot(*n)
        s = math.copysign(1, turn)
        # the bissector of a sharp corner is known by the edges
        b = (s*n[0]/ln, s*n[1]/ln) if abs(turn) < 2 else tuple((y-x)/math.hypot(v[0]-u[0], v[1]-u[1]) for x, y in zip(u, v))
        center = (P[0]+h*b[0], P[1]+h*b[1])
        path = Path2D(A)
        k = rng.random()
        if k < .5:
            path.line_to(P, absolute=True)
            path.line_to(B, absolute=True, radius=r)
            part, last = path[1], path[0]
        else:
            # the corner of the closure
            path = Path2D(P)
            path.line_to(B, absolute=True)
            path.line_to(A, absolute=True)
            path.close(close_radius=r)
            part, last = path[0], path[2]
        tol = 1e-6
        size = max(1, r, 100)
        if ctx.check(part.has_bulge, 'shallow', lambda: 'a corner of %g degrees' % math.degrees(turn)):
            start, stop = part.bulge_start_point, part.bulge_stop_point
            ctx.close_point(xy(start), (P[0]-d*u[0], P[1]-d*u[1]), 'shallow', tol, 100, 'start')
            ctx.close_point(xy(stop), (P[0]+d*v[0], P[1]+d*v[1]), 'shallow', tol, 100, 'stop')
            ctx.close_point(xy(part.bulge_center), center, 'shallow', tol, size, 'centre')
            arc = part.bulge_geometry
            ctx.close(arc.radius, r, 'shallow', 1e-9, size)
            ctx.close(arc.perimeter, abs(turn)*r, 'shallow', tol, size, 'length')
            ctx.close_point(xy(part.geometry.p0), xy(stop), 'shallow', tol, 100)
            ctx.close_point(xy(last.geometry.p1), xy(start), 'shallow', tol, 100)
            ctx.seen('shallow', 1)

    def rectangle(rng):
        p0 = tuple(map(float, gen.grid(rng, 30)))
        w, h = rng.choice([-1, 1])*rng.uniform(5, 50), rng.choice([-1, 1])*rng.uniform(5, 50)
        r = rng.choice([None, rng.uniform(.1, 2.4)])
        ctx.note(p0=p0, w=w, h=h, r=r)
        shadow = Shadow(p0)
        shadow.parts = [('L', False, [(w, 0.)], r), ('L', False, [(0., h)], r), ('L', False, [(-w, 0.)], r), ('Z', True, p0, r)]
        shadow.closed = True
        path = Path2D.rounded_rectangle(p0, w, h, r) if r else Path2D.rounded_rectangle(p0, w, h)
        observe(path, shadow, 'rounded-rectangle')
        if rng.random() < .3:
            # a circle is a square with round corners
            R = rng.uniform(.1, 30)
            c = Path2D.circle(p0, R)
            at = (p0[0] + R, p0[1] + R)
            ctx.check(c.is_closed and len(c) == 4, 'rounded-rectangle')
            for part in c:
                a, b = part.points
                ctx.close_point(xy(a), xy(b), 'rounded-rectangle', 1e-9, 100, 'circle')
                arc = part.bulge_geometry
                ctx.close_point(xy(arc.center), at, 'rounded-rectangle', 1e-9, 100, 'circle')
                ctx.close(arc.radius, R, 'rounded-rectangle', 1e-9, 100)
                ctx.close(arc.perimeter, math.pi/2*R, 'rounded-rectangle', 1e-9, 100)
            box = c.bounding_box
            ctx.check(all(abs(v - u) < 1e-9*100 for v, u in zip(box.bounding_box, (p0[0], p0[1], p0[0] + 2*R, p0[1] + 2*R))), 'rounded-rectangle', lambda: 'box %s' % box)
        d = path.clone()
        observe(d, shadow, 'clone')
        word, T, ratio = transformation(rng, True)
        d.apply_transformation(T)
        observe(d, shadow, 'transform', lambda p: xy(T*V(p)), ratio)
        observe(path, shadow, 'clone-independent')

    def arrow(rng):
        p = gen.fpoint(rng)
        d = gen.nonzero(rng, gen.fpoint)
        length, width = rng.uniform(1, 20), rng.uniform(1, 20)
        offset = rng.choice([0, 0, rng.uniform(.1, .5)*length, -rng.uniform(.1, .5)*length])
        left, right = rng.choice([(True, True), (True, False), (False, True), (False, False)])
        ctx.note(p=p, d=d, length=length, width=width, offset=offset, left=left, right=right)
        D = V(d)
        if not left and not right:
            ctx.raises(ValueError, lambda: TriangularHead(V(p), D, length, width, offset, left, right), 'reject')
            ctx.raises(ValueError, lambda: TriangularCurvyHead(V(p), D, length, width, .1, offset, left, right), 'reject')
            return
        # both sides and no offset unless told otherwise
        sides = dict(axial_offset=offset, left_side=left, right_side=right)
        for name, default in dict(axial_offset=0, left_side=True, right_side=True).items():
            if sides[name] == default and rng.random() < .5:
                del sides[name]
        h = TriangularHead(V(p), D, length, width, **sides)
        ctx.equal((D.x, D.y), d, 'arrow')
        n = math.hypot(*d)
        u = (d[0]/n, d[1]/n)
        at = lambda a, b: (p[0] + a*u[0] - b*u[1], p[1] + a*u[1] + b*u[0])
        e = [at(0, 0)]
        L, R, B, O = at(-length, width), at(-length, -width), at(-length, 0), at(-length-offset, 0)
        if left and right:
            e += [L, O, R] if offset else [L, R]
        elif left:
            e += [L, O]
        else:
            e += [R, O]
        points = list(h.points)
        if ctx.equal(len(points), len(e), 'arrow'):
            for a, b in zip(points, e):
                ctx.close_point(xy(a), b, 'arrow', 1e-9, 200)
        ctx.close_point(xy(h.tip_point), p, 'arrow', 1e-9, 200)
        ctx.close_point(xy(h.back_tip_point), B, 'arrow', 1e-9, 200)
        if left:
            ctx.close_point(xy(h.left_point), L, 'arrow', 1e-9, 200)
        else:
            ctx.check(h.left_point is None, 'arrow')
        if right:
            ctx.close_point(xy(h.right_point), R, 'arrow', 1e-9, 200)
        ctx.equal((h.both_side, h.only_left, h.only_right), (left and right, left and not right, right and not left), 'arrow')
        ctx.close(h.angle, 2*math.degrees(math.atan2(width, length)), 'arrow', 1e-9, 1)
        # curvy head: the sides are mirrored by the axis, the depth is measured on the bisector of the side
        depth = rng.choice([0, .25, rng.uniform(-.5, .5)])
        h = TriangularCurvyHead(V(p), D, length, width, depth, **sides)
        ctx.equal((D.x, D.y), d, 'curvy-arrow')
        frame = lambda q: ((q.x-p[0])*u[0] + (q.y-p[1])*u[1], (q.y-p[1])*u[0] - (q.x-p[0])*u[1])
        side = math.hypot(length, width)
        controls = {}
        for name, there, s in (('left', left, 1), ('right', right, -1)):
            q = getattr(h, name + '_curved_point')
            if not there:
                ctx.check(q is None, 'curvy-arrow', name)
                continue
            a, b = frame(q)
            # component along the side from its middle, and outward
            a, b = a + length/2, b*s - width/2
            ctx.close((-a*length + b*width)/side, 0, 'curvy-arrow', 1e-8, 100, name)
            ctx.close((a*width + b*length)/side, depth*side, 'curvy-arrow', 1e-8, 100, name)
            controls[name] = xy(q)
        e = []
        first = 'left' if left else 'right'
        e.append([at(0, 0), controls[first], L if left else R])
        if left and right:
            stops = [O, R] if offset else [R]
        else:
            stops = [O if offset else B]
        for q in stops:
            e.append([e[-1][-1], q])
        if left and right:
            e.append([R, controls['right'], at(0, 0)])
        ctx.check(h.is_closed, 'curvy-arrow')
        parts = [part for part in h if math.dist(xy(part.start_point), xy(part.stop_point)) > 1e-9]
        if not (left and right):
            e.append([e[-1][-1], at(0, 0)])
        if ctx.equal(len(parts), len(e), 'curvy-arrow'):
            for part, points in zip(parts, e):
                g = list(part.geometry.points)
                ctx.equal(len(g), len(points), 'curvy-arrow')
                for a, b in zip(g, points):
                    ctx.close_point(xy(a), b, 'curvy-arrow', 1e-8, 200)
        box = h.bounding_box
        tips = [q for k in e for q in (k[0], k[-1])]
        ctx.check(all(box.x.inf-1e-6 <= q[0] <= box.x.sup+1e-6 and box.y.inf-1e-6 <= q[1] <= box.y.sup+1e-6 for q in tips), 'curvy-arrow', 'box')

    def again(rng):
        # what was read before has no influence: two identical paths, one of which is observed before each modification
        seed = rng.getrandbits(32)
        rounded = rng.random() < .3
        (a, sa), (b, sb) = [build(random.Random(seed), rounded) for _ in range(2)]
        if not sa.parts:
            return
        log = []
        ctx.note(p0=sa.p0, parts=sa.parts, closed=sa.closed, log=log)

        def look(path):
            r = {}
            for name in ('p0', 'bounding_box', 'is_closed', 'start_segment', 'stop_segment', 'number_of_points'):
                if hasattr(type(path), name):
                    try:
                        r[name] = battery.normal(getattr(path, name))
                    except Exception as e:
                        r[name] = type(e).__name__
            for i, part in enumerate(path):
                for k, v in battery.observe(part, [], []).items():
                    r[i, k] = v
                if hasattr(part, 'to_path_segment'):
                    try:
                        s = part.to_path_segment()
                        r[i, 'segment'] = [battery.normal(s.stop_point), float(s.index)]
                    except Exception as e:
                        r[i, 'segment'] = type(e).__name__
            return r
        for _ in range(rng.randint(1, 3)):
            look(a)
            op = rng.choice(['transform', 'transform', 'move', 'add', 'radius', 'absolute', 'point'])
            i = rng.randrange(len(a))
            if op == 'transform':
                T = transformation(rng, any(p[3] for p in sa.parts))[1]
                f = lambda path: path.apply_transformation(T)
            elif op == 'move':
                p = gen.grid(rng, 30)
                f = lambda path: path.move_to(V(p))
            elif op == 'add':
                p, absolute = gen.grid(rng, 30), rng.random() < .5
                f = lambda path: path.line_to(V(p), absolute=absolute)
            elif op == 'radius':
                if not isinstance(a[i], LinearSegment) or a[i].radius is None:
                    continue
                k = rng.uniform(.3, .9)

                def f(path):
                    path[i].radius = path[i].radius*k
            elif op == 'absolute':
                if not hasattr(a[i], 'to_absolute'):
                    continue
                f = lambda path: path[i].to_absolute()
            else:
                name = rng.choice(['point', 'point1', 'point2', 'point3'])
                if not isinstance(getattr(type(a[i]), name, None), property) or getattr(type(a[i]), name).fset is None:
                    continue
                p = gen.fpoint(rng, 30)

                def f(path):
                    setattr(path[i], name, V(p))
            log.append((op, i))
            results = []
            for path in (a, b):
                try:
                    f(path)
                    results.append(None)
                except Exception as e:
                    results.append(type(e).__name__)
            ctx.check(results[0] == results[1], 'again', lambda: (log, results))
        d = battery.differences(look(a), look(b))
        ctx.check(not d, 'again', lambda: (log, d[:3]))

    ctx.cases('again', again, 300, 8000)
    ctx.cases('history', history, 700, 20000)
    ctx.cases('rounded', rounded_history, 700, 20000)
    ctx.cases('absolute', smooth, 250, 5000)
    ctx.cases('reject', reject, 60, 200)
    ctx.cases('sheared', sheared, 150, 3000)
    ctx.cases('straight', straight, 150, 4000)
    ctx.cases('shallow', shallow, 300, 10000)
    ctx.cases('rectangle', rectangle, 250, 6000)
    ctx.cases('arrow', arrow, 300, 6000)
