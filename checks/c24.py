"""C24 -- graphic scene"""
import math
import numpy as np
import bezref
import gen
import svgref

PID = 'C24'
RULE = ('histories of a scene: coordinates, items of every kind, geometries, paths, Bezier chains, z values, visibility, selection, removals, '
        'moves and queries, compared with a shadow scene; non-trivial: at least three items')
ASSUMPTIONS = ['the index is refreshed with update_rtree before a query, as the Qt scene does; an item whose named coordinate moves is marked dirty',
               'circles, ellipses and arcs are under a translation', 'rtree index trusted through its results']
MONITORS = ['order', 'z-order', 'selection', 'user-data', 'cast', 'geometry', 'bounding-box', 'item-at', 'item-at-miss', 'item-at-distance', 'item-at-order',
            'removed', 'chain', 'path-cover', 'path-item', 'added', 'reject', 'moved', 'attributes']


def run(ctx):
    from Patro.GeometryEngine.Vector import Vector2D as V
    from Patro.GeometryEngine import Bezier, Conic, Line, Path, Polygon, Polyline, Rectangle, Segment, Spline, Triangle
    from Patro.GeometryEngine.Mixin import AngularDomain
    from Patro.GeometryEngine.Transformation import AffineTransformation2D as T
    from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
    from Patro.GraphicEngine.GraphicScene import GraphicItem as GI
    from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle, Font
    xy = lambda p: (float(p[0]), float(p[1]))

    # shadow geometry ################################################################################

    def segment_distance(a, b, p):
        d = (b[0]-a[0], b[1]-a[1])
        n = d[0]**2 + d[1]**2
        t = 0 if n == 0 else max(0, min(1, ((p[0]-a[0])*d[0] + (p[1]-a[1])*d[1])/n))
        return math.dist((a[0]+t*d[0], a[1]+t*d[1]), p)

    class Shadow:
        """kind, defining points (scene coordinates or names), extra"""

        def __init__(self, kind, points, extra=None):
            self.kind, self.points, self.extra = kind, points, extra or {}
            self.z, self.visible, self.selected, self.user_data, self.item = 0, True, False, None, None

        def samples(self, cast, n=33):
            P = [cast(p) for p in self.points]
            e = self.extra
            if self.kind == 'path':
                out = []
                current = P[0]
                for part in e['parts']:
                    Q = [current] + [cast(p) for p in part]
                    out += [svgref.casteljau(Q, i/16) for i in range(17)]
                    current = Q[-1]
                if e['closed']:
                    out += [svgref.lerp(current, P[0], i/16) for i in range(17)]
                return out or P
            if self.kind == 'text':
                return P
            if self.kind in ('segment', 'quadratic_bezier', 'cubic_bezier'):
                return [svgref.casteljau(P, i/(n-1)) for i in range(n)]
            if self.kind == 'polyline':
                return [svgref.lerp(a, b, i/8) for a, b in zip(P, P[1:]) for i in range(9)]
            if self.kind == 'polygon':
                return [svgref.lerp(a, b, i/8) for a, b in zip(P, P[1:]+P[:1]) for i in range(9)]
            if self.kind in ('rectangle', 'image'):
                a, c = P
                Q = [a, (c[0], a[1]), c, (a[0], c[1])]
                return [svgref.lerp(a, b, i/8) for a, b in zip(Q, Q[1:]+Q[:1]) for i in range(9)]
            start, stop = e['domain']
            return [svgref.arc_point(P[0], e['rx'], e['ry'], e['angle'], start + (stop-start)*i/(n-1)) for i in range(n)]

        def distance(self, cast, p):
            P = [cast(q) for q in self.points]
            if self.kind == 'segment':
                return segment_distance(*P, p)
            if self.kind == 'polyline':
                return min(segment_distance(a, b, p) for a, b in zip(P, P[1:]))
            if self.kind in ('quadratic_bezier', 'cubic_bezier'):
                return bezref.min_distance(P, p)
            if self.kind == 'circle':
                c, r = P[0], self.extra['rx']
                start, stop = self.extra['domain']
                a = math.degrees(math.atan2(p[1]-c[1], p[0]-c[0]))
                if stop - start >= 360 or (a-start) % 360 <= (stop-start) % 360:
                    return abs(math.dist(c, p) - r)
                return min(math.dist(p, svgref.arc_point(c, r, r, 0, t)) for t in (start, stop))
            if self.kind == 'ellipse' and self.extra['domain'][1] - self.extra['domain'][0] >= 360:
                e = self.extra
                t = np.linspace(0, 2*math.pi, 4001)
                f = lambda t: np.hypot(*self._ellipse(P[0], e, t, p))
                d = f(t)
                best = d.min()
                for k in np.flatnonzero((d <= np.roll(d, 1)) & (d <= np.roll(d, -1))):
                    for _ in range(3):
                        u = np.linspace(t[k]-2e-3, t[k]+2e-3, 2001)
                        best = min(best, f(u).min())
                return float(best)
            return None

        @staticmethod
        def _ellipse(c, e, t, p):
            a = math.radians(e['angle'])
            x, y = e['rx']*np.cos(t), e['ry']*np.sin(t)
            return c[0] + x*math.cos(a) - y*math.sin(a) - p[0], c[1] + x*math.sin(a) + y*math.cos(a) - p[1]

    def sample_geometry(kind, g, n=33):
        """points of a geometry object, or None"""
        if kind == 'path':
            return None
        if kind in ('segment', 'quadratic_bezier', 'cubic_bezier'):
            return [svgref.casteljau([xy(p) for p in g.points], i/(n-1)) for i in range(n)]
        if kind in ('polyline', 'polygon'):
            P = [xy(p) for p in g.points]
            return [svgref.lerp(a, b, i/8) for a, b in zip(P, P[1:] + (P[:1] if kind == 'polygon' else [])) for i in range(9)]
        if kind in ('rectangle', 'image', 'text'):
            return [xy(p) for p in g.points]
        return None

    SCALE = 200.

    # scenes ########################################################################################

    def new_scene(rng):
        k = rng.random()
        if k < .4:
            return GraphicScene(), (lambda p: p), True
        if k < .7:
            v = gen.fpoint(rng, 30.)
            return GraphicScene(T.Translation(V(*v))), (lambda p: (p[0]+v[0], p[1]+v[1])), True
        a, b, v = rng.uniform(-180, 180), (rng.uniform(.5, 2), rng.uniform(.5, 2)), gen.fpoint(rng, 30.)
        t = T.Translation(V(*v)) * T.Rotation(a) * T.Scale(*b)
        ca, sa = math.cos(math.radians(a)), math.sin(math.radians(a))

        def cast(p):
            x, y = p[0]*b[0], p[1]*b[1]
            return (x*ca - y*sa + v[0], x*sa + y*ca + v[1])
        return GraphicScene(t), cast, False

    KINDS = dict(segment=2, quadratic_bezier=3, cubic_bezier=4, rectangle=2, image=2, polyline=None, polygon=None, circle=1, ellipse=1, text=1, path=1)

    def random_domain(rng):
        start = rng.uniform(0, 359)
        k = rng.random()
        if k < .1:
            # almost, exactly and more than one turn
            return (start, start + rng.choice([359.5, 360 - 1e-3])) if k < .05 else rng.choice([(-180, 180), (90, 450), (0, 400)])
        return (start, start + rng.uniform(1, 350)) if k < .55 else (0, 360)

    def history(rng):
        scene, transform, translation = new_scene(rng)
        coordinates = {}
        items = []
        tags = [object() for _ in range(3)] + ['a tag', V(1, 2)] + rng.sample([[], 0, '', False, {}], 2)
        style = GraphicPathStyle()

        def cast(p):
            return transform(coordinates[p] if isinstance(p, str) else p)

        def position(rng):
            if coordinates and rng.random() < .4:
                return rng.choice(sorted(coordinates))
            return gen.fpoint(rng, 50.)

        live = lambda p: p if isinstance(p, str) else V(*p)

        def add():
            kind = rng.choice(list(KINDS))
            if kind in ('circle', 'ellipse') and not translation:
                kind = 'segment'
            n = KINDS[kind] or rng.randint(3, 7)
            points = [position(rng) for _ in range(n)]
            s = Shadow(kind, points)
            tag = rng.choice(tags + [None])
            method = getattr(scene, kind, None)
            if kind in ('polyline', 'polygon'):
                given = [live(p) for p in points]
                item = method(given, style, tag)
                # the list belongs to the caller
                given.reverse()
                given.append(V(1e3, 1e3))
            elif kind == 'circle':
                r, d = rng.uniform(1, 40), random_domain(rng)
                s.extra = dict(rx=r, ry=r, angle=0, domain=d)
                item = method(live(points[0]), r, style, tag, *((d[0], d[1]) if d != (0, 360) or rng.random() < .5 else ()))
            elif kind == 'ellipse':
                rx, ry, a, d = rng.uniform(1, 40), rng.uniform(1, 40), rng.uniform(-180, 180), random_domain(rng)
                s.extra = dict(rx=rx, ry=ry, angle=a, domain=d)
                kw = dict(start_angle=d[0], stop_angle=d[1]) if d != (0, 360) or rng.random() < .5 else {}
                item = method(live(points[0]), rx, ry, a, style, user_data=tag, **kw)
            elif kind == 'text':
                item = method(live(points[0]), 'abc', Font('sans', 12), tag)
                ctx.check(item.text == 'abc' and item.font.point_size == 12, 'attributes')
            elif kind == 'image':
                image = object()
                item = method(*[live(p) for p in points], image, tag)
                ctx.check(item.image is image, 'attributes')
            elif kind == 'path':
                item = scene.add_item(GI.PathItem, live(points[0]), style, tag)
                parts = []
                for _ in range(rng.randint(0, 5)):
                    m = rng.choice([1, 2, 3])
                    part = [position(rng) for _ in range(m)]
                    {1: item.line_to, 2: item.quadratic_to, 3: item.cubic_to}[m](*[live(p) for p in part])
                    parts.append(part)
                    if rng.random() < .2:
                        item.bounding_box # cached value
                s.extra = dict(parts=parts, closed=False)
                if parts and rng.random() < .4:
                    item.close()
                    s.extra['closed'] = True
                ctx.check(len(item) == len(parts) and item.is_closed == s.extra['closed'] and
                          [len(x.positions) for x in item] == [len(p) for p in parts], 'attributes')
            else:
                item = method(*[live(p) for p in points], style, tag)
            s.item, s.user_data = item, tag
            ctx.check(item.scene is scene and item.user_data is tag and item.visible and not item.selected and item.z_value == 0, 'added')
            if kind in ('circle', 'ellipse'):
                d = s.extra['domain']
                ctx.check(item.start_angle == d[0] and item.stop_angle == d[1] and item.is_closed == (d[1] - d[0] >= 360), 'attributes')
            if kind not in ('text', 'image'):
                ctx.check(item.path_style is style, 'attributes')
            items.append(s)

        def all_names(s):
            return set(p for p in s.points + [q for part in s.extra.get('parts', []) for q in part] if isinstance(p, str))

        def observe_item(s):
            got = s.item.casted_positions
            for g, p in zip(list(got), s.points):
                ctx.close_point(xy(g), cast(p), 'cast', 1e-9, SCALE, s.kind)
            ctx.check(len(got) == len(s.points), 'cast', lambda: '%s positions' % len(got))
            g = s.item.geometry
            samples = s.samples(cast)
            if s.kind in ('circle', 'ellipse'):
                ctx.close_point(xy(g.center), cast(s.points[0]), 'geometry', 1e-9, SCALE, s.kind)
                d = s.extra['domain']
                if d != (0, 360):
                    for a, w in ((d[0], samples[0]), (d[1], samples[-1]), ((d[0]+d[1])/2, samples[16])):
                        ctx.close_point(xy(g.point_at_angle(a)), w, 'geometry', 1e-9, SCALE, s.kind)
                    dom = g.domain
                    ctx.check(dom is not None and abs(dom.start-d[0]) < 1e-9 and abs(dom.stop-d[1]) < 1e-9, 'geometry', lambda: 'domain %s' % dom)
                else:
                    ctx.close_point(xy(g.point_at_angle(33.)), svgref.arc_point(cast(s.points[0]), s.extra['rx'], s.extra['ry'], s.extra['angle'], 33.),
                                    'geometry', 1e-9, SCALE, s.kind)
            elif s.kind == 'path':
                ps = []
                for part in g:
                    Q = [xy(p) for p in part.geometry.points]
                    ps += [svgref.casteljau(Q, i/16) for i in range(17)]
                ps = ps or [xy(g.p0)]
                if ctx.check(len(ps) == len(samples), 'geometry', lambda: 'path has %d parts' % len(g)):
                    for a, b in zip(ps, samples):
                        ctx.close_point(a, b, 'geometry', 1e-9, SCALE, 'path')
            elif s.kind in ('rectangle', 'image'):
                P = [cast(p) for p in s.points]
                for a, b in zip(g.points, P):
                    ctx.close_point(xy(a), b, 'geometry', 1e-9, SCALE, s.kind)
            else:
                ps = sample_geometry(s.kind, g)
                n = len(samples) if s.kind != 'text' else 1
                if ctx.check(s.kind == 'text' or len(ps) == n, 'geometry', lambda: '%s sampled at %d' % (s.kind, len(ps))):
                    for a, b in zip(ps, samples):
                        ctx.close_point(a, b, 'geometry', 1e-9, SCALE, s.kind)
            if s.kind == 'quadratic_bezier':
                c = [xy(p) for p in s.item.cubic_positions]
                P = [cast(p) for p in s.points]
                for t in (0, .3, .7, 1):
                    ctx.close_point(svgref.casteljau(c, t), svgref.casteljau(P, t), 'geometry', 1e-9, SCALE, 'cubic positions')
            b = s.item.bounding_box
            eps = 1e-7*SCALE
            ctx.check(all(b.x.inf-eps <= p[0] <= b.x.sup+eps and b.y.inf-eps <= p[1] <= b.y.sup+eps for p in samples), 'bounding-box',
                      lambda: '%s: %s does not contain %s' % (s.kind, b, samples))
            # not larger than the control points or the radii allow
            P = [cast(p) for p in s.points + [q for part in s.extra.get('parts', []) for q in part]]
            r = max(s.extra.get('rx', 0), s.extra.get('ry', 0))
            ctx.check(b.x.inf >= min(p[0] for p in P)-r-eps and b.x.sup <= max(p[0] for p in P)+r+eps and
                      b.y.inf >= min(p[1] for p in P)-r-eps and b.y.sup <= max(p[1] for p in P)+r+eps, 'bounding-box',
                      lambda: '%s: %s is larger than %s' % (s.kind, b, P))

        def observe_scene():
            ctx.check(len(scene) == len(items) and scene.number_of_items == len(items) and
                      all(a is b.item for a, b in zip(scene, items)), 'order', lambda: '%d items for %d' % (len(scene), len(items)))
            z = list(scene.z_value_iter())
            want = sorted([s for s in items if s.visible], key=lambda s: s.z)
            ctx.check(len(z) == len(want) and all(a is b.item for a, b in zip(z, want)), 'z-order',
                      lambda: 'got %s want %s' % ([i.z_value for i in z], [s.z for s in want]))
            sel = scene.selected_items
            want = [s for s in items if s.selected]
            ctx.check(len(sel) == len(want) and all(a is b.item for a, b in zip(sel, want)), 'selection')
            for tag in tags:
                got = scene.item_for_user_data(tag) or []
                want = [s for s in items if s.user_data is tag]
                ctx.check(len(got) == len(want) and all(a is b.item for a, b in zip(got, want)), 'user-data', lambda: '%d for %d' % (len(got), len(want)))

        fixed = gen.fpoint(rng, 20.), 50.

        def query():
            scene.update_rtree()
            if items and rng.random() < .7:
                s = rng.choice(items)
                p = rng.choice(s.samples(cast))
                k = rng.choice([0, 1, 5])
                p = (p[0] + k*rng.uniform(-1, 1), p[1] + k*rng.uniform(-1, 1))
            else:
                p = gen.fpoint(rng, 80.)
            radius = rng.choice([.5, 2., 10., 50.])
            if rng.random() < .5:
                # the same query again and again, along the history
                p, radius = fixed
            got = scene.item_at(V(*p), radius)
            ids = {id(i): d for d, i in got}
            known = {id(s.item): s for s in items}
            ctx.check(all(i in known for i in ids), 'removed', 'an item which is not in the scene is found')
            ctx.check(len(ids) == len(got) and all(a[0] <= b[0] for a, b in zip(got, got[1:])), 'item-at-order', lambda: [d for d, i in got])
            eps = 1e-5*SCALE
            for s in items:
                d = s.distance(cast, p)
                if d is None:
                    continue
                if d < radius - eps:
                    if ctx.check(id(s.item) in ids, 'item-at', lambda: '%s at %s of %s is not found with radius %s' % (s.kind, d, p, radius)):
                        ctx.close(ids[id(s.item)], d, 'item-at-distance', 1e-5, SCALE, s.kind)
                elif d > radius + eps:
                    ctx.check(id(s.item) not in ids, 'item-at-miss', lambda: '%s at %s of %s is found with radius %s' % (s.kind, d, p, radius))

        for _ in range(rng.randint(0, 3)):
            name = 'P%d' % len(coordinates)
            coordinates[name] = gen.fpoint(rng, 50.)
            c = scene.add_coordinate(name, V(*coordinates[name]))
            ctx.check(c.name == name and scene.coordinate(name) is c, 'added')
            ctx.check(sorted(c.name for c in scene.coordinates) == sorted(coordinates), 'added', 'coordinates')
        n = rng.randint(3, 25)
        for step in range(n):
            k = rng.random()
            if rng.random() < .15:
                observe_scene()
            if rng.random() < .15:
                query()
            if k < .5 or not items:
                add()
                if rng.random() < .3:
                    observe_item(items[-1])
            elif k < .6:
                s = rng.choice(items)
                scene.remove_item(s.item)
                items.remove(s)
                if rng.random() < .5:
                    query()
            elif k < .68:
                s = rng.choice(items)
                s.z = s.item.z_value = rng.choice([-1, 0, 1, 2.5, 2, .5, -.25, rng.uniform(-2, 2)])
            elif k < .74:
                s = rng.choice(items)
                s.visible = s.item.visible = rng.random() < .5
            elif k < .8:
                s = rng.choice(items)
                s.selected = s.item.selected = rng.random() < .7
            elif k < .83:
                scene.unselect_items()
                for s in items:
                    s.selected = False
            elif k < .9 and coordinates:
                name = rng.choice(sorted(coordinates))
                coordinates[name] = gen.fpoint(rng, 50.)
                scene.add_coordinate(name, V(*coordinates[name]))
                moved = [s for s in items if name in all_names(s)]
                for s in moved:
                    s.item.dirty = True
                    if rng.random() < .3:
                        observe_item(s)
                if moved:
                    ctx.seen('moved')
            else:
                query()
        observe_scene()
        for s in items:
            observe_item(s)
        for _ in range(3):
            query()
        ctx.check(sorted(c.name for c in scene.coordinates) == sorted(coordinates), 'order', 'coordinates')
        for name in list(coordinates)[:1]:
            scene.remove_coordinate(name)
            ctx.raises(KeyError, lambda: scene.coordinate(name), 'reject', 'removed coordinate')
            ctx.check(sorted(c.name for c in scene.coordinates) == sorted(set(coordinates) - {name}), 'removed', 'coordinates')
        for s in rng.sample(items, len(items)):
            if rng.random() < .5:
                scene.remove_item(s.item)
                items.remove(s)
        observe_scene()
        ctx.note(items=[(s.kind, s.points, s.z) for s in items], steps=n, trivial=n < 3)

    ctx.cases('history', history, 400, 8000)

    def at_radius(rng):
        """points at exactly the radius, a coordinate which is defined after the item"""
        scene, style = GraphicScene(), GraphicPathStyle()
        x, y, w, r = rng.randint(-20, 20), rng.randint(-20, 20), rng.randint(1, 30), rng.randint(1, 20)
        d = rng.randint(1, 20)
        kind = rng.choice(['segment', 'circle'])
        ctx.note(kind=kind, x=x, y=y, w=w, r=r, d=d)
        if kind == 'segment':
            late = rng.random() < .5
            if late:
                item = scene.segment('A', V(x+w, y), style, 'tag')
                other = scene.segment(V(500, 500), V(510, 500), style, 'other')
                ctx.raises(KeyError, scene.update_rtree, 'reject', 'a coordinate is missing')
                scene.add_coordinate('A', V(x, y))
            else:
                item = scene.segment(V(x, y), V(x+w, y), style, 'tag')
            point = (x + rng.randint(0, w), y + rng.choice([-1, 1])*d)
        else:
            item = scene.circle(V(x, y), r, style, 'tag')
            u = rng.choice([(1, 0), (0, 1), (-1, 0), (0, -1)])
            point = (x + u[0]*(r+d), y + u[1]*(r+d))
        scene.update_rtree()
        for k in (d, d*(1+1e-6), d+1, d*(1-1e-6), d-1):
            got = [i for _, i in scene.item_at(V(*point), k)]
            ctx.check((item in got) == (k >= d), 'item-at' if k >= d else 'item-at-miss', lambda: '%s at %s with radius %s: %s' % (kind, d, k, got))
        if kind == 'segment' and late:
            ctx.check([i for _, i in scene.item_at(V(505, 500), 1)] == [other], 'item-at', 'the update of the index was interrupted')

    ctx.cases('at_radius', at_radius, 100, 1500)

    # geometries ####################################################################################

    def geometry(rng):
        scene, transform, translation = new_scene(rng)
        style = GraphicPathStyle()
        f = lambda: V(*gen.fpoint(rng, 50.))
        kind = rng.choice(['quadratic', 'cubic', 'circle', 'ellipse', 'polygon', 'polyline', 'rectangle', 'segment', 'triangle', 'spline', 'line'])
        if kind in ('circle', 'ellipse') and not translation:
            kind = 'polygon'
        ctx.note(kind=kind, seed=rng.random())
        if kind == 'line':
            ctx.raises(NotImplementedError, lambda: scene.add_geometry(Line.Line2D(f(), V(1, 2)), style), 'reject', kind)
            ctx.raises(NotImplementedError, lambda: scene.add_geometry(object(), style), 'reject', 'object')
            ctx.check(len(scene) == 0, 'order', 'an item of a rejected geometry')
            return
        n = rng.randint(3, 7)
        d = random_domain(rng)
        domain = AngularDomain(*d) if d != (0, 360) or rng.random() < .3 else None
        r1, r2, a = rng.uniform(1, 40), rng.uniform(1, 40), rng.uniform(-90, 90)
        if kind == 'spline':
            degree = rng.choice([2, 3])
            g = Spline.BSpline2D([f() for _ in range(rng.randint(degree+2, 9))], degree)
        else:
            g = dict(
                quadratic=lambda: Bezier.QuadraticBezier2D(f(), f(), f()),
                cubic=lambda: Bezier.CubicBezier2D(f(), f(), f(), f()),
                circle=lambda: Conic.Circle2D(f(), r1, domain=domain),
                ellipse=lambda: Conic.Ellipse2D(f(), r1, r2, a, domain=domain),
                polygon=lambda: Polygon.Polygon2D(*[f() for _ in range(n)]),
                polyline=lambda: Polyline.Polyline2D(*[f() for _ in range(n)]),
                rectangle=lambda: Rectangle.Rectangle2D(f(), f()),
                segment=lambda: Segment.Segment2D(f(), f()),
                triangle=lambda: Triangle.Triangle2D(f(), f(), f()),
            )[kind]()
        got = scene.add_geometry(g, style)
        items = got if isinstance(got, list) else [got]
        ctx.check(list(scene) == items and all(i.user_data is g and i.path_style is style for i in items), 'added', kind)
        ctx.check((scene.item_for_user_data(g) or []) == items, 'user-data', kind)
        if kind == 'spline':
            # the curves follow each other along the spline
            t, out = [], []
            for i in items:
                P = [xy(p) for p in i.geometry.points]
                ctx.check(len(P) == degree+1, 'geometry', lambda: '%d points for degree %d' % (len(P), degree))
                out += [svgref.casteljau(P, k/8) for k in range(8)]
            spans = g.number_of_spans
            if ctx.check(len(items) == spans, 'geometry', lambda: '%d curves for %d spans' % (len(items), spans)):
                for k, p in enumerate(out):
                    ctx.close_point(p, transform(xy(g.point_at_t(k/8))), 'geometry', 1e-7, SCALE, 'spline')
        elif kind in ('circle', 'ellipse'):
            h = items[0].geometry
            e = dict(rx=r1, ry=r1 if kind == 'circle' else r2, angle=0 if kind == 'circle' else a)
            start, stop = d if domain is not None else (0, 360)
            ctx.close(items[0].start_angle, start, 'geometry', 1e-9, 1, kind)
            ctx.close(items[0].stop_angle, stop, 'geometry', 1e-9, 1, kind)
            for k in range(5):
                t = start + (stop-start)*k/4
                ctx.close_point(xy(h.point_at_angle(t)), svgref.arc_point(transform(xy(g.center)), e['rx'], e['ry'], e['angle'], t), 'geometry', 1e-9, SCALE, kind)
        elif kind == 'rectangle':
            for p, q in zip(items[0].geometry.points, g.points):
                ctx.close_point(xy(p), transform(xy(q)), 'geometry', 1e-9, SCALE, kind)
        else:
            P, Q = list(items[0].geometry.points), list(g.points)
            ctx.equal(len(P), len(Q), 'geometry', kind)
            for p, q in zip(P, Q):
                ctx.close_point(xy(p), transform(xy(q)), 'geometry', 1e-9, SCALE, kind)

    ctx.cases('geometry', geometry, 600, 12000)

    def chain(rng):
        scene = GraphicScene()
        style = GraphicPathStyle()
        degree = rng.choice([1, 2, 3])
        n = rng.randint(1, 6)
        points = [gen.fpoint(rng) for _ in range(n*degree + 1)]
        ctx.note(degree=degree, points=points)
        items = scene.bezier_path([V(*p) for p in points], degree, style, 'tag')
        if ctx.check(len(items) == n and list(scene) == items, 'chain', lambda: '%d items for %d curves of degree %d' % (len(items), n, degree)):
            for i, item in enumerate(items):
                P = [xy(p) for p in item.geometry.points]
                W = points[i*degree:(i+1)*degree+1]
                ctx.check(len(P) == len(W) and all(math.dist(a, b) < 1e-9 for a, b in zip(P, W)), 'chain', lambda: '%s for %s' % (P, W))
                if degree == 2:
                    c = [xy(p) for p in item.cubic_positions]
                    for t in (0, .3, .7, 1):
                        ctx.close_point(svgref.casteljau(c, t), svgref.casteljau(W, t), 'chain', 1e-9, 100, 'cubic')
        if degree > 1:
            ctx.raises(ValueError, lambda: scene.bezier_path([V(*p) for p in points[:-1]], degree, style, 'tag'), 'reject', 'number of points')
        ctx.raises(ValueError, lambda: scene.bezier_path([V(*p) for p in points], rng.choice([0, 4, 5]), style, 'tag'), 'reject', 'degree')
        ctx.check(len(scene) == n, 'chain', 'items of a rejected chain')

    ctx.cases('chain', chain, 200, 3000)

    # paths #########################################################################################

    def outline(path):
        """points of a path, each with its part"""
        out = []
        for part in path:
            if isinstance(part, Path.LinearSegment):
                if part.radius is not None:
                    arc = part.bulge_geometry
                    sweep = (arc.domain.stop - arc.domain.start) % 360
                    out += [xy(arc.point_at_angle(arc.domain.start + sweep*i/8)) for i in range(9)]
                a, b = [xy(p) for p in part.points]
                out += [svgref.lerp(a, b, i/8) for i in range(9)]
            elif isinstance(part, Path.ArcSegment):
                out += svgref.sample_arc(xy(part.start_point), xy(part.stop_point), part.radius_x, part.radius_y, part.angle, part.large_arc, part.sweep)
            else:
                P = [xy(p) for p in part.points]
                out += [svgref.casteljau(P, i/8) for i in range(9)]
        return out

    def random_path(rng):
        p0 = gen.fpoint(rng, 20.)
        if rng.random() < .3:
            # turns of both senses, parts along the axes
            path = Path.Path2D(V(*p0))
            q, a = p0, rng.choice([0, 90, 180, 270, rng.uniform(0, 360)])
            n = rng.randint(2, 6)
            for i in range(n):
                l = rng.uniform(20, 40)
                q = (q[0] + l*math.cos(math.radians(a)), q[1] + l*math.sin(math.radians(a)))
                kw = dict(radius=rng.uniform(.2, 2)) if i and rng.random() < .8 else {}
                path.line_to(V(*q), absolute=True, **kw)
                a += rng.choice([-1, 1])*rng.choice([90, rng.uniform(20, 140)])
            if n > 2 and rng.random() < .6:
                # the angles at the start and at the end must leave place to the bulges
                d = (q[0]-p0[0], q[1]-p0[1])
                first, last = path[0].points, path[n-1].points
                if math.hypot(*d) > 10:
                    radius = [rng.choice([None, .05, .2]) for _ in range(2)]
                    turn = lambda u, v: abs(math.degrees(math.atan2(u[0]*v[1]-u[1]*v[0], u[0]*v[0]+u[1]*v[1])))
                    u, v = first[1] - first[0], last[1] - last[0]
                    if all(10 < t < 150 for t in (turn((-d[0], -d[1]), (u.x, u.y)), turn((v.x, v.y), (-d[0], -d[1])))):
                        path.close(radius=radius[0], close_radius=radius[1])
            return path, ['rounded turns']
        if rng.random() < .3:
            w, h = rng.uniform(10, 30), rng.uniform(10, 30)
            if rng.random() < .5:
                return Path.Path2D.rounded_rectangle(V(*p0), w, h, rng.uniform(.5, 4)), ['rounded rectangle']
            path = Path.Path2D(V(*p0))
            path.east_to(w)
            path.north_to(h, radius=rng.uniform(.5, 2))
            path.line_to(V(-w/2, h/2), radius=rng.uniform(.2, .5))
            if rng.random() < .5:
                path.west_to(w/2, radius=rng.uniform(.1, .3))
            if rng.random() < .5:
                path.close(radius=.1 if rng.random() < .5 else None, close_radius=.2 if rng.random() < .5 else None)
            return path, ['rounded']
        path = Path.Path2D(V(*p0))
        kinds = []
        for _ in range(rng.randint(1, 6)):
            k = rng.choice('LHVQCTSA')
            kinds.append(k)
            absolute = rng.random() < .5
            f = lambda: V(*gen.fpoint(rng, 20.))
            if k == 'L':
                path.line_to(f(), absolute=absolute)
            elif k == 'H':
                path.horizontal_to(rng.uniform(5, 20), absolute=absolute)
            elif k == 'V':
                path.vertical_to(rng.uniform(5, 20), absolute=absolute)
            elif k == 'Q':
                path.quadratic_to(f(), f(), absolute=absolute)
            elif k == 'C':
                path.cubic_to(f(), f(), f(), absolute=absolute)
            elif k == 'T':
                path.stringed_quadratic_to(f(), absolute=absolute)
            elif k == 'S':
                path.stringed_cubic_to(f(), f(), absolute=absolute)
            else:
                r = rng.choice([0, rng.uniform(5, 40)]) if rng.random() < .2 else rng.uniform(5, 40)
                path.arc_to(f(), r, rng.uniform(5, 40), rng.uniform(-90, 90), rng.random() < .5, rng.random() < .5, absolute=absolute)
        if rng.random() < .3:
            path.close()
            kinds.append('Z')
        return path, kinds

    def near(points, cloud):
        """largest distance of the points to the polylines of the cloud"""
        A = np.concatenate([np.array(c[:-1]) for c in cloud if len(c) > 1])
        B = np.concatenate([np.array(c[1:]) for c in cloud if len(c) > 1])
        D = B - A
        n = (D**2).sum(1)
        n[n == 0] = 1
        worst = 0
        for p in points:
            t = np.clip(((np.array(p) - A)*D).sum(1)/n, 0, 1)
            d = np.hypot(*(A + t[:, None]*D - np.array(p)).T).min()
            worst = max(worst, float(d))
        return worst

    def fine(item, transform):
        n = 201
        if isinstance(item, (GI.CircleItem, GI.EllipseItem)):
            c = transform(xy(item.position))
            rx = item.radius if isinstance(item, GI.CircleItem) else item.radius_x
            ry = item.radius if isinstance(item, GI.CircleItem) else item.radius_y
            angle = 0 if isinstance(item, GI.CircleItem) else item.angle
            start, stop = item.start_angle, item.stop_angle
            if stop < start: # as for a bulge
                stop += 360
            return [svgref.arc_point(c, rx, ry, angle, start + (stop-start)*i/(n-1)) for i in range(n)]
        P = [transform(xy(p)) for p in item.positions]
        return [svgref.casteljau(P, i/(n-1)) for i in range(n)]

    def path(rng):
        p, kinds = random_path(rng)
        arcs = 'A' in kinds or kinds[0].startswith('rounded')
        while True:
            scene, transform, translation = new_scene(rng)
            if translation or not arcs:
                break
        style = GraphicPathStyle()
        ctx.note(kinds=kinds, p0=xy(p.p0), seed=rng.random())
        want = [transform(q) for q in outline(p)]
        size = max(max(abs(q[0]) for q in want), max(abs(q[1]) for q in want), 1)
        k = rng.random()
        if k < .5:
            tag = object()
            mode = rng.random() < .5
            items = scene.add_geometry(p, style) if mode else scene.add_path(p, style, tag)
            if not ctx.check(isinstance(items, list) and list(scene) == items, 'added', 'items of a path'):
                items = list(scene)
            ctx.check(all(i.user_data is (p if mode else tag) and i.path_style is style for i in items), 'added', 'user data of a path')
            cloud = [fine(i, transform) for i in items]
            got = [q for c in cloud for q in c[::25]]
            tol = 2e-3*size
        else:
            item = scene.add_path(p, style, 'tag', as_segments=False)
            ctx.check(list(scene) == [item] and item.user_data == 'tag' and item.path_style is style and item.is_closed == p.is_closed, 'path-item')
            current = transform(xy(item.position))
            start = current
            cloud = []
            for s in item:
                P = [current] + [transform(xy(q)) for q in s.positions]
                cloud.append([svgref.casteljau(P, i/100) for i in range(101)])
                current = P[-1]
            # neither detour nor short cut
            length = lambda clouds: sum(math.dist(a, b) for c in clouds for a, b in zip(c, c[1:]))
            ctx.close(length(cloud), length(refine(p, transform)), 'path-item', 2e-3, size, 'length')
            if p.is_closed:
                ctx.close_point(current, start, 'path-item', 1e-6, size, 'closed path')
            got = [q for c in cloud for q in c[::10]]
            # the parts follow the order of the path
            ctx.close_point(cloud[0][0], want[0] if not (p.is_closed and isinstance(p[0], Path.LinearSegment) and p[0].radius is not None)
                            else transform(xy(p[0].points[0])), 'path-item', 1e-7, size, 'start')
            tol = 5e-3*size
        w = near(want, cloud)
        ctx.check(w < tol, 'path-cover', lambda: 'the path is at %s of its items (%s)' % (w, k))
        # the items end where the parts do
        ends = np.array([q for c in cloud for q in (c[0], c[-1])])
        for part in p:
            for q in (part.points[0], part.points[-1]):
                e = float(np.hypot(*(ends - np.array(transform(xy(q)))).T).min())
                ctx.check(e < 1e-6*size, 'path-cover', lambda: 'a part ends at %s of the ends of the items (%s)' % (e, k))
        # the other way round
        w2 = near(got, refine(p, transform))
        ctx.check(w2 < tol, 'path-cover', lambda: 'items at %s of the path (%s)' % (w2, k))

    def refine(path, transform):
        out = []
        for part in path:
            if isinstance(part, Path.LinearSegment):
                if part.radius is not None:
                    arc = part.bulge_geometry
                    sweep = (arc.domain.stop - arc.domain.start) % 360
                    out.append([xy(arc.point_at_angle(arc.domain.start + sweep*i/100)) for i in range(101)])
                out.append([xy(q) for q in part.points])
            elif isinstance(part, Path.ArcSegment):
                out.append(svgref.sample_arc(xy(part.start_point), xy(part.stop_point), part.radius_x, part.radius_y, part.angle, part.large_arc, part.sweep, n=201))
            else:
                P = [xy(q) for q in part.points]
                out.append([svgref.casteljau(P, i/200) for i in range(201)])
        return [[transform(q) for q in c] for c in out]

    ctx.cases('path', path, 500, 8000)
