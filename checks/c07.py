"""C07 -- convex hull"""
import math
import gen

PID = 'C07'
RULE = ('point sets of 1 to 60 points: small integer grids (many collinear and duplicated points), collinear sets, circles, '
        'floats, in random order; oracle: monotone chain over rationals; non-trivial: hull of at least 3 points')
ASSUMPTIONS = ['coordinates below 1e4']
MONITORS = ['hull-vertices', 'hull-contains', 'hull-orientation', 'hull-degenerate', 'order-independent', 'operands-unchanged',
            'hull-first-point', 'hull-no-duplicate', 'hull-as-list', 'polygon-hull']


def run(ctx):
    from Patro.GeometryEngine.Vector import Vector2D as V
    from Patro.GeometryEngine.Polygon import Polygon2D, convex_hull

    def hull(rng):
        kind = rng.choice(['grid', 'grid', 'tiny', 'float', 'collinear', 'circle', 'duplicates'])
        n = rng.choice([1, 2, 3, 4, 5, 8, 15, 30, 60])
        if kind == 'grid':
            p = [gen.grid(rng, rng.choice([4, 10])) for _ in range(n)]
        elif kind == 'tiny':
            p = [gen.grid(rng, 1) for _ in range(n)]
        elif kind == 'float':
            p = [gen.fpoint(rng) for _ in range(n)]
        elif kind == 'collinear':
            a, u = gen.grid(rng), gen.nonzero(rng, lambda r: gen.grid(r, 3), .5)
            p = [(a[0]+u[0]*t, a[1]+u[1]*t) for t in [rng.randint(-5, 5) for _ in range(n)]]
        elif kind == 'circle':
            c = gen.fpoint(rng)
            p = [(c[0]+50*math.cos(t), c[1]+50*math.sin(t)) for t in [rng.uniform(0, 7) for _ in range(n)]]
        else:
            q = [gen.grid(rng, 5) for _ in range(max(1, n//3))]
            p = [rng.choice(q) for _ in range(n)]
        if kind in ('grid', 'tiny', 'collinear', 'duplicates') and rng.random() < .35:
            # the same hull, up to an exact change of the unit of each axis: thin, huge and tiny sets
            kx, ky = rng.randint(-20, 20), rng.randint(-20, 20)
            if rng.random() < .3:
                kx = ky
            p = [(x[0]*2.**kx, x[1]*2.**ky) for x in p]
        p = [tuple(map(float, x)) for x in p]
        e = gen.convex_hull(p)
        ctx.note(kind=kind, points=p, trivial=len(e) < 3)
        vs = [V(x) for x in p]
        h = convex_hull(vs)
        ctx.equal([(v.x, v.y) for v in vs], p, 'operands-unchanged')

        def observe(h, polygon=True):
            g = [(v.x, v.y) for v in (h.points if hasattr(h, 'points') else h)]
            if kind in ('float', 'circle'):
                # general position up to rounding: compare the regions
                pass
            ctx.check(set(g) <= set(p), 'hull-vertices', lambda: ('not an input point', g))
            missing = set(e) - set(g)
            if kind in ('float', 'circle'):
                missing = {m for m in missing if min(gen.point_segment_distance(m, g[i-1], g[i]) for i in range(len(g))) > 1e-9}
            ctx.check(not missing, 'hull-vertices', lambda: ('missing extreme points', missing, g))
            ctx.check(len(set(g)) == len(g), 'hull-no-duplicate', g)
            first = min(p, key=lambda x: (x[1], x[0]))
            ctx.equal(g[0], first, 'hull-first-point')
            if len(e) >= 3:
                n = len(g)
                bad = [q for q in p for i in range(n)
                       if gen.orient(g[i], g[(i+1) % n], q) < 0 and
                       gen.point_segment_distance(q, g[i], g[(i+1) % n]) > 1e-9]
                ctx.check(not bad, 'hull-contains', lambda: (bad[:3], g))
                ctx.check(gen.area2(g) > 0, 'hull-orientation', g)
                ctx.close(float(gen.area2(g)), float(gen.area2(e)), 'hull-contains', 1e-9, 1)
                if polygon:
                    ctx.check(h.is_counterclockwise and h.is_convex and not h.is_clockwise, 'hull-orientation')
                    ctx.close(h.area, float(gen.area2(e))/2, 'hull-orientation', 1e-9, 1)
            else:
                ctx.equal(set(g), set(e), 'hull-degenerate')
            return g
        g = observe(h)
        gl = [(v.x, v.y) for v in convex_hull(vs, as_polygon=False)]
        ctx.equal(gl, g, 'hull-as-list')
        rng.shuffle(p)
        g2 = observe(convex_hull([V(x) for x in p]))
        if kind not in ('float', 'circle'):
            ctx.equal(g2, g, 'order-independent')
        if len(p) >= 3 and len(set(p)) == len(p):
            P = Polygon2D(*[V(x) for x in p])
            h = P.convex_hull()
            observe(h, hasattr(h, 'area'))
            ctx.equal([(v.x, v.y) for v in P.points], p, 'operands-unchanged')
            ctx.seen('polygon-hull')

    ctx.cases('hull', hull, 2500, 40000)
