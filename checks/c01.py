"""C01 -- 2D vector algebra"""
import math
import battery
import gen

PID = 'C01'
QUICK_FACTOR = 6
RULE = ('pairs of random vectors (integer grid, decimal, wide magnitude, null, axis-aligned, parallel and '
        'orthogonal pairs), scalars and angles; a case is non-trivial when its vectors are not both null')
ASSUMPTIONS = ['finite coordinates with magnitude below 1e8', 'IEEE doubles']
MONITORS = ['arithmetic', 'operands-unchanged', 'inplace', 'products', 'orientation', 'null-orientation',
            'rotation', 'turns', 'parallel', 'orthogonal', 'projection', 'angle', 'truth', 'ctor', 'clone',
            'normalise', 'scale-divide', 'equality', 'from', 'again']


def adiff(a, b):
    return abs((a - b + 180) % 360 - 180)


def run(ctx):
    from Patro.GeometryEngine.Vector import Vector2D, Vector2DInt, NormalisedVector2D, HomogeneousVector2D
    V = Vector2D

    def xy(v):
        return (float(v.x), float(v.y))

    def arithmetic(rng):
        a, b, k = gen.point(rng), gen.point(rng), gen.scalar(rng)
        if rng.random() < .1:
            b = a
        if rng.random() < .1:
            k = rng.choice([-1, 1])*10**rng.uniform(-8, 8)
        if rng.random() < .1:
            a = tuple(int(x) for x in a)
        ctx.note(a=a, b=b, k=k, trivial=a == b == (0, 0))
        va, vb = V(a) if rng.random() < .5 else V(*a), V(list(b))
        ctx.equal(xy(va), tuple(map(float, a)), 'ctor')
        ctx.equal((va[0], va[1], len(va), tuple(va)), (a[0], a[1], 2, tuple(a)), 'ctor')
        results = [
            (va + vb, (a[0]+b[0], a[1]+b[1])),
            (va - vb, (a[0]-b[0], a[1]-b[1])),
            (-va, (-a[0], -a[1])),
            (+va, a),
            (abs(va), (abs(a[0]), abs(a[1]))),
            (va * k, (a[0]*k, a[1]*k)),
            (k * va, (a[0]*k, a[1]*k)),
        ]
        if k:
            results.append((va / k, (a[0]/k, a[1]/k)))
        for i, (r, e) in enumerate(results):
            ctx.close_point(r, e, 'arithmetic', 1e-12, 1e-9, i)
            ctx.check(r is not va and r is not vb, 'arithmetic', i)
            r.x = 12345.5 # the result is a new vector
            r += V(1, 1)
        ctx.check(xy(va) == tuple(map(float, a)) and xy(vb) == tuple(map(float, b)), 'operands-unchanged',
                  lambda: (a, va, b, vb))
        # in place
        for op, e in (('+', (a[0]+b[0], a[1]+b[1])), ('-', (a[0]-b[0], a[1]-b[1])),
                      ('*', (a[0]*k, a[1]*k)), ('/', (a[0]/k, a[1]/k) if k else None)):
            if e is None:
                continue
            w = va.clone()
            u = w
            if op == '+':
                w += vb
            elif op == '-':
                w -= vb
            elif op == '*':
                w *= k
            else:
                w /= k
            ctx.close_point(w, e, 'inplace', 1e-12, 1e-9, op)
            ctx.close_point(u, e, 'inplace', 1e-12, 1e-9, op)
        ctx.check(xy(va) == tuple(map(float, a)) and xy(vb) == tuple(map(float, b)), 'operands-unchanged',
                  lambda: ('in place', a, va, b, vb))
        # components
        w = va.clone()
        i = rng.randrange(2)
        w[i] = k
        ctx.equal(xy(w), (float(k), float(a[1])) if i == 0 else (float(a[0]), float(k)), 'inplace', 'component')
        # copies are independent
        for c in (va.clone(), V(va), +va):
            ctx.check(c == va, 'clone')
            c.x += 1
            c[1] = 1e7
            c *= 3
            ctx.check(xy(va) == tuple(map(float, a)), 'clone', lambda: 'aliased copy')
        # equality
        ctx.equal(bool(va == vb), tuple(a) == tuple(b), 'equality')
        ctx.equal(bool(va == V(a)), True, 'equality')
        eps = V(a[0] + 3e-9, a[1])
        ctx.equal(bool(va.almost_equal(eps)), True, 'equality')
        ctx.equal(bool(va.almost_equal(V(a[0] + 1 + abs(a[0]), a[1]))), False, 'equality')
        ctx.equal(bool(va.almost_equal(V(a[0], a[1] - 1 - abs(a[1])))), False, 'equality')
        # chosen tolerances
        k = 10**rng.uniform(-4, 2)
        for e, kw in ((.4, dict(rtol=0, atol=k)), (3, dict(rtol=0, atol=k))):
            if k > 1e-9*(abs(a[0])+abs(a[1])):
                w = V(a[0], a[1] + e*k) if rng.random() < .5 else V(a[0] - e*k, a[1])
                ctx.equal(bool(va.almost_equal(w, **kw)), e < 1, 'equality', (e, kw))
        if min(abs(a[0]), abs(a[1])) > 0:
            k = 10**rng.uniform(-4, -1)
            for e in (.4, 3):
                w = V(a[0]*(1+e*k), a[1]) if rng.random() < .5 else V(a[0], a[1]*(1+e*k))
                ctx.equal(bool(va.almost_equal(w, rtol=k, atol=0)), e < 1, 'equality', (e, k))
        ctx.equal(bool(va), tuple(a) != (0, 0), 'truth')
        # setters
        w = V(a)
        w.x = b[0]
        ctx.equal(xy(w), (float(b[0]), float(a[1])), 'ctor')
        w.y = b[1]
        ctx.equal(xy(w), tuple(map(float, b)), 'ctor')
        bb = va.bounding_box
        ctx.equal((bb.x.inf, bb.x.sup, bb.y.inf, bb.y.sup), (a[0], a[0], a[1], a[1]), 'ctor')
        ctx.close_point(va.scale(b[0], k), (a[0]*b[0], a[1]*k), 'scale-divide', 1e-12, 1e-9)
        if b[0] and k:
            ctx.close_point(va.divide(b[0], k), (a[0]/b[0], a[1]/k), 'scale-divide', 1e-12, 1e-9)
        ctx.check(xy(va) == tuple(map(float, a)), 'operands-unchanged', 'scale')
        ctx.close_point(V.middle(va, vb), ((a[0]+b[0])/2, (a[1]+b[1])/2), 'from', 1e-12, 1e-9)
        m = V.middle(va, va)
        ctx.close_point(m, a, 'from', 1e-12, 1e-9)
        m += V(1, 1) # a new vector
        ctx.check(xy(va) == tuple(map(float, a)) and xy(vb) == tuple(map(float, b)), 'operands-unchanged', 'middle')
        ctx.equal([xy(p) for p in V.from_coordinates(a, b)], [tuple(map(float, a)), tuple(map(float, b))], 'from')
        ctx.equal([xy(p) for p in V.from_list([a, b])], [tuple(map(float, a)), tuple(map(float, b))], 'from')
        ctx.equal(xy(HomogeneousVector2D(va).to_vector()), tuple(map(float, a)), 'from')
        r = va.rint()
        ctx.check(abs(r.x - a[0]) <= .5 and abs(r.y - a[1]) <= .5 and int(r.x) == r.x, 'from', lambda: r)
        ctx.equal(va.to_int_list(), [int(a[0]), int(a[1])], 'from')

    def products(rng):
        a, b = gen.nonzero(rng), gen.nonzero(rng)
        kind = rng.randrange(6)
        if kind == 0:
            k = rng.choice([-3., -1., .5, 2.])
            b = (a[0]*k, a[1]*k)
        elif kind == 1:
            k = rng.choice([-3., -1., .5, 2.])
            b = (-a[1]*k, a[0]*k)
        elif kind == 2:
            a, b = gen.nonzero(rng, gen.grid), gen.nonzero(rng, gen.grid)
        elif kind == 3:
            j, k = 10**rng.uniform(-8, 6), 10**rng.uniform(-8, 6)
            a, b = (a[0]*j, a[1]*j), (b[0]*k, b[1]*k)
        ctx.note(a=a, b=b)
        va, vb = V(a), V(b)
        ma, mb = math.hypot(*a), math.hypot(*b)
        s = ma*mb
        dot, cross = a[0]*b[0]+a[1]*b[1], a[0]*b[1]-a[1]*b[0]
        ctx.close(va.magnitude, ma, 'products', 1e-12, 1e-12)
        ctx.close(va.magnitude_square, ma*ma, 'products', 1e-12, 1e-12)
        ctx.close(va.dot(vb), dot, 'products', 1e-12, s)
        ctx.close(va.cross(vb), cross, 'products', 1e-12, s)
        ctx.close(va.perp_dot(vb), cross, 'products', 1e-12, s)
        # sign convention: turn from b to a
        ctx.close(va.cos_with(vb), dot/s, 'projection', 1e-9)
        ctx.close(va.sin_with(vb), -cross/s, 'projection', 1e-9)
        ctx.check(-1 <= va.cos_with(vb) <= 1 and -1 <= va.sin_with(vb) <= 1, 'projection')
        ctx.close(va.projection_on(vb), dot/mb, 'projection', 1e-9, ma)
        ctx.close(va.deviation_with(vb), -cross/mb, 'projection', 1e-9, ma)
        u = (b[0]/mb, b[1]/mb)
        p, d = va.projection_on(vb), va.deviation_with(vb)
        ctx.close_point((u[0]*p - u[1]*d, u[1]*p + u[0]*d), a, 'projection', 1e-9, ma)
        expected = math.degrees(math.atan2(-cross, dot))
        for got in (va.angle_with(vb), va.orientation_with(vb)):
            ctx.check(-180.0001 <= got <= 180.0001 and adiff(got, expected) < 1e-4, 'angle',
                      lambda: 'got %s expected %s' % (got, expected))
        # exact predicates
        if kind in (0, 1, 2):
            import fractions
            Fr = fractions.Fraction
            ec = Fr(a[0])*Fr(b[1]) - Fr(a[1])*Fr(b[0])
            ed = Fr(a[0])*Fr(b[0]) + Fr(a[1])*Fr(b[1])
            if ec == 0 or abs(ec) > 1e-3:
                if ec or s < 1e8:
                    ctx.equal(bool(va.is_parallel(vb)), ec == 0 , 'parallel') if (ec or kind == 2) else \
                        ctx.check(va.is_parallel(vb) or s > 1e6, 'parallel')
                    t, c = va.is_parallel(vb, return_cross=True)
                    ctx.close(c, cross, 'parallel', 1e-9, s)
            if abs(ed) > 1e-3 or (ed == 0 and kind == 2):
                ctx.equal(bool(va.is_orthogonal(vb)), ed == 0, 'orthogonal')
        ctx.check(xy(va) == tuple(map(float, a)) and xy(vb) == tuple(map(float, b)), 'operands-unchanged', 'products')
        n = va.to_normalised()
        ctx.close_point(n, (a[0]/ma, a[1]/ma), 'normalise', 1e-12)
        ctx.check(xy(va) == tuple(map(float, a)), 'operands-unchanged', 'to_normalised')
        ctx.close_point(n*3, (3*a[0]/ma, 3*a[1]/ma), 'normalise', 1e-12)
        ctx.close_point(3*n, (3*a[0]/ma, 3*a[1]/ma), 'normalise', 1e-12)
        w = V(a)
        r = w.normalise()
        ctx.close_point(w, (a[0]/ma, a[1]/ma), 'normalise', 1e-12)
        ctx.close_point(r, (a[0]/ma, a[1]/ma), 'normalise', 1e-12)

    def rotation(rng):
        a = gen.nonzero(rng)
        if rng.random() < .25:
            a = rng.choice([(1., 0.), (0., 1.), (-1., 0.), (0., -1.), (3., 0.), (0., -7.), (-2., 0.), (5., 5.), (-5., 5.),
                            (-5., -5.), (5., -5.), (1., -0.), (-1., -0.)])
        elif rng.random() < .15:
            # very short and very long vectors, close to an axis
            k, e = 10**rng.uniform(-9, 7), rng.choice([1, 10**rng.uniform(-9, 0)])
            a = (rng.choice([-1, 1])*k, rng.choice([-1, 1])*k*e)
            if rng.random() < .5:
                a = a[::-1]
        t = gen.angle(rng)
        ctx.note(a=a, angle=t)
        v = V(a)
        m = math.hypot(*a)
        r = math.radians(t)
        c, s = math.cos(r), math.sin(r)
        ctx.close_point(v.rotate(t), (c*a[0]-s*a[1], s*a[0]+c*a[1]), 'rotation', 1e-12, m)
        ctx.close_point(v.rotate(t, counter_clockwise=False), (c*a[0]+s*a[1], -s*a[0]+c*a[1]), 'rotation', 1e-12, m)
        ctx.equal(xy(v.normal), (-a[1], a[0]), 'turns')
        ctx.equal(xy(v.anti_normal), (a[1], -a[0]), 'turns')
        ctx.equal(xy(v.parity), (-a[0], -a[1]), 'turns')
        ctx.equal(xy(v.permute), (a[1], a[0]), 'turns')
        if a[0]:
            ctx.close(v.tan, a[1]/a[0], 'turns', 1e-12)
        if a[1]:
            ctx.close(v.inverse_tan, a[0]/a[1], 'turns', 1e-12)
        o = v.orientation
        e = math.degrees(math.atan2(a[1] + 0., a[0]))
        ctx.check(-180 <= o <= 180 and adiff(o, e) < 1e-9, 'orientation', lambda: 'got %s expected %s' % (o, e))
        if a[1] == 0:
            ctx.equal(o, 0 if a[0] > 0 else 180, 'orientation')
        ctx.check(xy(v) == tuple(map(float, a)), 'operands-unchanged', 'rotation')
        ctx.close_point(V.from_angle(t), (c, s), 'from', 1e-12)
        k = gen.scalar(rng)
        ctx.close_point(V.from_polar(k, t), (k*c, k*s), 'from', 1e-12)
        ctx.close_point(V.from_ellipse(k, m, t), (k*c, m*s), 'from', 1e-12)
        # orientation and magnitude are the polar coordinates
        ctx.close_point(V.from_polar(v.magnitude, o), a, 'orientation', 1e-9, m)

    def null(rng):
        v = V(rng.choice([0, 0., -0.]), rng.choice([0, 0., -0.]))
        ctx.note(trivial=True)
        ctx.equal(bool(v), False, 'truth')
        ctx.raises((NameError, ValueError, ZeroDivisionError), lambda: v.orientation, 'null-orientation')
        ctx.raises(ValueError, lambda: V(1, 2, 3), 'ctor')
        ctx.raises(ValueError, lambda: V((1, 2, 3)), 'ctor')
        ctx.raises((ValueError, TypeError), lambda: V(5), 'ctor')

    PROPERTIES = ('v', 'x', 'y', 'w', 'bounding_box', 'magnitude_square', 'magnitude', 'orientation', 'normal', 'anti_normal', 'permute', 'parity', 'tan', 'inverse_tan')
    METHODS = ('to_int_list', 'to_normalised', 'rint', 'to_vector', '__neg__', '__pos__', '__abs__', 'clone')

    constants = []

    def everything(v, w):
        r = {}

        def get(name, f):
            try:
                r[name] = battery.normal(f())
            except Exception as e: # e.g. a null vector
                r[name] = type(e).__name__
        for name in PROPERTIES:
            get(name, lambda: getattr(v, name)() if callable(getattr(v, name)) else getattr(v, name))
        for name in METHODS:
            if hasattr(v, name):
                get(name, lambda: getattr(v, name)())
        for name in ('dot', 'cross', 'cos_with', 'sin_with', 'angle_with', 'deviation_with', 'projection_on', 'is_parallel', 'is_orthogonal'):
            if hasattr(v, name):
                get(name, lambda: getattr(v, name)(w))
        get('rotate', lambda: v.rotate(30))
        table = [('scale', (2, -3)), ('divide', (2, -4)), ('__getitem__', (0,)), ('__getitem__', (1,)), ('__rmul__', (3,)), ('__mul__', (3,)), ('__truediv__', (4,))]
        for o in (w, v.clone()*3 if hasattr(v, 'scale') else w):
            table += [(n, (o,)) for n in ('__add__', '__sub__', '__eq__', 'almost_equal', 'is_parallel', 'is_orthogonal')]
        table += [('__eq__', (u,)) for u in constants] + [('almost_equal', (u,)) for u in constants] + [('is_parallel', (u,)) for u in constants]
        table += [('is_orthogonal', (u,)) for u in constants] + [('__add__', (u,)) for u in constants] + [('__sub__', (u,)) for u in constants]
        if hasattr(v, 'to_normalised'):
            try:
                n = v.to_normalised()
                table += [('__eq__', (n,)), ('__sub__', (n,))]
            except Exception:
                pass
        r.update(battery.calls(v, [(n, a) for n, a in table if hasattr(v, n)]))
        return r

    def again(rng):
        # a vector which was read and then modified is as a new one
        cls = rng.choice([Vector2D, Vector2D, Vector2D, Vector2DInt, HomogeneousVector2D])
        point = (lambda: tuple(int(x) for x in gen.grid(rng))) if cls is Vector2DInt else (lambda: gen.fpoint(rng))
        v, w = V(point()) if cls is HomogeneousVector2D else cls(point()), V(gen.fpoint(rng))
        if cls is HomogeneousVector2D:
            v = cls(v)
        log = [(cls.__name__, xy(v))]
        ctx.note(log=log, w=xy(w))
        constants[:] = [type(v)(V(3, 0)) if cls is HomogeneousVector2D else cls(3, 0), w.clone()]
        if cls is not HomogeneousVector2D:
            constants.append(v.clone())
        for _ in range(rng.randint(1, 3)):
            everything(v, w)
            op = rng.choice(['x', 'y', 'item', '+=', '-='] + ['*=', '/=', 'normalise', 'scale', 'divide', 'other', 'axis', 'axis']*(cls is Vector2D))
            a = point()
            if op == 'x':
                v.x = a[0]
            elif op == 'y':
                v.y = a[1]
            elif op == 'item':
                v[rng.choice([0, 1])] = a[0]
            elif op == '+=':
                v += (V(a) if cls is HomogeneousVector2D else cls(a))
            elif op == '-=':
                v -= (V(a) if cls is HomogeneousVector2D else cls(a))
            elif op == '*=':
                v *= 3
            elif op == '/=':
                v /= 4
            elif op == 'normalise':
                if v.magnitude < 1:
                    continue
                v.normalise()
            elif op == 'axis':
                v.x, v.y = rng.choice([(3, 0), (0, 3), (-6, 0), (w.x, w.y), (-w.y, w.x)])
            elif op == 'scale':
                v = v.scale(2, -3)
            elif op == 'divide':
                v = v.divide(2, -4)
            elif op == 'other':
                w.x, w.y = a
            log.append((op, a))
            new = cls(V(*xy(v))) if cls is HomogeneousVector2D else cls([int(x) for x in xy(v)] if cls is Vector2DInt else xy(v))
            if cls is HomogeneousVector2D:
                new.w = v.w
            d = battery.differences(everything(v, w), everything(new, V(*xy(w))))
            ctx.check(not d, 'again', lambda: (log, d[:3]))

    ctx.cases('again', again, 400, 12000)
    ctx.cases('arithmetic', arithmetic, 1500, 40000)
    ctx.cases('products', products, 2000, 60000)
    ctx.cases('rotation', rotation, 1500, 40000)
    ctx.cases('null', null, 10, 20)
