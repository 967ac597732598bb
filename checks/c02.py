"""C02 -- transformations: composition, action on points, classification, scaling of lengths"""
import math
import numpy as np
import battery
import gen

PID = 'C02'
QUICK_FACTOR = 2
RULE = ('random words of 1 to 6 elementary transformations (rotation, scale, reflection, parity, translation, rotation '
        'at a point, screen, arbitrary matrix) composed with * and *=, in 2D and affine form, applied to random points; '
        'non-trivial when the word is not made of identities only')
ASSUMPTIONS = ['reference: plain 3x3 float matrices', 'coefficients below 1e4']
MONITORS = ['again', 'action', 'homogeneous', 'compose', 'compose-inplace', 'operands-unchanged', 'identity-sound', 'type-sound', 'scalar',
            'scalar-sheared', 'ctor', 'rotation-at', 'shape', 'dimension-mismatch']


def run(ctx):
    from Patro.GeometryEngine.Vector import Vector2D, HomogeneousVector2D
    from Patro.GeometryEngine.Transformation import (
        Transformation2D, AffineTransformation2D, TransformationType, IncompatibleArrayDimension)

    T = TransformationType

    def rot(t):
        c, s = math.cos(math.radians(t)), math.sin(math.radians(t))
        return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.]])

    def diag(x, y):
        return np.array([[x, 0, 0], [0, y, 0], [0, 0, 1.]])

    def trans(x, y):
        return np.array([[1, 0, x], [0, 1, y], [0, 0, 1.]])

    def near_one(rng):
        return rng.choice([1, -1])*(1 + rng.choice([1, -1])*10**rng.uniform(-6, -3))

    def offset(rng):
        x, y = gen.point(rng)
        return rng.choice([(x, y), (x, y), (x, y), (x, -x), (x, x), (x, 0.), (0., y)])

    def element(rng, affine):
        """(transformation, reference matrix, description)"""
        A = AffineTransformation2D
        L = A if affine else Transformation2D
        kind = rng.choice(['rotation', 'scale', 'scale2', 'identity', 'matrix', 'reflection'] +
                          (['translation', 'rotation_at', 'screen', 'translation', 'rotation_at'] if affine else
                           ['parity', 'xreflection', 'yreflection']))
        if kind == 'rotation':
            t = gen.angle(rng)
            return L.Rotation(t), rot(t), (kind, t)
        elif kind == 'scale':
            k = rng.choice([1, -1, 2, .5, -3., rng.uniform(.1, 5), near_one(rng), 0])
            return (L.Scale(k) if rng.random() < .5 else L.Scale(k, k)), diag(k, k), (kind, k)
        elif kind == 'scale2':
            k, l = rng.choice([1, -1, 2, .5, rng.uniform(.1, 5), near_one(rng), 0]), rng.choice([1, -1, 3, rng.uniform(.1, 5), near_one(rng), 0])
            return L.Scale(k, l), diag(k, l), (kind, k, l)
        elif kind == 'reflection':
            k, l = rng.choice([(1, -1), (-1, 1), (-1, -1)])
            return L.Scale(k, l), diag(k, l), (kind, k, l)
        elif kind == 'identity':
            return L.Identity(), diag(1, 1), (kind,)
        elif kind == 'matrix':
            m = rng.choice([[[1, 0], [0, 1]], [[-1, 0], [0, -1]], [[1, .5], [0, 1]], [[0, -1], [1, 0]], [[2, 0], [0, 2]],
                            [[1, 0], [0, -1]], [[-1, 0], [0, 1]], [[1, 0], [0, 3]], [[2, 0], [0, -2]], [[0, 0], [0, 0]],
                            [[rng.uniform(-3, 3), rng.uniform(-3, 3)], [rng.uniform(-3, 3), rng.uniform(-3, 3)]]])
            r = diag(1, 1)
            r[:2, :2] = m
            if affine and rng.random() < .5:
                r[:2, 2] = offset(rng)
            array = r if affine else r[:2, :2]
            form = rng.randrange(3)
            if form == 0:
                return L(np.array(array)), r, (kind, r.tolist())
            elif form == 1:
                return L(list(array.flat)), r, (kind, r.tolist())
            else:
                return L(L(tuple(array.flat))), r, (kind, r.tolist())
        elif kind == 'parity':
            return L.Parity(), diag(-1, -1), (kind,)
        elif kind == 'xreflection':
            return L.XReflection(), diag(-1, 1), (kind,)
        elif kind == 'yreflection':
            return L.YReflection(), diag(1, -1), (kind,)
        elif kind == 'translation':
            p = rng.choice([(0., 0.), offset(rng), offset(rng)])
            return A.Translation(Vector2D(p)), trans(*p), (kind, p)
        elif kind == 'rotation_at':
            p, t = offset(rng), gen.angle(rng)
            return A.RotationAt(Vector2D(p), t), trans(*p) @ rot(t) @ trans(-p[0], -p[1]), (kind, p, t)
        elif kind == 'screen':
            h = rng.uniform(1, 100)
            return A.Screen(h), np.array([[1, 0, 0], [0, -1, h], [0, 0, 1.]]), (kind, h)

    def close(a, b):
        return np.allclose(np.asarray(a, float), b, rtol=1e-9, atol=1e-9*max(1, np.abs(b).max()))

    def pad(t):
        m = np.array(t.array, dtype=float)
        if m.shape == (2, 2):
            r = np.identity(3)
            r[:2, :2] = m
            return r
        return m

    def observe(t, ref, rng, desc):
        """monitors of one live transformation"""
        A = AffineTransformation2D
        ctx.check(close(pad(t), ref), 'compose', lambda: (desc, t.array.tolist(), ref.tolist()))
        for _ in range(2):
            p = gen.point(rng)
            v = Vector2D(p)
            r = t * v
            e = ref @ np.array([p[0], p[1], 1.])
            s = np.abs(ref).max() * (1 + max(abs(p[0]), abs(p[1])))
            ctx.close_point(r, e, 'action', 1e-9, s, desc)
            ctx.check((v.x, v.y) == tuple(map(float, p)), 'operands-unchanged', desc)
            if t.size == 3:
                # a point or a direction
                h = HomogeneousVector2D(rng.choice([v, p, [round(c) for c in p]]))
                q = h.x, h.y
                w = rng.choice([1, 0, 0, 2])
                if w != 1:
                    h.w = w
                e = ref @ np.array([q[0], q[1], float(w)])
                g = rng.choice([t * h, t * h.clone(), A.Identity() * (t * h), t * (A.Identity() * h)])
                ctx.check(np.allclose(np.asarray(g.v, float), e, rtol=1e-9, atol=1e-9*s) and g.w == w, 'homogeneous', lambda: (desc, q, w, g.v, e))
                ctx.check((h.x, h.y, h.w) == (q[0], q[1], w), 'operands-unchanged', desc)
                h.x = q[0] + .5
                ctx.close_point(t * h.to_vector(), ref @ np.array([q[0] + .5, q[1], 1.]), 'homogeneous', 1e-9, s, desc)
        identity = np.allclose(ref, np.identity(3), rtol=0, atol=1e-9)
        # a claimed identity is skipped by transform(): it must be one
        ctx.check(not t.is_identity or identity, 'identity-sound', lambda: (desc, t.array.tolist()))
        claimed = t.type
        L = ref[:2, :2]
        no_translation = np.allclose(ref[:2, 2], 0, atol=1e-9)
        sound = {
            T.Identity: identity,
            T.Scale: no_translation and np.allclose(L, L[0, 0]*np.identity(2), atol=1e-9),
            T.Shear: no_translation,
            T.Parity: np.allclose(ref, diag(-1, -1), atol=1e-9),
            T.XParity: np.allclose(ref, diag(-1, 1), atol=1e-9),
            T.YParity: np.allclose(ref, diag(1, -1), atol=1e-9),
            T.Rotation: no_translation and np.allclose(L @ L.T, np.identity(2), atol=1e-9) and np.linalg.det(L) > 0,
            T.Translation: np.allclose(L, np.identity(2), atol=1e-9),
            T.Generic: True,
        }
        ctx.check(claimed in sound and bool(sound[claimed]), 'type-sound', lambda: (desc, str(claimed), t.array.tolist()))
        # lengths
        k = rng.choice([1, 1, -1])*rng.uniform(.1, 10)
        g = L.T @ L
        det = abs(np.linalg.det(L))
        if det > 1e-6:
            # normalised distance to a similarity
            d = np.abs(g/det - np.identity(2)).max()
            if d < 1e-10:
                try:
                    got = t * k
                except ValueError:
                    ctx.check(False, 'scalar', lambda: (desc, 'a similarity is said to be sheared'))
                else:
                    ctx.close(got, math.sqrt(det)*k, 'scalar', 1e-6, detail=desc)
            elif d > 1e-2:
                ctx.raises(ValueError, lambda: t * k, 'scalar-sheared', desc)

    def word(rng):
        affine = rng.random() < .6
        n = rng.choice([1, 1, 2, 2, 3, 4, 6])
        es = [element(rng, affine) for _ in range(n)]
        if n >= 2 and rng.random() < .3:
            es[1] = element(rng, affine) if rng.random() < .3 else es[0]
        desc = [e[2] for e in es]
        ctx.note(affine=affine, word=desc, trivial=all(d[0] == 'identity' for d in desc))
        for t, r, d in es:
            observe(t, r, rng, d)
        # t1 * t2 * ... acts as t1(t2(...))
        before = [e[0].array.copy() for e in es]
        t, ref = es[0][0], es[0][1]
        for t2, r2, d2 in es[1:]:
            t = t * t2
            ref = ref @ r2
            observe(t, ref, rng, desc)
        ctx.check(all((b == e[0].array).all() for b, e in zip(before, es)), 'operands-unchanged', desc)
        # t *= t2 is t2 after t; the clone source stays untouched
        t = es[0][0].__class__(es[0][0])
        ref = es[0][1]
        for t2, r2, d2 in es[1:]:
            t *= t2
            ref = r2 @ ref
            ctx.check(close(pad(t), ref), 'compose-inplace', lambda: (desc, t.array.tolist()))
            observe(t, ref, rng, ('*=', desc))
        ctx.check(all((b == e[0].array).all() for b, e in zip(before, es)), 'operands-unchanged', ('*=', desc))
        # points through the word one by one = through the composition
        if n > 1:
            p = Vector2D(gen.point(rng))
            t = es[0][0]
            for e in es[1:]:
                t = t * e[0]
            q = p
            for e in reversed(es):
                q = e[0] * q
            r = t * p
            s = max(1, abs(q.x), abs(q.y), np.abs(t.array).max()*(1 + abs(p.x) + abs(p.y)))
            ctx.close_point(r, q, 'compose', 1e-7, s*10, desc)

    def independent(rng):
        """the results of the products and of the constructors don't share their coefficients with the operands"""
        affine = rng.random() < .6
        (a, ra, da), (b, rb, db) = element(rng, affine), element(rng, affine)
        L = AffineTransformation2D if affine else Transformation2D
        identity = L.Identity()
        desc = (da, db)
        ctx.note(affine=affine, word=desc, trivial=False)
        A, B = a.array.copy(), b.array.copy()
        u = L.Identity()
        u *= b
        results = [('a*b', lambda: a * b), ('a*1', lambda: a * identity), ('1*a', lambda: identity * a),
                   ('copy', lambda: L(a)), ('1*=b', lambda: u), ('array', lambda: L(a.array)),
                   ('a*a', lambda: a * a), ('identity', L.Identity)]
        rng.shuffle(results)
        for name, f in results:
            t = f()
            before = t.array.copy()
            c, rc, dc = element(rng, affine)
            if rng.random() < .5:
                t *= c
                ctx.check(close(t.array, c.array @ before), 'compose-inplace', lambda: (name, desc, dc))
            else:
                t.array[...] = rng.uniform(-9, 9)
            for operand, array in ((a, A), (b, B), (identity, np.identity(identity.size))):
                ctx.check((operand.array == array).all(), 'operands-unchanged',
                          lambda: (name, 'a modification of the result modifies an operand', desc, dc))
            ctx.check((L.Identity().array == np.identity(identity.size)).all() and L.Identity().is_identity, 'operands-unchanged', 'identity')
            observe(L(a), ra, rng, da)
        if affine:
            t = L(a)
            t.translation_part[...] = gen.point(rng)
            t.matrix_part[...] = 3.5
            ctx.check((a.array == A).all(), 'operands-unchanged', lambda: ('parts', desc))

    def again(rng):
        """a transformation which acted and was then modified is as a new one"""
        affine = rng.random() < .6
        L = AffineTransformation2D if affine else Transformation2D
        t, ref, d = element(rng, affine)
        t = L(t)
        log = [d]
        ctx.note(affine=affine, word=log, trivial=False)
        vectors = [Vector2D(gen.point(rng)), Vector2D(1, 0)]
        c0, _, _ = element(rng, affine)
        for _ in range(rng.randint(1, 3)):
            table = [('__mul__', (v,)) for v in vectors] + [('__mul__', (c0,)), ('__mul__', (2.5,)), ('__mul__', (t.__class__.Identity(),))]
            battery.calls(t, table)
            observe(t, pad(t), rng, log)
            c, rc, dc = element(rng, affine)
            t *= c
            log.append(dc)
            observe(t, pad(t), rng, log)
            if np.abs(t.array).max() < 1e6:
                for v in vectors:
                    e = t.array @ np.array([v.x, v.y] + [1.]*(t.size == 3))
                    ctx.close_point(t * v, e[:2], 'again', 1e-9, np.abs(t.array).max()*(1 + abs(v.x) + abs(v.y)), log)
                e = t.array @ c0.array
                ctx.check(np.allclose((t * c0).array, e, rtol=1e-9, atol=1e-9*np.abs(t.array).max()*np.abs(c0.array).max()), 'again', lambda: log)

    def lengths(rng):
        """lengths under similarities and sheared frames of any magnitude"""
        m = 10**rng.uniform(-6, 6)
        affine = rng.random() < .5
        L = AffineTransformation2D if affine else Transformation2D
        t = gen.angle(rng)
        k = rng.choice([1, -1])*rng.uniform(.1, 10)
        ratio = rng.choice([1, 1, -1, -1, 2, 1.1, .3, -3, 0])
        scale = L.Scale(m, m*ratio)
        other = rng.choice([None, 'before', 'after', 'both'])
        ctx.note(m=m, t=t, k=k, ratio=ratio, other=other, affine=affine, trivial=False)
        T_ = scale
        if other in ('before', 'both'):
            T_ = T_ * L.Rotation(t)
        if other in ('after', 'both'):
            T_ = L.Rotation(t) * T_
        if affine and rng.random() < .5:
            T_ = L.Translation(Vector2D(gen.point(rng))) * T_
        if abs(ratio) == 1:
            ctx.close(T_ * k, m*k, 'scalar', 1e-9, m, (m, ratio, t, other))
        else:
            ctx.raises(ValueError, lambda: T_ * k, 'scalar-sheared', (m, ratio, t, other))

    def rotation_at(rng):
        c, p, t = offset(rng), gen.point(rng), gen.angle(rng)
        ctx.note(c=c, p=p, t=t)
        C = Vector2D(c)
        T_ = AffineTransformation2D.RotationAt(C, t)
        ctx.close_point(T_ * C, c, 'rotation-at', 1e-9, 1)
        q = T_ * Vector2D(p)
        r = math.hypot(p[0]-c[0], p[1]-c[1])
        s = max(1, *map(abs, c + p))
        ctx.close(math.hypot(q.x-c[0], q.y-c[1]), r, 'rotation-at', 1e-9, s)
        a = math.radians(t)
        dx, dy = p[0]-c[0], p[1]-c[1]
        ctx.close_point(q, (c[0]+math.cos(a)*dx-math.sin(a)*dy, c[1]+math.sin(a)*dx+math.cos(a)*dy), 'rotation-at', 1e-9, s)
        ctx.check((C.x, C.y) == c, 'operands-unchanged', 'center')
        ctx.equal(bool(T_.is_identity), False, 'identity-sound') if abs((t+180) % 360 - 180) > 1e-3 else None
        k = rng.uniform(.1, 10)
        ctx.close(T_ * k, k, 'scalar', 1e-9, detail='rotation at a point')

    def shape(rng):
        ctx.note(trivial=True)
        for cls, n in ((Transformation2D, 2), (AffineTransformation2D, 3)):
            t = cls.Identity()
            ctx.equal((t.dimension, t.size, t.is_identity), (2, n, True), 'shape')
            ctx.equal(t.to_list(), list(np.identity(n).flat), 'shape')
            ctx.equal(cls(7.).array.tolist(), [[7.]*n]*n, 'ctor')
            m = np.arange(n*n, dtype=float).reshape(n, n)
            ctx.check((cls(m).array == m).all(), 'ctor')
            t = cls(m)
            m[0, 0] = 99
            ctx.check(t.array[0, 0] == 0, 'ctor', 'the constructor aliases its argument')
            ctx.raises(IncompatibleArrayDimension, lambda: cls(np.identity(n+2)), 'dimension-mismatch')
            ctx.raises(IncompatibleArrayDimension, lambda: cls([1, 2, 3]), 'dimension-mismatch')
        ctx.raises(IncompatibleArrayDimension, lambda: Transformation2D(AffineTransformation2D.Identity()), 'dimension-mismatch')
        ctx.raises(IncompatibleArrayDimension, lambda: AffineTransformation2D(Transformation2D.Identity()), 'dimension-mismatch')

    ctx.cases('word', word, 2500, 60000)
    ctx.cases('independent', independent, 600, 20000)
    ctx.cases('again', again, 400, 12000)
    ctx.cases('lengths', lengths, 600, 20000)
    ctx.cases('rotation_at', rotation_at, 1500, 30000)
    ctx.cases('shape', shape, 3, 3)
