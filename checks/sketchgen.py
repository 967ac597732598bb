"""Random sketches with their shadow: expressions as trees, geometry in plain floats"""
import math

# attributes naming points, in the order of the constructors, and their name in a .val file
REFS = dict(
    SinglePoint={},
    EndLinePoint=dict(base_point='basePoint'),
    AlongLinePoint=dict(first_point='firstPoint', second_point='secondPoint'),
    NormalPoint=dict(first_point='firstPoint', second_point='secondPoint'),
    LineIntersectPoint=dict(point1_line1='p1Line1', point2_line1='p2Line1', point1_line2='p1Line2', point2_line2='p2Line2'),
    PointOfContact=dict(first_point='firstPoint', second_point='secondPoint', center='center'),
    PointOfIntersection=dict(first_point='firstPoint', second_point='secondPoint'),
    Line=dict(first_point='firstPoint', second_point='secondPoint'),
    SimpleInteractiveSpline=dict(first_point='point1', second_point='point4'),
)
# positional order of the arguments between the name and the label offset
ARGS = dict(
    SinglePoint=['x', 'y'],
    EndLinePoint=['base_point', 'angle', 'length'],
    AlongLinePoint=['first_point', 'second_point', 'length'],
    NormalPoint=['first_point', 'second_point', 'angle', 'length'],
    LineIntersectPoint=['point1_line1', 'point2_line1', 'point1_line2', 'point2_line2'],
    PointOfContact=['first_point', 'second_point', 'center', 'radius'],
    PointOfIntersection=['first_point', 'second_point'],
    Line=['first_point', 'second_point'],
    SimpleInteractiveSpline=['first_point', 'second_point', 'angle1', 'length1', 'angle2', 'length2'],
)
TYPES = dict(SinglePoint='single', EndLinePoint='endLine', AlongLinePoint='alongLine', NormalPoint='normal', LineIntersectPoint='lineIntersect',
             PointOfContact='pointOfContact', PointOfIntersection='pointOfIntersection', SimpleInteractiveSpline='simpleInteractive')
POINT_STYLED = ('EndLinePoint', 'AlongLinePoint', 'NormalPoint')
STYLED = POINT_STYLED + ('Line', 'SimpleInteractiveSpline')
STYLES = dict(none='NoPen', hair='SolidLine', dashLine='DashLine', dotLine='DotLine', dashDotLine='DashDotLine', dashDotDotLine='DashDotDotLine')
COLOURS = ['black', 'blue', 'cornflowerblue', 'darkBlue', 'darkGreen', 'darkRed', 'darkviolet', 'deeppink', 'deepskyblue', 'goldenrod', 'green', 'lightsalmon',
           'lime', 'mediumseagreen', 'orange', 'violet', 'yellow']
NAMES = ['A', 'A1', 'A10', 'A11', 'A2', 'Ap', 'Aq', 'B', 'B1', 'Bb', 'C', 'D', 'E', 'F', 'X', 'XY', 'Y', 'a', 'b', 'x', 'P', 'P1', 'P10', 'Ct', 'Sh', 'é', 'Ω1', 'L', 'Line1', 'Spl1', 'T', 'Td1']


class E:
    """An expression and its shadow"""

    def __init__(self, text, value, deps=(), soft=False, turn=False, names=()):
        self.text, self.value, self.deps, self.soft, self.turn, self.names = text, value, set(deps), soft, turn, set(names)

    def __repr__(self):
        return '%s = %.6g' % (self.text, self.value)


def polar(angle, r=1.):
    a = math.radians(angle)
    return (r*math.cos(a), r*math.sin(a))


def add(a, b):
    return (a[0] + b[0], a[1] + b[1])


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1])


def bezier_length(P, n=4000):
    total, previous = 0., P[0]
    for i in range(1, n+1):
        t = i/n
        u = 1 - t
        b = (u**3, 3*u*u*t, 3*u*t*t, t**3)
        p = (sum(k*q[0] for k, q in zip(b, P)), sum(k*q[1] for k, q in zip(b, P)))
        total += math.dist(previous, p)
        previous = p
    return total


class Model:

    def __init__(self, rng, measures=None, names=None):
        self.rng = rng
        self.measures = measures or {} # text -> value
        self.points = {} # name -> (x, y)
        self.soft = set() # names of the points known with a coarse tolerance
        self.splines = {} # (name, name) -> dict
        self.ops = []
        self.available = list(names) if names is not None else rng.sample(NAMES, len(NAMES))

    # expressions ####################################################################################

    def pair(self, least=1.):
        for _ in range(10):
            if len(self.points) < 2:
                return None
            a, b = self.rng.sample(list(self.points), 2)
            if math.dist(self.points[a], self.points[b]) > least:
                return a, b

    def number(self, lo, hi):
        rng = self.rng
        v = rng.uniform(lo, hi)
        k = rng.random()
        if k < .4:
            v = round(v)
            s = str(v)
        elif k < .8:
            v = round(v, rng.randint(1, 4))
            s = repr(v)
            if s.startswith('0.') and rng.random() < .5:
                s = s[1:]
        elif k < .9:
            s = repr(v)
        else:
            s = '%.4e' % v
            v = float(s)
        return s, float(v)

    def function(self, names):
        """one of the functions named"""
        rng = self.rng
        f = rng.choice(names)
        if f in ('Line', 'AngleLine'):
            p = self.pair()
            if p is None:
                return None
            a, b = p
            d = sub(self.points[b], self.points[a])
            v = math.hypot(*d) if f == 'Line' else math.degrees(math.atan2(d[1], d[0]))
            return E('%s_%s_%s' % (f, a, b), v, [a, b], bool({a, b} & self.soft), f == 'AngleLine')
        if not self.splines:
            return None
        (a, b), s = rng.choice(list(self.splines.items()))
        soft = s['soft']
        if f == 'Spl':
            v, soft = bezier_length(s['control']), True
        else:
            v = s['values'][dict(Angle1Spl='angle1', Angle2Spl='angle2', C1LengthSpl='length1', C2LengthSpl='length2')[f]]
        return E('%s_%s_%s' % (f, a, b), v, [a, b, (a, b)], soft, f.startswith('Angle') and s['turn'])

    def atom(self, segment):
        rng = self.rng
        for _ in range(10):
            k = rng.random()
            if k < .35 and self.measures:
                n = rng.choice(list(self.measures))
                return E(n, self.measures[n], names=[n])
            if k < .6:
                e = self.function(['Line', 'Line', 'Spl', 'C1LengthSpl', 'C2LengthSpl'])
                if e is not None and abs(e.value) > .5:
                    return e
            elif k < .7 and segment is not None:
                return E('CurrentLength', segment[0], soft=segment[1])
            else:
                break
        s, v = self.number(.5, 40)
        return E(s, v)

    def tree(self, depth, segment):
        if depth == 0 or self.rng.random() < .25:
            return self.atom(segment), None
        rng = self.rng
        if rng.random() < .12:
            a, o = self.tree(depth-1, segment)
            return E('-' + (self.wrap(a.text) if o else a.text), -a.value, a.deps, a.soft, names=a.names), 'neg'
        op = rng.choice('+-*/')
        a, oa = self.tree(depth-1, segment)
        b, ob = self.tree(depth-1, segment)
        if op == '/' and abs(b.value) < .5:
            op = '*'
        v = a.value + b.value if op == '+' else a.value - b.value if op == '-' else a.value*b.value if op == '*' else a.value/b.value
        ta, tb = a.text, b.text
        if (oa in ('+', '-') and op in '*/') or rng.random() < .1:
            ta = self.wrap(ta)
        if ob == 'neg' or (ob in ('+', '-') and op in '*/-') or (ob in ('*', '/') and op in '*/') or rng.random() < .1:
            tb = self.wrap(tb)
        sp = rng.choice(['', '', ' '])
        return E(ta + sp + op + sp + tb, v, a.deps | b.deps, a.soft or b.soft, names=a.names | b.names), op

    def wrap(self, s):
        return '(' + s + ')' if self.rng.random() < .9 else '( ' + s + ' )'

    def length(self, segment=None, lo=1., hi=80., positive=False, depth=None):
        for _ in range(12):
            e = self.tree(self.rng.choice([0, 1, 1, 2, 3]) if depth is None else depth, segment)[0]
            if lo <= abs(e.value) <= hi and (e.value > 0 or not positive):
                return e
        s, v = self.number(lo + 1, min(hi, 30))
        return E(s, v)

    def angle(self):
        rng = self.rng
        if rng.random() < .4:
            s, v = self.number(-360, 360) if rng.random() < .7 else rng.choice([('0', 0.), ('90', 90.), ('180', 180.), ('360', 360.), ('-90', -90.), ('270', 270.), ('450', 450.)])
            return E(s, v)
        text, value, deps, soft, turn, names = '', 0., set(), False, False, set()
        for i in range(rng.randint(1, 3)):
            e = self.function(['AngleLine', 'AngleLine', 'Angle1Spl', 'Angle2Spl']) if rng.random() < .6 else None
            if e is None:
                e = E(*self.number(1, 180))
                if self.measures and rng.random() < .3:
                    n = rng.choice(list(self.measures))
                    e = E(n, self.measures[n], names=[n])
            sign = rng.choice('+-') if text or rng.random() < .2 else ''
            if sign == '+' and not text:
                sign = ''
            sp = rng.choice(['', ' '])
            text += sp + sign + sp + e.text if text else sign + e.text
            value += -e.value if sign == '-' else e.value
            deps |= e.deps
            soft, turn, names = soft or e.soft, turn or e.turn, names | e.names
        return E(text, value, deps, soft, turn, names)

    # operations #####################################################################################

    def step(self, kinds=None, soft=True):
        """Append a random operation, return it"""
        rng = self.rng
        for _ in range(40):
            kind = rng.choice(kinds or ['SinglePoint', 'EndLinePoint', 'EndLinePoint', 'AlongLinePoint', 'AlongLinePoint', 'NormalPoint', 'NormalPoint', 'LineIntersectPoint',
                                        'PointOfContact', 'PointOfIntersection', 'Line', 'SimpleInteractiveSpline'])
            op = self.try_step(kind)
            if op is None or (op['soft'] and not soft):
                continue
            if op['name'] is not None:
                x, y = op['at']
                if abs(x) > 400 or abs(y) > 400:
                    continue
                self.available.remove(op['name'])
                self.points[op['name']] = op['at']
                if op['soft']:
                    self.soft.add(op['name'])
                r = rng.random()
                op['offset'] = None if r < .05 else (0., 0.) if r < .15 else (round(rng.uniform(-3, 3), 4), rng.uniform(-3, 3)) if r < .8 else (rng.choice([0., .132]), rng.choice([.5, -.264]))
            if kind in STYLED:
                op['style'], op['color'] = rng.choice(list(STYLES)), rng.choice(COLOURS)
            if kind == 'SimpleInteractiveSpline':
                self.splines[(op['refs']['first_point'], op['refs']['second_point'])] = op
            self.ops.append(op)
            return op
        if kinds and 'SinglePoint' not in kinds:
            return None
        return self.step(['SinglePoint'])

    def try_step(self, kind):
        rng = self.rng
        P = self.points
        if kind not in ('Line', 'SimpleInteractiveSpline') and not self.available:
            return None
        op = dict(kind=kind, name=None, refs={}, exprs={}, at=None, offset=None, style=None, color=None, soft=False, id=None)
        if kind not in ('Line', 'SimpleInteractiveSpline'):
            op['name'] = rng.choice(self.available)
        x = op['exprs']
        names = list(REFS[kind])
        if kind == 'SinglePoint':
            for k in 'xy':
                if rng.random() < .5:
                    s, v = self.number(-100, 100)
                    x[k] = E(s, v)
                else:
                    x[k] = self.length()
            op['at'] = (x['x'].value, x['y'].value)
        elif not P:
            return None
        elif kind == 'EndLinePoint':
            op['refs'] = dict(base_point=rng.choice(list(P)))
            x['angle'], x['length'] = self.angle(), self.length()
            op['at'] = add(P[op['refs']['base_point']], polar(x['angle'].value, x['length'].value))
        else:
            pair = self.pair()
            if pair is None:
                return None
            a, b = P[pair[0]], P[pair[1]]
            d = sub(b, a)
            n = math.hypot(*d)
            op['refs'] = dict(first_point=pair[0], second_point=pair[1])
            segment = (n, bool(set(pair) & self.soft))
            if kind == 'AlongLinePoint':
                x['length'] = self.length(segment)
                k = x['length'].value/n
                op['at'] = add(a, (d[0]*k, d[1]*k))
            elif kind == 'NormalPoint':
                x['angle'] = E('0', 0.) if rng.random() < .3 else self.angle()
                x['length'] = self.length(segment)
                c, s = polar(x['angle'].value)
                u = (-d[1]/n, d[0]/n)
                u = (u[0]*c - u[1]*s, u[0]*s + u[1]*c)
                k = x['length'].value
                op['at'] = add(a, (u[0]*k, u[1]*k))
            elif kind == 'PointOfIntersection':
                op['at'] = (a[0], b[1])
            elif kind == 'LineIntersectPoint':
                other = self.pair()
                if other is None:
                    return None
                op['refs'] = dict(point1_line1=pair[0], point2_line1=pair[1], point1_line2=other[0], point2_line2=other[1])
                c, e = P[other[0]], sub(P[other[1]], P[other[0]])
                cross = d[0]*e[1] - d[1]*e[0]
                if abs(cross) < .3*n*math.hypot(*e):
                    return None
                t = ((c[0]-a[0])*e[1] - (c[1]-a[1])*e[0])/cross
                if abs(t) > 6 or min(n, math.hypot(*e)) < 5:
                    return None
                op['at'] = add(a, (d[0]*t, d[1]*t))
            elif kind == 'PointOfContact':
                # a single contact, away from the ends of the segment
                center = rng.choice(list(P))
                op['refs']['center'] = center
                x['radius'] = self.length(positive=True)
                ts = contacts(a, b, P[center], x['radius'].value)
                if ts is None:
                    return None
                inside = [t for t in ts if .03 < t < .97]
                outside = [t for t in ts if t < -.03 or t > 1.03]
                if len(inside) != 1 or len(outside) != 1:
                    return None
                op['at'] = add(a, (d[0]*inside[0], d[1]*inside[0]))
            elif kind == 'SimpleInteractiveSpline':
                if pair in self.splines:
                    return None
                for i in '12':
                    x['angle'+i], x['length'+i] = self.angle(), self.length(positive=rng.random() < .9)
                op['values'] = {k: e.value for k, e in x.items()}
                op['control'] = [a, add(a, polar(x['angle1'].value, x['length1'].value)), add(b, polar(x['angle2'].value, x['length2'].value)), b]
                op['turn'] = x['angle1'].turn or x['angle2'].turn
        op['soft'] = any(e.soft for e in x.values()) or bool(set(op['refs'].values()) & self.soft)
        return op

    def soft_step(self):
        """a point at a distance given by the length of a curve"""
        rng = self.rng
        op = self.try_step(rng.choice(['EndLinePoint', 'NormalPoint']))
        e = self.function(['Spl'])
        if op is None or op['soft'] or e is None or abs(e.value) > 300:
            return None
        k, c = rng.randint(1, 3), rng.randint(0, 9)
        a = self.points[op['refs'].get('base_point') or op['refs']['first_point']]
        u = sub(op['at'], a)
        v = e.value/k + c
        s = v/op['exprs']['length'].value
        op['exprs']['length'] = E('%s/%d + %d' % (e.text, k, c), v, e.deps, True)
        op['at'] = add(a, (u[0]*s, u[1]*s))
        op['soft'] = True
        self.available.remove(op['name'])
        self.points[op['name']] = op['at']
        self.soft.add(op['name'])
        op['offset'], op['style'], op['color'] = (1., 1.), 'hair', 'black'
        self.ops.append(op)
        return op

    def deps(self, op):
        """names and splines an operation refers to"""
        out = set(op['refs'].values())
        for e in op['exprs'].values():
            out |= e.deps
        return out

    def build(self, n, soft=False, **kwargs):
        for _ in range(n):
            self.step(['SinglePoint'] if not self.points else kwargs.get('kinds'), soft=False)
        if soft and self.rng.random() < .4:
            self.soft_step()
        return self


def contacts(a, b, c, r):
    """abscissae of the contacts of a line and a circle, None when nearly tangent"""
    d = sub(b, a)
    n2 = d[0]**2 + d[1]**2
    t0 = ((c[0]-a[0])*d[0] + (c[1]-a[1])*d[1])/n2
    h = math.dist(add(a, (d[0]*t0, d[1]*t0)), c)
    if h > .95*r:
        return None
    w = math.sqrt((r*r - h*h)/n2)
    return t0 - w, t0 + w


def measures(rng, cls):
    """a Valentina measurement set and the values of the names of an expression"""
    s = cls()
    names = ['waist', 'waist_circ', 'waist_circ_front', '@waist', '@waist_2', '@waist_circ', 'hip', '@h', 'height_neck_back', 'neck', '@neckline', '@x', 'bust_arc_f', 'Spline_A_B', 'e1', '@Line']
    values = {}
    for n in rng.sample(names, rng.randint(0, 8)):
        v = rng.choice([rng.randint(2, 60), round(rng.uniform(1, 60), 2)])
        if values and rng.random() < .25:
            m = rng.choice(list(values))
            s.add(n, m + ' + %s' % v if values[m] < 40 else m + '/2')
            values[n] = values[m] + v if values[m] < 40 else values[m]/2
        else:
            s.add(n, v if rng.random() < .5 else str(v))
            values[n] = float(v)
    return s, values
