"""C21 -- expressions of a sketch"""
import math
import sketchgen

PID = 'C21'
QUICK_FACTOR = 2
RULE = ('arithmetic expressions over measurements, custom measurements and the functions of the points and curves of a sketch, evaluated by the calculator of '
        'the sketch and by a shadow tree evaluator; non-trivial: the expression names something')
ASSUMPTIONS = ['expressions are arithmetic (+ - * / and parentheses)', 'measurements are defined before the scope', 'point names have no underscore']
MONITORS = ['value', 'angle', 'spline-length', 'again', 'dependencies', 'dependencies-missing', 'dependencies-extra', 'current', 'dirty', 'undefined', 'unknown-point', 'is-float', 'text', 'scope', 'defined-later', 'current-leak', 'kept', 'unknown-curve']


def run(ctx):
    import Patro.Pattern
    from Patro.Pattern.Pattern import Pattern
    from Patro.Pattern.Calculator import Calculator, Expression, NamedExpression
    from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
    from Patro.GeometryEngine.Vector import Vector2D as V

    def add(sketch, op):
        k = op['kind']
        if k == 'SinglePoint':
            return sketch.SinglePoint(op['name'], op['exprs']['x'].text, op['exprs']['y'].text, V(0, 0))
        x = op['exprs']
        return sketch.SimpleInteractiveSpline(op['refs']['first_point'], op['refs']['second_point'], x['angle1'].text, x['length1'].text, x['angle2'].text, x['length2'].text)

    def world(rng, n=None):
        s, values = sketchgen.measures(rng, ValentinaMeasurements)
        m = sketchgen.Model(rng, values)
        m.build(n or rng.randint(3, 8), kinds=['SinglePoint', 'SinglePoint', 'SimpleInteractiveSpline'])
        pattern = Pattern(s, 'cm')
        sketch = pattern.add_scope('piece').sketch
        real = {}
        for op in m.ops:
            o = add(sketch, op)
            key = op['name'] or (op['refs']['first_point'], op['refs']['second_point'])
            real[key] = o
        sketch.eval()
        return m, sketch, real

    def compare(e, got, monitor='value', angle=False):
        if e.soft:
            ctx.close(got, e.value, 'spline-length' if monitor == 'value' else monitor, tol=2e-3, scale=10., detail=e.text)
        elif angle:
            ctx.check(isinstance(got, (int, float)) and abs((got - e.value + 180) % 360 - 180) < 1e-7*max(1, abs(e.value)), monitor, lambda: (e.text, got, e.value))
        else:
            ctx.close(got, e.value, monitor, tol=1e-9, scale=1., detail=e.text)

    def dependencies(e, x, real):
        got = x.dependencies
        if not ctx.check(got is not None, 'dependencies'):
            return
        got = {id(o): o for o in got}
        want = set()
        allowed = set()
        for d in e.deps:
            allowed.add(id(real[d]))
        spline = {d for d in e.deps if isinstance(d, tuple)}
        ends = {n for d in spline for n in d}
        for d in e.deps:
            if d in ends and not line_names(e, d):
                continue # implied by the spline
            want.add(id(real[d]))
        ctx.check(want <= set(got), 'dependencies-missing', lambda: (e.text, list(got.values())))
        ctx.check(set(got) <= allowed, 'dependencies-extra', lambda: (e.text, list(got.values())))

    def line_names(e, name):
        import re
        for f, a, b in re.findall(r'(?<![\w@])(Line|AngleLine)_([^\W_]+)_([^\W_]+)(?!\w)', e.text):
            if name in (a, b):
                return True
        return False

    def expressions(rng):
        m, sketch, real = world(rng)
        calc = sketch.calculator
        for _ in range(8):
            segment = None
            r = rng.random()
            if r < .3 and len(m.points) > 1:
                e, angle = m.angle(), True
            else:
                angle = False
                if r < .5:
                    v = (rng.uniform(-20, 20), rng.uniform(2, 20))
                    segment = (math.hypot(*v), False)
                e = m.length(segment, lo=1e-3, hi=1e6)
            ctx.note(**{'e%d' % _: e.text})
            x = Expression(e.text, calc) if rng.random() < .7 else NamedExpression('n', e.text, calc)
            if segment:
                calc.set_current_segment(V(*v))
            compare(e, x.value, 'angle' if angle else 'value', angle)
            first = x.value
            ctx.check(x.value == first, 'again')
            ctx.check(x.expression == e.text and str(x) == e.text and getattr(x, 'name', 'n') == 'n', 'text')
            dependencies(e, x, real)
            if segment:
                k = rng.uniform(2, 5)
                calc.set_current_segment(V(v[0]*k, v[1]*k))
                ctx.check(x.value == first, 'current', 'a value is kept until it is dirty')
                x.set_dirty()
                ctx.check((abs(x.value - first) > 1e-9*abs(first)) if e.text == 'CurrentLength' else True, 'dirty')
                if e.text == 'CurrentLength':
                    ctx.close(x.value, segment[0]*k, 'current', tol=1e-12)
                calc.set_current_segment(V(*v))
                x.set_dirty()
                compare(e, x.value, 'current')
                calc.unset_current_segment()
            else:
                x.set_dirty()
                ctx.check(x.value == first, 'dirty')
                dependencies(e, x, real)
            # another expression of the same text
            if rng.random() < .3:
                y = Expression(e.text, calc)
                if segment is None:
                    ctx.check(y.value == x.value, 'again')

    def current(rng):
        """the same expression on several segments"""
        m, sketch, real = world(rng, 4)
        calc = sketch.calculator
        k, c = rng.randint(1, 5), rng.randint(0, 9)
        text = rng.choice(['CurrentLength/%d + %d', '(CurrentLength)/%d+%d', '+CurrentLength / %d+%d'])
        x = Expression(text % (k, c), calc)
        ctx.note(text=text, k=k, c=c)
        for _ in range(4):
            v = (rng.uniform(-50, 50), rng.uniform(-50, 50))
            calc.set_current_segment(V(*v))
            x.set_dirty()
            ctx.close(x.value, math.hypot(*v)/k + c, 'current', tol=1e-12)
            calc.unset_current_segment()

    def kept(rng):
        """a value, whatever it is, is kept until the expression is dirty"""
        m, sketch, real = world(rng, 3)
        calc = sketch.calculator
        a, b = rng.choice([(0., 5.), (5., 0.), (0., -1.), (-2.5, 3.), (1., 2.)])
        calc.cache['quantity'] = a
        template, f = rng.choice([('quantity', lambda q: q), ('2*quantity', lambda q: 2*q), ('quantity - 5', lambda q: q - 5), ('-quantity + 1', lambda q: 1 - q)])
        x = Expression(template, calc)
        ctx.note(text=template, a=a, b=b)
        ctx.equal(x.value, f(a), 'again')
        calc.cache['quantity'] = b
        ctx.equal(x.value, f(a), 'kept', template)
        x.set_dirty()
        ctx.equal(x.value, f(b), 'kept', template)
        ctx.equal(x.value, f(b), 'kept', template)
        del calc.cache['quantity']
        ctx.equal(x.value, f(b), 'kept', template)
        x.set_dirty()
        ctx.check(x.value is None, 'undefined', template)

    def current_in_sketch(rng):
        """the current length in a sketch: the one of the operation which has a segment, and of no other"""
        pattern = Pattern(ValentinaMeasurements(), 'cm')
        sketch = pattern.add_scope('piece').sketch
        a, b = [(rng.randint(-50, 50), rng.randint(-50, 50)) for _ in range(2)]
        if a == b:
            return
        sketch.SinglePoint('A', a[0], a[1], V(0, 0))
        sketch.SinglePoint('B', b[0], b[1], V(0, 0))
        k, c = rng.randint(2, 6), rng.randint(0, 4)
        d = math.dist(a, b)
        uses = []
        for i in range(rng.randint(1, 3)):
            pair = rng.choice(['AB', 'BA'])
            o = sketch.AlongLinePoint('P%d' % i, pair[0], pair[1], 'CurrentLength/%d + %d' % (k + i, c), V(0, 0))
            uses.append((o, d/(k + i) + c))
        if rng.random() < .5:
            sketch.eval()
        text = rng.choice(['CurrentLength', '2*CurrentLength', 'CurrentLength/2 + 1'])
        base = rng.choice(['A', 'B', 'P0'])
        kind = rng.randrange(3)
        if kind == 0:
            last = sketch.EndLinePoint('new', base, 30, text, V(0, 0))
        elif kind == 1:
            last = sketch.EndLinePoint('new', base, text, 4, V(0, 0))
        else:
            last = sketch.SinglePoint('new', text, 4, V(0, 0))
        ctx.note(text=text, kind=kind, a=a, b=b)
        try:
            sketch.eval()
            vector = last.vector
        except Exception:
            vector = None
        ctx.check(vector is None, 'current-leak', lambda: (text, vector))
        for o, e in uses:
            ctx.close(o.length.value, e, 'current', tol=1e-9)

    def undefined(rng):
        m, sketch, real = world(rng)
        calc = sketch.calculator
        missing = rng.choice(['nope', 'wais', 'waist_', 'Line', 'CurrentLengt', 'Line_A', 'A', 'line_A_B', 'hip_', 'Spl', 'hipx', 'Lin_A_B', 'Line_A_B_C'])
        if missing in m.measures:
            return
        e = m.length()
        template = rng.choice(['%s', '%s + 1', '2*(%s)', e.text + ' + %s', '%s - (' + e.text + ')', '%s*%s'])
        text = template.replace('%s', missing)
        ctx.note(text=text)
        x = Expression(text, calc)
        ctx.check(x.value is None and x.value is None, 'undefined', lambda: (text, x.value))
        x.set_dirty()
        ctx.check(x.value is None, 'undefined', lambda: (text, x.value))
        if missing in ('nope', 'wais', 'hipx'):
            # the name is defined later
            v = rng.choice([3., rng.uniform(1, 9)])
            calc.cache[missing] = v
            x.set_dirty()
            value = Expression(template.replace('%s', '(%r)' % v), calc).value
            ctx.check(x.value is not None and abs(x.value - value) <= 1e-9*max(1, abs(value)), 'defined-later', lambda: (text, x.value, value))
            del calc.cache[missing]
            x.set_dirty()
            ctx.check(x.value is None, 'defined-later', lambda: (text, x.value))
        unknown = rng.choice([n for n in sketchgen.NAMES if n not in m.points])
        known = rng.choice(list(m.points))
        f = rng.choice(['Line', 'AngleLine', 'Spl', 'Angle1Spl', 'Angle2Spl', 'C1LengthSpl', 'C2LengthSpl'])
        pair = rng.choice([(unknown, known), (known, unknown)])
        y = Expression('%s_%s_%s' % ((f,) + pair), calc)
        ctx.raises(KeyError, lambda: y.value, 'unknown-point', y.expression)
        # two points which no curve joins in this order
        curves = {tuple(op['refs'].values()) for op in m.ops if op['kind'] == 'SimpleInteractiveSpline'}
        pairs = [(p, q) for p in m.points for q in m.points if (p, q) not in curves]
        if pairs:
            back = [(q, p) for p, q in curves if (q, p) in pairs]
            pair = rng.choice(back or pairs) if rng.random() < .7 else rng.choice(pairs)
            for f in ('Spl', 'Angle1Spl', 'C2LengthSpl'):
                z = Expression('%s_%s_%s' % ((f,) + pair), calc)
                ctx.raises(KeyError, lambda: z.value, 'unknown-curve', z.expression)
        # a name which extends or shortens the one of a measurement
        near = [n + '_' for n in m.measures if not n.startswith('@')] + [n[:-1] for n in m.measures if len(n) > 3 and not n.startswith('@')]
        near = [n for n in near if n not in m.measures and '@' + n not in m.measures]
        if near:
            z = Expression(rng.choice(near) + ' + 1', calc)
            ctx.check(z.value is None, 'undefined', z.expression)
        # a custom measurement which is not defined
        if '@nope' not in m.measures:
            ctx.raises((KeyError, NameError, AttributeError), lambda: Expression('@nope + 1', calc).value, 'unknown-point', '@nope')
        # the calculator is still sound
        compare(e, Expression(e.text, calc).value)
        # names are those of a scope
        other = sketch.pattern._pattern.add_scope('other').sketch if hasattr(sketch.pattern, '_pattern') else None
        if other is not None:
            z = Expression('Line_%s_%s' % tuple(rng.choices(list(m.points), k=2)), other.calculator)
            ctx.raises(KeyError, lambda: z.value, 'scope')
            for n, v in m.measures.items():
                ctx.close(Expression(n, other.calculator).value, v, 'scope', 1e-12, 1, n)

    def floats(rng):
        s, v = sketchgen.Model(rng).number(-1e3, 1e3)
        calc = Calculator(None)
        given = rng.choice([s, v, ' %s ' % s, int(v)])
        ctx.note(given=given)
        x = Expression(given, calc)
        ctx.check(x.is_float(), 'is-float')
        ctx.close(x.value, int(v) if isinstance(given, int) else v, 'value', 1e-12, 1e-3)
        ctx.check(x.expression == str(given), 'text')
        ctx.equal(list(x.dependencies or []), [], 'dependencies')
        y = rng.choice(['1+2', '%s + 1' % s, 'a', '2*3', '(1)', 'Line_A_B', 'CurrentLength', '3 4', '@w', '-x'])
        ctx.check(not Expression(y, calc).is_float(), 'is-float', y)

    ctx.cases('expressions', expressions, 400, 8000)
    ctx.cases('kept', kept, 40, 500)
    ctx.cases('current', current, 60, 1000)
    ctx.cases('current_in_sketch', current_in_sketch, 60, 1000)
    ctx.cases('undefined', undefined, 150, 3000)
    ctx.cases('floats', floats, 300, 5000)
