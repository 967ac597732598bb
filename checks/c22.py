"""C22 -- sketch operations"""
import math
import sketchgen
from sketchgen import REFS, ARGS, STYLES, STYLED, POINT_STYLED

PID = 'C22'
QUICK_FACTOR = 2
RULE = ('random sketches (every operation, references by name, id or object, expressions over measurements, lines and curves) evaluated by the library and by a shadow '
        'geometry; scenes, Python code, dependencies and ids observed; non-trivial: an operation other than a point given by its coordinates')
ASSUMPTIONS = ['well conditioned constructions: points more than 1 apart, lines which cross at more than 17 degrees, a single contact inside the segment or two',
               'names are unique in a scope and have no underscore', 'expressions name operations defined before']
MONITORS = ['vector', 'vector-spline-length', 'contact', 'geometry', 'geometry-copy', 'again', 'control-points', 'dependencies', 'dag', 'topological', 'lookup', 'id', 'duplicate-id', 'unknown',
            'rejected', 'python', 'python-properties', 'scene-point', 'scene-label', 'scene-line', 'scene-curve', 'scene-style', 'scene-box', 'scene-user-data', 'style', 'bounding-box',
            'scopes', 'order', 'properties', 'not-evaluated', 'no-segment']


def run(ctx):
    import Patro.Pattern
    from Patro.Pattern import SketchOperation as SO
    from Patro.Pattern.Pattern import Pattern
    from Patro.Pattern.SketchStyle import DetailSketchStyle
    from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
    from Patro.GeometryEngine.Vector import Vector2D as V
    from Patro.GraphicStyle import StrokeStyle, Color, Colors
    from Patro.GraphicEngine.GraphicScene import GraphicItem as GI
    xy = lambda p: (float(p[0]), float(p[1]))

    def key(op):
        return op['name'] or ('unnamed', id(op))

    def given_style(rng, name):
        return name if rng.random() < .5 else StrokeStyle[STYLES[name]]

    def add(rng, sketch, op, real, id=None):
        """create the operation, as a user does"""
        def ref(name):
            o = real[name]
            return rng.choice([name, o.id, o])
        def value(e):
            k = rng.random()
            try:
                f = float(e.text)
            except ValueError:
                return e.text
            return f if k < .3 else (int(f) if f == int(f) and k < .5 else e.text)
        kind = op['kind']
        named = {}
        if op['name']:
            named['name'] = op['name']
        for a in ARGS[kind]:
            named[a] = ref(op['refs'][a]) if a in op['refs'] else value(op['exprs'][a])
        if op['name']:
            named['label_offset'] = V(*op['offset']) if op['offset'] is not None else None
        args = []
        for a in list(named)[:rng.choice([0, 1, 2, 20])]:
            args.append(named.pop(a))
        if kind in STYLED:
            op['given'] = True
            if rng.random() < .15: # left to the default
                op['given'] = False
            else:
                named['line_style'] = given_style(rng, op['style'])
                named['line_color'] = op['color'] if rng.random() < .5 else Colors.ensure_color(op['color'])
        if id is not None:
            named['id'] = id
        return getattr(sketch, kind)(*args, **named)

    def style_of(op):
        if op['given']:
            return StrokeStyle[STYLES[op['style']]], Colors.ensure_color(op['color'])
        if op['kind'] in POINT_STYLED:
            return None, None
        return StrokeStyle.SolidLine, Colors.black

    def build(rng, sketch, m, real, ids=None):
        for op in m.ops:
            if key(op) in real:
                continue
            id = None
            if ids is not None:
                id = ids.pop()
            o = add(rng, sketch, op, real, id)
            op['id'] = o.id
            if id is not None:
                ctx.equal(o.id, id, 'id')
            real[key(op)] = o
            if op['kind'] == 'SimpleInteractiveSpline':
                real[(op['refs']['first_point'], op['refs']['second_point'])] = o

    def model(rng, n=None, measures=None, soft=True):
        m = sketchgen.Model(rng, measures)
        return m.build(n or rng.randint(3, 14), soft=soft)

    def new(rng):
        s, values = sketchgen.measures(rng, ValentinaMeasurements)
        pattern = Pattern(s, 'cm')
        return pattern, pattern.add_scope('piece'), values

    def vectors(m, real, monitor=None):
        for op in m.ops:
            o = real[key(op)]
            if op['name']:
                mon = monitor or ('vector-spline-length' if op['soft'] else 'contact' if op['kind'] == 'PointOfContact' else 'vector')
                ctx.close_point(o.vector, op['at'], mon, tol=5e-3 if op['soft'] else 1e-7, scale=100, detail=lambda: (op['kind'], op['refs'], op['exprs']))
                ctx.equal((o.name, type(o).__name__), (op['name'], op['kind']), 'properties')
                ctx.check((o.label_offset is None) if op['offset'] is None else (o.label_offset is not None and xy(o.label_offset) == op['offset']), 'properties')
            elif op['kind'] == 'SimpleInteractiveSpline':
                ctx.close_point(o.control_point1, op['control'][1], monitor or 'control-points', 1e-7, 100, lambda: op['exprs'])
                ctx.close_point(o.control_point2, op['control'][2], monitor or 'control-points', 1e-7, 100, lambda: op['exprs'])
            for a, e in op['exprs'].items():
                x = getattr(o, a)
                try:
                    same = x.expression == e.text or float(x.expression) == float(e.text)
                except ValueError:
                    same = False
                ctx.check(same, 'properties', lambda: (a, x.expression, e.text))
            for a, r in op['refs'].items():
                ctx.check(getattr(o, a) is real[r], 'properties', lambda: (a, r))

    def geometries(m, real):
        for op in m.ops:
            o = real[key(op)]
            g = o.geometry()
            if op['name']:
                want, got = [op['at']], [g]
            elif op['kind'] == 'Line':
                want, got = [m.points[op['refs']['first_point']], m.points[op['refs']['second_point']]], list(g.points)
            else:
                want, got = op['control'], list(g.points)
            if ctx.equal(len(got), len(want), 'geometry', op['kind']):
                for p, q in zip(got, want):
                    ctx.close_point(p, q, 'geometry', 5e-3 if op['soft'] else 1e-7, 100, op['kind'])
        op = m.rng.choice(m.ops)
        if op['name']:
            g = real[key(op)].geometry()
            g *= 3
            ctx.close_point(real[key(op)].vector, op['at'], 'geometry-copy', 5e-3 if op['soft'] else 1e-7, 100)

    def graph(m, sketch, real):
        """dependencies of the operations and order of the graph"""
        for op in m.ops:
            o = real[key(op)]
            got = {id(x) for x in o.dependencies}
            all_deps = m.deps(op)
            named = set(op['refs'].values())
            for e in op['exprs'].values():
                ends = {n for d in e.deps if isinstance(d, tuple) for n in d}
                for d in e.deps:
                    if isinstance(d, tuple) or d not in ends:
                        named.add(d)
            want = {id(real[d]) for d in named}
            allowed = {id(real[d]) for d in all_deps}
            ctx.check(want <= got <= allowed, 'dependencies', lambda: (op['kind'], op['refs'], op['exprs'], o.dependencies))
            node = sketch.calculator.dag[id(o)]
            ctx.check(node.data is o, 'dag')
            ctx.check({id(n.data) for n in node.ancestors} == got, 'dag', lambda: (op['kind'], node.ancestors))
        order = [id(n.data) for n in sketch.calculator.dag.topological_sort()]
        rank = {k: i for i, k in enumerate(order)}
        ctx.check(len(order) == len(m.ops) and set(order) == {id(real[key(op)]) for op in m.ops}, 'topological')
        ranks = []
        for op in m.ops:
            o = real[key(op)]
            for d in o.dependencies:
                ranks.append(rank.get(id(o), 0) - rank.get(id(d), 0))
        ctx.check(all(r > 0 for r in ranks) or all(r < 0 for r in ranks), 'topological')

    def lookups(m, sketch, real):
        ctx.check([o for o in sketch.operations] == [real[key(op)] for op in m.ops], 'order')
        for op in m.ops:
            o = real[key(op)]
            ctx.check(sketch.get_operation(o.id) is o and sketch.has_operation_id(o.id), 'lookup')
            if op['name']:
                ctx.check(sketch.get_operation(op['name']) is o, 'lookup')
            ctx.check(o.sketch is sketch, 'lookup')
        # the ids which are not attributed yet
        last = max([0] + [o.id for o in sketch.operations])
        ids = {o.id for o in sketch.operations}
        for i in range(1, last + 4):
            ctx.check(sketch.has_operation_id(i) == (i in ids), 'lookup', lambda: i)

    def box(m, sketch):
        b = sketch.bounding_box
        points = [p for n, p in m.points.items()]
        controls = [p for s in m.splines.values() for p in s['control']]
        curves = []
        import svgref
        for s in m.splines.values():
            curves += [svgref.casteljau(s['control'], i/16) for i in range(17)]
        tol = 1. if m.soft else 1e-5
        for axis, interval in enumerate((b.x, b.y)):
            inner = [p[axis] for p in points + curves]
            outer = [p[axis] for p in points + controls]
            ctx.check(interval.inf <= min(inner) + tol and interval.sup >= max(inner) - tol
                      and interval.inf >= min(outer) - tol and interval.sup <= max(outer) + tol, 'bounding-box', lambda: (b, min(inner), max(inner)))
        return b

    def scene(rng, m, sketch, real):
        style = None
        k = dict(point_size=.2, construction_line_width=1.5, line_width=3, label_line_width=2)
        if rng.random() < .5:
            k = dict(point_size=rng.choice([.1, .5]), construction_line_width=rng.choice([1, 2.5]), line_width=rng.choice([1, 4]), label_line_width=rng.choice([.5, 5]))
            style = DetailSketchStyle(**k)
            s = sketch.detail_scene(style=style)
        else:
            s = sketch.detail_scene()
        items = list(s)
        b, c = s.bounding_box, sketch.bounding_box
        ctx.check(b is not None and all(abs(x - y) < 1e-9 for x, y in zip(b.bounding_box, c.bounding_box)), 'scene-box')
        ops = {id(real[key(op)]): op for op in m.ops}
        ctx.check(all(id(i.user_data) in ops for i in items), 'scene-user-data')

        def at(p):
            return xy(s.cast_position(p))
        for op in m.ops:
            o = real[key(op)]
            mine = [i for i in items if i.user_data is o]
            tol = 5e-3 if op['soft'] else 1e-7
            lines = [i for i in mine if isinstance(i, GI.SegmentItem)]
            if op['name']:
                circles = [i for i in mine if isinstance(i, GI.CircleItem)]
                if ctx.check(len(circles) == 1, 'scene-point', lambda: (op['kind'], mine)):
                    ctx.close_point(at(circles[0].position), op['at'], 'scene-point', tol, 100)
                    ctx.check(circles[0].radius == k['point_size'], 'scene-point')
                ctx.close_point(s.coordinate(op['name']).position, op['at'], 'scene-point', tol, 100)
                texts = [i for i in mine if isinstance(i, GI.TextItem)]
                if op['offset'] is None or op['offset'] == (0, 0):
                    ctx.check(not texts, 'scene-label', lambda: (op['offset'], mine))
                else:
                    label = (op['at'][0] + op['offset'][0], op['at'][1] - op['offset'][1])
                    if ctx.check(len(texts) == 1, 'scene-label', lambda: (op['offset'], mine)):
                        ctx.close_point(at(texts[0].position), label, 'scene-label', tol, 100)
                        ctx.check(texts[0].text == op['name'], 'scene-label')
                        if style:
                            ctx.check(texts[0].font is style.font, 'scene-label')
                    # the line to the label
                    found = [i for i in lines if near(at, i, op['at'], label, tol) and i.path_style.line_width == k['label_line_width']]
                    if ctx.check(len(found) >= 1, 'scene-label', lambda: ('no line to the label', op['offset'], mine)):
                        lines = [i for i in lines if i is not found[0]]
                width, ends = k['construction_line_width'], None
                if op['kind'] in POINT_STYLED:
                    first = op['refs'].get('base_point') or op['refs'].get('first_point')
                    ends = (m.points[first], op['at'])
            else:
                width = k['line_width']
                ends = (m.points[op['refs']['first_point']], m.points[op['refs']['second_point']]) if op['kind'] == 'Line' else None
            if op['kind'] == 'SimpleInteractiveSpline':
                curves = [i for i in mine if isinstance(i, GI.CubicBezierItem)]
                if ctx.check(len(curves) == 1 and not lines, 'scene-curve', lambda: mine):
                    for p, q in zip(curves[0].positions, op['control']):
                        ctx.close_point(at(p), q, 'scene-curve', tol, 100)
                lines = curves
            elif ends is None:
                ctx.check(not lines, 'scene-line', lambda: (op['kind'], lines))
            elif not lines and style_of(op)[0] in (None, StrokeStyle.NoPen):
                ctx.seen('scene-line')
            elif ctx.check(len(lines) == 1, 'scene-line', lambda: (op['kind'], lines)):
                ctx.check(near(at, lines[0], ends[0], ends[1], tol), 'scene-line', lambda: (op['kind'], op['refs'], [at(p) for p in lines[0].positions], ends))
            if op['kind'] in STYLED:
                st, co = style_of(op)
                for i in lines:
                    ps = i.path_style
                    ctx.check(ps.stroke_style == (st or StrokeStyle.NoPen) and ps.line_width == width, 'scene-style', lambda: (op['kind'], ps.stroke_style, st, ps.line_width, width))
                    if st not in (None, StrokeStyle.NoPen):
                        ctx.check(ps.stroke_color == co, 'scene-style', lambda: (op['kind'], ps.stroke_color, co))

    def near(at, item, p, q, tol):
        a, b = [at(x) for x in item.positions]
        t = tol*100
        return (math.dist(a, p) < 4*t and math.dist(b, q) < 4*t) or (math.dist(a, q) < 4*t and math.dist(b, p) < 4*t)

    def properties(m, real):
        for op in m.ops:
            if op['kind'] in STYLED:
                o = real[key(op)]
                st, co = style_of(op)
                ctx.check(o.line_style == st and type(o.line_style) is type(st), 'style', lambda: (op['kind'], o.line_style, st))
                ctx.check((o.line_color is None) if co is None else o.line_color == co, 'style', lambda: (op['kind'], o.line_color, co))

    def python(rng, m, sketch, real, values_set):
        """the code builds the same sketch"""
        pattern = Pattern(values_set, 'cm')
        other = pattern.add_scope('copy').sketch
        names = {k: (lambda sketch, __k=k, **kw: getattr(sketch, __k)(**kw)) for k in REFS}
        names.update(sketch=other, Vector2D=V, StrokeStyle=StrokeStyle, Color=Color)
        code = [real[key(op)].to_python() for op in m.ops]
        for line in code:
            exec(line, names)
        other.eval()
        if not ctx.equal(len(other.operations), len(m.ops), 'python'):
            return
        copies = {}
        for op, o in zip(m.ops, other.operations):
            copies[key(op)] = o
            if op['kind'] == 'SimpleInteractiveSpline':
                copies[(op['refs']['first_point'], op['refs']['second_point'])] = o
        for op, o, line in zip(m.ops, other.operations, code):
            a = real[key(op)]
            ctx.check(type(o) is type(a), 'python', line)
            if op['name']:
                ctx.close_point(o.vector, xy(a.vector), 'python', 1e-9, 100, line)
                ctx.check(o.name == a.name and ((o.label_offset is None and a.label_offset is None) or
                                                (o.label_offset is not None and xy(o.label_offset) == xy(a.label_offset))), 'python-properties', line)
            elif op['kind'] == 'SimpleInteractiveSpline':
                ctx.close_point(o.control_point1, op['control'][1], 'python', 1e-7, 100, line)
            if op['kind'] in STYLED:
                ctx.check(o.line_style == a.line_style and ((a.line_color is None and o.line_color is None) or o.line_color == a.line_color), 'python-properties', line)
            for r, n in op['refs'].items():
                ctx.check(getattr(o, r) is copies[n], 'python', line)
            for r, e in op['exprs'].items():
                x, y = getattr(o, r), getattr(a, r)
                ctx.check(x.expression == y.expression or (y.is_float() and float(x.expression) == float(y.expression)), 'python', line)

    def inputs(m):
        ctx.note(ops=[(op['kind'], op['name'], op['refs'], op['exprs']) for op in m.ops], measures=m.measures, trivial=all(op['kind'] == 'SinglePoint' for op in m.ops))

    def sketches(rng):
        pattern, scope, values = new(rng)
        m = model(rng, measures=values)
        inputs(m)
        sketch = scope.sketch
        real = {}
        ids = None
        if rng.random() < .4:
            ids = rng.sample(range(1, 200), len(m.ops))
        build(rng, sketch, m, real, ids)
        for op in m.ops:
            if op['kind'] == 'SimpleInteractiveSpline':
                ctx.raises(NameError, real[key(op)].geometry, 'not-evaluated')
        sketch.eval()
        vectors(m, real)
        geometries(m, real)
        graph(m, sketch, real)
        lookups(m, sketch, real)
        properties(m, real)
        box(m, sketch)
        scene(rng, m, sketch, real)
        python(rng, m, sketch, real, pattern.measurements)
        # evaluate again, after new operations or not
        if rng.random() < .6 and m.available:
            for _ in range(rng.randint(1, 4)):
                m.step(soft=False)
            build(rng, sketch, m, real)
        sketch.eval()
        vectors(m, real, 'again')
        geometries(m, real)
        graph(m, sketch, real)
        lookups(m, sketch, real)
        properties(m, real)
        box(m, sketch)
        scene(rng, m, sketch, real)
        python(rng, m, sketch, real, pattern.measurements)

    def contact(rng):
        """line and circle: every kind of contact"""
        pattern, scope, values = new(rng)
        sketch = scope.sketch
        a = (rng.uniform(-50, 50), rng.uniform(-50, 50))
        d = sketchgen.polar(rng.choice([0, 90, 180, 270, rng.uniform(0, 360)]), rng.uniform(5, 60))
        b = sketchgen.add(a, d)
        t0, h, r = rng.uniform(-.5, 1.5), rng.choice([0, rng.uniform(-10, 10)]), rng.uniform(1, 40)
        n = math.hypot(*d)
        c = (a[0] + d[0]*t0 - d[1]/n*h, a[1] + d[1]*t0 + d[0]/n*h)
        ts = sketchgen.contacts(a, b, c, r)
        ctx.note(a=a, b=b, c=c, r=r)
        if ts is None:
            return
        inside = [t for t in ts if .03 < t < .97]
        if any(-.03 <= t <= .03 or .97 <= t <= 1.03 for t in ts):
            return
        for name, p in zip('ABC', (a, b, c)):
            sketch.SinglePoint(name, p[0], p[1], V(0, 0))
        o = sketch.PointOfContact('P', 'A', 'B', 'C', r, V(0, 0))
        if not inside:
            return
        sketch.eval()
        p = o.vector
        if not ctx.check(p is not None, 'contact'):
            return
        p = xy(p)
        candidates = [sketchgen.add(a, (d[0]*t, d[1]*t)) for t in inside]
        ctx.check(min(math.dist(p, q) for q in candidates) < 1e-6*100, 'contact', lambda: (p, candidates))

    def rejected(rng):
        pattern, scope, values = new(rng)
        m = model(rng, n=rng.randint(2, 6), measures=values, soft=False)
        inputs(m)
        sketch = scope.sketch
        real = {}
        build(rng, sketch, m, real)
        sketch.eval()
        other = pattern.add_scope('other').sketch
        used_ids = {x['id'] for x in m.ops}
        for _ in range(3):
            op = m.try_step(rng.choice([k for k in REFS if k != 'SinglePoint']))
            if op is None:
                continue
            unknown = rng.choice(['nope', 999, 'a_b'])
            which = rng.choice(list(op['refs']))
            fake = dict(real)
            bad = dict(op, refs=dict(op['refs']))
            # a reference which is unknown, or known of another scope only
            kw = {a: bad['refs'][a] if a in bad['refs'] else bad['exprs'][a].text for a in ARGS[op['kind']]}
            target = sketch
            if rng.random() < .6:
                kw[which] = unknown
            else:
                target = other
                if rng.random() < .5:
                    kw = {a: real[v].id if a in bad['refs'] else v for a, v in kw.items()}
            if op['name']:
                kw.update(name=op['name'], label_offset=V(1, 1))
            given = rng.random() < .5
            if given:
                free = max(x['id'] for x in m.ops) + rng.randint(1, 50)
                kw['id'] = free
            ctx.raises((KeyError, NameError, ValueError), lambda: getattr(target, op['kind'])(**kw), 'unknown', lambda: (op['kind'], kw))
            # nothing is left of the operation which is rejected
            nodes = {id(node.data) for node in target.calculator.dag}
            ctx.equal(nodes, {id(o) for o in target.operations}, 'rejected', lambda: 'graph %s %s' % (op['kind'], kw))
            ctx.check(all(o in real.values() for node in target.calculator.dag for o in [n.data for n in node.descendants]), 'rejected')
            if given and rng.random() < .7:
                extra = pattern.add_scope('extra%d' % len(list(pattern.scopes))).sketch
                try:
                    o = extra.SinglePoint('x', 1, 2, V(0, 0), id=free)
                    ctx.equal(o.id, free, 'rejected', 'id')
                    used_ids.add(free)
                except NameError as e:
                    ctx.check(free in used_ids, 'rejected', lambda: 'the id of a rejected operation cannot be attributed: %r' % e)
        # an id is attributed once in a pattern
        used = rng.choice(m.ops)['id']
        for target in (sketch, other):
            ctx.raises((NameError, ValueError, KeyError), lambda: target.SinglePoint('new', 1, 2, V(0, 0), id=used), 'duplicate-id', used)
        lookups(m, sketch, real)
        ctx.equal(len(other.operations), 0, 'rejected')
        ctx.raises(KeyError, lambda: sketch.get_operation('new'), 'rejected')
        ctx.check(not sketch.has_operation_id('new') and not sketch.has_operation_id(98765), 'rejected')
        sketch.eval()
        vectors(m, real, 'again')
        # the next ids are new ones
        seen = {o.id for o in sketch.operations} | used_ids
        for i in range(3):
            o = rng.choice([sketch, other]).SinglePoint('n%d' % i, i, 0, V(0, 0))
            ctx.check(o.id not in seen, 'id', lambda: (o.id, seen))
            seen.add(o.id)

    def scopes(rng):
        """the pieces of a pattern are independent, their ids are not"""
        s, values = sketchgen.measures(rng, ValentinaMeasurements)
        pattern = Pattern(s, rng.choice(['cm', 'mm', 'inch']))
        names = rng.sample(['front', 'back', 'sleeve', 'collar', 'F 1'], rng.randint(1, 4))
        models, reals, scopes_ = [], [], []
        for name in names:
            scopes_.append(pattern.add_scope(name))
            models.append(sketchgen.Model(rng, values, names=rng.sample(sketchgen.NAMES, 14)))
            reals.append({})
        ctx.note(names=names, k=rng.random())
        for _ in range(rng.randint(4, 14)):
            i = rng.randrange(len(names))
            models[i].step(soft=False)
            build(rng, scopes_[i].sketch, models[i], reals[i])
        ids = [o.id for sc in scopes_ for o in sc.sketch.operations]
        ctx.check(len(ids) == len(set(ids)), 'id', lambda: ids)
        order = list(range(len(names)))
        rng.shuffle(order)
        for i in order:
            scopes_[i].sketch.eval()
        for i, sc in enumerate(scopes_):
            vectors(models[i], reals[i])
            lookups(models[i], sc.sketch, reals[i])
            graph(models[i], sc.sketch, reals[i])
            ctx.check(sc.name == names[i] and pattern.scope(i) is sc and pattern.scope(names[i]) is sc and sc.unit == pattern.unit and sc.measurements is s
                      and sc.sketch.unit == pattern.unit and sc.sketch.measurements is s, 'scopes')
        ctx.check(list(pattern.scopes) == scopes_ and pattern.scope_names() == names and pattern.scope('nope') is None, 'scopes')
        # renamed, removed
        i = rng.randrange(len(names))
        scopes_[i].name = 'renamed'
        ctx.check(pattern.scope('renamed') is scopes_[i] and pattern.scope(names[i]) is None, 'scopes')
        names[i] = 'renamed'
        ctx.equal(list(pattern.scope_names()), names, 'scopes')
        pattern.remove_scope('renamed')
        pattern.remove_scope('nope')
        del scopes_[i], names[i]
        ctx.check(list(pattern.scopes) == scopes_, 'scopes')
        ctx.equal(list(pattern.scope_names()), names, 'scopes')
        scopes_.append(pattern.add_scope('added'))
        ctx.equal(list(pattern.scope_names()), names + ['added'], 'scopes')
        ctx.check(list(pattern.scopes) == scopes_ and pattern.scope('added') is scopes_[-1] and pattern.scope(len(scopes_) - 1) is scopes_[-1], 'scopes')

    def restyle(rng):
        """the properties of a line are set afterwards"""
        pattern, scope, values = new(rng)
        m = model(rng, measures=values, soft=False)
        inputs(m)
        real = {}
        build(rng, scope.sketch, m, real)
        scope.sketch.eval()
        for op in m.ops:
            if op['kind'] in STYLED:
                o = real[key(op)]
                if not op['given']:
                    op['style'] = op['color'] = None
                    op['given'] = True
                    o.line_style = 'hair'
                    o.line_color = 'black'
                    op['style'], op['color'] = 'hair', 'black'
                if rng.random() < .6:
                    op['style'] = rng.choice(list(STYLES))
                    o.line_style = given_style(rng, op['style'])
                if rng.random() < .6:
                    op['color'] = rng.choice(sketchgen.COLOURS)
                    o.line_color = op['color'] if rng.random() < .5 else Colors.ensure_color(op['color'])
                ctx.raises((KeyError, ValueError, AttributeError), lambda: setattr(o, 'line_style', 'nope'), 'rejected')
        properties(m, real)
        scene(rng, m, scope.sketch, real)

    def no_segment(rng):
        """the current length is the one of an operation with a segment, it is not left to the next ones"""
        pattern, scope, values = new(rng)
        m = model(rng, n=rng.randint(3, 8), measures=values, soft=False)
        for _ in range(rng.randint(1, 3)):
            if len(m.points) > 1:
                m.step(['AlongLinePoint', 'NormalPoint'], soft=False)
        inputs(m)
        real = {}
        build(rng, scope.sketch, m, real)
        if rng.random() < .5:
            scope.sketch.eval()
        text = rng.choice(['CurrentLength', '2*CurrentLength', 'CurrentLength/2 + 1'])
        base = rng.choice(list(m.points))
        if rng.random() < .5:
            o = scope.sketch.EndLinePoint('new', base, 30, text, V(0, 0))
        else:
            o = scope.sketch.SinglePoint('new', text, 4, V(0, 0))
        ctx.note(text=text, base=base)
        try:
            scope.sketch.eval()
            vector = o.vector
        except Exception:
            vector = None
        ctx.check(vector is None, 'no-segment', lambda: (text, vector))

    ctx.cases('no-segment', no_segment, 40, 800)
    ctx.cases('sketches', sketches, 220, 5000)
    ctx.cases('contact', contact, 200, 5000)
    ctx.cases('rejected', rejected, 80, 2000)
    ctx.cases('scopes', scopes, 60, 1500)
    ctx.cases('restyle', restyle, 60, 1500)
