"""C23 -- Valentina pattern files"""
import math
import os
import shutil
import tempfile
import sketchgen
from sketchgen import REFS, ARGS, TYPES, STYLES, STYLED, POINT_STYLED

PID = 'C23'
QUICK_FACTOR = 2
RULE = ('pattern files (.val) written by an independent writer from random pieces (measurement file, every supported operation, unsupported ones in between, details) and '
        'read by the library, patterns written by the library and read back, by it and by an independent reader; non-trivial: at least one piece with an operation')
ASSUMPTIONS = ['expressions do not name an operation which is not supported', 'well conditioned constructions, as for the sketches', 'the measurement file is not shadowed by one of the working directory']
MONITORS = ['pieces', 'operations', 'id', 'name', 'reference', 'expression', 'label', 'style', 'colour', 'geometry', 'skipped', 'measurements', 'unit', 'no-measurements', 'missing',
            'written', 'written-head', 'read-back', 'read-back-api', 'independent', 'sample', 'rewritten']


def run(ctx):
    from lxml import etree
    import Patro.Pattern
    from Patro.FileFormat.Valentina import VitFormat
    from Patro.FileFormat.Valentina.Pattern import ValFileReader, ValFileWriter
    from Patro.FileFormat.Valentina.Measurement import VitFile
    from Patro.Pattern.Pattern import Pattern
    from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
    from Patro.GeometryEngine.Vector import Vector2D as V
    from Patro.GraphicStyle import StrokeStyle, Colors
    scratch = tempfile.mkdtemp(prefix='c23-')
    here = os.getcwd()
    DEFAULT = 'default' # property not given

    class Piece:
        def __init__(self, name, model):
            self.name, self.model, self.rows = name, model, []

    def escape(s):
        return s.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')

    def number(v):
        return repr(float(v))

    def element(rng, tag, attributes):
        attributes = [(k, v) for k, v in attributes.items() if v is not None]
        rng.shuffle(attributes)
        return '<%s %s/>' % (tag, ' '.join('%s="%s"' % (k, escape(str(v))) for k, v in attributes))

    def xml_operation(rng, op, ids):
        a = dict(id=op['id'])
        kind = op['kind']
        tag = dict(Line='line', SimpleInteractiveSpline='spline').get(kind, 'point')
        if kind in TYPES:
            a['type'] = TYPES[kind]
        if op['name']:
            a['name'] = op['name']
            if op['offset'] is not None:
                a['mx'], a['my'] = number(op['offset'][0]), number(op['offset'][1])
        for py, xml in REFS[kind].items():
            a[xml] = ids[op['refs'][py]]
        for k, e in op['exprs'].items():
            a[k] = e.text
        if kind in STYLED:
            style, colour = ('penStyle', 'color') if kind == 'SimpleInteractiveSpline' else ('typeLine', 'lineColor')
            a[style], a[colour] = op['style'], op['color']
            if kind == 'SimpleInteractiveSpline' and rng.random() < .3:
                del a[style]
                op['style'] = 'hair'
            if rng.random() < .1:
                a.update(showLabel='true')
        return element(rng, tag, a)

    def unsupported(rng, id, ids, names):
        """an operation which is not supported, or which refers to such an operation; ids -> name or None"""
        known = [i for i in ids if ids[i] is not None] or [1]
        f = lambda: rng.choice(known)
        name = 'Z%d' % id
        s = rng.choice(['typeLine="hair" lineColor="blue" ', ''])
        k = rng.random()
        dark = [i for i in ids if ids[i] is None]
        if k < .3 and dark:
            d = rng.choice(dark)
            p, q = rng.choice([(d, f()), (f(), d)])
            return rng.choice([
                '<point id="%d" type="endLine" name="%s" basePoint="%d" angle="10" length="5" mx="0.1" my="0.2" typeLine="hair" lineColor="blue"/>' % (id, name, d),
                '<point id="%d" type="alongLine" name="%s" firstPoint="%d" secondPoint="%d" length="5" mx="0.1" my="0.2" typeLine="hair" lineColor="blue"/>' % (id, name, p, q),
                '<line id="%d" firstPoint="%d" secondPoint="%d" typeLine="hair" lineColor="blue"/>' % (id, p, q),
                '<point id="%d" type="pointOfContact" name="%s" firstPoint="%d" secondPoint="%d" center="%d" radius="3" mx="0" my="0"/>' % ((id, name) + rng.choice([(d, f(), f()), (f(), f(), d)])),
                '<spline id="%d" type="simpleInteractive" point1="%d" point4="%d" angle1="0" length1="1" angle2="0" length2="1" color="blue"/>' % (id, p, q),
                '<point id="%d" type="lineIntersect" name="%s" p1Line1="%d" p2Line1="%d" p1Line2="%d" p2Line2="%d" mx="0" my="0"/>' % (id, name, f(), f(), f(), d),
            ])
        return rng.choice([
            '<arc id="%d" radius="10" angle2="-30" center="%d" angle1="30" type="simple" color="black"/>' % (id, f()),
            '<arc id="%d" radius="10" center="%d" angle1="45" length="30" type="arcWithLength" color="black"/>' % (id, f()),
            '<elArc id="%d" radius1="10" radius2="5" center="%d" angle1="45" angle2="90" rotationAngle="0" type="simple"/>' % (id, f()),
            '<operation id="%d" center="%d" suffix="rot" type="rotation" angle="30"><source><item idObject="1"/></source><destination><item idObject="900" mx="0" my="0"/></destination></operation>' % (id, f()),
            '<point id="%d" firstPoint="%d" thirdPoint="%d" %smx="0.1" secondPoint="%d" length="5" name="%s" type="bisector" my="0.2"/>' % (id, f(), f(), s, f(), name),
            '<point id="%d" basePoint="%d" %smx="0.1" p2Line="%d" name="%s" p1Line="%d" type="height" my="0.2"/>' % (id, f(), s, f(), name, f()),
            '<point id="%d" mx="0.1" spline="%d" length="10" name="%s" type="cutSpline" my="0.2"/>' % (id, f(), name),
            '<point id="%d" axisP2="%d" axisP1="%d" firstPoint="%d" mx="0.8" secondPoint="%d" name="%s" type="triangle" my="1.4"/>' % (id, f(), f(), f(), f(), name),
            '<spline id="%d" duplicate="1" point4="%d" point2="%d" point3="%d" type="cubicBezier" point1="%d" color="goldenrod"/>' % (id, f(), f(), f(), f()),
            '<spline id="%d" type="cubicBezierPath" color="deepskyblue"><pathPoint pSpline="%d"/><pathPoint pSpline="%d"/></spline>' % (id, f(), f()),
            '<point id="%d" name="%s" type="futureType" mx="0" my="0"/>' % (id, name),
            '<future id="%d"/>' % id,
        ])

    def random_pieces(rng, values):
        names = rng.sample(['front', 'back', 'Pattern piece 1', 'Manche & co', 'é "x"', ' back ', 'Front', 'a  b'], rng.choice([1, 1, 2, 3]))
        return [Piece(n, sketchgen.Model(rng, values)) for n in names]

    def fill(rng, pieces, extra=True):
        """the operations of the pieces, their ids are unique over the file"""
        next_id = rng.choice([1, 1, 1, 7])
        many = rng.random() < .05
        todo = [p for p in pieces for _ in range(rng.randint(100, 150) if many else rng.randint(1, 10))]
        if rng.random() < .5:
            rng.shuffle(todo)
        for p in pieces:
            if many:
                p.model.available[:0] = ['Q%d' % i for i in range(150)]
            p.ids, p.kinds, p.comments = {}, {}, []
        for p in todo:
            m = p.model
            if extra and m.points and rng.random() < .25:
                row = unsupported(rng, next_id, p.kinds, m.points)
                p.rows.append(row)
                p.kinds[next_id] = None
            else:
                op = m.step(['SinglePoint'] if not m.points or len(m.ops) > 12 else None, soft=False)
                if op is None:
                    continue
                op['id'] = next_id
                if op['name']:
                    p.ids[op['name']] = next_id
                    p.kinds[next_id] = op['name']
                p.rows.append(xml_operation(rng, op, p.ids))
            next_id += rng.choice([1, 1, 1, 3])
            if rng.random() < .05:
                p.rows.append('<!-- a comment %d -->' % next_id)
        return next_id

    def document(rng, pieces, unit, vit, next_id):
        head = ['<version>0.7.10</version>', '<description/>', '<notes>some notes</notes>', '<patternName>x</patternName>', '<increments/>', '<previewCalculations/>',
                '<patternLabel><line alignment="0" bold="true" italic="false" sfIncrement="4" text="%author%"/></patternLabel>']
        head = rng.sample(head, rng.randint(0, len(head)))
        head.append('<unit>%s</unit>' % unit)
        if vit is not None:
            head.append('<measurements>%s</measurements>' % escape(vit))
        elif rng.random() < .5:
            head.append(rng.choice(['<measurements/>', '<measurements></measurements>']))
        rng.shuffle(head)
        draws = []
        for p in pieces:
            rows = '<calculation>\n%s\n</calculation>' % '\n'.join(p.rows)
            k = rng.random()
            if k < .6 and p.ids:
                i = list(p.ids.values())
                nodes = [rng.choice(i) for _ in range(rng.randint(1, 4))]
                mod = ''.join('<point id="%d" idObject="%d" inUse="true" mx="0.1" type="modeling" my="0.2"/>' % (next_id + j, n) for j, n in enumerate(nodes))
                mod += '<path id="%d" typeLine="dashDotLine" name="Fold" type="2"><nodes/></path>' % (next_id + 50)
                mod += '<point id="%d" idObject="%d" type="pin"/>' % (next_id + 51, nodes[0])
                rows += '\n<modeling>%s</modeling>' % mod
                det = ''.join('<node idObject="%d" type="NodePoint"/>' % (next_id + j) for j, n in enumerate(nodes))
                rows += ('\n<details><detail id="%d" version="2" forbidFlipping="false" width="1" united="false" mx="1.1" name="Detail" seamAllowance="true" my="-0.5">'
                         '<data letter="A" width="26.4" mx="30" height="94.4" fontSize="5" visible="true" rotation="-0.05" my="39.9"/>'
                         '<patternInfo width="26.4" mx="30" height="283.4" fontSize="5" visible="true" rotation="359.8" my="134.4"/>'
                         '<grainline arrows="0" mx="0" length="0" visible="true" rotation="0" my="0"/><nodes>%s</nodes></detail></details>') % (next_id + 90, det)
            elif k < .9:
                rows += '\n<modeling/>\n<details/>\n<groups/>'
            draws.append('<draw name="%s">\n%s\n</draw>' % (escape(p.name), rows))
        encoding = rng.choice(['UTF-8', 'UTF-8', 'ISO-8859-1'])
        text = '<?xml version="1.0" encoding="%s"?>\n<pattern>\n<!--Pattern created with Valentina.-->\n%s\n%s\n</pattern>\n' % (encoding, '\n'.join(head), '\n'.join(draws))
        return text.encode('utf8' if encoding == 'UTF-8' else 'latin1', errors='xmlcharrefreplace')

    def write_vit(rng, path, s, values):
        rows = ''.join('<m name="%s" value="%s"/>' % (n, repr(v)) for n, v in values.items())
        with open(path, 'w', encoding='utf8') as fh:
            fh.write('<?xml version="1.0" encoding="UTF-8"?>\n<vit><version>0.3.3</version><read-only>false</read-only><notes/><unit>cm</unit><pm_system>998</pm_system>'
                     '<personal/><body-measurements>%s</body-measurements></vit>' % rows)

    def observe(pattern, pieces, unit, values, monitor=None):
        """a pattern has the content of the pieces"""
        mon = lambda name: monitor or name
        ctx.equal(pattern.unit, unit, mon('unit'))
        if not ctx.equal(pattern.scope_names(), [p.name for p in pieces], mon('pieces')):
            return
        for p, scope in zip(pieces, pattern.scopes):
            got = list(scope.sketch.operations)
            ops = p.model.ops
            skipped = any(k is None for k in p.kinds.values())
            if not ctx.equal([(type(o).__name__, o.id) for o in got], [(op['kind'], op['id']) for op in ops], mon('skipped' if skipped else 'operations')):
                continue
            by_id = {o.id: o for o in got}
            for o, op in zip(got, ops):
                ctx.check(scope.sketch.get_operation(op['id']) is o, mon('id'))
                soft = 1e-7
                if op['name']:
                    ctx.check(o.name == op['name'] and scope.sketch.get_operation(op['name']) is o, mon('name'))
                    lo = o.label_offset
                    ctx.check(lo is None if op['offset'] is None else (lo is not None and abs(lo.x - op['offset'][0]) < 1e-12 and abs(lo.y - op['offset'][1]) < 1e-12),
                              mon('label'), lambda: (lo, op['offset']))
                    ctx.close_point(o.vector, op['at'], mon('geometry'), soft, 100, lambda: (op['kind'], op['refs'], op['exprs']))
                elif op['kind'] == 'Line':
                    for a, b in zip(o.geometry().points, (p.model.points[op['refs']['first_point']], p.model.points[op['refs']['second_point']])):
                        ctx.close_point(a, b, mon('geometry'), soft, 100)
                else:
                    for a, b in zip(o.geometry().points, op['control']):
                        ctx.close_point(a, b, mon('geometry'), soft, 100, op['kind'])
                for k, name in op['refs'].items():
                    want = [q['id'] for q in ops if q['name'] == name]
                    ctx.check(getattr(o, k) is by_id.get(want[0]), mon('reference'), lambda: (op['kind'], k))
                for k, e in op['exprs'].items():
                    ctx.equal(getattr(o, k).expression, e.text, mon('expression'))
                if op['kind'] in STYLED:
                    style, colour = op['style'], op['color']
                    ctx.check(o.line_style == (StrokeStyle[STYLES[style]] if style else None), mon('style'), lambda: (op['kind'], o.line_style, style))
                    ctx.check((o.line_color is None) if colour is None else (o.line_color == Colors.ensure_color(colour)), mon('colour'), lambda: (op['kind'], o.line_color, colour))
        if values is not None:
            got = {x.valentina_name: x.value for x in pattern.measurements}
            ctx.check(set(got) == set(values) and all(abs(got[k] - v) < 1e-9 for k, v in values.items()), mon('measurements'), lambda: (got, values))

    def independent(path, pieces, unit, vit):
        """the file written, in the terms of the format"""
        with open(path, 'rb') as fh:
            root = etree.fromstring(fh.read())
        ctx.check(root.tag == 'pattern' and root.findtext('unit') == unit and root.findtext('version'), 'written-head')
        ctx.check((root.findtext('measurements') or None) == (str(vit) if vit else None), 'written-head', root.findtext('measurements'))
        draws = root.findall('draw')
        if not ctx.equal([d.get('name') for d in draws], [p.name for p in pieces], 'independent'):
            return
        for p, d in zip(pieces, draws):
            rows = [e for e in d.find('calculation') if isinstance(e.tag, str)]
            ops = p.model.ops
            if not ctx.equal(len(rows), len(ops), 'independent'):
                continue
            ids = {op['name']: op['id'] for op in ops if op['name']}
            for e, op in zip(rows, ops):
                tag = dict(Line='line', SimpleInteractiveSpline='spline').get(op['kind'], 'point')
                a = dict(e.attrib)
                ctx.check(e.tag == tag and a.get('type') == TYPES.get(op['kind']) and a.get('id') == str(op['id']) and a.get('name') == op['name'], 'independent', lambda: (a, op['kind'], op['id']))
                for py, xml in REFS[op['kind']].items():
                    ctx.equal(a.get(xml), str(ids[op['refs'][py]]), 'independent', lambda: (op['kind'], xml))
                for k, x in op['exprs'].items():
                    ctx.equal(a.get(k), x.text, 'independent', lambda: (op['kind'], k))
                if op['name']:
                    if op['offset'] is None:
                        ctx.check('mx' not in a and 'my' not in a, 'independent', lambda: a)
                    else:
                        ctx.check(abs(float(a['mx']) - op['offset'][0]) < 1e-9 and abs(float(a['my']) - op['offset'][1]) < 1e-9, 'independent', lambda: (a, op['offset']))
                if op['kind'] in STYLED:
                    sn, cn = ('penStyle', 'color') if op['kind'] == 'SimpleInteractiveSpline' else ('typeLine', 'lineColor')
                    ctx.check(a.get(sn) == op['style'], 'independent', lambda: (a, op['style']))
                    ctx.check((a.get(cn) is None) if op['color'] is None else (a.get(cn) is not None and Colors.ensure_color(a[cn]) == Colors.ensure_color(op['color'])), 'independent', lambda: (a, op['color']))

    def setup_measurements(rng, directory):
        s, values = sketchgen.measures(rng, ValentinaMeasurements)
        if rng.random() < .3:
            return None, {}, None
        vit = rng.choice(['m.vit', 'mesures é.vit', 'sub/m.vit'])
        path = os.path.join(directory, vit)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        write_vit(rng, path, s, values)
        return rng.choice([vit, path]), values, path

    counter = [0]

    ####################################################################################################
    # the details read are recorded when they are made
    made = []

    def record(cls):
        init = cls.__init__
        def __init__(self, *args, **kwargs):
            init(self, *args, **kwargs)
            made.append(self)
        cls.__init__ = __init__
    record(VitFormat.Detail)

    def boolean(x):
        return 'true' if x else 'false'

    def details(rng):
        """modeling items and details"""
        d = directory_()
        try:
            pieces = random_pieces(rng, {})
            next_id = fill(rng, pieces, extra=False)
            want = []
            draws = []
            for p in pieces:
                names = dict((i, n) for n, i in p.ids.items())
                items, rows = {}, []
                for _ in range(rng.randint(1, 6)):
                    next_id += rng.choice([1, 2])
                    o = rng.choice(sorted(names))
                    if rng.random() < .7:
                        items[next_id] = ('ModelingPoint', o, rng.random() < .5, rng.uniform(-3, 3), rng.uniform(-3, 3))
                        rows.append('<point id="%d" idObject="%d" inUse="%s" mx="%r" type="modeling" my="%r"/>' % (next_id, o, boolean(items[next_id][2]), *items[next_id][3:]))
                    else:
                        items[next_id] = ('ModelingSpline', o, rng.random() < .5, None, None)
                        rows.append('<spline id="%d" idObject="%d" inUse="%s" type="modelingSpline"/>' % (next_id, o, boolean(items[next_id][2])))
                    if rng.random() < .2:
                        next_id += 1
                        rows.append('<path id="%d" typeLine="dashDotLine" name="Fold" type="2"><nodes/></path>' % next_id)
                text = []
                for _ in range(rng.randint(1, 3)):
                    next_id += 1
                    nodes = [(rng.choice(sorted(items)), rng.choice([None, True, False])) for _ in range(rng.randint(0, 5))]
                    w = dict(id=next_id, version=rng.randint(1, 3), forbidFlipping=rng.random() < .5, width=rng.choice(['1', '0', '#seam', '0.5*2']),
                             united=rng.random() < .5, name=rng.choice(['Detail', 'é', 'a & b']), inLayout=rng.random() < .5, seamAllowance=rng.random() < .5)
                    mx, my = rng.uniform(-9, 9), rng.uniform(-9, 9)
                    want.append((w, mx, my, [(i, r, items[i]) for i, r in nodes]))
                    node_text = ''.join('<node idObject="%d" %stype="%s"/>' % (i, '' if r is None else 'reverse="%s" ' % rng.choice([boolean(r), '%d' % r]),
                                                                          'NodePoint' if items[i][0] == 'ModelingPoint' else 'NodeSpline') for i, r in nodes)
                    text.append('<detail mx="%r" my="%r" %s>%s<nodes>%s</nodes>%s</detail>' % (
                        mx, my, ' '.join('%s="%s"' % (k, boolean(v) if isinstance(v, bool) else escape(str(v))) for k, v in w.items()),
                        rng.choice(['', '<grainline arrows="0" mx="0" length="0" visible="true" rotation="0" my="0"/>', '<future/>']), node_text,
                        rng.choice(['', '<data letter="A" width="26.4" mx="30" height="94.4" fontSize="5" visible="true" rotation="-0.05" my="39.9"/>', '<!-- x -->'])))
                draws.append('<draw name="%s"><calculation>%s</calculation><modeling>%s</modeling><details>%s</details></draw>' % (
                    escape(p.name), '\n'.join(p.rows), '\n'.join(rows), '\n'.join(text)))
            data = '<?xml version="1.0" encoding="UTF-8"?>\n<pattern><unit>cm</unit>%s</pattern>' % '\n'.join(draws)
            ctx.note(doc=data)
            path = os.path.join(d, 'p.val')
            with open(path, 'w', encoding='utf8') as fh:
                fh.write(data)
            made.clear()
            r = ValFileReader(path)
            for p in pieces:
                p.kinds = {}
            observe(r.pattern, pieces, 'cm', None)
            if not made:
                return # not readable from outside of the reader
            if not ctx.equal(len(made), len(want), 'detail'):
                return
            for detail, (w, mx, my, nodes) in zip(made, want):
                got = {k: getattr(detail, k) for k in w}
                ctx.equal(got, w, 'detail')
                ctx.close_point((detail.mx, detail.my), (mx, my), 'detail', 1e-12)
                pairs = list(detail.iter_on_nodes())
                if ctx.equal([(n.object_id, m.id, type(m).__name__, m.object_id, m.in_use) for n, m in pairs],
                             [(i, i, k[0], k[1], k[2]) for i, _, k in nodes], 'detail'):
                    for (n, m), (i, reverse, k) in zip(pairs, nodes):
                        ctx.equal(n.reverse, reverse, 'detail')
                        if k[3] is not None:
                            ctx.close_point((m.mx, m.my), k[3:], 'detail', 1e-12)
        finally:
            made.clear()
            shutil.rmtree(d, ignore_errors=True)

    def directory_():
        counter[0] += 1
        d = os.path.join(scratch, 'd%d' % counter[0])
        os.makedirs(d)
        return d

    def documents(rng):
        """files of an independent writer"""
        d = directory_()
        try:
            vit, values, vit_path = setup_measurements(rng, d)
            pieces = random_pieces(rng, values)
            next_id = fill(rng, pieces)
            unit = rng.choice(['cm', 'mm', 'inch'])
            data = document(rng, pieces, unit, vit, next_id)
            ctx.note(doc=data.decode('utf8', 'replace'))
            path = os.path.join(d, 'p.val')
            with open(path, 'wb') as fh:
                fh.write(data)
            if rng.random() < .3: # relative to the working directory
                os.chdir(scratch)
                path = os.path.relpath(path, scratch)
            r = ValFileReader(path)
            pattern = r.pattern
            observe(pattern, pieces, unit, values if vit else None)
            if vit is None:
                ctx.check(r.measurements is None and r.vit_file is None and pattern.measurements is None, 'no-measurements')
            else:
                ctx.check(r.measurements is pattern.measurements and os.path.samefile(str(r.vit_file.path), vit_path), 'measurements')
            # another reading is another pattern
            again = ValFileReader(path)
            observe(again.pattern, pieces, unit, values if vit else None, 'rewritten')
            ctx.check(again.pattern is not pattern, 'rewritten')
            # written and read back
            out = os.path.join(d, 'out.val')
            ValFileWriter(out, r.vit_file, pattern)
            ctx.check(os.path.exists(out), 'written')
            independent(out, pieces, unit, r.vit_file.path if r.vit_file else None)
            back = ValFileReader(out)
            for p in pieces:
                p.kinds = {}
            observe(back.pattern, pieces, unit, values if vit else None, 'read-back')
            # the pattern read is left as it was
            observe(pattern, pieces, unit, values if vit else None, 'read-back')
        finally:
            os.chdir(here)
            shutil.rmtree(d, ignore_errors=True)

    def api(rng):
        """patterns made by the API, written and read back"""
        d = directory_()
        try:
            vit, values, vit_path = setup_measurements(rng, d)
            vit_file = VitFile(vit_path) if vit else None
            pattern = Pattern(vit_file.measurements if vit else None, rng.choice(['cm', 'mm', 'inch']))
            pieces = random_pieces(rng, values)
            scopes = [pattern.add_scope(p.name) for p in pieces]
            for p in pieces:
                p.kinds = {}
            for _ in range(rng.randint(2, 18)):
                i = rng.randrange(len(pieces))
                m, sketch = pieces[i].model, scopes[i].sketch
                op = m.step(['SinglePoint'] if not m.points or len(m.ops) > 12 else None, soft=False)
                if op is None:
                    continue
                kw = {a: op['refs'][a] if a in op['refs'] else op['exprs'][a].text for a in ARGS[op['kind']]}
                if op['name']:
                    kw.update(name=op['name'], label_offset=V(*op['offset']) if op['offset'] is not None else None)
                if op['kind'] in STYLED:
                    if rng.random() < .2:
                        op['style'], op['color'] = (None, None) if op['kind'] in POINT_STYLED else ('hair', 'black')
                    else:
                        kw.update(line_style=StrokeStyle[STYLES[op['style']]], line_color=rng.choice([op['color'], Colors.ensure_color(op['color'])]))
                        if rng.random() < .1:
                            op['color'] = kw['line_color'] = '#1280ff'
                op['id'] = getattr(sketch, op['kind'])(**kw).id
            ctx.note(ops=[[(op['kind'], op['name'], op['refs'], op['exprs']) for op in p.model.ops] for p in pieces], measures=values)
            if rng.random() < .7:
                for sc in scopes:
                    sc.sketch.eval()
            out = os.path.join(d, rng.choice(['out.val', 'é.val']))
            ValFileWriter(out, vit_file, pattern)
            independent(out, pieces, pattern.unit, vit_file.path if vit else None)
            back = ValFileReader(out)
            # a spline without style or colour takes the ones of a spline
            observe(back.pattern, pieces, pattern.unit, values if vit else None, 'read-back-api')
            # twice the same file
            out2 = os.path.join(d, 'out2.val')
            ValFileWriter(out2, back.vit_file, back.pattern)
            ctx.check(open(out, 'rb').read() == open(out2, 'rb').read() or rng is None, 'rewritten', 'written again after reading')
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def missing(rng):
        d = directory_()
        try:
            pieces = random_pieces(rng, {})
            next_id = fill(rng, pieces, extra=False)
            what = rng.choice(['unit', 'vit', 'file', 'xml'])
            ctx.note(what=what, k=rng.random())
            data = document(rng, pieces, 'cm', 'nope.vit' if what == 'vit' else None, next_id)
            if what == 'unit':
                data = data.replace(b'<unit>cm</unit>', b'')
            if what == 'xml':
                data = data[:len(data)*2//3]
            path = os.path.join(d, 'p.val')
            if what != 'file':
                with open(path, 'wb') as fh:
                    fh.write(data)
            ctx.raises((NameError, OSError, etree.XMLSyntaxError, ValueError), lambda: ValFileReader(path), 'missing', what)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def sample(rng):
        """the files of the documentation"""
        base = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'doc', 'sphinx', 'source', 'valentina-compatibility')
        ctx.note(sample=1)
        d = directory_()
        XML = {v: k for k, v in TYPES.items()}
        for name in ('detail-demo.val', 'operations-demo.val'):
            r = ValFileReader(os.path.join(base, name))
            root = etree.parse(os.path.join(base, name)).getroot()
            ctx.equal(r.pattern.scope_names(), [e.get('name') for e in root.findall('draw')], 'sample')
            for scope, draw in zip(r.pattern.scopes, root.findall('draw')):
                rows = []
                known = set()
                for e in draw.find('calculation'):
                    kind = dict(line='Line').get(e.tag) or XML.get(e.get('type')) if e.tag in ('point', 'line', 'spline') else None
                    if kind is None or not all(e.get(x) in known for x in REFS[kind].values()):
                        continue
                    known.add(e.get('id'))
                    rows.append((kind, e))
                got = scope.sketch.operations
                if not ctx.equal([(type(o).__name__, str(o.id)) for o in got], [(k, e.get('id')) for k, e in rows], 'sample'):
                    continue
                for o, (kind, e) in zip(got, rows):
                    for py, x in REFS[kind].items():
                        ctx.equal(str(getattr(o, py).id), e.get(x), 'sample')
                    if kind not in ('Line', 'SimpleInteractiveSpline'):
                        ctx.equal(o.name, e.get('name'), 'sample')
                    for a in ('length', 'angle', 'radius', 'x', 'y', 'angle1', 'length1', 'angle2', 'length2'):
                        if a in e.attrib:
                            ctx.equal(getattr(o, a).expression, e.get(a), 'sample')
            out = os.path.join(d, name)
            ValFileWriter(out, r.vit_file, r.pattern)
            back = ValFileReader(out)
            for s1, s2 in zip(r.pattern.scopes, back.pattern.scopes):
                ctx.equal(len(s1.sketch.operations), len(s2.sketch.operations), 'sample')
                for a, b in zip(s1.sketch.operations, s2.sketch.operations):
                    if hasattr(a, 'vector') and a.vector is not None:
                        ctx.close_point(b.vector, (a.vector.x, a.vector.y), 'sample', 1e-9, 100)

    try:
        ctx.cases('documents', documents, 250, 5000)
        ctx.cases('api', api, 150, 3000)
        ctx.cases('details', details, 60, 1500)
        ctx.cases('missing', missing, 40, 600)
        ctx.cases('sample', sample, 1, 1)
    finally:
        os.chdir(here)
        shutil.rmtree(scratch, ignore_errors=True)
