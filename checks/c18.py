"""C18 -- SVG import and element output"""
import math
import os
import re
import shutil
import tempfile
import gen
import svgref

PID = 'C18'
QUICK_FACTOR = 2
RULE = ('random path data (every command, absolute and relative, implicit repetitions, compact notations), transform lists, lengths, rectangles and '
        'documents (nested groups, attributes and styles, comments, unknown and hidden elements) rendered as SVG text, read by the library '
        'and compared with the reference geometry and inherited state; non-trivial: at least two commands or items')
ASSUMPTIONS = ['path data with a single subpath (the other ones are recorded as a finding)', 'rectangles with equal radii',
               'lengths of rectangles are numbers']
MONITORS = ['path-rounded', 'dash', 'path-part', 'path-part-arc', 'path-start', 'path-count', 'path-closed', 'path-reject', 'path-output', 'path-reread', 'transform', 'transform-reject',
            'transform-output', 'length', 'length-output', 'rect', 'rect-radius', 'doc-order', 'doc-class', 'doc-transform', 'doc-state', 'doc-geometry',
            'doc-attributes', 'doc-view-box', 'doc-rerun', 'writer-root', 'writer-elements', 'writer-transform', 'subpath']


def run(ctx):
    from lxml import etree
    from Patro.FileFormat.Svg import SvgFormat
    from Patro.FileFormat.Svg.SvgFile import SvgFile, SvgFileInternal, SvgFileWriter
    from Patro.FileFormat.Svg.SvgFormat import PathDataAttribute, PercentLengthAttribute, TransformAttribute
    from Patro.GeometryEngine.Path import Path2D
    from Patro.GeometryEngine.Segment import Segment2D
    from Patro.GeometryEngine.Transformation import AffineTransformation2D
    from Patro.GeometryEngine.Vector import Vector2D as V

    NS = 'http://www.w3.org/2000/svg'
    xy = lambda p: (float(p.x), float(p.y))
    SCALE = 100.

    directory = tempfile.mkdtemp(prefix='verif-c18-')

    ####################################################################################################

    def number_text(rng, x):
        """notation and value"""
        k = rng.random()
        if float(x).is_integer() and k < .5:
            t = '%d' % x
        elif k < .7:
            t = repr(float(x))
        elif k < .8:
            t = '%.3e' % x
        elif k < .9:
            t = '%.2f' % x
        else:
            t = ('%.3f' % x).rstrip('0')
        if t.startswith('0.') and len(t) > 2 and rng.random() < .5:
            t = t[1:]
        elif t.startswith('-0.') and len(t) > 3 and rng.random() < .5:
            t = '-' + t[2:]
        if t[0] not in '+-' and rng.random() < .1:
            t = '+' + t
        return t, float(t)

    def path_commands(rng, n, close=True):
        """text and commands"""
        text = ''
        commands = []
        def put(token, flag=False):
            nonlocal text
            last = text[-1:]
            need = last and (last.isdigit() or last == '.') and not token[0].isalpha()
            if need and flag is not None and token[0] in '+-' and rng.random() < .5:
                need = False
            if need and token[0] == '.' and re.search(r'[.][0-9]*$', re.split(r'[\s,a-zA-Z]', text)[-1]) and 'e' not in text[-6:] and rng.random() < .5:
                need = False # 0.5.5 is a valid sequence
            if need or rng.random() < .3:
                k = rng.choice([' ', ' ', ',', ', ', '\n', '  '])
                if ',' in k and (not last or last.isalpha() or token[0].isalpha() or last in ', \n'):
                    k = ' '
                text += k
            text += token
        def args(letter):
            out = []
            k = letter.lower()
            glued = False
            for i in range(svgref.NUMBER_OF_ARGS[k]):
                if k == 'a' and i in (3, 4):
                    f = rng.random() < .5
                    if i == 4 and glued:
                        nonlocal_append('%d' % f)
                    else:
                        put('%d' % f)
                    glued = rng.random() < .4
                    out.append(float(f))
                    continue
                if k == 'a' and i in (0, 1):
                    x = rng.uniform(3, 40)
                elif k == 'a' and i == 2:
                    x = rng.choice([0, 30, -45, 90, rng.uniform(-180, 180)])
                else:
                    x = rng.choice([rng.randint(-50, 50), rng.uniform(-50, 50), rng.uniform(-1, 1)])
                t, v = number_text(rng, x)
                if k == 'a' and i == 5 and glued:
                    nonlocal_append(t)
                else:
                    put(t)
                glued = False
                out.append(v)
            return out
        def nonlocal_append(t):
            nonlocal text
            text += t
        letter = rng.choice('MMm')
        put(letter)
        commands.append((letter, args(letter)))
        implicit = dict(M='L', m='l')[letter]
        previous = implicit
        for _ in range(n):
            letter = rng.choice('LlHhVvCcSsQqTtAaQTCS')
            if letter == previous and rng.random() < .6:
                pass # implicit repetition
            else:
                put(letter)
            commands.append((letter, args(letter)))
            previous = letter
        if close and rng.random() < .3:
            put(rng.choice('zZ'))
            commands.append(('z', []))
        if rng.random() < .2:
            text = rng.choice([' ', '\n\t']) + text + rng.choice([' ', '\n'])
        return text, commands

    def observe_path(path, commands, m='path-part', image=lambda p: p, tol=1e-8):
        start, segments, closed = svgref.resolve(commands)
        ctx.close_point(xy(path.p0), image(start), 'path-start' if m == 'path-part' else m, tol, SCALE)
        if not ctx.equal(len(path), len(segments), 'path-count' if m == 'path-part' else m):
            return
        ctx.equal(bool(path.is_closed), closed, 'path-closed' if m == 'path-part' else m)
        for i, (part, segment) in enumerate(zip(path, segments)):
            observe_segment(part, segment, m, image, tol, i)

    def observe_segment(part, segment, m, image, tol, i):
        kind, pts, extra = segment
        ctx.close_point(xy(part.start_point), image(pts[0]), m, tol, SCALE, (i, kind))
        ctx.close_point(xy(part.stop_point), image(pts[-1]), m, tol, SCALE, (i, kind))
        if pts[0] == pts[-1] and kind in 'AL':
            return
        g = part.geometry
        if kind == 'A':
            s = svgref.sample_segment(segment)
            if isinstance(g, Segment2D):
                ctx.check(svgref.arc_center(pts[0], pts[1], *extra) is None, m)
                return
            # chord close to the diameter: the center is ill conditioned
            c = svgref.arc_center(pts[0], pts[1], *extra)
            t = max(tol, 1e-7)
            if abs(abs(c[4])-180) < .1:
                t = 1e-3
            d = g.domain
            name = m + '-arc' if m == 'path-part' else m
            for k in range(0, 9, 2):
                p = g.point_at_angle(d.start + (d.stop-d.start)*k/8)
                ctx.close_point(xy(p), image(s[k]), name, t, SCALE, (i, k, extra))
        elif kind == 'L':
            ctx.check(isinstance(g, Segment2D), m)
        else:
            gp = [xy(p) for p in g.points]
            if ctx.equal(len(gp), len(pts), m, kind):
                for p, e in zip(gp, pts):
                    ctx.close_point(p, image(e), m, tol, SCALE, (i, kind))

    ####################################################################################################

    def case_path(rng):
        n = rng.choice([0, 1, 2, 4, 4, 8, 15])
        text, commands = path_commands(rng, n)
        ctx.note(d=text, trivial=n < 1)
        path = PathDataAttribute.from_xml(text)
        observe_path(path, commands)
        # the element, the same, and its output
        element = SvgFormat.Path(etree.fromstring('<path d="%s"/>' % text))
        ctx.check(isinstance(element.path_data, Path2D), 'path-part', lambda: repr(element.path_data))
        d = element.to_xml().attrib['d']
        try:
            out = svgref.tokenize(d)
        except Exception as e:
            ctx.check(False, 'path-output', lambda: (d, repr(e)))
            return
        ctx.equal(out[0][0], 'M', 'path-output', d)
        start, segments, closed = svgref.resolve(commands)
        ostart, osegments, oclosed = svgref.resolve(out)
        ctx.close_point(ostart, start, 'path-output', 1e-9, SCALE)
        ctx.equal(oclosed, closed, 'path-output')
        if ctx.equal(len(osegments), len(segments), 'path-output', d):
            for a, b in zip(osegments, segments):
                ctx.close_point(a[1][0], b[1][0], 'path-output', 1e-9, SCALE)
                ctx.close_point(a[1][-1], b[1][-1], 'path-output', 1e-9, SCALE)
                if b[0] == 'A':
                    c = svgref.arc_center(b[1][0], b[1][1], *b[2])
                    if c is None or abs(abs(c[4])-180) < .1:
                        continue
                for p, q in zip(svgref.sample_segment(a), svgref.sample_segment(b)):
                    ctx.close_point(p, q, 'path-output', 1e-6, SCALE, (a, b))
        again = SvgFormat.Path(element.to_xml())
        observe_path(again.path_data, out, 'path-reread')

    ctx.cases('path-data', case_path, 900, 30000)

    def case_python_path(rng):
        """path elements made from a path with rounded corners"""
        w, h = rng.uniform(5, 50), rng.uniform(5, 50)
        p0 = gen.grid(rng, 30)
        r = rng.choice([None, rng.uniform(.1, .45)*min(w, h)])
        path = Path2D.rounded_rectangle(V(p0), w, h, r)
        ctx.note(p0=p0, w=w, h=h, r=r)
        element = SvgFormat.Path(path_data=path, fill='none')
        out = svgref.tokenize(element.to_xml().attrib['d'])
        start, segments, closed = svgref.resolve(out)
        ctx.check(closed, 'path-output')
        pts = [p for s in segments for p in svgref.sample_segment(s, 17)]
        ref = rounded_rectangle(p0, w, h, r or 0)
        for p in pts:
            ctx.check(svgref.polyline_distance(p, ref) < 2e-3*max(w, h), 'path-output', lambda: (p, out))
        for p in ref:
            ctx.check(svgref.polyline_distance(p, pts) < 2e-3*max(w, h), 'path-output', lambda: ('missing', p, out))

    def rounded_rectangle(p0, w, h, r):
        x, y = p0
        if not r:
            corners = [(x, y), (x+w, y), (x+w, y+h), (x, y+h), (x, y)]
            return [svgref.lerp(a, b, i/8) for a, b in zip(corners, corners[1:]) for i in range(9)]
        out = []
        for cx, cy, a in ((x+w-r, y+r, -90), (x+w-r, y+h-r, 0), (x+r, y+h-r, 90), (x+r, y+r, 180)):
            out += [svgref.arc_point((cx, cy), r, r, 0, a + 90*i/16) for i in range(17)]
        return out + out[:1]

    ctx.cases('path-from-python', case_python_path, 150, 3000)

    def case_rounded_path(rng):
        """any path of lines whose corners are rounded or not: left and right turns, open or closed"""
        n = rng.randint(3, 7)
        while True:
            p = [tuple(map(float, gen.grid(rng, 30))) for _ in range(n)]
            legs = [math.dist(p[i], p[(i+1) % n]) for i in range(n)]
            turns = []
            for i in range(n):
                a, b, c = p[i-1], p[i], p[(i+1) % n]
                u, v = (b[0]-a[0], b[1]-a[1]), (c[0]-b[0], c[1]-b[1])
                turns.append(math.degrees(math.atan2(u[0]*v[1]-u[1]*v[0], u[0]*v[0]+u[1]*v[1])))
            if min(legs) > 4 and all(5 < abs(t) < 165 for t in turns):
                break
        closed = rng.random() < .5
        # the trim of a corner is radius*tan(turn/2)
        trims = [rng.uniform(.1, .45)*min(legs[i-1], legs[i]) if rng.random() < .6 else 0 for i in range(n)]
        if not closed:
            trims[0] = trims[-1] = 0
        radii = [t/math.tan(math.radians(abs(a)/2)) or None for t, a in zip(trims, turns)]
        ctx.note(points=p, radii=radii, closed=closed)
        path = Path2D(p[0])
        for i in range(1, n):
            # the radius of a part is the one of its first corner
            r = radii[i-1] if i > 1 else None
            path.line_to((p[i][0]-p[i-1][0], p[i][1]-p[i-1][1]), radius=r)
        if closed:
            path.close(radius=radii[n-1], close_radius=radii[0])
        ref = []
        for i in range(n):
            b = p[i]
            if not trims[i]:
                ref.append(b)
                continue
            a, c = p[i-1], p[(i+1) % n]
            t, r = trims[i], radii[i]
            u = ((b[0]-a[0])/legs[i-1], (b[1]-a[1])/legs[i-1])
            q = (b[0]-u[0]*t, b[1]-u[1]*t)
            side = 1 if turns[i] > 0 else -1
            center = (q[0]-u[1]*r*side, q[1]+u[0]*r*side)
            start = math.degrees(math.atan2(q[1]-center[1], q[0]-center[0]))
            ref += [svgref.arc_point(center, r, r, 0, start + turns[i]*k/16) for k in range(17)]
        if closed:
            ref.append(ref[0])
        dense = [svgref.lerp(a, b, k/4) for a, b in zip(ref, ref[1:]) for k in range(5)]
        element = SvgFormat.Path(path_data=path, fill='none')
        out = svgref.tokenize(element.to_xml().attrib['d'])
        start, segments, is_closed = svgref.resolve(out)
        ctx.equal(bool(is_closed), closed, 'path-rounded', out)
        pts = [q for s in segments for q in svgref.sample_segment(s, 17)]
        if closed:
            pts.append(pts[0])
        for q in pts:
            ctx.check(svgref.polyline_distance(q, ref) < .05, 'path-rounded', lambda: (q, out))
        for q in dense:
            ctx.check(svgref.polyline_distance(q, pts) < .05, 'path-rounded', lambda: ('missing', q, out))
        length = lambda x: sum(math.dist(a, b) for a, b in zip(x, x[1:]))
        ctx.close(length(pts), length(ref), 'path-rounded', 1e-2, 1, out)

    ctx.cases('path-rounded', case_rounded_path, 150, 3000)

    def case_path_reject(rng):
        text, commands = path_commands(rng, rng.randint(1, 5), close=False)
        k = rng.choice(['letter', 'missing', 'start', 'flag', 'junk', 'number'])
        last = commands[-1]
        if k == 'letter':
            text = text + ' %s 1 2' % rng.choice('XBxbnkW')
        elif k == 'missing':
            letter = rng.choice('LlHhVvCcSsQqTtAa')
            n = svgref.NUMBER_OF_ARGS[letter.lower()]
            m = rng.randint(0, n-1)
            text = text + ' ' + letter + ' '.join(['1']*m)
        elif k == 'start':
            text = rng.choice(['L', 'l', 'C', 'Z', 'z', 'h', 'A']) + rng.choice([' 1 2', '', ' 1 2 3 4 5 6'])
        elif k == 'flag':
            text = text + ' A 10 10 0 %s %s 30 40' % rng.choice([('2', '1'), ('1', '7'), ('x', '1'), ('-1', '1')])
        elif k == 'junk':
            text = text + rng.choice([' #', ' L 1 ;2', ' L 1 (2)', ' L "1" 2'])
        else:
            text = text + rng.choice([' L 1-', ' L . 1', ' L 1 e5', ' L 1 --2', ' L 1..2.'])
        ctx.note(text=text)
        ctx.raises((Exception,), lambda: PathDataAttribute.from_xml(text), 'path-reject', text)

    ctx.cases('path-reject', case_path_reject, 300, 5000)

    def case_subpath(rng):
        """each subpath of path data is part of the imported geometry (known finding)"""
        text1, c1 = path_commands(rng, 2, close=False)
        closed = rng.random() < .5
        text = 'M 0 0 L 10 0 L 10 10 %s M 20 20 L 30 20 L 30 30' % ('Z' if closed else '')
        ctx.note(text=text)
        try:
            path = PathDataAttribute.from_xml(text)
        except Exception:
            ctx.check(False, 'subpath', 'rejected')
            return
        paths = path if isinstance(path, (list, tuple)) else [path]
        moved = any(abs(xy(part.start_point)[0]-20) < 1e-9 and abs(xy(part.start_point)[1]-20) < 1e-9 for p in paths for part in p)
        bridge = any(xy(part.start_point) in ((10., 10.), (0., 0.)) and xy(part.stop_point) in ((20., 20.), (30., 20.)) for p in paths for part in p)
        ctx.check(moved and not bridge, 'subpath', text)

    ctx.cases('subpath', case_subpath, 10, 50)

    ####################################################################################################

    def transform_text(rng, n, regular=True):
        """text and matrix"""
        total = svgref.IDENTITY
        text = ''
        for i in range(n):
            name = rng.choice(['matrix', 'translate', 'scale', 'rotate', 'skewX', 'skewY', 'rotate', 'translate'])
            u = lambda: rng.choice([float(rng.randint(-20, 20)), rng.uniform(-20, 20)])
            if name == 'matrix':
                while True:
                    v = [rng.uniform(-2, 2) for _ in range(4)]
                    if abs(v[0]*v[3]-v[1]*v[2]) > .3:
                        break
                v += [u(), u()]
            elif name == 'translate':
                v = [u() for _ in range(rng.choice([1, 2, 2]))]
            elif name == 'scale':
                v = [rng.choice([-1, 1])*rng.uniform(.3, 3) for _ in range(rng.choice([1, 2]))]
                if rng.random() < .1: # flattened
                    v[-1] = 0.
            elif name == 'rotate':
                v = [rng.choice([45, -90, 180, 30, rng.uniform(-360, 360)])]
                if rng.random() < .5:
                    v += [u(), u()]
            else:
                v = [rng.uniform(-50, 50)]
            pairs = [number_text(rng, x) for x in v]
            v = [p[1] for p in pairs]
            if name == 'matrix' and abs(v[0]*v[3]-v[1]*v[2]) < .1 or name == 'scale' and 0 in v[:-1]:
                pairs = [('1', 1.), ('0', 0.), ('0', 0.), ('1', 1.), ('3', 3.), ('4', 4.)] if name == 'matrix' else [('2', 2.)]
                v = [p[1] for p in pairs]
            sep = rng.choice([',', ' ', ', ', ' , '])
            if text:
                text += rng.choice([' ', ',', ', ', '', '\n'])
            text += name + rng.choice(['', '', ' ']) + '(' + rng.choice(['', ' ']) + sep.join(p[0] for p in pairs) + rng.choice(['', ' ']) + ')'
            total = svgref.compose(total, svgref.matrix(name, v))
        if rng.random() < .1:
            text = ' ' + text + ' '
        return text, total

    def observe_transform(t, m, name, detail=None):
        s = max(SCALE, max(abs(x) for x in m)*30)
        for p in ((0, 0), (10, 0), (0, 10), (-7, 13)):
            ctx.close_point(xy(t * V(p)), svgref.apply(m, p), name, 1e-9, s, detail)

    def parse_matrix(text):
        a = re.fullmatch(r'\s*matrix\(([^()]*)\)\s*', text)
        v = [float(x) for x in a.group(1).replace(',', ' ').split()]
        assert len(v) == 6, v
        return tuple(v)

    def case_transform(rng):
        n = rng.choice([1, 1, 2, 3, 5])
        text, m = transform_text(rng, n)
        ctx.note(text=text)
        t = TransformAttribute.from_xml(text)
        observe_transform(t, m, 'transform', text)
        group = SvgFormat.Group(etree.fromstring('<g transform="%s"/>' % text))
        observe_transform(group.transform, m, 'transform', text)
        out = group.to_xml().attrib['transform']
        try:
            v = parse_matrix(out)
        except Exception as e:
            ctx.check(False, 'transform-output', lambda: (out, repr(e)))
            return
        s = max(SCALE, max(abs(x) for x in m))
        for a, b in zip(v, m):
            ctx.close(a, b, 'transform-output', 1e-9, s, out)
        observe_transform(SvgFormat.Group(group.to_xml()).transform, m, 'transform-output', out)
        # Python value
        python = SvgFormat.Group(transform=t)
        observe_transform(python.transform, m, 'transform-output')

    ctx.cases('transform', case_transform, 500, 15000)

    def case_transform_reject(rng):
        text = rng.choice(['foo(1)', 'rotate(1', 'rotate 1', 'translate(1,2,3)', 'rotate(1,2)', 'matrix(1,2,3,4,5)', 'scale()', 'translate(a)',
                           'scale(1 2 3)', 'skewX(1,2)', 'rotate(10))', 'rotate(10) junk', '(1,2)'])
        prefix = rng.choice(['', 'translate(1,2) '])
        ctx.note(text=prefix + text)
        ctx.raises((Exception,), lambda: TransformAttribute.from_xml(prefix + text), 'transform-reject', prefix + text)

    ctx.cases('transform-reject', case_transform_reject, 60, 200)

    ####################################################################################################

    UNITS = ['em', 'ex', 'px', 'in', 'cm', 'mm', 'pt', 'pc']

    def case_length(rng):
        t, v = number_text(rng, rng.choice([rng.uniform(0, 30), float(rng.randint(0, 20))]))
        unit = rng.choice(['', '', '%'] + UNITS)
        text = rng.choice(['', '', ' ']) + t + unit + rng.choice(['', '', ' ', '  '])
        ctx.note(text=text)
        item = SvgFormat.Line(etree.fromstring('<line stroke-width="%s"/>' % text))
        got = item.stroke_width
        ctx.close(float(got), v/100 if unit == '%' else v, 'length', 1e-12, detail=text)
        if unit not in ('', '%'):
            ctx.equal(getattr(got, 'unit', None), unit, 'length', text)
        out = item.to_xml().attrib['stroke-width']
        m = re.fullmatch(r'([-+.0-9eE]*[0-9.])(%|[a-z]{2})?', out)
        if ctx.check(m is not None, 'length-output', out):
            ctx.close(float(m.group(1)), v, 'length-output', 1e-10, detail=(text, out))
            ctx.equal(m.group(2) or '', unit, 'length-output', (text, out))
        item = SvgFormat.Line(etree.fromstring('<line stroke-width="inherit"/>'))
        ctx.equal(item.stroke_width, 'inherit', 'length')
        item = SvgFormat.Line(stroke_width=v)
        ctx.close(float(item.stroke_width), v, 'length')
        ctx.raises((ValueError,), lambda: SvgFormat.Line(etree.fromstring('<line stroke-width="%s"/>' % rng.choice(['abc', 'px', '1 2', '--3', '%']))), 'length')

    ctx.cases('length', case_length, 200, 3000)

    def case_dash(rng):
        values = [number_text(rng, rng.choice([rng.uniform(0, 30), float(rng.randint(0, 20))])) for _ in range(rng.randint(1, 5))]
        text = ''
        for i, p in enumerate(values):
            text += (rng.choice([',', ' ', ', ', ' , ', '  ']) if i else '') + p[0]
        e = [p[1] for p in values]
        ctx.note(text=text)
        item = SvgFormat.Line(etree.fromstring('<line stroke-dasharray="%s"/>' % text))
        for got in (item.stroke_dasharray, SvgFormat.Line(item.to_xml()).stroke_dasharray, SvgFormat.Line(stroke_dasharray=e).stroke_dasharray,
                    SvgFormat.Line(SvgFormat.Line(stroke_dasharray=tuple(e)).to_xml()).stroke_dasharray):
            ctx.check(len(got) == len(e) and all(abs(a - b) <= 1e-9*max(1, abs(b)) for a, b in zip(got, e)), 'dash', lambda: (text, got))
        word = rng.choice(['none', 'inherit'])
        out = SvgFormat.Line(etree.fromstring('<line stroke-dasharray="%s"/>' % word)).to_xml().attrib.get('stroke-dasharray')
        ctx.check(out == word or word == 'none' and out is None, 'dash', lambda: (word, out))
        ctx.raises((ValueError,), lambda: SvgFormat.Line(etree.fromstring('<line stroke-dasharray="%s"/>' % rng.choice(['a b', '1;2', '3 x']))), 'dash')

    ctx.cases('dash', case_dash, 100, 2000)

    def case_rect(rng):
        w, h = rng.choice([(20., 10.), (5., 5.), (rng.uniform(1, 50), rng.uniform(1, 50))])
        x, y = rng.choice([None, 0., rng.uniform(-50, 50)]), rng.choice([None, 3., rng.uniform(-50, 50)])
        how = rng.choice(['none', 'none', 'rx', 'ry', 'both', 'zero-x', 'zero-y', 'large'])
        r = rng.uniform(.1, .48)*min(w, h)
        rx = ry = None
        expected = r
        if how == 'none':
            expected = 0
        elif how == 'rx':
            rx = r
        elif how == 'ry':
            ry = r
        elif how == 'both':
            rx = ry = r
        elif how == 'zero-x':
            rx, ry, expected = 0., r, 0
        elif how == 'zero-y':
            rx, ry, expected = r, 0., 0
        else:
            rx = ry = min(w, h)*rng.uniform(.6, 3)
            expected = min(w, h)/2
        attrs = dict(x=x, y=y, width=w, height=h, rx=rx, ry=ry)
        text = '<rect %s/>' % ' '.join('%s="%r"' % (k, v) for k, v in attrs.items() if v is not None)
        ctx.note(text=text)
        rect = SvgFormat.Rect(etree.fromstring(text))
        path = rect.geometry
        p0 = (x or 0., y or 0.)
        box = path.bounding_box
        ctx.close_point((box.x.inf, box.y.inf), p0, 'rect', 1e-9, SCALE)
        ctx.close_point((box.x.sup, box.y.sup), (p0[0]+w, p0[1]+h), 'rect', 1e-9, SCALE)
        ctx.equal(bool(path.is_closed), True, 'rect')
        for part in path:
            if expected:
                if ctx.check(part.radius is not None, 'rect-radius', text):
                    ctx.close(part.radius, expected, 'rect-radius', 1e-9)
            else:
                ctx.check(part.radius is None, 'rect-radius', text)
        ref = rounded_rectangle(p0, w, h, expected)
        for part in path:
            for p in (part.geometry.p0, part.geometry.p1):
                ctx.check(svgref.polyline_distance(xy(p), ref) < 1e-2*max(w, h), 'rect', lambda: (p, text))

    ctx.cases('rect', case_rect, 200, 4000)

    ####################################################################################################

    class Reader(SvgFileInternal):

        def __init__(self, path, data=None):
            self.events = []
            self.root = None
            super().__init__(path, data)

        def on_svg_root(self, svg_root):
            super().on_svg_root(svg_root)
            self.root = svg_root

        def on_group(self, group):
            super().on_group(group)
            self.events.append(('g', group, None))

        def on_graphic_item(self, item):
            # the item is of its own: it leaves the state inherited by the next ones
            super().on_graphic_item(item)
            state = self._dispatcher.state.clone().merge(item)
            self.events.append(('item', item, state))

    PROPERTIES = {
        'stroke': ['red', '#ff00aa', 'none', 'url(#grad)', 'rgb(1,2,3)', 'transparent'],
        'fill': ['blue', '#123', 'none', 'url(http://x.y/z#g)', 'currentColor'],
        'stroke-width': ['1', '2.5', '1e-3', '.5', '12', '0'],
        'stroke-linecap': ['round', 'square', 'butt'],
        'stroke-linejoin': ['round', 'bevel', 'miter'],
        'stroke-miterlimit': ['10', '2.5'],
        'stroke-dasharray': ['5,3', '4 2.5 1', 'none', '6, 3'],
        'font-size': ['12', '8.5', '14px', 'large'], # of groups
        'font-family': ['serif', 'Sans, Arial'],
    }
    DEFAULTS = {'stroke': None, 'fill': None, 'stroke-width': 1, 'stroke-linecap': 'butt', 'stroke-linejoin': 'miter', 'stroke-miterlimit': 4, 'stroke-dasharray': None, 'font-size': None, 'font-family': None}
    CLASSES = dict(path='Path', rect='Rect', circle='Circle', ellipse='Ellipse', line='Line', polyline='Polyline', polygon='Polygon')

    def attributes(rng, state, group):
        """attributes of an element, and the state it gives"""
        attrs = {}
        style = []
        state = dict(state)
        for name, values in PROPERTIES.items():
            k = rng.random()
            if name.startswith('font') and not group:
                continue
            if k < .18:
                v = rng.choice(values + ['inherit'])
                attrs[name] = v
                if v != 'inherit':
                    state[name] = v
            if k < .08 or .9 < k:
                v = rng.choice(values)
                style.append((name, v))
                state[name] = v
        if style:
            rng.shuffle(style)
            sep = rng.choice([':', ': ', ' : '])
            attrs['style'] = rng.choice([';', '; ', ' ;']).join(n + sep + v for n, v in style) + rng.choice(['', ';', '; '])
        if rng.random() < .1 and 'style' not in attrs:
            attrs['style'] = rng.choice(['', ';', 'font-variant-ligatures:none'])
        return attrs, state

    def document(rng):
        ids = [0]
        expected = [] # (kind, id, class, matrix, state, data)
        ns = rng.random() < .8
        prefix = '{%s}' % NS if ns else ''
        nsmap = ({'svg': NS} if rng.random() < .2 else {None: NS}) if ns else None

        def noise(parent):
            k = rng.random()
            if k < .1:
                parent.append(etree.Comment(' a comment <path/> '))
            elif k < .15:
                parent.append(etree.ProcessingInstruction('target', 'data'))
            elif k < .22:
                e = etree.SubElement(parent, prefix + rng.choice(['title', 'desc', 'metadata', 'text', 'foo', 'style']))
                e.text = 'some text'
            elif k < .3:
                e = etree.SubElement(parent, prefix + rng.choice(['defs', 'clipPath', 'mask', 'marker', 'symbol', 'pattern']))
                etree.SubElement(e, prefix + 'path', d='M 0 0 L 1 1', id='hidden%d' % ids[0])
            elif k < .33:
                etree.SubElement(parent, '{http://www.inkscape.org/namespaces/inkscape}path')\
                    .tail = '\n' if False else None
                parent.remove(parent[-1])

        def fill(parent, matrix, state, depth):
            for _ in range(rng.randint(0 if depth else 1, 4)):
                noise(parent)
                name = 'n%d' % ids[0]
                ids[0] += 1
                group = rng.random() < .35 and depth < 4
                attrs, s = attributes(rng, state, group)
                m = matrix
                if rng.random() < .5:
                    attrs['transform'], t = transform_text(rng, rng.choice([1, 1, 2]))
                    m = svgref.compose(matrix, t)
                if rng.random() < .9:
                    attrs['id'] = name
                else:
                    name = None
                if group:
                    e = etree.SubElement(parent, prefix + 'g', **attrs)
                    expected.append(('g', name, 'Group', None, None, None))
                    fill(e, m, s, depth+1)
                    continue
                tag = rng.choice(['path', 'path', 'rect', 'circle', 'ellipse', 'line', 'polyline', 'polygon'])
                u = lambda: round(rng.uniform(-50, 50), 2)
                if tag == 'path':
                    if rng.random() < .05:
                        data = None
                    else:
                        attrs['d'], data = path_commands(rng, rng.randint(1, 4))
                elif tag == 'rect':
                    data = dict(x=u(), y=u(), width=abs(u())+1, height=abs(u())+1)
                elif tag == 'circle':
                    data = dict(cx=u(), cy=u(), r=abs(u()))
                elif tag == 'ellipse':
                    data = dict(cx=u(), cy=u(), rx=abs(u()), ry=abs(u()))
                elif tag == 'line':
                    data = dict(x1=u(), y1=u(), x2=u(), y2=u())
                else:
                    data = dict(points=' '.join('%r,%r' % (u(), u()) for _ in range(rng.randint(2, 5))))
                if tag != 'path':
                    attrs.update({k: str(v) for k, v in data.items()})
                etree.SubElement(parent, prefix + tag, **attrs)
                expected.append(('item', name, CLASSES[tag], m, s, data))
            noise(parent)

        attrs = {}
        view = None
        if rng.random() < .85:
            view = [float(rng.randint(-50, 50)), float(rng.randint(-50, 50)), float(rng.randint(1, 200)), float(rng.randint(1, 200))]
            attrs['viewBox'] = rng.choice([' ', ',', ', ']).join('%g' % x for x in view)
        size = None
        if rng.random() < .8:
            size = ('%dmm' % rng.randint(1, 300), rng.choice(['100%', '%d' % rng.randint(1, 300)]))
            attrs['width'], attrs['height'] = size
        state = DEFAULTS
        if rng.random() < .4:
            # the style of the root is inherited as well
            style, state = attributes(rng, DEFAULTS, True)
            attrs.update(style)
        root = etree.Element(prefix + 'svg', nsmap=nsmap, **attrs)
        fill(root, svgref.IDENTITY, state, 0)
        return root, expected, view, size

    def same_value(got, expected, dash=False):
        if expected in ('none', None):
            return got is None
        if dash: # a list, or the text of a style
            numbers = lambda x: [float(v) for v in x.replace(',', ' ').split()] if isinstance(x, str) else [float(v) for v in x or ()]
            return numbers(got) == numbers(expected)
        if isinstance(expected, (int, float)):
            return got == expected
        try:
            e = float(expected)
        except ValueError:
            return got == expected
        try:
            return abs(float(got) - e) <= 1e-12*max(1, abs(e))
        except (TypeError, ValueError):
            return False

    def read(rng, root):
        data = etree.tostring(root, xml_declaration=rng.random() < .5, encoding='utf-8', pretty_print=rng.random() < .5)
        k = rng.choice(['bytes', 'str', 'file'])
        if k == 'bytes':
            return Reader(None, data), data
        elif k == 'str':
            return Reader('name.svg', '\n' + data.decode('utf8') + '\n'), data
        path = os.path.join(directory, 'doc.svg')
        with open(path, 'wb') as fh:
            fh.write(data)
        return Reader(path), data

    def observe_document(reader, expected, view, size):
        got = [(k, getattr(i, 'id', None)) for k, i, s in reader.events]
        if not ctx.equal(got, [(e[0], e[1]) for e in expected], 'doc-order'):
            return
        if view is not None:
            b = reader.view_box
            ctx.close_point((b.x.inf, b.y.inf), view[:2], 'doc-view-box')
            ctx.close_point((b.x.sup, b.y.sup), (view[0]+view[2], view[1]+view[3]), 'doc-view-box')
        if size is not None:
            ctx.equal((reader.width, reader.height), size, 'doc-view-box')
        for (kind, item, state), (_, name, cls, m, s, data) in zip(reader.events, expected):
            ctx.equal(type(item).__name__, cls, 'doc-class')
            if kind == 'g':
                continue
            observe_transform(state.transform, m, 'doc-transform', (name, cls))
            for k, v in s.items():
                g = getattr(state, k.replace('-', '_'))
                ctx.check(same_value(g, v, k == 'stroke-dasharray'), 'doc-state', lambda: (name, k, g, v))
            if cls == 'Path':
                if data is None:
                    ctx.check(item.path_data is None, 'doc-geometry')
                else:
                    observe_path(item.path_data, data, 'doc-geometry')
                    path = item.path_data.transform(state.transform)
                    start, segments, closed = svgref.resolve(data)
                    for part, segment in zip(path, segments):
                        big = max(SCALE, max(abs(x) for x in m)*300)
                        ctx.close_point(xy(part.start_point), svgref.apply(m, segment[1][0]), 'doc-geometry', 1e-8, big)
                        ctx.close_point(xy(part.stop_point), svgref.apply(m, segment[1][-1]), 'doc-geometry', 1e-8, big)
            else:
                for k, v in data.items():
                    g = getattr(item, k)
                    if k in ('points',):
                        ctx.equal(g, v, 'doc-attributes')
                    else:
                        ctx.close(float(g), v, 'doc-attributes', 1e-12)

    def case_document(rng):
        root, expected, view, size = document(rng)
        ctx.note(svg=etree.tostring(root).decode(), trivial=len(expected) < 2)
        reader, data = read(rng, root)
        observe_document(reader, expected, view, size)
        # a reader doesn't depend on the previous ones
        if rng.random() < .3:
            reader = Reader(None, data)
            ctx.equal(len(reader.events), len(expected), 'doc-rerun')
            observe_document(reader, expected, view, size)
        # default reader
        path = os.path.join(directory, 'doc.svg')
        with open(path, 'wb') as fh:
            fh.write(data)
        SvgFile(path)
        ctx.seen('doc-rerun')

    ctx.cases('document', case_document, 250, 6000)

    ####################################################################################################

    class Paper:
        def __init__(self, width, height):
            self.width = width
            self.height = height

    def case_writer(rng):
        paper = Paper(rng.choice([210, 297., rng.uniform(50, 1200)]), rng.choice([297, 420.5, rng.uniform(50, 1200)]))
        u = lambda: rng.uniform(-100, 100)
        items = []
        expected = []
        for i in range(rng.randint(0, 6)):
            k = rng.choice(['line', 'path', 'text', 'circle', 'group'])
            if k == 'line':
                a = dict(x1=u(), y1=u(), x2=u(), y2=u())
                items.append(SvgFormat.Line(stroke='red', stroke_width=2., **a))
                expected.append(('line', dict(a, stroke='red', **{'stroke-width': 2.})))
            elif k == 'path':
                d, commands = path_commands(rng, 2)
                items.append(SvgFormat.Path(path_data=d, fill='none', id='p%d' % i))
                expected.append(('path', dict(fill='none', id='p%d' % i), commands))
            elif k == 'text':
                items.append(SvgFormat.Text(x=1., y=2., text='a < b & "c" é', fill='black'))
                expected.append(('text', dict(x=1., y=2., fill='black'), 'a < b & "c" é'))
            elif k == 'circle':
                items.append(SvgFormat.Circle(cx=u(), cy=u(), r=3., stroke_dasharray=[6, 3]))
                expected.append(('circle', {'r': 3., 'stroke-dasharray': '6 3'}))
            else:
                items.append(SvgFormat.Group(id='g%d' % i, stroke_line_cap='round'))
                expected.append(('g', {'id': 'g%d' % i, 'stroke-linecap': 'round'}))
        m = None
        transformation = None
        if rng.random() < .5:
            text, m = transform_text(rng, 2)
            transformation = TransformAttribute.from_xml(text)
        path = os.path.join(directory, 'out.svg')
        ctx.note(paper=(paper.width, paper.height), expected=repr(expected), m=m, trivial=len(items) < 2)
        SvgFileWriter(path, paper, items, transformation)
        root = etree.parse(path).getroot()
        ctx.equal(root.tag, '{%s}svg' % NS, 'writer-root')
        for k in ('width', 'height'):
            t = root.attrib[k]
            ctx.check(t.endswith('mm'), 'writer-root', t)
            ctx.close(float(t[:-2]), getattr(paper, k), 'writer-root', 1e-6, 1e3)
        v = [float(x) for x in root.attrib['viewBox'].split()]
        ctx.close_point(v[:2], (0, 0), 'writer-root')
        ctx.close_point(v[2:], (paper.width, paper.height), 'writer-root', 1e-6, 1e3)
        children = [e for e in root if isinstance(e.tag, str)]
        if m is not None:
            ctx.equal(len(children), 1, 'writer-transform')
            v = parse_matrix(children[0].attrib['transform'])
            for a, b in zip(v, m):
                ctx.close(a, b, 'writer-transform', 1e-9, max(SCALE, max(abs(x) for x in m)))
            children = [e for e in children[0] if isinstance(e.tag, str)]
        if ctx.equal(len(children), len(expected), 'writer-elements'):
            for e, x in zip(children, expected):
                ctx.equal(e.tag, '{%s}%s' % (NS, x[0]), 'writer-elements')
                for k, v in x[1].items():
                    g = e.attrib.get(k)
                    if isinstance(v, float):
                        ctx.close(g, v, 'writer-elements', 1e-12, detail=k)
                    elif k == 'stroke-dasharray':
                        ctx.equal([float(y) for y in g.replace(',', ' ').split()], [6., 3.], 'writer-elements')
                    else:
                        ctx.equal(g, v, 'writer-elements', k)
                if x[0] == 'text':
                    ctx.equal(e.text, x[2], 'writer-elements')
                elif x[0] == 'path':
                    a = svgref.resolve(svgref.tokenize(e.attrib['d']))
                    b = svgref.resolve(x[2])
                    if ctx.equal(len(a[1]), len(b[1]), 'writer-elements'):
                        for p, q in zip(a[1], b[1]):
                            ctx.close_point(p[1][-1], q[1][-1], 'writer-elements', 1e-9, SCALE)
        # and it is read again
        reader = Reader(path)
        kinds = [(k, type(i).__name__) for k, i, s in reader.events]
        names = {'line': 'Line', 'path': 'Path', 'circle': 'Circle'}
        want = [('g', 'Group')] if m is not None else []
        want += [('g', 'Group') if x[0] == 'g' else ('item', names[x[0]]) for x in expected if x[0] != 'text']
        ctx.equal(kinds, want, 'writer-elements')
        b = reader.view_box
        ctx.close_point((b.x.sup, b.y.sup), (paper.width, paper.height), 'writer-root', 1e-6, 1e3)
        for k, i, s in reader.events:
            if s is not None and m is not None:
                observe_transform(s.transform, m, 'writer-transform')

    try:
        ctx.cases('writer', case_writer, 120, 2500)
    finally:
        shutil.rmtree(directory, ignore_errors=True)
