"""C19 -- exports of scenes: SVG, PDF, DXF, TeX and Matplotlib, and the tiles of a page"""
import base64
import math
import os
import re
import shutil
import tempfile
import zlib
import gen
import sketchgen as G

PID = 'C19'
RULE = ('random scenes (texts, circles, segments, cubic curves, named coordinates, z values, hidden items, styles, colours, scene transformations) and scenes of '
        'random sketches, exported by every painter, the outputs read by independent readers (XML, PDF content stream interpreter, ezdxf, TikZ parser, '
        'Matplotlib artists) and compared with the primitives of the scene; random boxes, papers and margins for the tiles; non-trivial: at least three items drawn')
ASSUMPTIONS = ['texts are ASCII without TeX, DXF or PDF control characters', 'a circle is a dot: its radius is not claimed', 'fonts and anchors of texts are not claimed',
               'DXF versions from R2004 (true colours)', 'TeX coordinates have two decimals']
PAINTERS = ['svg', 'pdf', 'dxf', 'mpl', 'tex', 'tiled']
MONITORS = ['tex-buffer'] + ['%s-%s' % (p, m) for p in PAINTERS for m in ('items', 'geometry', 'text', 'colour', 'width', 'dash')] + [
    'svg-page', 'pdf-page', 'mpl-view', 'tex-document', 'tiled-clip', 'unsupported', 'unsupported-hidden', 'scene-unchanged', 'dash-table',
    'tile-cover', 'tile-size', 'tile-disjoint', 'tile-count', 'tile-index', 'tile-box', 'file-name', 'sketch']

STATE = dict(dash={})
COLOURS = ['black', 'white', 'red', 'green', 'blue', 'deeppink', 'cornflowerblue', 'orange', 'darkgreen', '#123456', '#fe0190', '#00ff80', 'gray', 'lime']
TEXTS = ['A', 'Bc', 'point A1', 'a b', 'x+y=3', 'A(1)', '3.5 cm', 'n. 2: back', "it's", 'A - B / C', 'Z' * 30]
XCOLOR = dict(red=(255, 0, 0), green=(0, 255, 0), blue=(0, 0, 255), cyan=(0, 255, 255), magenta=(255, 0, 255), yellow=(255, 255, 0), black=(0, 0, 0),
              white=(255, 255, 255), gray=(128, 128, 128), darkgray=(64, 64, 64), lightgray=(191, 191, 191), brown=(191, 128, 64), lime=(191, 255, 0),
              olive=(128, 128, 0), orange=(255, 128, 0), pink=(255, 191, 191), purple=(191, 0, 64), teal=(0, 128, 128), violet=(128, 0, 128))


def extra_evidence(ctx):
    return dict(dash_patterns_seen={'%s %s' % k: repr(v) for k, v in sorted(STATE['dash'].items())})


####################################################################################################
# Readers.  Each one gives the list of the primitives drawn, in order, in the units of the document:
#   dict(kind, points, text, colour (r, g, b), width, dash)

NUMBER = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'


def hex_colour(text):
    text = text.strip().lower()
    m = re.fullmatch(r'#([0-9a-f]{2})([0-9a-f]{2})([0-9a-f]{2})', text)
    if m:
        return tuple(int(x, 16) for x in m.groups())
    m = re.fullmatch(r'rgb\(\s*(\d+)\s*,\s*(\d+)\s*,\s*(\d+)\s*\)', text)
    if m:
        return tuple(int(x) for x in m.groups())
    return text # a name


def read_svg(path):
    from lxml import etree
    root = etree.parse(path).getroot()
    ns = '{http://www.w3.org/2000/svg}'
    out = []
    def walk(e):
        for x in e:
            if not isinstance(x.tag, str):
                continue
            tag = x.tag.replace(ns, '')
            g = lambda k: float(x.get(k, 0))
            d = dict(kind=tag, points=[], text=None, element=x)
            if tag == 'g':
                walk(x)
                continue
            elif tag in ('style', 'defs', 'title', 'desc', 'metadata'):
                continue
            elif tag == 'text':
                d.update(points=[(g('x'), g('y'))], text=''.join(x.itertext()))
            elif tag == 'circle':
                d.update(points=[(g('cx'), g('cy'))], visible=g('r') > 0)
            elif tag == 'line':
                d.update(kind='segment', points=[(g('x1'), g('y1')), (g('x2'), g('y2'))])
            elif tag == 'path':
                s = x.get('d', '')
                letters = re.findall(r'[A-DF-Za-df-z]', s)
                n = [float(t) for t in re.findall(NUMBER, s)]
                if letters == ['M', 'C'] and len(n) == 8:
                    d.update(kind='cubic', points=[tuple(n[i:i+2]) for i in range(0, 8, 2)])
                elif letters == ['M', 'L'] and len(n) == 4:
                    d.update(kind='segment', points=[tuple(n[i:i+2]) for i in range(0, 4, 2)])
            if d['kind'] in ('segment', 'cubic'):
                d['colour'] = hex_colour(x.get('stroke', 'none'))
                d['width'] = float(x.get('stroke-width', 1))
                dash = x.get('stroke-dasharray', 'none')
                d['dash'] = None if dash.strip() == 'none' else tuple(float(t) for t in re.findall(NUMBER, dash))
                d['filled'] = x.get('fill', 'black' if d['kind'] == 'cubic' else 'none') != 'none' and d['kind'] == 'cubic'
            out.append(d)
    walk(root)
    return root, out


class PdfReader:

    def __init__(self, path):
        data = open(path, 'rb').read()
        m = re.search(rb'/MediaBox\s*\[([^\]]*)\]', data)
        self.media_box = [float(x) for x in m.group(1).split()] if m else None
        self.pages = len(re.findall(rb'/Type\s*/Page\b(?!s)', data))
        self.items = []
        for m in re.finditer(rb'<<(.*?)>>\s*stream\r?\n(.*?)endstream', data, re.S):
            head, body = m.groups()
            body = body.strip()
            if b'ASCII85' in head:
                body = base64.a85decode(b'<~' + body if body.endswith(b'~>') else body, adobe=body.endswith(b'~>'))
            if b'Flate' in head:
                body = zlib.decompress(body)
            self._content(body.decode('latin1'))

    TOKEN = re.compile(r'\s*(?:(\((?:[^\\()]|\\.|\((?:[^\\()]|\\.)*\))*\))|(\[[^\]]*\])|(/[^\s/\[\]()<>]+)|(' + NUMBER + r')|([A-Za-z*\'"]+))')

    def _content(self, s):
        ctm = (1, 0, 0, 1, 0, 0)
        state = dict(stroke=(0, 0, 0), fill=(0, 0, 0), width=1., dash=None)
        stack, args, path = [], [], []
        tm = (1, 0, 0, 1, 0, 0)
        mul = lambda a, b: (a[0]*b[0] + a[1]*b[2], a[0]*b[1] + a[1]*b[3], a[2]*b[0] + a[3]*b[2], a[2]*b[1] + a[3]*b[3],
                            a[4]*b[0] + a[5]*b[2] + b[4], a[4]*b[1] + a[5]*b[3] + b[5])
        at = lambda m, x, y: (m[0]*x + m[2]*y + m[4], m[1]*x + m[3]*y + m[5])
        pos = 0
        while True:
            m = self.TOKEN.match(s, pos)
            if not m:
                if s[pos:].strip():
                    raise ValueError('unexpected PDF content %r' % s[pos:pos+40])
                break
            pos = m.end()
            string, array, name, number, op = m.groups()
            if string is not None:
                args.append(re.sub(r'\\([0-7]{3}|.)', lambda k: chr(int(k.group(1), 8)) if k.group(1).isdigit() else k.group(1), string[1:-1]))
            elif array is not None:
                args.append([float(x) for x in re.findall(NUMBER, array)])
            elif name is not None:
                args.append(name)
            elif number is not None:
                args.append(float(number))
            else:
                if op == 'q':
                    stack.append((ctm, dict(state)))
                elif op == 'Q':
                    ctm, state = stack.pop()
                elif op == 'cm':
                    ctm = mul(args, ctm)
                elif op in ('RG', 'rg'):
                    state['stroke' if op == 'RG' else 'fill'] = tuple(round(255*x) for x in args)
                elif op in ('G', 'g'):
                    state['stroke' if op == 'G' else 'fill'] = (round(255*args[0]),)*3
                elif op == 'w':
                    state['width'] = args[0]
                elif op == 'd':
                    state['dash'] = tuple(args[0]) or None
                elif op == 'm':
                    path.append(('m', [at(ctm, *args)]))
                elif op == 'l':
                    path.append(('l', [at(ctm, *args)]))
                elif op == 'c':
                    path.append(('c', [at(ctm, *args[i:i+2]) for i in (0, 2, 4)]))
                elif op == 'h':
                    pass
                elif op in ('S', 's', 'f', 'F', 'f*', 'B', 'B*', 'b', 'b*'):
                    self._draw(path, op, ctm, state)
                    path = []
                elif op == 'n':
                    path = []
                elif op == 'BT':
                    tm = (1, 0, 0, 1, 0, 0)
                elif op == 'Tm':
                    tm = tuple(args)
                elif op == 'Td':
                    tm = mul((1, 0, 0, 1, args[0], args[1]), tm)
                elif op == 'Tj':
                    self.items.append(dict(kind='text', points=[at(mul(tm, ctm), 0, 0)], text=args[0], colour=state['fill']))
                args = []

    def _draw(self, path, op, ctm, state):
        scale = math.sqrt(abs(ctm[0]*ctm[3] - ctm[1]*ctm[2]))
        d = dict(kind='?', points=[], text=None, colour=state['stroke'], width=state['width']*scale, dash=state['dash'], filled=op != 'S' and op != 's', path=path)
        ops = ''.join(k for k, _ in path)
        points = [p for _, q in path for p in q]
        if ops == 'ml':
            d.update(kind='segment', points=points)
        elif ops == 'mc':
            d.update(kind='cubic', points=points)
        elif ops == 'mcccc':
            ends = [points[0]] + [q[-1] for k, q in path if k == 'c'][:3]
            d.update(kind='circle', points=[tuple(sum(p[i] for p in ends)/4 for i in (0, 1))], colour=state['fill'])
        self.items.append(d)


def read_dxf(path):
    import ezdxf
    document = ezdxf.readfile(path)
    out = []
    for e in document.modelspace():
        d = dict(kind=e.dxftype(), points=[], text=None, colour=e.rgb, width=None)
        linetype = e.dxf.linetype
        line = document.linetypes.get(linetype) if document.linetypes.has_entry(linetype) else 'undefined'
        d['dash'] = None if linetype.upper() in ('CONTINUOUS', 'BYLAYER') else line if line == 'undefined' else linetype.upper()
        if d['kind'] == 'LINE':
            d.update(kind='segment', points=[tuple(e.dxf.start), tuple(e.dxf.end)])
        elif d['kind'] == 'SPLINE':
            points = [tuple(p) for p in e.control_points]
            knots = list(e.knots)
            if e.dxf.degree == 3 and len(points) == 4 and len(knots) == 8 and len(set(knots[:4])) == 1 and len(set(knots[4:])) == 1 and knots[4] > knots[3] and not list(e.weights):
                d.update(kind='cubic', points=points)
        elif d['kind'] == 'TEXT':
            align, p1, p2 = e.get_placement()
            d.update(kind='text', points=[tuple(p1)], text=e.dxf.text)
        if any(abs(p[2]) > 1e-12 for p in d['points'] if len(p) > 2):
            d['kind'] += ' out of plane'
        d['points'] = [p[:2] for p in d['points']]
        out.append(d)
    return out


class TexReader:
    """figures of a document: dict(options, coordinates, items, clip, label)"""

    def __init__(self, source):
        self.figures = []
        m = re.match(r'\s*\\documentclass(?:\[[^\]]*\])?\{\w+\}(.*?)\\begin\{document\}(.*)\\end\{document\}\s*$', source, re.S)
        if not m:
            raise ValueError('not a LaTeX document')
        self.preamble, body = m.groups()
        self.preamble = re.sub(r'(?<!\\)%[^\n]*\n', '', self.preamble)
        stack = []
        for k, name in re.findall(r'\\(begin|end)\{(\w+)\}', body):
            if k == 'begin':
                stack.append(name)
            elif not stack or stack.pop() != name:
                raise ValueError('environments')
        if stack:
            raise ValueError('environments')
        for options, content in re.findall(r'\\begin\{tikzpicture\}(?:\[([^\]]*)\])?(.*?)\\end\{tikzpicture\}', body, re.S):
            self._figure(options, content)

    @staticmethod
    def statements(content):
        out, level, last = [], 0, ''
        for c in content:
            if c == ';' and level == 0:
                out.append(last)
                last = ''
                continue
            level += (c == '{') - (c == '}')
            last += c
        return out + [last]

    @staticmethod
    def split(options):
        parts, level, last = [], 0, ''
        for c in options:
            if c == ',' and level == 0:
                parts.append(last)
                last = ''
                continue
            level += (c == '{') - (c == '}')
            last += c
        parts.append(last)
        return [p.strip() for p in parts if p.strip()]

    def _figure(self, options, content):
        f = dict(options=dict(o.split('=', 1) for o in self.split(options)), coordinates={}, items=[], clip=None, labels=[])
        self.figures.append(f)
        content = re.sub(r'(?<!\\)%[^\n]*\n', '\n', content)
        content = re.sub(r'\\(fontsize\{[^}]*\}\{[^}]*\}|selectfont|color\{[^}]*\})', '', content)
        POINT = r'\(\s*([^()]*?)\s*\)'
        for statement in self.statements(content):
            statement = statement.strip()
            if not statement:
                continue
            m = re.fullmatch(r'\\coordinate\s*\(([^)]*)\)\s*at\s*' + POINT, statement)
            if m:
                if m.group(1) in f['coordinates']:
                    raise ValueError('coordinate %s defined twice' % m.group(1))
                f['coordinates'][m.group(1)] = self.point(f, m.group(2))
                continue
            m = re.fullmatch(r'\\(draw|fill|path|node)\s*(?:\[((?:[^\[\]])*)\])?\s*(.*)', statement, re.S)
            if not m:
                raise ValueError('statement %r' % statement)
            command, options, rest = m.groups()
            options = self.split(options or '')
            d = dict(kind='?', points=[], text=None, statement=statement)
            if 'clip' in options:
                if f['items']:
                    d['kind'] = 'late clip'
                    f['items'].append(d)
                    continue
                f['clip'] = [self.point(f, p) for p in re.findall(POINT, rest)]
                continue
            m = re.fullmatch(POINT + r'\s*node\s*(?:\[[^\]]*\])?\s*\{(.*)\}', rest, re.S)
            if m:
                d.update(kind='text', points=[self.point(f, m.group(1))], text=m.group(2))
                if f['clip'] is None and 'clip' in content:
                    f['labels'].append(d)
                    continue
            m = re.fullmatch(POINT + r'\s*circle\s*(?:\([^)]*\)|\[[^\]]*\])', rest)
            if m:
                d.update(kind='circle', points=[self.point(f, m.group(1))])
            m = re.fullmatch(POINT + r'\s*--\s*' + POINT, rest)
            if m and command == 'draw':
                d.update(kind='segment', points=[self.point(f, p) for p in m.groups()])
            m = re.fullmatch(POINT + r'\s*\.\.\s*controls\s*' + POINT + r'\s*and\s*' + POINT + r'\s*\.\.\s*' + POINT, rest)
            if m and command == 'draw':
                d.update(kind='cubic', points=[self.point(f, p) for p in m.groups()])
            if d['kind'] in ('segment', 'cubic'):
                self.style(d, options)
            f['items'].append(d)

    @staticmethod
    def point(f, text):
        m = re.fullmatch('(%s)\\s*,\\s*(%s)' % (NUMBER, NUMBER), text)
        if m:
            return tuple(float(x) for x in m.groups())
        return f['coordinates'][text] # a coordinate must be defined before

    @staticmethod
    def style(d, options):
        d.update(colour=(0, 0, 0), width=.4, dash=None)
        for o in options:
            k, _, v = o.partition('=')
            k, v = k.strip(), v.strip()
            if k == 'line width':
                d['width'] = float(re.fullmatch('(%s)\\s*(pt)?' % NUMBER, v).group(1))
            elif k in ('color', 'draw'):
                m = re.fullmatch(r'\{\s*rgb\s*,\s*255\s*:\s*red\s*,\s*(\d+)\s*;\s*green\s*,\s*(\d+)\s*;\s*blue\s*,\s*(\d+)\s*\}', v)
                d['colour'] = tuple(int(x) for x in m.groups()) if m else XCOLOR.get(v, v)
            elif k == 'dash pattern':
                d['dash'] = v
            elif o in XCOLOR:
                d['colour'] = XCOLOR[o]
            elif re.fullmatch(r'(densely |loosely )?(dashed|dotted|dashdotted|dash dot|dash dot dot|dashdotdotted)', o):
                d['dash'] = o
            elif o != 'solid':
                raise ValueError('option %r' % o)


####################################################################################################

def run(ctx):
    os.environ['MPLBACKEND'] = 'Agg'
    import logging
    logging.getLogger('ezdxf').setLevel(logging.ERROR)
    logging.getLogger('matplotlib').setLevel(logging.ERROR)
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib import pyplot as plt
    import Patro.Pattern
    from pathlib import Path
    from IntervalArithmetic import Interval2D
    from Patro.GeometryEngine.Transformation import AffineTransformation2D as T
    from Patro.GeometryEngine.Vector import Vector2D as V
    from Patro.GraphicEngine.GraphicScene import GraphicItem as GI
    from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle, Font
    from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
    from Patro.GraphicEngine.Painter.DxfPainter import DxfPainter
    from Patro.GraphicEngine.Painter.MplPainter import MplPainter
    from Patro.GraphicEngine.Painter.Painter import Tiler
    from Patro.GraphicEngine.Painter.Paper import PaperSize
    from Patro.GraphicEngine.Painter.PdfPainter import PdfPainter
    from Patro.GraphicEngine.Painter.SvgPainter import SvgPainter
    from Patro.GraphicEngine.Painter.TexPainter import TexPainter
    from Patro.GraphicStyle import Colors, StrokeStyle

    directory = tempfile.mkdtemp(prefix='verif-c19-')
    font = Font('', 16)
    STROKES = list(StrokeStyle)

    def rgb(colour):
        c = colour
        if c.startswith('#'):
            return tuple(int(c[i:i+2], 16) for i in (1, 3, 5))
        c = Colors[c]
        return (c.red, c.green, c.blue)

    def paper_of(rng):
        return PaperSize(rng.choice('AaBbC') + str(rng.randint(0, 6)), rng.choice(['portrait', 'landscape']), rng.choice([0, 5, 10, 12.5]))

    ####################################################################################################

    def make_scene(rng):
        """scene and list of the primitives to be drawn"""
        R = rng.choice([5., 30., 150.])
        k = rng.random()
        a = 0.
        if k < .5:
            transformation, f = None, (lambda p: p)
        elif k < .75:
            t = (rng.uniform(-20, 20), rng.uniform(-20, 20))
            transformation, f = T.Translation(V(*t)), (lambda p: (p[0] + t[0], p[1] + t[1]))
        elif k < .9:
            a = rng.uniform(-180, 180)
            ca, sa = math.cos(math.radians(a)), math.sin(math.radians(a))
            transformation, f = T.Rotation(a), (lambda p: (ca*p[0] - sa*p[1], sa*p[0] + ca*p[1]))
        else:
            sx, sy = rng.uniform(.5, 3), rng.uniform(.5, 3)
            transformation, f = T.Scale(sx, sy), (lambda p: (sx*p[0], sy*p[1]))
        scene = GraphicScene(transformation) if transformation is not None else GraphicScene()
        names = {}
        points = []
        def new_point():
            p = (rng.uniform(-R, R), rng.uniform(-R, R))
            if rng.random() < .3:
                p = (float(round(p[0])), float(round(p[1])))
            points.append(p)
            return p
        for name in rng.sample(['A', 'A1', 'B', 'b', 'C2', 'Zz', 'P10', 'p'], rng.randint(0, 5)):
            p = new_point()
            names[name] = p
            scene.add_coordinate(name, V(*p))
        def position():
            if names and rng.random() < .4:
                n = rng.choice(list(names))
                return n, names[n]
            p = new_point()
            return V(*p), p
        def style():
            stroke = rng.choice(STROKES) if rng.random() < .7 else StrokeStyle.SolidLine
            colour = rng.choice(COLOURS)
            width = rng.choice([.25, .5, 1, 1.5, 2., 3, 10])
            c = None if rng.random() < .1 else colour
            k = dict(stroke_style=stroke, stroke_color=c if c is None or c.startswith('#') or rng.random() < .6 else Colors[c], line_width=width)
            if rng.random() < .2:
                k['fill_color'] = rng.choice(COLOURS)
            return GraphicPathStyle(**k), dict(stroke=stroke, colour=rgb(colour), width=width, drawn=c is not None and stroke is not StrokeStyle.NoPen)
        items = []
        n = rng.randint(1, 14)
        for i in range(n):
            kind = rng.choice(['segment', 'segment', 'cubic', 'cubic', 'text', 'circle'])
            number = dict(segment=2, cubic=4, text=1, circle=1)[kind]
            q = [position() for _ in range(number)]
            d = dict(kind=kind, points=[f(p) for _, p in q], text=None, drawn=True, z=0, i=i)
            args = [x for x, _ in q]
            if kind == 'text':
                d['text'] = rng.choice(TEXTS)
                item = scene.text(*args, d['text'], font, user_data=None)
            else:
                s, e = style()
                if kind == 'circle':
                    item = scene.circle(*args, rng.choice([.2, 1, 5., '1pt']), s, user_data=None)
                else:
                    item = getattr(scene, dict(segment='segment', cubic='cubic_bezier')[kind])(*args, s, user_data=None)
                    d.update(e)
            if rng.random() < .15:
                item.visible = False
                d['drawn'] = False
            if rng.random() < .5:
                d['z'] = item.z_value = rng.choice([-1, 1, 2, .5, 10, 0])
            items.append(d)
        expected = [d for d in sorted(items, key=lambda d: (d['z'], d['i'])) if d['drawn']]
        q = [f(p) for p in points]
        m = rng.choice([0., 1., 3.5])
        xs, ys = [p[0] for p in q], [p[1] for p in q]
        box = (min(xs) - m, max(xs) + m + .1, min(ys) - m, max(ys) + m + .1)
        scene.bounding_box = Interval2D(box[:2], box[2:])
        return scene, expected, box, {n: f(p) for n, p in names.items()}

    def compare(painter, got, expected, f, tol, width=None, black=True):
        """f: page transform; width: factor of line widths"""
        # dots are painted without effect on the DXF files
        kinds = lambda l: [d['kind'] for d in l]
        if not ctx.check(kinds(got) == kinds(expected), painter + '-items', lambda: (kinds(got), kinds(expected))):
            return
        for g, e in zip(got, expected):
            ctx.check(len(g['points']) == len(e['points']), painter + '-geometry', lambda: (g, e))
            for p, q in zip(g['points'], e['points']):
                x, y = f(q)
                ctx.check(abs(p[0] - x) <= tol and abs(p[1] - y) <= tol, painter + '-geometry', lambda: (e['kind'], p, (x, y), g['points'], e['points']))
            if e['kind'] == 'text':
                ctx.check(g['text'] == e['text'], painter + '-text', lambda: (g['text'], e['text']))
            elif e['kind'] in ('segment', 'cubic'):
                ctx.check(isinstance(g['colour'], tuple) and tuple(g['colour']) == e['colour'], painter + '-colour', lambda: (g['colour'], e['colour']))
                ctx.check(not g.get('filled'), painter + '-colour', 'filled curve')
                if width is not None:
                    ctx.check(abs(g['width'] - width*e['width']) <= 1e-4*width*e['width'], painter + '-width', lambda: (g['width'], e['width']))
                key = (painter, e['stroke'].name)
                dash = g['dash']
                ctx.check((dash is None) == (e['stroke'] is StrokeStyle.SolidLine) and dash != 'undefined', painter + '-dash', lambda: (e['stroke'], dash))
                seen = STATE['dash'].setdefault(key, dash)
                ctx.check(seen == dash, 'dash-table', lambda: (key, seen, dash))
                others = [k for k, v in STATE['dash'].items() if k[0] == painter and k != key and v == dash]
                ctx.check(not others, 'dash-table', lambda: (key, others, dash))
        if len(expected) >= 3:
            ctx.note(**{painter: [(d['kind'], d['points'], d['text']) for d in got]})

    def box_of(scene):
        b = scene.bounding_box
        return (float(b.x.inf), float(b.x.sup), float(b.y.inf), float(b.y.sup))

    def unchanged(scene, box, number):
        ctx.check(box_of(scene) == box and len(scene) == number, 'scene-unchanged', lambda: (box_of(scene), box, len(scene), number))

    mm = 72/25.4

    def export(rng, painter, scene, expected, box, paper, names):
        number = len(scene)
        path = os.path.join(directory, rng.choice(['out', 'a.b', 'tex', 'x y']))
        as_path = rng.random() < .5
        if painter == 'svg':
            path += '.svg'
            SvgPainter(Path(path) if as_path else path, scene, paper)
            root, got = read_svg(path)
            # the user unit is one millimetre of the page
            w, h = root.get('width'), root.get('height')
            view = [float(x) for x in root.get('viewBox').split()]
            ok = w.endswith('mm') and h.endswith('mm') and abs(float(w[:-2]) - paper.width) < 1e-2 and abs(float(h[:-2]) - paper.height) < 1e-2
            ctx.check(ok and view[:2] == [0, 0] and abs(view[2] - paper.width) < 1e-2 and abs(view[3] - paper.height) < 1e-2, 'svg-page', lambda: (w, h, view))
            ctx.check(all(d.get('visible', True) for d in got), 'svg-items')
            compare(painter, got, expected, lambda p: (10*(p[0] - box[0]), 10*(box[3] - p[1])), 1e-6*10*max(map(abs, box)), 1.)
        elif painter == 'pdf':
            path += '.pdf'
            k = dict(driver='reportlab') if rng.random() < .3 else {}
            PdfPainter(Path(path) if as_path else path, scene, paper, **k)
            r = PdfReader(path)
            m = r.media_box
            ctx.check(r.pages == 1 and m and m[:2] == [0, 0] and abs(m[2] - paper.width*mm) < .01 and abs(m[3] - paper.height*mm) < .01, 'pdf-page', lambda: (r.pages, m))
            # one centimetre of margin
            compare(painter, r.items, expected, lambda p: (10*mm*(1 + p[0] - box[0]), 10*mm*(1 + p[1] - box[2])), 1e-4 + 1e-5*10*mm*max(map(abs, box)), 1.)
        elif painter == 'dxf':
            path += '.dxf'
            k = {}
            if rng.random() < .3:
                k['driver'] = 'ezdxf'
            if rng.random() < .5:
                k['dxf_version'] = rng.choice(['R2004', 'R2007', 'R2010', 'R2013', 'R2018'])
            DxfPainter(Path(path) if as_path else path, scene, paper, **k)
            compare(painter, read_dxf(path), [d for d in expected if d['kind'] != 'circle'], lambda p: (10*p[0], 10*p[1]), 1e-6*10*max(map(abs, box)))
            ctx.seen('dxf-width')
        elif painter == 'mpl':
            MplPainter(scene, paper)
            axes, = plt.gcf().axes
            patches = []
            for p in axes.patches:
                if isinstance(p, matplotlib.patches.Circle):
                    patches.append(dict(kind='circle', points=[tuple(p.center)], text=None))
                    continue
                q = p.get_path()
                codes = list(q.codes)
                kind = 'segment' if codes == [1, 2] else 'cubic' if codes == [1, 4, 4, 4] else '?'
                fill = p.get_facecolor()
                style = p.get_linestyle()
                patches.append(dict(kind=kind, points=[tuple(v) for v in q.vertices], text=None, colour=tuple(round(255*x) for x in p.get_edgecolor()[:3]),
                                    filled=fill[3] != 0, width=p.get_linewidth(), dash=None if style in ('solid', '-') else style))
            texts = [dict(kind='text', points=[tuple(map(float, t.get_position()))], text=t.get_text()) for t in axes.texts]
            xlim, ylim, aspect = axes.get_xlim(), axes.get_ylim(), axes.get_aspect()
            plt.close('all')
            tol = 1e-7*max(map(abs, box))
            same = lambda p: p
            compare(painter, patches, [d for d in expected if d['kind'] != 'text'], same, tol, 1.)
            compare(painter, texts, [d for d in expected if d['kind'] == 'text'], same, tol)
            ctx.check(xlim[0] < box[0] and xlim[1] > box[1] and ylim[0] < box[2] and ylim[1] > box[3] and aspect in ('equal', 1), 'mpl-view', lambda: (xlim, ylim, box, aspect))
        else:
            name = path
            if rng.random() < .5:
                name += '.tex'
            t = TexPainter(Path(name) if as_path else name, scene, paper)
            if painter == 'tex':
                t.add_detail_figure()
            else:
                t.add_tiled_detail_figure()
            document = t._document
            file_path = path + '.tex'
            if os.path.exists(file_path):
                os.unlink(file_path)
            document.write()
            if not ctx.check(os.path.exists(file_path) and document.tex_filename == file_path and document.pdf_filename == path + '.pdf'
                             and document.output_directory == directory, 'file-name', lambda: (name, os.listdir(directory))):
                return
            with open(file_path, encoding='utf-8') as fd:
                source = fd.read()
            try:
                r = TexReader(source)
            except (ValueError, KeyError) as e:
                ctx.check(False, 'tex-document', lambda: (repr(e), source[-2000:]))
                return
            geometry = re.search(r'\\usepackage\s*\[([^\]]*)\]\s*\{geometry\}', r.preamble)
            options = [o.strip() for o in geometry.group(1).split(',') if o.strip()] if geometry else []
            margin = [float(o[7:-2]) for o in options if re.fullmatch(r'margin=[\d.]+mm', o)]
            ctx.check('tikz' in r.preamble and ('paper=%spaper' % paper.name.lower() in options or '%spaper' % paper.name.lower() in options)
                      and margin == [paper.margin] and ('landscape' in options) == (paper.orientation == 'landscape'), 'tex-document', lambda: options)
            same = lambda p: p
            if painter == 'tex':
                if not ctx.check(len(r.figures) == 1, 'tex-items'):
                    return
                figure, = r.figures
                x, y = figure['options'].get('x'), figure['options'].get('y')
                ctx.check(x == y and re.fullmatch(r'[\d.]+(mm|cm|pt)', x) and float(x[:-2]) > 0, 'tex-document', lambda: figure['options'])
                ctx.check(figure['clip'] is None, 'tex-document')
            else:
                area = [paper.width/10 - 2*(paper.margin + 2)/10, paper.height/10 - 2*(paper.margin + 2)/10]
                size = (box[1] - box[0] + 2, box[3] - box[2] + 2)
                columns, rows = [max(1, math.ceil(s/a - 1e-9)) for s, a in zip(size, area)]
                if not ctx.check(len(r.figures) == columns*rows, 'tiled-clip', lambda: (len(r.figures), rows, columns)):
                    return
                clips = set()
                for figure in r.figures:
                    ctx.check(figure['options'].get('x') in ('10mm', '1cm') and figure['options'].get('y') in ('10mm', '1cm'), 'tiled-clip', lambda: figure['options'])
                    clip = figure['clip'] or []
                    if not ctx.check(len(clip) == 4, 'tiled-clip', lambda: clip):
                        continue
                    xs, ys = sorted({p[0] for p in clip}), sorted({p[1] for p in clip})
                    if not ctx.check(len(xs) == len(ys) == 2 and clip[0][0] == clip[3][0] and clip[0][1] == clip[1][1], 'tiled-clip', lambda: clip):
                        continue
                    c, q = round((xs[0] - box[0] + 1)/area[0]), round((ys[0] - box[2] + 1)/area[1])
                    ok = all(abs(u - v) < 6e-3 for u, v in ((xs[0], box[0] - 1 + c*area[0]), (xs[1], box[0] - 1 + (c+1)*area[0]),
                                                            (ys[0], box[2] - 1 + q*area[1]), (ys[1], box[2] - 1 + (q+1)*area[1])))
                    ctx.check(ok and 0 <= c < columns and 0 <= q < rows, 'tiled-clip', lambda: (clip, area, box))
                    clips.add((c, q))
                    # label of the tile: row, column
                    label = figure['labels']
                    if ctx.check(len(label) == 1, 'tiled-clip', lambda: label):
                        n = [int(k) for k in re.findall(r'\d+', label[0]['text'])]
                        ctx.check(n == [q+1, c+1] and xs[0] <= label[0]['points'][0][0] <= xs[1] and ys[0] <= label[0]['points'][0][1] <= ys[1], 'tiled-clip', lambda: (label, clip))
                ctx.check(len(clips) == columns*rows, 'tiled-clip', lambda: sorted(clips))
            for figure in r.figures[:40]:
                for n, p in names.items():
                    q = figure['coordinates'].get(n)
                    ctx.check(q is not None and abs(q[0] - p[0]) < 6e-3 and abs(q[1] - p[1]) < 6e-3, painter + '-geometry', lambda: (n, q, p))
                compare(painter, figure['items'], expected, same, 5.1e-3, 1.)
        unchanged(scene, box, number)

    ####################################################################################################

    def exports(rng):
        scene, expected, box, names = make_scene(rng)
        ctx.note(trivial=len(expected) < 3)
        for painter in rng.sample(PAINTERS, 3):
            paper = paper_of(rng)
            if painter == 'tiled' and box[1] - box[0] > 100:
                paper = PaperSize(rng.choice(['A0', 'B1', 'A2']), rng.choice(['portrait', 'landscape']), 10)
            export(rng, painter, scene, expected, box, paper, names)
            if rng.random() < .2: # a second time
                export(rng, painter, scene, expected, box, paper, names)

    def paint(rng, painter, scene, paper):
        if painter == 'svg':
            SvgPainter(os.path.join(directory, 'u.svg'), scene, paper)
        elif painter == 'pdf':
            PdfPainter(os.path.join(directory, 'u.pdf'), scene, paper)
        elif painter == 'dxf':
            DxfPainter(os.path.join(directory, 'u.dxf'), scene, paper)
        elif painter == 'mpl':
            try:
                MplPainter(scene, paper)
            finally:
                plt.close('all')
        else:
            t = TexPainter(os.path.join(directory, 'u'), scene, paper)
            if painter == 'tex':
                t.add_detail_figure()
            else:
                t.add_tiled_detail_figure()

    def unsupported(rng):
        scene, expected, box, names = make_scene(rng)
        p = [V(rng.uniform(-5, 5), rng.uniform(-5, 5)) for _ in range(5)]
        style = GraphicPathStyle()
        kind = rng.choice(['ellipse', 'image', 'path', 'polygon', 'polyline', 'quadratic', 'rectangle'])
        if kind == 'ellipse':
            item = scene.ellipse(p[0], 2, 1, 30, style, user_data=None)
        elif kind == 'image':
            item = scene.image(p[0], p[1], None, user_data=None)
        elif kind == 'path':
            item = scene.add_item(GI.PathItem, p[0], style, None)
            item.line_to(p[1])
        elif kind in ('polygon', 'polyline'):
            item = getattr(scene, kind)(p[:4], style, user_data=None)
        elif kind == 'quadratic':
            item = scene.quadratic_bezier(*p[:3], style, user_data=None)
        else:
            item = scene.rectangle(V(0, 0), V(2, 3), style, user_data=None)
        scene.bounding_box = Interval2D((-10, 10), (-10, 10))
        painter = rng.choice(PAINTERS)
        ctx.note(kind=kind, painter=painter)
        ctx.raises(NotImplementedError, lambda: paint(rng, painter, scene, paper_of(rng)), 'unsupported', (kind, painter))
        # an hidden one is not an obstacle
        item.visible = False
        paint(rng, painter, scene, PaperSize('a0', 'portrait', 5))
        ctx.seen('unsupported-hidden')

    def sketches(rng):
        from Patro.Pattern.Pattern import Pattern
        p = Pattern(None, 'cm')
        sketch = p.add_scope('x').sketch
        names = []
        x, y = rng.uniform(-10, 10), rng.uniform(-10, 10)
        sketch.SinglePoint('A', x, y, V(.1, .2))
        names.append('A')
        styles = [s for s in G.STYLES]
        for n in ['B', 'C', 'D', 'E'][:rng.randint(2, 4)]:
            sketch.EndLinePoint(n, rng.choice(names), rng.randint(-170, 170), rng.uniform(1, 20), rng.choice([None, V(.2, -.3)]), rng.choice(styles), rng.choice(G.COLOURS))
            names.append(n)
        for _ in range(rng.randint(1, 4)):
            a, b = rng.sample(names, 2)
            if rng.random() < .5:
                sketch.Line(a, b, line_style=rng.choice(styles), line_color=rng.choice(G.COLOURS))
            else:
                sketch.SimpleInteractiveSpline(a, b, rng.uniform(0, 90), rng.uniform(1, 5), rng.uniform(0, 90), rng.uniform(1, 5), line_style=rng.choice(styles), line_color=rng.choice(G.COLOURS))
        sketch.eval()
        scene = sketch.detail_scene()
        box = box_of(scene)
        expected = []
        for item in scene:
            at = [tuple(map(float, scene.cast_position(q))) for q in getattr(item, 'positions', None) or [item.position]]
            d = dict(kind={GI.TextItem: 'text', GI.CircleItem: 'circle', GI.SegmentItem: 'segment', GI.CubicBezierItem: 'cubic'}[item.__class__], points=at, text=getattr(item, 'text', None))
            if d['kind'] in ('segment', 'cubic'):
                s = item.path_style
                if s.stroke_style is StrokeStyle.NoPen or s.stroke_color is None:
                    continue
                d.update(stroke=s.stroke_style, colour=(s.stroke_color.red, s.stroke_color.green, s.stroke_color.blue), width=s.line_width)
            expected.append(d)
        ctx.note(sketch=[(d['kind'], d['points']) for d in expected])
        ctx.seen('sketch')
        for painter in rng.sample(PAINTERS, 2):
            export(rng, painter, scene, expected, box, paper_of(rng), {n: tuple(map(float, scene.coordinate(n).position)) for n in names})

    class ExactPaper(PaperSize):
        """a paper whose tiles have an exact size"""
        width = property(lambda self: self.exact[0])
        height = property(lambda self: self.exact[1])

    def tiles(rng):
        paper = paper_of(rng)
        exact = rng.random() < .3
        if exact:
            paper = ExactPaper(paper.name, paper.orientation, rng.choice([3, 8, 13]))
            paper.exact = (5.*rng.randint(20, 150), 5.*rng.randint(20, 150))
        area = [paper.width/10 - 2*(paper.margin + 2)/10, paper.height/10 - 2*(paper.margin + 2)/10]
        if min(area) < 1:
            ctx.note(trivial=True)
            return
        k = rng.random()
        x, y = rng.uniform(-100, 100), rng.uniform(-100, 100)
        n = [rng.randint(1, 6), rng.randint(1, 6)]
        size = [rng.uniform(.05, 1)*a + (m-1)*a for a, m in zip(area, n)]
        margin = rng.choice([None, 0, .5, 1, 2.5])
        e = 1 if margin is None else margin
        if exact:
            x, y = math.floor(x), math.floor(y)
            size = [m*a - 2*e for a, m in zip(area, n)]
            if min(size) <= 0:
                size, e = [m*a for a, m in zip(area, n)], 0
                margin = 0
        elif rng.random() < .2:
            # slightly more than an integer number of tiles requires one more, slightly less does not
            size = [m*a*(1 + rng.choice([-1, 1, 1])*rng.choice([1e-3, 1e-4, 1e-5, 1e-6])) - 2*e for a, m in zip(area, n)]
            if min(size) <= 0:
                size, e, margin = [v + 2*e for v in size], 0, 0
        elif rng.random() < .05:
            # a long drawing
            k = rng.randrange(2)
            n[k], n[1-k] = rng.randint(33, 150), 1
            size = [rng.uniform(.05, 1)*a + (m-1)*a for a, m in zip(area, n)]
        box = (x, x + size[0], y, y + size[1])
        interval = Interval2D(box[:2], box[2:])
        tiler = Tiler(interval, paper) if margin is None else Tiler(interval, paper, margin) if rng.random() < .5 else Tiler(interval, paper, margin=margin)
        got = list(tiler)
        again = list(tiler)
        ctx.check(tuple(float(v) for v in (interval.x.inf, interval.x.sup, interval.y.inf, interval.y.sup)) == box, 'tile-box', lambda: (interval, box))
        total = [size[0] + 2*e, size[1] + 2*e]
        count = [max(1, math.ceil(t/a - 1e-9)) for t, a in zip(total, area)]
        ctx.note(trivial=count == [1, 1], box=box, area=area, count=count)
        ctx.check(len(got) == count[0]*count[1] and len(again) == len(got), 'tile-count', lambda: (len(got), count, total, area))
        tol = 1e-9*200
        seen = set()
        boxes = []
        for t, r, c in got:
            b = [float(v) for v in (t.x.inf, t.x.sup, t.y.inf, t.y.sup)]
            boxes.append(b)
            ctx.check(abs(b[1] - b[0] - area[0]) < tol and abs(b[3] - b[2] - area[1]) < tol, 'tile-size', lambda: (b, area))
            ctx.check((r, c) not in seen and abs(b[0] - (x - e + c*area[0])) < tol and abs(b[2] - (y - e + r*area[1])) < tol, 'tile-index', lambda: (r, c, b, area, box, e))
            seen.add((r, c))
        for i, b in enumerate(boxes):
            for d in boxes[:i]:
                w, h = min(b[1], d[1]) - max(b[0], d[0]), min(b[3], d[3]) - max(b[2], d[2])
                ctx.check(w <= tol or h <= tol, 'tile-disjoint', lambda: (b, d))
        # every point of the enlarged box is in a tile
        probes = [(x - e, y - e), (box[1] + e, box[3] + e), (x - e, box[3] + e), (box[1] + e, y - e)]
        probes += [(rng.uniform(x - e, box[1] + e), rng.uniform(y - e, box[3] + e)) for _ in range(30)]
        for p in probes:
            ctx.check(any(b[0] - tol <= p[0] <= b[1] + tol and b[2] - tol <= p[1] <= b[3] + tol for b in boxes), 'tile-cover', lambda: (p, boxes))

    def buffers(rng):
        """the source of a document is the concatenation of its pieces"""
        from Patro.GraphicEngine.TeX.Buffer import Buffer
        from Patro.GraphicEngine.TeX.Environment import Environment

        def make(depth):
            kind = rng.choice(['buffer', 'environment'])
            b = Buffer() if kind == 'buffer' else Environment('name%d' % depth, rng.choice(['', 'opt=1']))
            head, tail = '', ''
            if kind == 'environment':
                head = str(b).split('\n')[0] + '\n'
                tail = '\\end{name%d}\n' % depth
                ctx.check(head.startswith('\\begin{name%d}' % depth) and str(b) == head + tail, 'tex-buffer', lambda: str(b))
            body = ''
            for _ in range(rng.randint(0, 5)):
                k = rng.random()
                copied = rng.random() < .5
                if k < .4 or depth > 2:
                    item, text = rng.choice(['a', '%d', '{}', '\\x{1}\n', 'é']), None
                    text = item
                elif k < .7:
                    item, text = make(depth + 1)
                else:
                    pieces = [make(depth + 1) if rng.random() < .3 else (x, x) for x in 'xyz'[:rng.randint(0, 3)]]
                    item, text = [x[0] for x in pieces], ''.join(x[1] for x in pieces)
                ctx.check(b.append(item, deepcopy=copied) is b, 'tex-buffer')
                body += text
                if copied:
                    # a copy is of its own
                    for x in item if isinstance(item, list) else [item]:
                        if isinstance(x, Buffer):
                            x.append('lost')
            return b, head + body + tail
        b, text = make(0)
        ctx.note(text=text, trivial=len(text) < 2)
        ctx.equal(str(b), text, 'tex-buffer')
        b.clear()

    try:
        ctx.cases('buffers', buffers, 80)
        ctx.cases('exports', exports, 400)
        ctx.cases('unsupported', unsupported, 80)
        ctx.cases('sketches', sketches, 60)
        ctx.cases('tiles', tiles, 400)
    finally:
        plt.close('all')
        shutil.rmtree(directory, ignore_errors=True)
