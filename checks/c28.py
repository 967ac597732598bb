"""C28 -- Qt rendering: view of a scene, picking, SVG export by Qt"""
import math
import os
import re
import shutil
import tempfile

PID = 'C28'
ISOLATED = True # an error in a method called by Qt can abort the process
RULE = ('random scenes (texts, circles and arcs, ellipses and arcs with rotation, segments, polylines, polygons, quadratic and cubic curves with control points, path items, images, named '
        'coordinates, z values, hidden and selected items, all pen and fill styles, scene transformations) painted on a recording Qt paint device after random histories of the view (size, '
        'scene, zoom, pan, fit), exported to SVG, and random clicks; non-trivial: at least three items drawn, or three operations on the view')
ASSUMPTIONS = ['conics are only translated by the scene transformation', 'the fill of open figures, the style of texts and the orientation of images are not claimed',
               'the angles of arcs are rounded to 1/16 degree by Qt']
KINDS = ['text', 'circle', 'arc', 'ellipse', 'ellipse-arc', 'segment', 'polyline', 'polygon', 'quadratic', 'cubic', 'path', 'image', 'control']
MONITORS = ['view-' + k for k in KINDS] + ['svg-' + k for k in KINDS if k != 'image'] + [
    'count', 'pen-colour', 'pen-alpha', 'pen-width', 'pen-style', 'pen-cap', 'pen-join', 'brush', 'font', 'selected', 'grid', 'unsupported', 'unchanged',
    'zoom', 'coordinate', 'fit', 'changed', 'repaint', 'pick', 'pick-none', 'pick-scene', 'svg-pen', 'svg-brush', 'svg-page', 'svg-title', 'svg-count']

####################################################################################################

def lerp(p, q, t):
    return (p[0] + (q[0] - p[0])*t, p[1] + (q[1] - p[1])*t)


def flatten(elements, n=24):
    """[('M', p), ('L', p), ('C', p, q, r)] -> points"""
    points = []
    for e in elements:
        if e[0] in 'ML':
            points.append(e[1])
        else:
            p0 = points[-1]
            for i in range(1, n + 1):
                t = i/n
                a, b, c, d = (1 - t)**3, 3*t*(1 - t)**2, 3*t*t*(1 - t), t**3
                points.append(tuple(a*p0[k] + b*e[1][k] + c*e[2][k] + d*e[3][k] for k in (0, 1)))
    return points


def polyline_distance(points, line):
    """max over points of the distance to a polyline"""
    import numpy as np
    P = np.array(points, dtype=float)[:, None, :]
    L = np.array(line, dtype=float)
    if len(L) == 1:
        return float(np.sqrt(((P[:, 0] - L[0])**2).sum(axis=1)).max())
    A, B = L[None, :-1], L[None, 1:]
    d = B - A
    n = np.maximum((d*d).sum(axis=2), 1e-300)
    t = np.clip(((P - A)*d).sum(axis=2)/n, 0, 1)
    q = A + t[..., None]*d
    return float(np.sqrt(((P - q)**2).sum(axis=2)).min(axis=1).max())


def clean(elements, eps):
    """drop the null lines, a move to the current point"""
    out = []
    last = None
    for e in elements:
        if e[0] == 'C' and last is not None and all(math.hypot(p[0] - last[0], p[1] - last[1]) <= eps for p in e[1:]):
            continue
        if e[0] in 'LM' and last is not None and math.hypot(e[1][0] - last[0], e[1][1] - last[1]) <= eps and (e[0] == 'L' or e is not elements[0]):
            continue
        out.append(e)
        last = e[-1]
    return out


KAPPA = 4/3*(math.sqrt(2) - 1)


def ellipse_elements(cx, cy, rx, ry):
    k = KAPPA
    return [('M', (cx + rx, cy)),
            ('C', (cx + rx, cy + k*ry), (cx + k*rx, cy + ry), (cx, cy + ry)),
            ('C', (cx - k*rx, cy + ry), (cx - rx, cy + k*ry), (cx - rx, cy)),
            ('C', (cx - rx, cy - k*ry), (cx - k*rx, cy - ry), (cx, cy - ry)),
            ('C', (cx + k*rx, cy - ry), (cx + rx, cy - k*ry), (cx + rx, cy))]


####################################################################################################

def setup(ctx):
    import Patro.GraphicEngine.Painter.QtPainter


def make_recorder():
    from PyQt5.QtCore import QPointF
    from PyQt5.QtGui import QPaintDevice, QPaintEngine

    class Engine(QPaintEngine):

        def __init__(self):
            super().__init__(QPaintEngine.AllFeatures)
            self.log = []

        def begin(self, device):
            return True

        def end(self):
            return True

        def type(self):
            return QPaintEngine.User

        def updateState(self, state):
            pass

        def _add(self, kind, elements, **kwargs):
            painter = self.painter()
            transform = painter.combinedTransform()
            def at(p):
                q = transform.map(QPointF(*p))
                return (q.x(), q.y())
            pen, brush = painter.pen(), painter.brush()
            colour, fill = pen.color(), brush.color()
            self.log.append(dict(
                kind=kind, elements=[(e[0],) + tuple(at(p) for p in e[1:]) for e in elements],
                stroked=int(pen.style()) != 0 and colour.alpha() > 0, colour=(colour.red(), colour.green(), colour.blue()), alpha=colour.alphaF(), width=pen.widthF(),
                style=int(pen.style()), cap=int(pen.capStyle()), join=int(pen.joinStyle()),
                fill=(fill.red(), fill.green(), fill.blue(), fill.alphaF()) if int(brush.style()) else None, **kwargs))

        def drawPath(self, path):
            elements = []
            i = 0
            while i < path.elementCount():
                e = path.elementAt(i)
                if int(e.type) == 0:
                    elements.append(('M', (e.x, e.y)))
                elif int(e.type) == 1:
                    elements.append(('L', (e.x, e.y)))
                else:
                    f, g = path.elementAt(i + 1), path.elementAt(i + 2)
                    elements.append(('C', (e.x, e.y), (f.x, f.y), (g.x, g.y)))
                    i += 2
                i += 1
            self._add('path', elements)

        def drawLines(self, *args):
            lines = args[0]
            for line in (lines if isinstance(lines, (list, tuple)) else args):
                p, q = line.p1(), line.p2()
                self._add('line', [('M', (p.x(), p.y())), ('L', (q.x(), q.y()))])

        def drawPolygon(self, points, mode):
            points = [(p.x(), p.y()) for p in points]
            elements = [('M', points[0])] + [('L', p) for p in points[1:]]
            if int(mode) != QPaintEngine.PolylineMode:
                elements.append(('L', points[0]))
            self._add('polygon', elements)

        def drawEllipse(self, rect):
            c = rect.center()
            self._add('ellipse', ellipse_elements(c.x(), c.y(), rect.width()/2, rect.height()/2))

        def drawTextItem(self, position, item):
            self._add('text', [('M', (position.x(), position.y()))], text=item.text())

        def drawImage(self, rect, image, source, flags):
            self._add('image', [('M', (rect.left(), rect.top())), ('L', (rect.left() + rect.width(), rect.top() + rect.height()))],
                      image=(image.width(), image.height(), [image.pixelColor(i, j).getRgb()[:3] for j in range(image.height()) for i in range(image.width())]))

        def drawPixmap(self, rect, pixmap, source):
            self.drawImage(rect, pixmap.toImage(), source, None)

    class Device(QPaintDevice):

        def __init__(self):
            super().__init__()
            self.engine = Engine()

        def paintEngine(self):
            return self.engine

        def metric(self, m):
            return {QPaintDevice.PdmWidth: 4000, QPaintDevice.PdmHeight: 4000, QPaintDevice.PdmDpiX: 96, QPaintDevice.PdmDpiY: 96, QPaintDevice.PdmPhysicalDpiX: 96,
                    QPaintDevice.PdmPhysicalDpiY: 96, QPaintDevice.PdmDepth: 32, QPaintDevice.PdmDevicePixelRatio: 1, QPaintDevice.PdmDevicePixelRatioScaled: 65536}.get(m, 1000)

    return Device


####################################################################################################

NUMBER = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'


def read_svg(path):
    from lxml import etree
    root = etree.parse(path).getroot()
    out = []
    mul = lambda a, b: (a[0]*b[0] + a[2]*b[1], a[1]*b[0] + a[3]*b[1], a[0]*b[2] + a[2]*b[3], a[1]*b[2] + a[3]*b[3], a[0]*b[4] + a[2]*b[5] + a[4], a[1]*b[4] + a[3]*b[5] + a[5])

    def walk(e, m, style):
        for x in e:
            if not isinstance(x.tag, str):
                continue
            tag = etree.QName(x).localname
            s = dict(style)
            for k in ('fill', 'fill-opacity', 'stroke', 'stroke-opacity', 'stroke-width', 'stroke-linecap', 'stroke-linejoin', 'stroke-dasharray'):
                if x.get(k) is not None:
                    s[k] = x.get(k)
            n = m
            t = x.get('transform')
            if t:
                values = [float(v) for v in re.findall(NUMBER, t)]
                assert t.startswith('matrix') and len(values) == 6, t
                n = mul(m, values)
            if tag == 'g':
                walk(x, n, s)
                continue
            g = lambda k: float(x.get(k, 0))
            text = None
            if tag in ('polyline', 'polygon'):
                v = [float(k) for k in re.findall(NUMBER, x.get('points'))]
                points = list(zip(v[::2], v[1::2]))
                elements = [('M', points[0])] + [('L', p) for p in points[1:]]
                if tag == 'polygon':
                    elements.append(('L', points[0]))
            elif tag == 'line':
                elements = [('M', (g('x1'), g('y1'))), ('L', (g('x2'), g('y2')))]
            elif tag == 'path':
                elements = []
                start = None
                for letter, body in re.findall(r'([A-DF-Za-df-z])([^A-DF-Za-df-z]*)', x.get('d', '')):
                    v = [float(k) for k in re.findall(NUMBER, body)]
                    p = list(zip(v[::2], v[1::2]))
                    if letter == 'M':
                        elements.append(('M', p[0]))
                        start = p[0]
                        elements += [('L', q) for q in p[1:]]
                    elif letter == 'L':
                        elements += [('L', q) for q in p]
                    elif letter == 'C':
                        elements += [('C',) + tuple(p[i:i+3]) for i in range(0, len(p), 3)]
                    elif letter in 'Zz':
                        elements.append(('L', start))
                    else:
                        raise ValueError(letter)
            elif tag == 'ellipse':
                elements = ellipse_elements(g('cx'), g('cy'), g('rx'), g('ry'))
            elif tag == 'circle':
                elements = ellipse_elements(g('cx'), g('cy'), g('r'), g('r'))
            elif tag == 'text':
                elements = [('M', (g('x'), g('y')))]
                text = ''.join(x.itertext())
            elif tag == 'image':
                elements = [('M', (g('x'), g('y'))), ('L', (g('x') + g('width'), g('y') + g('height')))]
            else:
                continue
            at = lambda p: (n[0]*p[0] + n[2]*p[1] + n[4], n[1]*p[0] + n[3]*p[1] + n[5])
            stroke, fill = s.get('stroke', 'none'), s.get('fill', 'none')
            hexa = lambda c: tuple(int(c[i:i+2], 16) for i in (1, 3, 5)) if c.startswith('#') else dict(black=(0, 0, 0)).get(c, c)
            out.append(dict(kind=tag, elements=[(k[0],) + tuple(at(p) for p in k[1:]) for k in elements], text=text,
                            stroked=stroke != 'none' and float(s.get('stroke-opacity', 1)) > 0, colour=hexa(stroke), alpha=float(s.get('stroke-opacity', 1)),
                            width=float(s.get('stroke-width', 1)), cap=s.get('stroke-linecap'), join=s.get('stroke-linejoin'), dash=s.get('stroke-dasharray', 'none'),
                            fill=hexa(fill) + (float(s.get('fill-opacity', 1)),) if fill != 'none' else None))

    walk(root, (1, 0, 0, 1, 0, 0), {})
    return root, out


####################################################################################################

def run(ctx):
    import logging
    from PyQt5.QtCore import QObject, QPointF, Qt
    from PyQt5.QtGui import QGuiApplication, QPainter
    application = QGuiApplication.instance() or QGuiApplication(['verif'])
    import numpy as np
    from IntervalArithmetic import Interval2D
    from Patro.GeometryEngine.Transformation import AffineTransformation2D as T
    from Patro.GeometryEngine.Vector import Vector2D as V
    from Patro.GraphicEngine.GraphicScene import GraphicItem
    from Patro.GraphicEngine.GraphicScene.GraphicStyle import Font, GraphicBezierStyle, GraphicPathStyle
    from Patro.GraphicEngine.Painter.QtPainter import QtPainter, QtQuickPaintedSceneItem, QtScene
    from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
    from Patro.GraphicStyle import CapStyle, Colors, JoinStyle, StrokeStyle

    import sys
    import traceback

    def hook(kind, value, tb):
        # an exception raised in a method called by Qt, which would abort the process
        pending.append(value.with_traceback(tb))
    pending = []
    sys.excepthook = hook

    def guard():
        """raise the exceptions seen by the hook"""
        if pending:
            value = pending[0]
            pending.clear()
            raise value

    Device = make_recorder()
    directory = tempfile.mkdtemp(prefix='verif-c28-')

    STYLES = {StrokeStyle.SolidLine: int(Qt.SolidLine), StrokeStyle.DashLine: int(Qt.DashLine), StrokeStyle.DotLine: int(Qt.DotLine),
              StrokeStyle.DashDotLine: int(Qt.DashDotLine), StrokeStyle.DashDotDotLine: int(Qt.DashDotDotLine)}
    CAPS = {CapStyle.FlatCap: (int(Qt.FlatCap), 'butt'), CapStyle.SquareCap: (int(Qt.SquareCap), 'square'), CapStyle.RoundCap: (int(Qt.RoundCap), 'round')}
    JOINS = {JoinStyle.MiterJoin: (int(Qt.MiterJoin), 'miter'), JoinStyle.BevelJoin: (int(Qt.BevelJoin), 'bevel'), JoinStyle.RoundJoin: (int(Qt.RoundJoin), 'round'),
             JoinStyle.SvgMiterJoin: (int(Qt.SvgMiterJoin), None)}
    HEX = ['#123456', '#fe0190', '#00ff80', '#000000', '#ffffff', '#0000ff', '#ff0000', '#7f7f7f']
    rgb = lambda c: tuple(int(c[i:i+2], 16) for i in (1, 3, 5))

    ##############################################
    # random scenes with the expected primitives, in the coordinates of the scene

    class TransformedScene(QtScene):

        # Note: QtScene takes no transformation

        def __init__(self, transformation):
            QObject.__init__(self)
            GraphicScene.__init__(self, transformation)

    class Builder:

        def __init__(self, rng, conics=True, images=True):
            self.rng = rng
            kind = rng.choice(('identity', 'identity', 'translation', 'translation', 'affine'))
            self.matrix = (1., 0., 0., 1., 0., 0.) # x' = a x + c y + e, y' = b x + d y + f
            if kind == 'identity':
                self.scene = QtScene()
            else:
                dx, dy = rng.uniform(-50, 50), rng.uniform(-50, 50)
                if kind == 'translation':
                    t = T.Translation(V(dx, dy))
                    self.matrix = (1., 0., 0., 1., dx, dy)
                else:
                    a, sx, sy = rng.uniform(-180, 180), rng.uniform(.5, 2), rng.uniform(.5, 2)
                    t = T.Translation(V(dx, dy))*T.Rotation(a)*T.Scale(sx, sy)
                    c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
                    self.matrix = (c*sx, s*sx, -s*sy, c*sy, dx, dy)
                self.scene = TransformedScene(t)
            self.kind = kind
            self.conics = conics and kind != 'affine'
            self.images = images
            self.named = {}
            for i in range(rng.randint(0, 4)):
                p = self.xy()
                self.named['N%d' % i] = p
                self.scene.add_coordinate('N%d' % i, V(*p))
            self.expected = [] # (z, primitives)
            self.items = []

        def xy(self):
            r = self.rng
            if r.random() < .3:
                return (float(r.randint(-40, 40)), float(r.randint(-40, 40)))
            return (r.uniform(-50, 50), r.uniform(-50, 50))

        def position(self):
            """(argument, coordinates in the view)"""
            if self.named and self.rng.random() < .2:
                name = self.rng.choice(sorted(self.named))
                return name, self.cast(self.named[name])
            p = self.xy()
            return V(*p), self.cast(p)

        def cast(self, p):
            a, b, c, d, e, f = self.matrix
            return (a*p[0] + c*p[1] + e, b*p[0] + d*p[1] + f)

        def style(self, closed, bezier=False):
            r = self.rng
            kwargs = {}
            stroke = r.choice(list(STYLES)) if r.random() < .85 else StrokeStyle.NoPen
            kwargs['stroke_style'] = stroke
            colour = r.choice(HEX) if r.random() < .9 else None
            kwargs['stroke_color'] = colour
            kwargs['line_width'] = r.choice((.5, 1, 2., '1.5', r.uniform(.1, 5)))
            alpha = r.choice((1., 1., r.uniform(.1, .9)))
            kwargs['stroke_alpha'] = alpha
            cap, join = r.choice(list(CAPS)), r.choice(list(JOINS))
            kwargs.update(cap_style=cap, join_style=join)
            fill = None
            if closed and r.random() < .5:
                fill = (r.choice(HEX), r.choice((1., r.uniform(.1, .9))))
                kwargs.update(fill_color=fill[0], fill_alpha=fill[1])
            control = None
            cls = GraphicPathStyle
            if bezier and r.random() < .4:
                cls = GraphicBezierStyle
                if r.random() < .6:
                    control = r.choice(HEX)
                    kwargs.update(show_control=True, control_color=control)
            return cls(**kwargs), dict(
                stroked=stroke != StrokeStyle.NoPen and colour is not None, colour=rgb(colour) if colour else None, alpha=alpha, width=float(kwargs['line_width']),
                style=stroke, cap=cap, join=join, fill=rgb(fill[0]) + (fill[1],) if fill else None, closed=closed, control=rgb(control) if control else None)

        def add(self):
            r = self.rng
            kinds = ['text', 'segment', 'segment', 'polyline', 'polygon', 'quadratic', 'cubic', 'path']
            if self.conics:
                kinds += ['circle', 'arc', 'ellipse', 'ellipse-arc']
            if self.images:
                kinds.append('image')
            kind = r.choice(kinds)
            scene = self.scene
            def pos(n):
                # distinct points
                pairs = []
                while len(pairs) < n:
                    pair = self.position()
                    if all(pair[1] != q for p, q in pairs):
                        pairs.append(pair)
                return pairs
            data = r.choice((None, object()))
            control = None
            if kind == 'text':
                (p, q), = pos(1)
                text = r.choice(('A', 'point B', 'x < y & z', "it's 3.5", 'Zz' * 10))
                font = Font(r.choice(('DejaVu Sans', 'Arial')), r.choice((8, 12, 30)))
                item = scene.text(p, text, font, user_data=data)
                e = dict(kind=kind, elements=[('M', q)], text=text, font=font)
            elif kind == 'image':
                while True:
                    (p0, q0), (p1, q1) = pos(2)
                    if min(abs(q0[0] - q1[0]), abs(q0[1] - q1[1])) > .5:
                        break
                w, h = r.randint(1, 8), r.randint(1, 5)
                array = np.array([[[r.randrange(256) for k in range(3)] for i in range(w)] for j in range(h)], dtype=np.uint8)
                view = r.randrange(7)
                if view == 0: # crop
                    array = np.pad(array, ((1, 2), (3, 1), (0, 0)), constant_values=7)[1:-2, 3:-1]
                elif view == 1: # from BGR
                    array = np.ascontiguousarray(array[:, :, ::-1])[:, :, ::-1]
                elif view == 2: # mirror
                    array = np.ascontiguousarray(array[::-1])[::-1]
                elif view == 3:
                    array = np.dstack((array, np.full((h, w), 255, dtype=np.uint8)))
                item = scene.image(p0, p1, array, user_data=data)
                e = dict(kind=kind, elements=[('M', q0), ('L', q1)], image=(w, h, [tuple(int(v) for v in array[j, i][:3]) for j in range(h) for i in range(w)]))
            elif kind in ('segment', 'polyline', 'polygon'):
                n = 2 if kind == 'segment' else r.randint(2 if kind == 'polyline' else 3, 7)
                pairs = pos(n)
                style, s = self.style(kind == 'polygon')
                args = [p for p, q in pairs]
                if kind == 'segment':
                    item = scene.segment(*args, style, user_data=data)
                else:
                    item = getattr(scene, kind)(args, style, user_data=data)
                points = [q for p, q in pairs]
                if kind == 'polygon':
                    points.append(points[0])
                e = dict(kind=kind, elements=[('M', points[0])] + [('L', q) for q in points[1:]], **s)
            elif kind in ('quadratic', 'cubic'):
                pairs = pos(3 if kind == 'quadratic' else 4)
                style, s = self.style(False, bezier=True)
                item = (scene.quadratic_bezier if kind == 'quadratic' else scene.cubic_bezier)(*[p for p, q in pairs], style, user_data=data)
                points = [q for p, q in pairs]
                if kind == 'quadratic':
                    a, b, c = points
                    points = [a, lerp(a, b, 2/3), lerp(c, b, 2/3), c]
                e = dict(kind=kind, elements=[('M', points[0]), ('C',) + tuple(points[1:])], **s)
                if s['control']:
                    control = dict(colour=s['control'], points=points)
            elif kind == 'path':
                (p, q), = pos(1)
                closed = r.random() < .5
                style, s = self.style(closed)
                item = scene.add_item(GraphicItem.PathItem, p, style, data)
                elements = [('M', q)]
                last = q
                for i in range(r.randint(1, 6)):
                    t = r.choice((1, 1, 2, 3))
                    pairs = pos(t)
                    args, points = [p for p, q in pairs], [q for p, q in pairs]
                    (item.line_to, item.quadratic_to, item.cubic_to)[t - 1](*args)
                    if t == 1:
                        elements.append(('L', points[0]))
                    else:
                        if t == 2:
                            points = [lerp(last, points[0], 2/3), lerp(points[1], points[0], 2/3), points[1]]
                        elements.append(('C',) + tuple(points))
                    last = points[-1]
                if closed:
                    item.close()
                    elements.append(('L', q))
                e = dict(kind=kind, elements=elements, **s)
            else:
                (p, q), = pos(1)
                closed = kind in ('circle', 'ellipse')
                style, s = self.style(closed)
                kwargs = dict(user_data=data)
                start, span = 0., 360.
                if not closed:
                    start, span = r.uniform(0, 360), r.uniform(5, 350)
                    stop = start + span
                    if r.random() < .5 and stop > 360:
                        stop -= 360
                    kwargs.update(start_angle=start, stop_angle=stop)
                rx = r.uniform(1, 30)
                if kind in ('circle', 'arc'):
                    ry, angle = rx, 0.
                    item = scene.circle(p, rx, style, **kwargs)
                else:
                    ry, angle = r.uniform(.2, 1)*rx, r.choice((0., 90., r.uniform(-180, 180)))
                    item = scene.ellipse(p, rx, ry, angle, style, **kwargs)
                n = 200
                points = []
                c_, s_ = math.cos(math.radians(angle)), math.sin(math.radians(angle))
                for i in range(n + 1):
                    t = math.radians(start + span*i/n)
                    x, y = rx*math.cos(t), ry*math.sin(t)
                    points.append((q[0] + c_*x - s_*y, q[1] + s_*x + c_*y))
                e = dict(kind=kind, elements=[('M', points[0])] + [('L', k) for k in points[1:]], sampled=True, radius=rx, span=span, **s)
            if r.random() < .3:
                item.z_value = r.choice((-1, 1, 2, 2.5))
            if r.random() < .12:
                item.visible = False
            if r.random() < .15:
                item.selected = True
                e['selected'] = True
            e['z'] = item.z_value
            e['visible'] = item.visible
            e['controls'] = control
            self.items.append(item)
            self.expected.append(e)

        def primitives(self):
            """expected primitives in painting order"""
            out = []
            for e in sorted(self.expected, key=lambda e: e['z']):
                if not e['visible']:
                    continue
                stroked = True if e.get('selected') else e.get('stroked', True)
                if e.get('selected') and e.get('style') == StrokeStyle.NoPen:
                    stroked = False
                if e['kind'] in ('text', 'image') or stroked or e['fill']:
                    d = dict(e)
                    if e['kind'] not in ('text', 'image'):
                        d['stroked'] = stroked
                        if e.get('selected'):
                            d.update(colour=(255, 0, 0), alpha=1., width=4*e['width'])
                    out.append(d)
                c = e['controls']
                if c:
                    points = c['points']
                    out.append(dict(kind='control', elements=[('M', points[0])] + [('L', p) for p in points[1:]], stroked=True, colour=c['colour'], fill=None, dots=None))
                    for p in points:
                        out.append(dict(kind='control', elements=[('M', p)], stroked=True, colour=c['colour'], fill=None, dots=p))
            return out

    ##############################################

    def visible(d):
        return d['kind'] in ('text', 'image') or d['stroked'] or (d['fill'] is not None and d['fill'][3] > 0)

    def same_elements(got, expected, tol):
        g, e = clean(got, tol), clean(expected, tol)
        if len(g) != len(e):
            return False
        for a, b in zip(g, e):
            if a[0] != b[0] or len(a) != len(b):
                return False
            for p, q in zip(a[1:], b[1:]):
                if math.hypot(p[0] - q[0], p[1] - q[1]) > tol:
                    return False
        return True

    def check_shape(g, e, at, scale, tol, prefix):
        monitor = prefix + e['kind']
        elements = [(k[0],) + tuple(at(p) for p in k[1:]) for k in e['elements']]
        detail = lambda: 'got %s %s, expected %s' % (g['kind'], g['elements'][:8], elements[:8])
        if e['kind'] == 'text':
            # Note: Qt rounds the position to 1/64 pixel
            ctx.check(g.get('text') == e['text'] and same_elements(g['elements'], elements, tol + .04), monitor, lambda: '%s, %s' % (detail(), g.get('text')))
        elif e['kind'] == 'image':
            box = lambda l: [f(p[k] for p in (l[0][1], l[-1][1])) for f in (min, max) for k in (0, 1)]
            ok = g['kind'] == 'image' and all(abs(a - b) <= tol for a, b in zip(box(g['elements']), box(elements))) and ('image' not in g or g['image'] == e['image'])
            ctx.check(ok, monitor, detail)
        elif e.get('dots'):
            points = flatten(g['elements'])
            x, y = at(e['dots'])
            xs, ys = [p[0] for p in points], [p[1] for p in points]
            ctx.check(abs((min(xs) + max(xs))/2 - x) <= tol + .01 and abs((min(ys) + max(ys))/2 - y) <= tol + .01, monitor, detail)
        elif e.get('sampled'):
            r = e['radius']*scale
            eps = tol + r*1e-3 + (r*math.radians(2/16) if e['span'] < 360 else 0)
            a, b = flatten(g['elements'], 48), [k[1] for k in elements]
            ok = polyline_distance(a, b) <= eps and polyline_distance(b, a) <= eps
            # one turn at most
            length = lambda l: sum(math.hypot(p[0] - q[0], p[1] - q[1]) for p, q in zip(l, l[1:]))
            ok = ok and abs(length(a) - length(b)) <= .01*length(b) + 4*eps
            ctx.check(ok, monitor, detail)
        else:
            ctx.check(same_elements(g['elements'], elements, tol) or same_elements(reverse(g['elements']), elements, tol), monitor, detail)

    def reverse(elements):
        points = []
        out = []
        last = None
        for e in elements:
            if last is not None:
                out.append((e[0], last, e))
            last = e[-1]
        r = [('M', last)]
        for letter, start, e in reversed(out):
            if letter == 'C':
                r.append(('C', e[2], e[1], start))
            else:
                r.append((letter, start))
        return r

    def record(view):
        device = Device()
        painter = QPainter()
        assert painter.begin(device)
        try:
            view.paint(painter)
        finally:
            painter.end()
        guard()
        return [d for d in device.engine.log if visible(d)]

    def grid_of(area):
        """{(axis, value, width)}"""
        (x0, x1), (y0, y1) = area
        length = min(x1 - x0, y1 - y0)
        step = max(10**int(math.log10(length)), 10)
        out = []
        for s, w in ((step, .75), (step//10, .25)):
            for axis, (a, b) in enumerate(area):
                i = int(math.floor(a/s))
                while i*s <= b:
                    if i*s >= a:
                        out.append((axis, i*s, w))
                    i += 1
        return out

    class View:
        """shadow of the view"""

        def __init__(self, rng):
            self.rng = rng
            self.requests = 0
            view = self

            class Item(QtQuickPaintedSceneItem):
                """records the repaints which are requested"""
                def update(self, *args):
                    view.requests += 1
                    super().update(*args)

            self.item = Item()
            self.size = self.centre = self.zoom = self.box = None
            self.count = 0
            self.item.sceneChanged.connect(self.on_change)

        def on_change(self):
            self.count += 1

        def at(self, p):
            return ((p[0] - self.centre[0])*self.zoom + self.size[0]/2, self.size[1]/2 - (p[1] - self.centre[1])*self.zoom)

        def inverse(self, p):
            return ((p[0] - self.size[0]/2)/self.zoom + self.centre[0], (self.size[1]/2 - p[1])/self.zoom + self.centre[1])

        def area(self):
            w, h = self.size[0]/self.zoom/2, self.size[1]/self.zoom/2
            x, y = self.centre
            return ((x - w, x + w), (y - h, y + h))

        def _fit(self):
            if self.size is None or self.box is None:
                return
            (x0, x1), (y0, y1) = self.box
            self.zoom = min(self.size[0]/(1.02*(x1 - x0)), self.size[1]/(1.02*(y1 - y0)))
            self.centre = ((x0 + x1)/2, (y0 + y1)/2)

        def resize(self, w, h):
            first = self.size is None
            if first and self.rng.random() < .5:
                self.item.setImplicitWidth(w)
                self.item.setImplicitHeight(h)
            else:
                self.item.setWidth(w)
                self.item.setHeight(h)
            guard()
            self.size = (w, h)
            if self.box is not None and self.centre is None:
                self._fit()

        def set_scene(self, scene, box):
            n = self.count
            self.repainted(setattr, self.item, 'scene', scene)
            ctx.equal(self.count, n + 1, 'changed')
            self.item.scene = scene
            ctx.equal(self.count, n + 1, 'changed')
            ctx.check(self.item.scene is scene, 'changed')
            self.box = box
            self._fit()

        def repainted(self, function, *args):
            n = self.requests
            function(*args)
            ctx.check(self.requests > n, 'repaint', lambda: (getattr(function, '__name__', ''), args))

        def fit(self):
            self.repainted(self.item.fit_scene)
            self._fit()
            area, box = self.area(), self.box
            ctx.check(all(a[0] <= b[0] and b[1] <= a[1] for a, b in zip(area, box)), 'fit')

        def operation(self, rng, low=.5, high=50):
            k = rng.randrange(5)
            if k == 0:
                self.resize(*size_of(rng))
            elif k == 1:
                z = self.zoom*rng.choice((.5, 2, 1.1, .9, rng.uniform(.2, 3), rng.choice((.02, 50))))
                if not low <= z <= high:
                    return
                self.repainted(self.item.zoom_at_center, z)
                self.zoom = z
            elif k == 2:
                z = self.zoom*rng.choice((.5, 2, rng.uniform(.2, 3), rng.choice((.02, 50))))
                if not low <= z <= high:
                    return
                p = (rng.uniform(0, self.size[0]), rng.uniform(0, self.size[1]))
                c = self.inverse(p)
                self.repainted(self.item.zoom_at, QPointF(*p), z)
                self.centre, self.zoom = c, z
            elif k == 3:
                d = (rng.uniform(-200, 200), rng.uniform(-200, 200)) if rng.random() < .5 else (60., -45.)
                self.repainted(self.item.pan, QPointF(*d))
                self.centre = (self.centre[0] + d[0]/self.zoom, self.centre[1] + d[1]/self.zoom)
            else:
                self.fit()
            return k

        def check(self, rng):
            ctx.close(self.item.zoom, self.zoom, 'zoom', 1e-6, 0)
            p = (rng.uniform(0, self.size[0]), rng.uniform(0, self.size[1]))
            for fixed in ((30., 40.), (0., 0.)):
                m = re.fullmatch(r'(-?\d+\.\d{3}), (-?\d+\.\d{3})', self.item.format_coordinate(QPointF(*fixed)))
                if ctx.check(m, 'coordinate', 'format'):
                    ctx.close_point([float(x) for x in m.groups()], self.inverse(fixed), 'coordinate', 1e-6, 1000.)
            text = self.item.format_coordinate(QPointF(*p))
            m = re.fullmatch(r'(-?\d+\.\d{3}), (-?\d+\.\d{3})', text)
            if ctx.check(m, 'coordinate', text):
                ctx.close_point([float(x) for x in m.groups()], self.inverse(p), 'coordinate', 1e-6, 1000.)

    ##############################################

    def size_of(rng, last=1000):
        w, h = float(rng.randint(200, last)), float(rng.randint(200, last))
        k = rng.random()
        return (w, w) if k < .15 else (w*4, h) if k < .2 else (w, h*4) if k < .25 else (w, h)

    def box_of(rng, b):
        points = [p for e in b.expected for k in e['elements'] for p in k[1:]]
        if not points or rng.random() < .2:
            box = [(-60., 60.), (-80., 75.)]
        else:
            box = [(min(p[k] for p in points), max(p[k] for p in points)) for k in (0, 1)]
        # not flat
        box = tuple((a - 5, c + 5) for a, c in box)
        b.scene.bounding_box = Interval2D(*box)
        return box

    def painting(rng):
        b = Builder(rng)
        for i in range(rng.randint(1, 12)):
            b.add()
        box = box_of(rng, b)
        view = View(rng)
        size = size_of(rng)
        if rng.random() < .5:
            view.resize(*size)
            view.set_scene(b.scene, box)
        else:
            view.set_scene(b.scene, box)
            view.resize(*size)
        for i in range(rng.randint(0, 3)):
            view.operation(rng)
        expected = b.primitives()
        ctx.note(kinds=[e['kind'] for e in expected], scene=b.kind, zoom=view.zoom, centre=view.centre, size=view.size, trivial=len(expected) < 3)
        painted(b, view, expected)
        # painted again: after a move of the view, with more items, with another scene
        for i in range(rng.choice((0, 1, 1, 2))):
            k = rng.random()
            if k < .6:
                view.operation(rng)
            elif k < .8:
                b.add()
            else:
                b = Builder(rng)
                for j in range(rng.randint(1, 6)):
                    b.add()
                view.set_scene(b.scene, box_of(rng, b))
            painted(b, view, b.primitives())

    def painted(b, view, expected):
        state = [(i.selected, i.visible, i.z_value) for i in b.items]
        got = record(view.item)
        ctx.equal([(i.selected, i.visible, i.z_value) for i in b.scene], state, 'unchanged')
        grid = grid_of(view.area())
        if not ctx.equal(len(got), len(grid) + len(expected), 'count', lambda: 'items %s' % [e['kind'] for e in expected]):
            return
        if b.kind == 'identity':
            lines = []
            (x0, x1), (y0, y1) = view.area()
            ok = True
            for d in got[:len(grid)]:
                p, q = [view.inverse(e[1]) for e in d['elements']]
                axis = 0 if abs(p[0] - q[0]) < 1e-6 else 1
                lines.append((axis, round(p[axis]), d['width']))
                span = sorted((p[1 - axis], q[1 - axis]))
                a = view.area()[1 - axis]
                ok = ok and abs(p[axis] - q[axis]) < 1e-6 and abs(span[0] - a[0]) < 1e-6 and abs(span[1] - a[1]) < 1e-6 and abs(p[axis] - round(p[axis])) < 1e-6
                ok = ok and d['colour'] == (0, 0, 0)
            ctx.check(ok and sorted(lines) == sorted(grid), 'grid', lambda: 'got %s, expected %s' % (lines, grid))
        tol = 1e-6*1000
        for g, e in zip(got[len(grid):], expected):
            check_shape(g, e, view.at, view.zoom, tol, 'view-')
            if e['kind'] in ('text', 'image'):
                continue
            if e['kind'] == 'control':
                ctx.equal(g['colour'], e['colour'], 'pen-colour')
                continue
            ctx.equal(g['stroked'], e['stroked'], 'pen-style')
            if e['stroked']:
                if e.get('selected'):
                    ctx.check(g['colour'] == (255, 0, 0) and abs(g['width'] - e['width']) < 1e-6, 'selected')
                else:
                    ctx.equal(g['colour'], e['colour'], 'pen-colour')
                    ctx.close(g['alpha'], e['alpha'], 'pen-alpha', 1/255, 1)
                    ctx.close(g['width'], e['width'], 'pen-width', 1e-6)
                ctx.equal(g['style'], STYLES[e['style']], 'pen-style')
                ctx.equal(g['cap'], CAPS[e['cap']][0], 'pen-cap')
                ctx.equal(g['join'], JOINS[e['join']][0], 'pen-join')
            if e['closed']:
                ok = (g['fill'] is None) == (e['fill'] is None) and (e['fill'] is None or (g['fill'][:3] == e['fill'][:3] and abs(g['fill'][3] - e['fill'][3]) <= 1/255))
                ctx.check(ok, 'brush', lambda: 'got %s, expected %s' % (g['fill'], e['fill']))

    def fonts(rng):
        """font of the texts"""
        from PyQt5.QtGui import QPaintEngine
        scene = QtScene()
        size = rng.choice((6, 12, 24))
        family = rng.choice(('DejaVu Sans', 'Arial', 'Courier'))
        scene.text(V(0, 0), 'text', Font(family, size), user_data=None)
        scene.bounding_box = Interval2D((-10, 10), (-10, 10))
        ctx.note(family=family, size=size)
        seen = []
        device = Device()
        original = device.engine.drawTextItem
        def draw(position, item):
            seen.append((device.engine.painter().font().family(), device.engine.painter().font().pointSize()))
        device.engine.drawTextItem = draw
        view = QtQuickPaintedSceneItem()
        view.setWidth(300.)
        view.setHeight(300.)
        view.scene = scene
        painter = QPainter()
        painter.begin(device)
        try:
            view.paint(painter)
        finally:
            painter.end()
        guard()
        ctx.equal(seen, [(family, size)], 'font')

    def unsupported(rng):
        b = Builder(rng)
        for i in range(rng.randint(0, 3)):
            b.add()
        style, s = b.style(True)
        (p, _), (q, _) = b.position(), b.position()
        item = b.scene.rectangle(p, q, style, user_data=None)
        hidden = rng.random() < .4
        item.visible = not hidden
        box = box_of(rng, b)
        view = View(rng)
        view.resize(300., 200.)
        view.set_scene(b.scene, box)
        ctx.note(hidden=hidden, n=len(b.items))
        if hidden:
            record(view.item)
            ctx.seen('unsupported')
        else:
            ctx.raises(NotImplementedError, lambda: record(view.item), 'unsupported')

    def history(rng):
        b = Builder(rng)
        b.add()
        box = box_of(rng, b)
        view = View(rng)
        w, h = size_of(rng)
        first = rng.random() < .5
        if first:
            view.resize(w, h)
            view.set_scene(b.scene, box)
        else:
            view.set_scene(b.scene, box)
            view.resize(w, h)
        view.check(rng)
        n = rng.randint(2, 12)
        log = []
        for i in range(n):
            if rng.random() < .1:
                b = Builder(rng)
                b.add()
                view.set_scene(b.scene, box_of(rng, b))
                log.append('scene')
            else:
                # Note: nothing is painted, thus there isn't a grid
                log.append(view.operation(rng, 1e-3, 1e3))
            view.check(rng)
        ctx.note(first=first, log=log, trivial=n < 3)

    def picking(rng):
        scene = QtScene()
        items = []
        style = GraphicPathStyle()
        for i in range(rng.randint(1, 10)):
            if rng.random() < .7:
                p, q = (rng.uniform(-50, 50), rng.uniform(-50, 50)), (rng.uniform(-50, 50), rng.uniform(-50, 50))
                items.append((scene.segment(V(*p), V(*q), style, user_data=i), 'segment', p, q))
            else:
                p, r = (rng.uniform(-50, 50), rng.uniform(-50, 50)), rng.uniform(2, 20)
                items.append((scene.circle(V(*p), r, style, user_data=i), 'circle', p, r))
        scene.bounding_box = Interval2D((-70, 70), (-70, 70))
        view = View(rng)
        view.resize(*size_of(rng, 800))
        view.set_scene(scene, ((-70, 70), (-70, 70)))
        clicks = []
        for i in range(rng.randint(1, 6)):
            if rng.random() < .4:
                view.operation(rng)
            # near an item
            item = rng.choice(items)
            if item[1] == 'segment':
                t = lerp(item[2], item[3], rng.uniform(-.1, 1.1))
            else:
                a = rng.uniform(0, 7)
                t = (item[2][0] + item[3]*math.cos(a), item[2][1] + item[3]*math.sin(a))
            x, y = view.at(t)
            x, y = x + rng.gauss(0, 8), y + rng.gauss(0, 8)
            p = view.inverse((x, y))
            distances = []
            for it, k, u, v in items:
                if k == 'segment':
                    d = polyline_distance([p], [u, v])
                else:
                    d = abs(math.hypot(p[0] - u[0], p[1] - u[1]) - v)
                distances.append((d*view.zoom, it))
            distances.sort(key=lambda k: k[0])
            if abs(distances[0][0] - 10) < .01 or (len(distances) > 1 and distances[1][0] - distances[0][0] < .01):
                continue
            view.item.item_at(QPointF(x, y))
            selected = [it for it in scene if it.selected]
            clicks.append((round(x), round(y), len(selected)))
            if distances[0][0] < 10:
                ctx.check(len(selected) == 1 and selected[0] is distances[0][1], 'pick', lambda: '%d selected, nearest at %s' % (len(selected), distances[0]))
                ctx.check(scene.selected_items == selected, 'pick-scene')
            else:
                ctx.check(not selected, 'pick-none', lambda: 'nearest at %s' % distances[0][0])
        ctx.note(items=len(items), clicks=clicks, trivial=len(items) < 2)

    def svg(rng):
        b = Builder(rng, images=False)
        for i in range(rng.randint(1, 12)):
            b.add()
        (x0, x1), (y0, y1) = box_of(rng, b)
        scale = rng.choice((None, 10, 1, 2.5, rng.uniform(.5, 20)))
        kwargs = {} if scale is None else dict(scale=scale)
        title = rng.choice(('', 'a title', 'Back (2)'))
        if title:
            kwargs['title'] = title
        description = rng.choice(('', 'front and back'))
        if description:
            kwargs['description'] = description
        if rng.random() < .3:
            kwargs['dpi'] = 72
        expected = b.primitives()
        ctx.note(kinds=[e['kind'] for e in expected], scene=b.kind, options=kwargs, trivial=len(expected) < 3)
        path = os.path.join(directory, 'scene.svg')
        from pathlib import Path
        QtPainter(b.scene).to_svg(rng.choice((path, Path(path))), **kwargs)
        root, got = read_svg(path)
        os.unlink(path)
        ctx.equal(root.findtext('{*}title', ''), title, 'svg-title')
        ctx.equal(root.findtext('{*}desc', '') if description else '', description, 'svg-title')
        # the page has the proportions of the view box
        size = [re.fullmatch(r'([\d.]+)mm', root.get(k) or '') for k in ('width', 'height')]
        if ctx.check(all(size), 'svg-page', lambda: (root.get('width'), root.get('height'))):
            size = [float(k.group(1)) for k in size]
            dpi = kwargs.get('dpi', 100)
            for k, x in zip(size, ((x1 - x0)*(scale or 10), (y1 - y0)*(scale or 10))):
                ctx.check(abs(k - x*25.4/dpi) <= 25.4/dpi + .01 + 1e-4*k, 'svg-page', lambda: (size, x, dpi))
        v = [float(k) for k in root.get('viewBox').split()]
        s = scale or 10
        w, h = (x1 - x0)*s, (y1 - y0)*s
        # Note: Qt can write a rounded box
        ctx.check(abs(v[2] - w) <= 1 + 1e-4*w and abs(v[3] - h) <= 1 + 1e-4*h, 'svg-page', lambda: 'got %s, expected %s' % (v, (w, h)))
        sx = sy = s
        at = lambda p: ((p[0] - x0)*s + left, (y1 - p[1])*s + top)
        left, top = v[0], v[1]
        tol = 1 + 2e-5*max(abs(left) + w, abs(top) + h)
        # the offset is not rounded
        got = [d for d in got if visible(d)]
        if not ctx.equal(len(got), len(expected), 'svg-count', lambda: 'items %s' % [e['kind'] for e in expected]):
            return
        for g, e in zip(got, expected):
            check_shape(g, e, at, s, tol, 'svg-')
            if e['kind'] in ('text', 'image'):
                continue
            ctx.equal(g['stroked'], e['stroked'], 'svg-pen')
            if e['stroked']:
                ctx.equal(g['colour'], e['colour'], 'svg-pen')
                if e['kind'] != 'control':
                    ctx.close(g['alpha'], e['alpha'], 'svg-pen', 1/128, 1)
                    ctx.close(g['width'], e['width'], 'svg-pen', 1e-4)
                    ctx.equal(g['dash'] == 'none', e['style'] == StrokeStyle.SolidLine, 'svg-pen', g['dash'])
                    ctx.equal(g['cap'], CAPS[e['cap']][1], 'svg-pen')
                    join = JOINS[e['join']][1]
                    if join is not None:
                        ctx.equal(g['join'], join, 'svg-pen')
            if e.get('closed'):
                ok = (g['fill'] is None) == (e['fill'] is None) and (e['fill'] is None or (g['fill'][:3] == e['fill'][:3] and abs(g['fill'][3] - e['fill'][3]) <= 1/128))
                ctx.check(ok, 'svg-brush', lambda: 'got %s, expected %s' % (g['fill'], e['fill']))

    ##############################################

    try:
        ctx.cases('painting', painting, 300, 4000)
        ctx.cases('fonts', fonts, 9, 30)
        ctx.cases('unsupported', unsupported, 40, 400)
        ctx.cases('history', history, 200, 3000)
        ctx.cases('picking', picking, 150, 2000)
        ctx.cases('svg', svg, 200, 3000)
    finally:
        shutil.rmtree(directory)
