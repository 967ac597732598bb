"""C25 -- styles, colours, typography units, paper sizes"""
import colorsys
import itertools
import math

PID = 'C25'
QUICK_FACTOR = 6
RULE = ('colours from every notation, edits and copies, the database against the source tables; style construction, edits and clones against a '
        'shadow dictionary; unit conversion chains; every ISO paper size; non-trivial: all')
ASSUMPTIONS = ['colour components compare within one 255th', 'ISO sizes compare within 1 mm']
MONITORS = ['colour', 'colour-edit', 'colour-equal', 'colour-copy', 'colour-hue', 'database', 'ensure', 'reject', 'style', 'style-clone', 'style-independent',
            'unit', 'paper', 'sketch-style']

ISO = {
    'A': [(841, 1189), (594, 841), (420, 594), (297, 420), (210, 297), (148, 210), (105, 148), (74, 105), (52, 74), (37, 52), (26, 37)],
    'B': [(1000, 1414), (707, 1000), (500, 707), (353, 500), (250, 353), (176, 250), (125, 176), (88, 125), (62, 88), (44, 62), (31, 44)],
    'C': [(917, 1297), (648, 917), (458, 648), (324, 458), (229, 324), (162, 229), (114, 162), (81, 114), (57, 81), (40, 57), (28, 40)],
}


def run(ctx):
    from Patro.GraphicStyle import Color, Colors, StrokeStyle, CapStyle, JoinStyle
    from Patro.GraphicStyle.Color import color_data
    from Patro.GraphicStyle.Color.ColorDataBase import ColorDataBase
    from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle, GraphicBezierStyle, Font
    from Patro.GraphicEngine.GraphicScene.TypographyUnit import MmUnit, InchUnit, PointUnit
    from Patro.GraphicEngine.Painter.Paper import PaperSize
    from Patro.Pattern.SketchStyle import DetailSketchStyle

    def observe(color, rgb, monitor):
        hexa = '#%02x%02x%02x' % tuple(rgb)
        ctx.check((color.red, color.green, color.blue) == tuple(rgb) and str(color) == hexa and hexa in repr(color) and
                  all(abs(f - i/255) < 1e-9 for f, i in zip((color.red_float, color.green_float, color.blue_float), rgb)),
                  monitor, lambda: 'got %s %s for %s' % (color, (color.red, color.green, color.blue), rgb))

    def colour(rng):
        rgb = [rng.choice([0, 1, 127, 128, 254, 255, rng.randint(0, 255)]) for _ in range(3)]
        hexa = '#%02x%02x%02x' % tuple(rgb)
        name = rng.choice([None, 'a name'])
        kw = {} if name is None else dict(name=name)
        ctx.note(rgb=rgb, name=name)
        c = Color(*rgb, **kw)
        makers = [c, Color(hexa, **kw), Color(hexa.upper().replace('#', '#'), **kw), Color(*[x/255 for x in rgb], **kw), Color(c, **kw), c.clone(), Colors.ensure_color(hexa)]
        for m in makers:
            observe(m, rgb, 'colour')
        ctx.check(all(m.name == name for m in makers[:-1]) and Colors.ensure_color(c) is c and Colors.ensure_color(None) is None, 'ensure')
        other = list(rgb)
        k = rng.randrange(3)
        other[k] = (other[k] + rng.randint(1, 255)) % 256
        d = Color(*other)
        ctx.check(all(a == b for a, b in itertools.product(makers, repeat=2)) and not any(m == d for m in makers) and c != d, 'colour-equal', lambda: '%s %s' % (c, d))
        # float component
        f = [rng.choice([0., 1., rng.random(), (rng.randint(0, 254) + rng.choice([.4999, .5001]))/255]) for _ in range(3)]
        e = Color(*f)
        ctx.check(all(abs(a-b) < 1e-12 for a, b in zip((e.red_float, e.green_float, e.blue_float), f)) and
                  all(abs(a - 255*b) <= .5 + 1e-9 for a, b in zip((e.red, e.green, e.blue), f)), 'colour', lambda: '%s for %s' % (e, f))
        g = Color(e)
        ctx.check((g.red_float, g.green_float, g.blue_float) == (e.red_float, e.green_float, e.blue_float), 'colour-copy', lambda: '%r %r' % (f, (g.red_float, g.green_float, g.blue_float)))
        # hue
        for got, want in ((e.hls, colorsys.rgb_to_hls(*f)), (e.hsv, colorsys.rgb_to_hsv(*f))):
            for a, b in zip(got, want):
                ctx.close(a, b, 'colour-hue', 1e-9)
        h, l, s = e.hls
        r = [Color(hue=h, light=l, saturation=s)]
        h, s, v = e.hsv
        r.append(Color(hue=h, value=v, saturation=s))
        for q in r:
            for a, b in zip((q.red_float, q.green_float, q.blue_float), f):
                ctx.close(a, b, 'colour-hue', 1e-9)
        i = rng.choice([0, 1])
        observe(Color(hue=rng.random(), light=i, saturation=rng.choice([0, rng.random()])), [255*i]*3, 'colour-hue')
        observe(Color(hue=rng.random(), value=i, saturation=0), [255*i]*3, 'colour-hue')
        # edits do not leak into copies
        copy = c.clone()
        for _ in range(rng.randint(1, 4)):
            k = rng.randrange(3)
            x = rng.randint(0, 255)
            setattr(c, ('red', 'green', 'blue')[k], x if rng.random() < .5 else x/255)
            rgb2 = rgb = rgb[:k] + [x] + rgb[k+1:]
        observe(c, rgb, 'colour-edit')
        observe(makers[1], [int(hexa[i:i+2], 16) for i in (1, 3, 5)], 'colour-edit')
        observe(copy, [int(hexa[i:i+2], 16) for i in (1, 3, 5)], 'colour-copy')
        c.name = 'other'
        ctx.check(copy.name == name and c.name == 'other', 'colour-copy')
        bad = rng.choice([-1, 256, 1000, -.1, 1.1, '12', None])
        args = [1, 2, 3]
        args[rng.randrange(3)] = bad
        ctx.raises((ValueError, TypeError), lambda: Color(*args), 'reject', args)
        ctx.raises((ValueError, TypeError), lambda: setattr(c, 'green', bad), 'reject', bad)
        observe(c, rgb, 'colour-edit')
        text = rng.choice(['red', '', '#12', '#12345', '#1234567', '#gg0000', '123456', '#', 'x123456', '0123456', '#12345g', '12#3456', '#-1-1-1', '#+1+2+3', '# 1 2 3', '#1_1_1_', '#\n1\n2\n3', '#٠١٢٣٤٥'])
        ctx.raises(ValueError, lambda: Color(text), 'reject', text)
        ctx.raises(ValueError, lambda: Color(hue=.5, saturation=.5), 'reject', 'hue without light')
        ctx.raises((KeyError, ValueError), lambda: Colors.ensure_color('not a colour'), 'reject', 'name')
        ctx.raises(ValueError, lambda: Colors.ensure_color(rng.choice([1, 1., (1, 2, 3)])), 'reject', 'type')

    ctx.cases('colour', colour, 1500, 40000)

    def database(rng):
        first = {}
        for table in (color_data.BASE_COLORS, color_data.TABLEAU_COLORS, color_data.XKCD_COLORS, color_data.CSS4_COLORS, color_data.QML_COLORS, color_data.VALENTINA_COLORS):
            for name, value in table.items():
                first.setdefault(name.replace(' ', '_'), value)
        ctx.note(names=len(first))
        ctx.check(len(Colors) == len(first) and set(Colors.iter_names()) == set(first) and len(list(Colors)) == len(first), 'database', 'names')
        for name, value in first.items():
            c = Colors[name]
            want = [int(value[i:i+2], 16) for i in (1, 3, 5)]
            observe(c, want, 'database')
            ctx.check(name in Colors and c.name == name and Colors.ensure_color(name) is c and getattr(Colors, name) is c and str(c) == value.lower(), 'database', name)
        for name, rgb in dict(black=(0, 0, 0), white=(255, 255, 255), aliceblue=(240, 248, 255), rebeccapurple=(102, 51, 153)).items():
            observe(Colors[name], rgb, 'database')
        ctx.check('nothing' not in Colors, 'database')
        ctx.raises(KeyError, lambda: Colors['nothing'], 'reject')
        db = ColorDataBase()
        c = Color('#010203')
        db.add('mine', c)
        ctx.check(db.mine is c and list(db) == [c] and len(db) == 1 and 'mine' not in Colors, 'database', 'own database')

    ctx.cases('database', database, 1, 1)

    # styles ########################################################################################

    def value(rng, key):
        if key == 'stroke_style':
            return rng.choice(list(StrokeStyle))
        if key == 'cap_style':
            return rng.choice(list(CapStyle))
        if key == 'join_style':
            return rng.choice(list(JoinStyle))
        if key in ('stroke_alpha', 'fill_alpha'):
            return rng.choice([0, 1, .5, round(rng.random(), 3)])
        if key == 'line_width':
            return rng.choice([0, 1, 2.5, PointUnit(2), round(rng.uniform(0, 9), 2)])
        if key == 'show_control':
            return rng.random() < .5
        k = rng.random()
        if k < .15:
            return None
        if k < .4:
            return rng.choice(sorted(Colors.iter_names()))
        if k < .7:
            return '#%06x' % rng.randint(0, 0xffffff)
        return Colors[rng.choice(['red', 'blue'])]

    DEFAULT = dict(stroke_style=StrokeStyle.SolidLine, line_width=1., stroke_color=Colors.black, stroke_alpha=1., fill_color=None, fill_alpha=1.,
                   cap_style=CapStyle.SquareCap, join_style=JoinStyle.BevelJoin)

    def compare(style, shadow, monitor):
        for key, want in shadow.items():
            got = getattr(style, key)
            if key.endswith('color'):
                if want is None:
                    ok = got is None
                else:
                    if isinstance(want, str):
                        want = want if want.startswith('#') else str(Colors[want])
                    ok = isinstance(got, Color) and str(got) == str(want)
            else:
                ok = got == want or got is want
            ctx.check(ok, monitor, lambda: '%s is %s for %s' % (key, got, want))

    def style(rng):
        bezier = rng.random() < .5
        cls = GraphicBezierStyle if bezier else GraphicPathStyle
        shadow = dict(DEFAULT)
        if bezier:
            shadow.update(show_control=False, control_color=None)
        kw = {k: value(rng, k) for k in shadow if rng.random() < .5}
        ctx.note(cls=cls.__name__, kw={k: str(v) for k, v in kw.items()})
        s = cls(**kw)
        shadow.update(kw)
        compare(s, shadow, 'style')
        ctx.check(abs(s.line_width_as_float - float(shadow['line_width'])) < 1e-12, 'style', 'line width')
        ctx.check(cls.__name__ in repr(s), 'style')
        pairs = [(s, shadow)]
        for _ in range(rng.randint(1, 5)):
            if rng.random() < .5:
                a, b = rng.choice(pairs)
                c = a.clone()
                ctx.check(type(c) is cls and c is not a, 'style-clone', 'class')
                compare(c, b, 'style-clone')
                pairs.append((c, dict(b)))
            a, b = rng.choice(pairs)
            k = rng.choice(sorted(b))
            b[k] = value(rng, k)
            setattr(a, k, b[k])
        for a, b in pairs:
            compare(a, b, 'style-independent')
            ctx.check(abs(a.line_width_as_float - float(b['line_width'])) < 1e-12, 'style-independent', 'line width')
        k = rng.choice(['stroke_style', 'cap_style', 'join_style'])
        ctx.raises(ValueError, lambda: setattr(s, k, rng.choice(['x', None, 99])), 'reject', k)
        ctx.raises((ValueError, KeyError), lambda: setattr(s, 'stroke_color', rng.choice(['no colour', 12, '#12'])), 'reject', 'colour')
        f = Font('sans', 12)
        ctx.check(f.family == 'sans' and f.point_size == 12, 'style')
        keys = ['point_size', 'font_size', 'label_line_width', 'line_width', 'construction_line_width']
        kw = {k: rng.choice([1, 2.5, 7]) for k in keys if rng.random() < .5}
        if rng.random() < .5:
            kw['point_color'] = rng.choice(['red', '#00ff00', Colors.blue])
        d = DetailSketchStyle(**kw)
        for k, v in kw.items():
            if k == 'point_color':
                v = v if not isinstance(v, str) else Colors.ensure_color(v)
                ctx.check(d.point_color == v and d.point_style.fill_color == v, 'sketch-style', k)
            elif k == 'font_size':
                ctx.check(d.font.point_size == v, 'sketch-style', k)
            else:
                ctx.check(getattr(d, k) == v, 'sketch-style', k)
        ctx.check(d.label_line_style.line_width == d.label_line_width, 'sketch-style', 'label')

    ctx.cases('style', style, 1000, 30000)

    # units #########################################################################################

    MM = dict(mm=1, inch=25.4, point=25.4/72)
    CLS = dict(mm=MmUnit, inch=InchUnit, point=PointUnit)

    def unit(rng):
        u = rng.choice(list(MM))
        x = rng.choice([0, 1, 72, 10, rng.uniform(0, 1000), rng.randint(0, 500)])
        q = CLS[u](x)
        chain = [u]
        mm = x*MM[u]
        ctx.close(float(q), x, 'unit')
        for _ in range(rng.randint(1, 6)):
            u = rng.choice(list(MM))
            chain.append(u)
            q = getattr(q, 'to_' + u)()
            ctx.check(isinstance(q, CLS[u]) and isinstance(float(q), float), 'unit', lambda: '%s for %s' % (type(q), u))
            ctx.close(float(q)*MM[u], mm, 'unit', 1e-9, 1, chain)
        ctx.note(x=x, chain=chain)

    ctx.cases('unit', unit, 500, 20000)

    def paper(rng):
        for letter, sizes in ISO.items():
            for level, (w, h) in enumerate(sizes):
                for orientation in ('portrait', 'landscape'):
                    margin = rng.choice([0, 10, 12.5])
                    name = letter + str(level)
                    p = PaperSize(rng.choice([name, name.lower()]), orientation, margin)
                    W, H = (w, h) if orientation == 'portrait' else (h, w)
                    ctx.check(abs(p.width-W) <= 1 and abs(p.height-H) <= 1, 'paper', lambda: '%s %s: %s x %s' % (name, orientation, p.width, p.height))
                    ctx.check(p.name == name and p.orientation == orientation and p.margin == margin and
                              abs(p.width_in*25.4 - p.width) < 1e-9 and abs(p.height_in*25.4 - p.height) < 1e-9, 'paper', name)
        ctx.note(sizes=66)
        for name in ('D4', 'A11', 'A-1', 'A', '4A', 'Ax'):
            ctx.raises(ValueError, lambda: PaperSize(name, 'portrait', 10), 'reject', name)
        for o in ('Portrait', '', 'square'):
            ctx.raises(ValueError, lambda: PaperSize('A4', o, 10), 'reject', o)

    ctx.cases('paper', paper, 3, 3)
