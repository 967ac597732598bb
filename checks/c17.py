"""C17 -- object adaptors of XML elements"""
import os
import shutil
import tempfile

PID = 'C17'
QUICK_FACTOR = 8
RULE = ('adaptor classes generated at random (attribute kinds, renamed attributes, defaults, mixins, sub-classes), instances made from '
        'Python values or from XML text, edited, written and read again, compared with shadow values; non-trivial: at least one attribute set')
ASSUMPTIONS = ['strings without XML-invalid control characters', 'each attribute name is defined once in a class hierarchy']
MONITORS = ['from-values', 'from-xml', 'defaults', 'edit', 'isolation', 'round-trip', 'omitted', 'dict', 'inheritance', 'text', 'bool', 'bool-rejected',
            'float-list', 'number-rejected', 'parse', 'xpath', 'extra-attributes']


def run(ctx):
    from lxml import etree
    from Patro.Common.Xml import Objectivity as O
    from Patro.Common.Xml.Objectivity import (
        BoolAttribute, FloatAttribute, FloatListAttribute, IntAttribute, StringAttribute, XmlObjectAdaptator, TextXmlObjectAdaptator)
    from Patro.Common.Xml.XmlFile import XmlFileMixin

    KINDS = dict(bool=BoolAttribute, int=IntAttribute, float=FloatAttribute, list=FloatListAttribute, str=StringAttribute)
    ALPHABET = 'abcXYZ 019.,;:<>&"\'éàλ漢😀-_/()[]{}'

    def value(rng, kind):
        """python value"""
        if kind == 'bool':
            return rng.random() < .5
        elif kind == 'int':
            return rng.choice([0, 1, -1, rng.randint(-10**9, 10**9), 10**20])
        elif kind == 'float':
            return rng.choice([0., -0.5, 1e-12, 1.5e300, rng.uniform(-1e3, 1e3), float(rng.randint(-50, 50))])
        elif kind == 'list':
            return [value(rng, 'float') for _ in range(rng.choice([1, 1, 2, 3, 6]))]
        return ''.join(rng.choice(ALPHABET) for _ in range(rng.choice([0, 1, 5, 20])))

    def text_of(rng, kind, v):
        """one of the XML notations of the value"""
        if kind == 'bool':
            return rng.choice(['true', '1']) if v else rng.choice(['false', '0'])
        elif kind == 'list':
            if len(v) > 1:
                sep = rng.choice([' ', ',', ', ', '  ', ' , ', '\t'])
            else:
                sep = ''
            s = sep.join(map(repr, v))
            return rng.choice([s, s, ' ' + s, s + ' '])
        elif kind == 'str':
            return v
        elif kind == 'float' and v == int(v) and abs(v) < 1e9:
            return rng.choice([repr(v), str(int(v)), repr(v) + '00'])
        return rng.choice([repr(v), ' ' + repr(v)]) if kind != 'str' else v

    def same(a, b):
        return a == b and type(a) == type(b)

    def classes(rng):
        """a random class, its attribute table {py: (kind, xml, default)}"""
        counter = [0]

        def attributes(n):
            out, table = [], {}
            for _ in range(n):
                counter[0] += 1
                kind = rng.choice(sorted(KINDS))
                py = 'a%d_%s' % (counter[0], kind)
                xml = rng.choice([py, 'x-%d' % counter[0], 'n%d.%s' % (counter[0], kind), 'camelCase%d' % counter[0]])
                default = rng.choice([None, None, value(rng, kind)])
                cls = KINDS[kind]
                if xml == py and rng.random() < .5:
                    a = cls(py) if default is None else cls(py, default=default)
                else:
                    a = cls(py, xml) if default is None else cls(py, xml, default)
                out.append(a)
                table[py] = (kind, xml, default)
            return tuple(out), table
        table = {}
        bases = []
        for i in range(rng.choice([0, 1, 1, 2])):
            at, t = attributes(rng.randint(1, 3))
            base = type('Mixin%d' % i, (), dict(__attributes__=at))
            table.update(t)
            if rng.random() < .4:
                at, t = attributes(rng.randint(0, 2))
                base = type('Sub%d' % i, (base,), dict(__attributes__=at))
                table.update(t)
            bases.append(base)
        at, t = attributes(rng.randint(0 if bases else 1, 4))
        table.update(t)
        is_text = rng.random() < .3
        root = TextXmlObjectAdaptator if is_text else XmlObjectAdaptator
        bases = bases + [root] if rng.random() < .7 else [root] + bases
        tag = rng.choice(['tag', 'my-tag', 'Tag.1'])
        cls = type(root)('Generated', tuple(bases), dict(__tag__=tag, __attributes__=at))
        levels = []
        for i in range(rng.choice([0, 0, 1, 2])):
            levels.append((cls, dict(table)))
            at, t = attributes(rng.randint(0, 2))
            table = dict(table)
            table.update(t)
            cls = type(root)('Derived%d' % i, (cls,), dict(__attributes__=at) if at else {})
        return cls, table, tag, is_text, levels

    def adaptor(rng):
        cls, table, tag, is_text, levels = classes(rng)
        shadow = {py: (value(rng, kind) if rng.random() < .7 else None) for py, (kind, xml, default) in table.items()}
        text = value(rng, 'str') if is_text else None
        given = {py: v for py, v in shadow.items() if v is not None}
        ctx.note(table=sorted(table.items()), given=given, text=text, trivial=not given)
        expected = {py: (v if v is not None else table[py][2]) for py, v in shadow.items()}
        for base, sub in levels: # the base classes keep their own attributes
            o = base(**{py: given[py] for py in sub if py in given})
            ctx.equal(set(o.to_dict()), set(sub), 'inheritance')
        # from values
        kw = dict(given)
        if is_text:
            kw['text'] = text
        a = cls(**kw)
        for py, e in expected.items():
            ctx.check(same(getattr(a, py), e), 'from-values' if py in given else 'defaults', lambda: (py, getattr(a, py), e))
        ctx.equal(set(a.to_dict()), set(table), 'dict')
        # from XML
        element = etree.Element(tag)
        for py, v in given.items():
            element.set(table[py][1], text_of(rng, table[py][0], v))
        element.set('unknown', 'x')
        if is_text:
            element.text = text
            if rng.random() < .3:
                etree.SubElement(element, 'child')
        if rng.random() < .5:
            element = etree.fromstring(etree.tostring(element))
        b = cls(element)
        for py, e in expected.items():
            ctx.check(same(getattr(b, py), e), 'from-xml' if py in given else 'defaults', lambda: (py, getattr(b, py), e))
        if is_text:
            ctx.equal(a.text, text, 'text')
            ctx.equal(b.text, text, 'text')
        # edit one, the other does not move
        edited = dict(expected)
        for py in table:
            if rng.random() < .4:
                v = rng.choice([None, value(rng, table[py][0])])
                setattr(a, py, v)
                edited[py] = v
                ctx.check(same(getattr(a, py), v), 'edit', py)
        for py, e in expected.items():
            ctx.check(same(getattr(b, py), e), 'isolation', py)
        # dictionaries
        exclude = rng.sample(sorted(table), min(len(table), rng.choice([0, 1, 2])))
        ctx.equal(a.to_dict(), edited, 'dict')
        ctx.equal(a.to_dict(exclude=exclude), {k: v for k, v in edited.items() if k not in exclude}, 'dict')
        ctx.equal(cls.get_dict(a, exclude), {k: v for k, v in edited.items() if k not in exclude}, 'dict')
        # write
        extra = {'extra': 'v'} if rng.random() < .3 else {}
        e = a.to_xml(**extra)
        ctx.equal(e.tag, tag, 'round-trip')
        names = {table[py][1] for py, v in edited.items() if v is not None}
        ctx.equal(set(e.attrib) - {'extra'}, names, 'omitted')
        if extra:
            ctx.equal(e.get('extra'), 'v', 'extra-attributes')
        if names:
            # an extra attribute replaces the one of the object
            name = rng.choice(sorted(names))
            e = a.to_xml(**{name: 'other value', 'zzz': 'v'})
            ctx.equal({k: v for k, v in e.attrib.items() if k in (name, 'zzz')}, {name: 'other value', 'zzz': 'v'}, 'extra-attributes')
            ctx.equal(set(e.attrib), names | {'zzz'}, 'extra-attributes')
        string = a.to_xml_string()
        c = cls(etree.fromstring(string))
        for py, v in edited.items():
            w = v if v is not None else table[py][2]
            ctx.check(same(getattr(c, py), w), 'round-trip', lambda: (py, getattr(c, py), w, string))
        if is_text:
            ctx.equal(c.text, text, 'text')
        # the conversion does not modify the object
        ctx.equal(a.to_dict(), edited, 'isolation')

    def attributes(rng):
        ctx.note(r=rng.random())

        class T(XmlObjectAdaptator):
            __tag__ = 't'
            __attributes__ = (BoolAttribute('b'), IntAttribute('i'), FloatAttribute('f'), FloatListAttribute('l'))
        make = lambda **kw: T(etree.Element('t', **kw))
        for s, e in (('true', True), ('1', True), ('false', False), ('0', False)):
            ctx.check(make(b=s).b is e, 'bool')
        ctx.raises(ValueError, lambda: make(b=rng.choice(['yes', '2', '', 'no', 'on'])).b, 'bool-rejected')
        ctx.check(b'b="true"' in T(b=True).to_xml_string() and b'b="false"' in T(b=False).to_xml_string(), 'bool')
        bad = rng.choice(['', 'abc', '1.5mm', '--1'])
        ctx.raises(ValueError, lambda: make(f=bad), 'number-rejected')
        ctx.raises(ValueError, lambda: make(i=rng.choice([bad, '1.5'])), 'number-rejected')
        v = [value(rng, 'float') for _ in range(rng.randint(1, 6))]
        sep = rng.choice([' ', ',', ', ', ' ,', '\n', '   '])
        ctx.equal(make(l=sep.join(map(repr, v))).l, v, 'float-list')
        ctx.equal(make(l='none').l, None, 'float-list')
        ctx.equal(T(l=v).l, v, 'float-list')
        ctx.equal(make(l=T(l=v).to_xml().get('l')).l, v, 'float-list')
        ctx.raises(ValueError, lambda: make(l='1 x'), 'number-rejected')

    def files(rng):
        n = rng.randint(0, 5)
        texts = [''.join(rng.choice(ALPHABET) for _ in range(rng.randint(1, 8))) for _ in range(n)]
        root = etree.Element('root')
        for t in texts:
            e = etree.SubElement(root, 'item', key=t)
            e.text = t
        declaration = rng.random() < .5
        data = etree.tostring(root, encoding='utf-8', xml_declaration=declaration)
        mode = rng.choice(['path', 'bytes', 'str'])
        ctx.note(mode=mode, texts=texts)
        if mode == 'path':
            directory = tempfile.mkdtemp(prefix='c17-')
            try:
                path = os.path.join(directory, 'fichier é.xml')
                with open(path, 'wb') as fh:
                    fh.write(data)
                f = XmlFileMixin(path)
                ctx.equal(str(f.path), path, 'parse')
                tree = f.parse()
            finally:
                shutil.rmtree(directory)
        elif mode == 'bytes':
            tree = XmlFileMixin(None, data).parse()
        else:
            tree = XmlFileMixin(None, rng.choice(['', '\n  ']) + data.decode('utf8') + rng.choice(['', '\n'])).parse()
        ctx.equal([e.text for e in tree], texts, 'parse')
        ctx.equal([e.get('key') for e in tree], texts, 'parse')
        ctx.equal(len(XmlFileMixin.get_xpath_elements(tree, '/root/item')), n, 'xpath')
        first = XmlFileMixin.get_xpath_element(tree, '/root/item')
        ctx.check(first is None if not n else first.get('key') == texts[0], 'xpath')
        ctx.equal(XmlFileMixin.get_text_element(tree, '/root/item'), texts[0] if n else None, 'xpath')
        ctx.check(XmlFileMixin.get_xpath_element(tree, '/root/none') is None and XmlFileMixin.get_text_element(tree, '/root/none') is None, 'xpath')

    ctx.cases('adaptor', adaptor, 1200, 40000)
    ctx.cases('attributes', attributes, 300, 4000)
    ctx.cases('files', files, 200, 3000)
