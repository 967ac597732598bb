"""C20 -- measurements"""
import math
import os
import shutil
import tempfile
from datetime import date, datetime, timedelta

PID = 'C20'
QUICK_FACTOR = 2
RULE = ('sets of measurements defined by numbers and expressions referring to each other (random graph, random order of definition), evaluated by the '
        'library and by a shadow evaluator; Valentina measurement documents and YAML files; non-trivial: at least one reference between measurements')
ASSUMPTIONS = ['expressions are arithmetic (+ - * / ^ sqrt Min Max), references do not make divisions by zero',
               'a measurement is not named as a Python keyword, nor as a sympy number (pi, E, I) before it is defined']
MONITORS = ['value', 'float', 'float-precision', 'later', 'missing', 'cycle', 'duplicate', 'bad-name', 'name', 'iteration', 'sorted', 'text', 'getattr', 'yaml', 'yaml-text',
            'vit', 'vit-alias', 'vit-names', 'vit-personal', 'vit-unit', 'personal', 'personal-default', 'personal-bad', 'standard', 'standard-keys',
            'standard-duplicate']

STEMS = ['height', 'waist_circ', 'hip_circ', 'hip_circ_with_abdomen', 'hip', 'leg', 'leg_knee', 'a', 'b', 'x', 'A', 'N', 'S', 'Q', 'C', 'O', 'beta', 'gamma',
         'zeta', 'lamda', 'hauteur', 'tour_épaule', 'arc', 'bust2', 'bust', 'bust_arc', '_private', 'm1', 'm10', 'm100', 'Line', 'sqrt_x', 'Symbols', 'e1', 'E2']
TEXT = 'abc XYZ 019 .,;:éàœ<>&"\'#-{}[]%!|*?\\@漢'


def text(rng, n=30, alphabet=TEXT):
    return ''.join(rng.choice(alphabet) for _ in range(rng.choice([0, 1, 5, n]))).strip()


class Tree:

    """expression: its text and its value"""

    def __init__(self, rng, refs, values, depth=0):
        self.used = set()
        self.text, self.value, self.level = self.make(rng, refs, values, rng.choice([0, 1, 1, 2, 3]))

    def make(self, rng, refs, values, depth):
        if depth == 0 or rng.random() < .15:
            if refs and rng.random() < .7:
                name = rng.choice(refs)
                self.used.add(name)
                return name, values[name], 9
            v = rng.choice([rng.randint(1, 120), round(rng.uniform(.5, 150), rng.choice([1, 2, 3])), round(rng.uniform(.5, 150), 10)])
            return repr(v), float(v), 9
        op = rng.choice('++--**/^fgp')
        a, va, la = self.make(rng, refs, values, depth -1)
        sp = rng.choice(['', ' '])
        if op == 'f':
            if va < 0:
                return 'Abs(%s)' % a, abs(va), 9
            return 'sqrt(%s)' % a, math.sqrt(va), 9
        elif op == 'p':
            return '(%s)' % a, va, 9
        elif op == '^':
            if abs(va) > 200 or abs(va) < .01:
                return a, va, la
            return ('%s^2' if la == 9 else '(%s)^2') % a, va**2, 3
        b, vb, lb = self.make(rng, refs, values, depth -1)
        if op == 'g':
            f = rng.choice(['Max', 'Min'])
            return '%s(%s,%s%s)' % (f, a, sp, b), (max if f == 'Max' else min)(va, vb), 9
        elif op == '/':
            if abs(vb) < .05:
                return a, va, la
            ta = a if la >= 2 and la != 3 or la == 3 else '(%s)' % a
            tb = b if lb >= 3 else '(%s)' % b
            return '%s%s/%s%s' % (ta, sp, sp, tb), va/vb, 2
        elif op == '*':
            if abs(va*vb) > 1e8:
                return a, va, la
            ta = a if la >= 2 else '(%s)' % a
            tb = b if lb >= 2 and '/' not in b else '(%s)' % b
            return '%s%s*%s%s' % (ta, sp, sp, tb), va*vb, 2
        elif op == '+':
            return '%s%s+%s%s' % (a, sp, sp, b), va + vb, 1
        tb = b if lb >= 2 else '(%s)' % b
        return '%s%s-%s%s' % (a, sp, sp, tb), va - vb, 1


def model(rng, custom=False, max_n=14):
    """[(name, value given, value, references)] in an order where references come first"""
    n = rng.choice([1, 3, 6, max_n])
    names = []
    pool = STEMS + ['%s_%d' % (rng.choice(STEMS), rng.randint(0, 12)) for _ in range(10)]
    rng.shuffle(pool)
    for s in pool:
        if len(names) == n:
            break
        c = custom and rng.random() < .4
        if s not in [x.lstrip('@') for x in names]:
            names.append('@' + s if c else s)
    values, out = {}, []
    for i, name in enumerate(names):
        refs = names[max(0, i - 4):i] if rng.random() < .7 else names[:i] # deep chains
        if not refs or rng.random() < .3:
            v = rng.choice([0, rng.randint(1, 200), round(rng.uniform(1, 200), 2), rng.uniform(1, 200), str(rng.randint(1, 200)),
                            '%.1f' % rng.uniform(1, 200), '%d ' % rng.randint(1, 99), '%r' % rng.uniform(1, 200)])
            out.append((name, v, float(v), set()))
        else:
            for _ in range(20):
                t = Tree(rng, refs, values)
                if t.used and abs(t.value) < 1e6:
                    break
            if abs(t.value) >= 1e6:
                t.text, t.value, t.used = '7', 7., set()
            txt = t.text
            if rng.random() < .2:
                txt = ' %s ' % txt
            out.append((name, txt, t.value, t.used))
        values[name] = out[-1][2]
    return out


def run(ctx):
    import lxml.etree as etree
    import yaml
    from Patro.Measurement.Measurement import MeasurementSet
    from Patro.Measurement import PersonalData as PD
    from Patro.Measurement.PersonalData import Gender, PersonalData
    from Patro.Measurement import StandardMeasurement as SM
    from Patro.Measurement.ValentinaStandardMeasurement import ValentinaStandardMeasurement
    from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
    from Patro.FileFormat.Valentina.Measurement import VitFile

    REJECT = (TypeError, ValueError, KeyError, NameError, AttributeError, RecursionError)
    scratch = tempfile.mkdtemp(prefix='c20-')

    def fill(rng, s, m, shuffle, texts):
        order = list(m)
        if shuffle:
            rng.shuffle(order)
        for name, given, v, used in order:
            t = texts.get(name)
            if t:
                x = s.add(name, given, *t) if rng.random() < .5 else s.add(name, given, full_name=t[0], description=t[1])
            else:
                x = s.add(name, given)
            ctx.check(x is s[name], 'getattr')
        return order

    def near(got, v, monitor, detail):
        ctx.close(got, v, monitor, tol=1e-9, scale=1., detail=detail)

    def expressions(rng):
        m = model(rng)
        texts = {x[0]: (text(rng), text(rng)) for x in m if rng.random() < .5}
        ctx.note(m=[(x[0], x[1]) for x in m], trivial=not any(x[3] for x in m))
        s = MeasurementSet()
        early = rng.random() < .4
        order = list(m)
        shuffle = rng.random() < .7
        if shuffle:
            rng.shuffle(order)
        known = set()
        graph = {x[0]: x[3] for x in m}

        def closure(name, done):
            if name in done:
                return done
            done.add(name)
            for r in graph[name]:
                closure(r, done)
            return done

        def depends(name, known):
            """does the value depend on the missing measurements?"""
            out = []
            for k in (1., 1.37):
                env = dict(Max=max, Min=min, Abs=abs, sqrt=lambda x: math.sqrt(abs(x)))
                for n, given, v, used in m:
                    try:
                        env[n] = eval(str(given).strip().replace('^', '**'), env) if n in known else v*k + (k - 1)*3
                    except ZeroDivisionError:
                        return False
                out.append(env[name])
            return abs(out[0] - out[1]) > 1e-6*max(1, abs(out[0]))
        for name, given, v, used in order:
            x = s.add(name, given, *texts.get(name, ()))
            known.add(name)
            ctx.check(x is s[name] and x is getattr(s, name), 'getattr')
            if early:
                ctx.equal(set(s.names), known, 'names')
                ctx.equal([y.name for y in s.sorted_iter()], sorted(known), 'sorted')
                if closure(name, set()) <= known:
                    near(x.value, v, 'value', (name, given))
                elif depends(name, known): # a reference is missing
                    ctx.raises(REJECT, lambda: x.value, 'missing', (name, given))
                    ctx.raises(REJECT, lambda: float(x), 'missing', (name, given))
        asked = list(m)
        rng.shuffle(asked)
        for name, given, v, used in asked:
            monitor = 'later' if early and used else 'value'
            near(s[name].value, v, monitor, (name, given))
            ctx.check(float(s[name]) == s[name].value and isinstance(s[name].value, float), 'float')
            if not used and not isinstance(given, str):
                ctx.equal(s[name].value, float(given), 'float-precision')
            full, desc = texts.get(name, ('', ''))
            ctx.equal((s[name].name, s[name].full_name, s[name].description), (name, full, desc), 'text')
        ctx.equal([x.name for x in s], [x[0] for x in order], 'iteration')
        ctx.equal([x.name for x in s.sorted_iter()], sorted(x[0] for x in m), 'sorted')
        ctx.equal(sorted(s.names), sorted(x[0] for x in m), 'names')
        # a name is registered once, the first definition stays
        name, given, v, used = rng.choice(m)
        ctx.raises(NameError, lambda: s.add(name, v + 1), 'duplicate', name)
        ctx.raises(NameError, lambda: s.add(name, str(s[name].expression)), 'duplicate', name) # even with the same expression
        ctx.raises(NameError, lambda: s.add(name, v), 'duplicate', name)
        near(s[name].value, v, 'duplicate', name)
        ctx.equal(len(list(s)), len(m), 'duplicate')
        # YAML
        path = os.path.join(scratch, 'm.yaml')
        s.save_as_yaml(path)
        for cls in (MeasurementSet, ValentinaMeasurements):
            r = cls()
            r.load_yaml(path)
            ctx.equal(sorted(x.name for x in r), sorted(x[0] for x in m), 'yaml')
            for name, given, v, used in m:
                near(r[name].value, v, 'yaml', (name, given))
                full, desc = texts.get(name, ('', ''))
                ctx.equal((r[name].full_name, r[name].description), (full, desc), 'yaml-text')
        # the set grows, it is written again in the same file
        dumped = s.dump()
        free = [n for n in ('zz', 'a0', 'extra_1', 'M') if n not in s.names]
        for i, n in enumerate(free):
            e = rng.choice(m)[0]
            s.add(n, '%s + %d' % (e, i + 1), 'T %d' % i, 'D')
            near(s[n].value, s[e].value + i + 1, 'value', n)
        ctx.equal(sorted(s.names), sorted([x[0] for x in m] + free), 'names')
        ctx.check(len(s.dump()) > len(dumped) and all(n in s.dump() for n in free), 'names', 'dump')
        s.save_as_yaml(path)
        r = cls()
        r.load_yaml(path)
        ctx.equal(sorted(r.names), sorted(s.names), 'yaml')
        for x in s:
            near(r[x.name].value, x.value, 'yaml', x.name)

    def chains(rng):
        """long chain of references, in any order"""
        n = rng.choice([5, 20, 45])
        names = ['m%d' % i for i in range(n)]
        ctx.note(n=n, k=rng.random())
        k = rng.choice([.5, 1.5, 1])
        jobs = [('m0', '3')]
        v, values = 3., {'m0': 3.}
        for a, b in zip(names, names[1:]):
            c = rng.randint(1, 9)
            jobs.append((b, rng.choice(['%s + %d', '(%s) + %d', '%s*1+%d']) % (a, c)))
            v += c
            values[b] = v
        order = list(jobs)
        rng.shuffle(order)
        s = rng.choice([MeasurementSet, ValentinaMeasurements])()
        for name, e in order:
            s.add(name, e)
        asked = rng.sample(names, min(6, n)) + [names[-1]]
        for name in asked:
            near(s[name].value, values[name], 'value', name)

    def cycles(rng):
        n = rng.randint(1, 6)
        names = ['c%d' % i for i in range(n)]
        ctx.note(n=n, k=rng.random())
        s = MeasurementSet()
        s.add('base', 5)
        for i, name in enumerate(names):
            s.add(name, rng.choice(['%s+1', '%s/2+base', 'base-%s']) % names[(i + 1) % n] if n > 1 else names[0] + '+1')
        s.add('after', 'c0*2')
        s.add('free', 'base*2')
        if n % 2 == 0:
            pass
        for name in names + ['after']:
            ctx.raises(REJECT, lambda: s[name].value, 'cycle', name)
        near(s['free'].value, 10., 'cycle', 'free')

    def names(rng):
        s = MeasurementSet()
        bad = rng.choice(['a-b', 'a+b', 'a.b', 'a@b', '@a', 'a/b', 'a(', 'x\ty', 'a\n', 'a,b', 'a"b', '€'])
        good = rng.choice(['a b', 'hip circ', 'x y z', 'épaule', 'A1', '_a', 'x_'])
        ctx.note(bad=bad, good=good)
        ctx.raises(ValueError, lambda: s.add(bad, 3), 'bad-name', bad)
        ctx.equal(list(s), [], 'bad-name')
        x = s.add(good, 3)
        py = good.replace(' ', '_')
        ctx.equal(x.name, py, 'name')
        s.add('twice', '2*' + py)
        near(s.twice.value, 6., 'name', py)
        ctx.raises((KeyError, AttributeError), lambda: s['nope'], 'name')

    def escape(s):
        return s.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')

    def vit(rng):
        m = model(rng, custom=True)
        texts = {}
        for x in m:
            if rng.random() < .4:
                texts[x[0]] = (text(rng, 20, 'abc éà<>&"\'XYZ 12'), text(rng, 20, 'abc éà<>&"\'XYZ 12'))
        ctx.note(m=[(x[0], x[1]) for x in m], trivial=not any(x[3] for x in m))
        order = list(m)
        if rng.random() < .5:
            rng.shuffle(order)
        p = dict(last='', first='', birth=None, gender='unknown', email='')
        rows = []

        def row(tag, key, value, empty):
            r = rng.random()
            if r < .6:
                p[key] = value
                rows.append('<%s>%s</%s>' % (tag, escape(str(value)), tag))
            elif r < .8 and empty:
                rows.append(rng.choice(['<%s/>', '<%s></%s>']).replace('%s', tag))
        row('family-name', 'last', rng.choice(['Doe', 'Dupont & Fils', 'Éléonore', 'X Y']), True)
        row('given-name', 'first', rng.choice(['John', 'Ève', 'Jean-Luc']), True)
        birth = date(1950, 1, 1) + timedelta(days=rng.randint(0, 25000))
        row('birth-date', 'birth', birth, True)
        row('gender', 'gender', rng.choice(['male', 'female', 'unknown']), False)
        row('email', 'email', rng.choice(['a@b.c', 'john.doe@example.org']), True)
        unit, pm = rng.choice(['cm', 'mm', 'inch']), rng.choice(['998', '0', '54'])
        if rng.random() < .3:
            rng.shuffle(rows)
        body = []
        for name, given, v, used in order:
            at = ['name="%s"' % name, 'value="%s"' % (repr(given) if not isinstance(given, str) else given)]
            if name in texts:
                at += ['full_name="%s"' % escape(texts[name][0]), 'description="%s"' % escape(texts[name][1])]
            rng.shuffle(at)
            body.append('<m %s/>' % ' '.join(at))
            if rng.random() < .1:
                body.append(rng.choice(['<!-- a comment -->', '<!-- <m name="neck_height" value="1"/> -->', '<?pi data?>']))
        doc = ('<?xml version="1.0" encoding="UTF-8"?>\n<vit>\n  <!--Measurements created with Valentina.-->\n  <version>0.3.3</version>\n'
               '  <read-only>false</read-only>\n  <notes/>\n  <unit>%s</unit>\n  <pm_system>%s</pm_system>\n  <personal>%s</personal>\n'
               '  <body-measurements>\n    %s\n  </body-measurements>\n</vit>\n') % (unit, pm, '\n    '.join(rows), '\n    '.join(body))
        path = os.path.join(scratch, 'm.vit')
        with open(path, 'w', encoding='utf8') as fh:
            fh.write(doc)
        f = VitFile(path)
        s = f.measurements
        ctx.equal((s.unit, s.pattern_making_system), (unit, pm), 'vit-unit')
        q = s.personal
        ctx.equal((q.last_name, q.first_name, q.birth_date, q.gender, q.email),
                  (p['last'], p['first'], p['birth'], Gender[p['gender'].upper()], p['email']), 'vit-personal')
        ctx.equal([x.valentina_name for x in s], [x[0] for x in order], 'vit-names')
        ctx.equal(len({x.name for x in s}), len(m), 'vit-names')
        for name, given, v, used in m:
            x = s[name]
            near(x.value, v, 'vit', (name, given))
            full, desc = texts.get(name, ('', ''))
            ctx.equal((x.full_name, x.description, x.is_custom()), (full, desc, name.startswith('@')), 'vit-names')
            ctx.check(s[x.name] is x and s[x.valentina_name] is x, 'vit-alias')
            ctx.check(x.name.isidentifier(), 'vit-names')
        # files do not share their measurements
        g = VitFile(path)
        ctx.check(g.measurements is not s and all(a is not b for a, b in zip(s, g.measurements)), 'vit-alias')
        # to YAML: the standard notation
        y = os.path.join(scratch, 'v.yaml')
        s.save_as_yaml(y)
        r = MeasurementSet()
        r.load_yaml(y)
        for x in s:
            near(r[x.name].value, x.value, 'yaml', x.name)

    def sample(rng):
        path = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'doc', 'sphinx', 'source', 'valentina-compatibility', 'example.vit')
        ctx.note(sample=1)
        s = VitFile(path).measurements
        tree = etree.parse(path)
        raw = {e.get('name'): e.get('value') for e in tree.iter('m')}
        ctx.equal([x.valentina_name for x in s], list(raw), 'vit-names')
        values = {}

        def evaluate(name):
            if name not in values:
                import re
                e = re.sub(r'@?[^\W\d]\w*', lambda mo: '(%r)' % evaluate(mo.group()), raw[name])
                values[name] = float(eval(e))
            return values[name]
        for name in raw:
            near(s[name].value, evaluate(name), 'vit', name)
        ctx.equal((s.personal.last_name, s.personal.first_name, s.personal.birth_date, s.personal.gender, s.personal.email, s.unit),
                  ('Doe', 'John', date(1970, 1, 1), Gender.MALE, '', 'cm'), 'vit-personal')

    def personal(rng):
        given = {}
        d = datetime(1950, 1, 1) + timedelta(days=rng.randint(0, 25000), seconds=rng.randint(0, 86399), milliseconds=rng.randint(0, 999))
        expected = dict(first_name='', last_name='', birth_date=None, measurement_date=None, gender=Gender.UNKNOWN, email='', comment='')
        for key in expected:
            if rng.random() < .6:
                if key == 'birth_date':
                    given[key] = rng.choice([d, d.date(), d.strftime('%Y-%m-%d')])
                    expected[key] = d.date()
                elif key == 'measurement_date':
                    given[key] = rng.choice([d, d.strftime('%Y-%m-%dT%H:%M:%S.%fZ'), d.strftime('%Y-%m-%dT%H:%M:%S.%f')[:-3] + 'Z'])
                    expected[key] = d
                elif key == 'gender':
                    g = rng.choice(list(Gender))
                    given[key] = rng.choice([g, g.name, g.name.lower(), g.name.capitalize()])
                    expected[key] = g
                else:
                    given[key] = expected[key] = text(rng)
        ctx.note(given=given, trivial=not given)
        if rng.random() < .5:
            q = PersonalData(**given)
        else:
            q = PersonalData()
            for k, v in given.items():
                setattr(q, k, v)
        for k, v in expected.items():
            got = getattr(q, k)
            ctx.check(got == v and type(got) == type(v), 'personal' if k in given else 'personal-default', lambda: (k, got, v))
        # a date can be removed
        key = rng.choice(['birth_date', 'measurement_date'])
        setattr(q, key, None)
        ctx.check(getattr(q, key) is None, 'personal-default', key)
        unit, pms = rng.choice(['cm', 'mm', 'inch']), rng.choice(['998', '54'])
        s = MeasurementSet(unit, pms, q)
        ctx.check((s.unit, s.pattern_making_system, s.personal) == (unit, pms, q), 'personal', 'measurements')
        s.unit, s.pattern_making_system = 'mm', '10'
        ctx.equal((s.unit, s.pattern_making_system), ('mm', '10'), 'personal')
        s = MeasurementSet(personal_data=q)
        ctx.check(s.personal is q and MeasurementSet().personal is not MeasurementSet().personal, 'personal')
        key, value = rng.choice([('gender', 'nope'), ('birth_date', '1970/01/01'), ('birth_date', '1970-13-01'), ('measurement_date', '1970-01-01'), ('birth_date', 'x')])
        before = getattr(q, key)
        ctx.raises((ValueError, KeyError), lambda: setattr(q, key, value), 'personal-bad', (key, value))
        ctx.equal(getattr(q, key), before, 'personal-bad')

    def standard(rng):
        ctx.note(standard=1)
        s = ValentinaStandardMeasurement()
        path = os.path.join(os.path.dirname(SM.__file__), 'data', 'valentina-standard-measurements.yaml')
        with open(path, encoding='utf8') as fh:
            data = yaml.safe_load(fh)
        rows = [(code,) + tuple(row) for topic in data.values() for code, row in topic['measurements'].items()]
        ctx.equal(len(s), len(rows), 'standard')
        ctx.equal([(x.code, x.name, x.full_name, x.description, x.default_value) for x in s], rows, 'standard')
        for row in rows:
            ctx.check(row[1] in s and s[row[1]].code == row[0], 'standard-keys', row)
        ctx.check('nope' not in s, 'standard-keys')
        ctx.raises(KeyError, lambda: s['nope'], 'standard-keys')
        x = rng.choice(list(s))
        ctx.raises(NameError, lambda: s.add(SM.Measurement(x.name, 'other', '')), 'standard-duplicate')
        ctx.check(s[x.name] is x and len(s) == len(rows), 'standard-duplicate')
        s.add(SM.Measurement('brand_new', 'f', 'd', 3))
        ctx.check(len(s) == len(rows) + 1 and s['brand_new'].default_value == 3 and 'brand_new' in s, 'standard-duplicate')
        s.add(SM.Measurement('Brand_New', 'g', 'd', 4))
        ctx.check(s['Brand_New'].default_value == 4 and s['brand_new'].default_value == 3 and 'BRAND_NEW' not in s, 'standard-duplicate', 'case')
        ctx.check('brand_new' not in ValentinaStandardMeasurement(), 'standard-duplicate')

    try:
        ctx.cases('expressions', expressions, 120, 3000)
        ctx.cases('chains', chains, 8, 100)
        ctx.cases('cycles', cycles, 10, 150)
        ctx.cases('names', names, 30, 200)
        ctx.cases('vit', vit, 80, 2000)
        ctx.cases('sample', sample, 1, 1)
        ctx.cases('personal', personal, 300, 5000)
        ctx.cases('standard', standard, 1, 2)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
