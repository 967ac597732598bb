"""C27 -- tables of textile technology, iteration and path helpers, logging"""
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile

PID = 'C27'
QUICK_FACTOR = 4
RULE = ('random sequences and window sizes; random directory trees and file names; random argument lists; random tables of fibres and stitches (duplicated names, missing fields, several tables in '
        'one process) and the tables of the library read independently; random yarns, needles, fabrics and seams; subprocesses with each logging level; non-trivial: a sequence of at least two '
        'items, a tree of at least two directories, a table of at least two items')
ASSUMPTIONS = ['yarns of positive weight', 'file trees without symbolic links']
MONITORS = ['closed-iterator', 'pairwise', 'closed-pairwise', 'multiwise', 'index-iterator', 'absolute-path', 'parent', 'find', 'find-missing', 'path-action', 'fibre', 'fibre-table', 'stitch',
            'stitch-table', 'builtin-fibre', 'builtin-stitch', 'yarn', 'yarn-inverse', 'yarn-twist', 'needle', 'fabric', 'fabric-missing', 'seam', 'logging-level', 'logging-output', 'config-file']

LOGGING = r'''
import json, logging, sys, io
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
from Patro.Common.Logging import Logging
import Patro.Config.ConfigInstall as ConfigInstall
logger = Logging.setup_logging(*sys.argv[2:3])
out = dict(name=logger.name, level=logger.getEffectiveLevel(), handlers=[type(h).__name__ for h in logging.getLogger().handlers], file=str(ConfigInstall.Logging.find('logging.yml')))
logger.info('an information')
logger.warning('a warning')
logger.debug('a detail')
print('@@' + json.dumps(out))
'''


def run(ctx):
    import argparse
    import logging
    import yaml
    from pathlib import Path
    from core import REPO
    import Patro.Common.IterTools as IterTools
    import Patro.Common.Path as PathTools
    from Patro.Common.ArgparseAction import PathAction
    from Patro.TextileTechnology import Yarn as YarnModule
    from Patro.TextileTechnology.Fabric import Fabric, WovenFabric
    from Patro.TextileTechnology.Fiber import Fiber, FiberDatabase, FiberType
    from Patro.TextileTechnology.Needle import Needle, NeedleSystem, NeedleType
    from Patro.TextileTechnology.Seam import AstmSeam
    from Patro.TextileTechnology.StitchType import StitchDatabase, StitchType
    from Patro.TextileTechnology.Yarn import TwistType, Yarn

    directory = tempfile.mkdtemp(prefix='verif-c27-')

    ##############################################

    def sequences(rng):
        n = rng.choice((0, 1, 2, 3, rng.randint(4, 30)))
        items = [rng.choice((rng.randint(0, 3), rng.random(), None, 'ab'[rng.randrange(2)])) for i in range(n)]
        items = rng.choice((list, tuple))(items)
        k = rng.choice((1, 2, 3, rng.randint(1, n + 2)))
        ctx.note(items=items, k=k, trivial=n < 2)
        l = list(items)
        ctx.equal(list(IterTools.closed_iterator(items)), l + l[:1], 'closed-iterator')
        ctx.equal(list(IterTools.pairwise(items)), list(zip(l[:-1], l[1:])), 'pairwise')
        ctx.equal(list(IterTools.closed_pairwise(items)), list(zip(l, l[1:] + l[:1])), 'closed-pairwise')
        windows = [tuple(l[i:i+k]) for i in range(n - k + 1)]
        ctx.equal([tuple(x) for x in IterTools.multiwise(items, n=k)], windows, 'multiwise')
        ctx.equal([tuple(x) for x in IterTools.multiwise(iter(items), n=k)], windows, 'multiwise')
        ctx.equal([tuple(x) for x in IterTools.multiwise((x for x in items))], [tuple(l[i:i+2]) for i in range(n - 1)], 'multiwise')
        ctx.equal(list(IterTools.multiwise(items, n=0)), [], 'multiwise')
        ctx.equal([list(x) for x in IterTools.closed_multiwise_index_iterator(n, k)], [[(i + j) % n for j in range(k)] for i in range(n)], 'index-iterator')
        ctx.equal([list(x) for x in IterTools.closed_multiwise_index_iterator(n)], [[i, (i + 1) % n] for i in range(n)], 'index-iterator')
        ctx.equal(list(items), l, 'pairwise')

    ##############################################

    def word(rng, n=6):
        return ''.join(rng.choice('abcdeéz0._- ') for i in range(rng.randint(1, n))).strip(' .') or 'x'

    def paths(rng):
        parts = [word(rng) for i in range(rng.randint(1, 6))]
        path = '/' + '/'.join(parts)
        step = rng.randint(0, len(parts))
        ctx.note(path=path, step=step, trivial=len(parts) < 2)
        expected = '/' + '/'.join(parts[:len(parts) - step])
        ctx.equal(str(PathTools.parent_directory_of(path, step)), expected, 'parent')
        ctx.equal(str(PathTools.parent_directory_of(path)), '/' + '/'.join(parts[:-1]), 'parent')
        cwd = os.getcwd()
        home = os.path.expanduser('~')
        relative = '/'.join(parts)
        if not relative.startswith('~'):
            ctx.equal(PathTools.to_absolute_path(relative), os.path.join(cwd, relative), 'absolute-path')
        ctx.equal(PathTools.to_absolute_path(path + '/'), path, 'absolute-path')
        ctx.equal(PathTools.to_absolute_path('~/' + relative), os.path.join(home, relative), 'absolute-path')
        ctx.equal(PathTools.to_absolute_path('~'), home, 'absolute-path')
        ctx.equal(PathTools.to_absolute_path('./' + relative + '/.'), os.path.join(cwd, relative), 'absolute-path')
        ctx.equal(PathTools.to_absolute_path(path + '/../' + 'end'), '/' + '/'.join(parts[:-1] + ['end']), 'absolute-path')

    ##############################################

    def finding(rng):
        top = tempfile.mkdtemp(dir=directory)
        roots = []
        where = {} # file -> root -> [path]
        names = ['f%d%s' % (i, rng.choice(('.yml', '', '.val'))) for i in range(4)]
        total = 0
        for r in range(rng.randint(1, 4)):
            root = os.path.join(top, 'root%d' % r)
            os.mkdir(root)
            roots.append(root)
            folders = [root]
            for i in range(rng.randint(0, 5)):
                folder = os.path.join(rng.choice(folders), 'd%d' % i)
                os.mkdir(folder)
                folders.append(folder)
            total += len(folders)
            for folder in folders:
                for name in names:
                    if rng.random() < .15:
                        if rng.random() < .2:
                            if not os.path.exists(os.path.join(folder, name)):
                                os.mkdir(os.path.join(folder, name)) # a directory is not a file
                            continue
                        path = os.path.join(folder, name)
                        open(path, 'w').close()
                        where.setdefault(name, {}).setdefault(root, []).append(path)
        single = rng.random() < .2
        search = rng.choice(roots) if single else rng.sample(roots, rng.randint(1, len(roots)))
        order = [search] if single else search
        ctx.note(where={k: {os.path.relpath(r, top): [os.path.relpath(p, top) for p in l] for r, l in v.items()} for k, v in where.items()},
                 search=[os.path.relpath(x, top) for x in order], trivial=total < 2)
        for name in names + ['absent']:
            candidates = None
            for root in order:
                if where.get(name, {}).get(root):
                    candidates = where[name][root]
                    break
            if candidates is None:
                ctx.raises(NameError, lambda: PathTools.find(name, search), 'find-missing', name)
            else:
                # a file at the top of a directory comes first, then any deeper one
                depth = lambda p: p.count(os.sep)
                if any(os.path.dirname(p) in order for p in candidates):
                    candidates = [p for p in candidates if os.path.dirname(p) in order]
                got = str(PathTools.find(name, search))
                ctx.check(got in candidates, 'find', lambda: '%s: got %s, expected one of %s' % (name, got, candidates))
        shutil.rmtree(top)

    ##############################################

    def arguments(rng):
        parser = argparse.ArgumentParser()
        parser.add_argument('one', action=PathAction)
        parser.add_argument('--some', action=PathAction, nargs='+')
        parser.add_argument('--any', action=PathAction, nargs='*')
        parser.add_argument('--perhaps', action=PathAction, nargs='?')
        parser.add_argument('--other', action=PathAction)
        argv = []
        def name():
            return rng.choice(('', '/', './', '../')) + 'p' + word(rng)
        one = name()
        expected = dict(one=Path(one), some=None, any=None, perhaps=None, other=None)
        argv.append(one)
        if rng.random() < .6:
            l = [name() for i in range(rng.randint(1, 3))]
            argv += ['--some'] + l
            expected['some'] = [Path(x) for x in l]
        if rng.random() < .6:
            l = [name() for i in range(rng.randint(0, 3))]
            argv += ['--any'] + l
            expected['any'] = [Path(x) for x in l]
        if rng.random() < .6:
            p = rng.choice((None, name()))
            argv += ['--perhaps'] + ([p] if p else [])
            expected['perhaps'] = Path(p) if p else None
        if rng.random() < .6:
            p = name()
            argv += ['--other', p]
            expected['other'] = Path(p)
        ctx.note(argv=argv, trivial=len(argv) < 2)
        ctx.equal(vars(parser.parse_args(argv)), expected, 'path-action')

    ##############################################

    def write(data):
        fd, path = tempfile.mkstemp(dir=directory, suffix='.yaml')
        with os.fdopen(fd, 'w') as fh:
            yaml.safe_dump(data, fh, sort_keys=False, allow_unicode=True)
        return path

    def check_fibres(database, plant, animal, synthetic, monitor='fibre', table='fibre-table'):
        expected = {}
        for table_, t, s in ((plant, FiberType.Natural, FiberType.Plant), (animal, FiberType.Natural, FiberType.Animal), (synthetic, FiberType.Synthetic, None)):
            for name, item in table_.items():
                source = (item or {}).get('source')
                expected.setdefault(str(name), (t, s, None if source is None else str(source)))
        ctx.equal(len(database), len(expected), table)
        ctx.equal([x.name for x in database], list(expected), table)
        for name, fields in expected.items():
            fiber = database[name]
            ctx.equal((fiber.name, fiber.fiber_type, fiber.source_type, fiber.source), (name,) + fields, monitor)

    def fibres(rng):
        pool = ['fibre %d' % i for i in range(10)] + ['Soie', 'Coton é']
        def table(optional):
            out = {}
            for name in rng.sample(pool, rng.randint(0, 5)):
                item = dict(source='source %d' % rng.randrange(100))
                if rng.random() < .3:
                    item['note'] = 'x'
                if optional and rng.random() < .4:
                    item = rng.choice((None, {}, dict(note='y')))
                out[name] = item
            return out
        tables = [(table(False), table(False), table(True)) for i in range(rng.randint(1, 2))]
        ctx.note(tables=tables, trivial=sum(len(x) for x in tables[0]) < 2)
        databases = []
        for plant, animal, synthetic in tables:
            path = write({'Natural Fibres': {'Plant Fibres': plant, 'Animal Fibres': animal}, 'Synthetic Fibres': synthetic})
            database = FiberDatabase()
            ctx.equal(len(database), 0, 'fibre-table')
            database.load(Path(path) if rng.random() < .5 else path)
            databases.append(database)
            os.unlink(path)
        for database, t in zip(databases, tables):
            check_fibres(database, *t)
        database = databases[0]
        new = Fiber('new fibre', FiberType.Synthetic, None, None)
        n = len(database)
        database.add(new)
        ctx.check(len(database) == n + 1 and database['new fibre'] is new, 'fibre-table')
        database.add(Fiber('new fibre', FiberType.Natural, FiberType.Plant, 'x'))
        ctx.check(len(database) == n + 1 and database['new fibre'] is new, 'fibre-table')
        ctx.raises(KeyError, lambda: database['unknown'], 'fibre-table')

    def check_stitches(database, classes, monitor='stitch', table='stitch-table'):
        expected = {}
        for c in classes.values():
            for number, item in c['stitches'].items():
                if item is not None:
                    expected[number] = (int(number), str(item['name'])) + tuple(None if item.get('number_of_' + x) is None else int(item['number_of_' + x]) for x in ('needles', 'threads', 'loops'))
        ctx.equal(len(database), len(expected), table)
        ctx.equal([x.number for x in database], [x[0] for x in expected.values()], table)
        for number, fields in expected.items():
            s = database[number]
            ctx.equal((s.number, s.name, s.number_of_needles, s.number_of_threads, s.number_of_loops), fields, monitor)

    def stitches(rng):
        classes = {}
        count = 0
        for c in range(rng.randint(1, 6)):
            items = {}
            for i in sorted(rng.sample(range(1, 20), rng.randint(0, 6))):
                item = dict(name=rng.choice(('lock stitch', 'chain stitch', 'stitch %d' % i)))
                for x in ('needles', 'threads', 'loops'):
                    if rng.random() < .7:
                        item['number_of_' + x] = rng.randint(0, 6) if rng.random() < .8 else str(rng.randint(0, 6))
                if rng.random() < .2:
                    item = None
                else:
                    count += 1
                items[100*(c + 1) + i] = item
            classes['Stitch Class %d00' % (c + 1)] = dict(name='c', description='d', stitches=items)
        ctx.note(classes=classes, trivial=count < 2)
        path = write(dict(Introduction='text', Classes=classes))
        database = StitchDatabase()
        database.load(path)
        os.unlink(path)
        check_stitches(database, classes)

    def builtin(rng):
        base = Path(REPO, 'Patro', 'TextileTechnology', 'data')
        data = yaml.safe_load((base / 'fiber.yaml').read_text(encoding='utf8'))
        database = FiberDatabase()
        database.load()
        ctx.note(table='builtin', n=len(database))
        check_fibres(database, data['Natural Fibres']['Plant Fibres'], data['Natural Fibres']['Animal Fibres'], data['Synthetic Fibres'], 'builtin-fibre', 'builtin-fibre')
        ctx.check(database['Cotton'].source == 'cotton' and database['Linen'].source == 'flax', 'builtin-fibre')
        data = yaml.safe_load((base / 'stitch.yaml').read_text(encoding='utf8'))
        database = StitchDatabase()
        database.load()
        check_stitches(database, data['Classes'], 'builtin-stitch', 'builtin-stitch')
        # ISO 4915: the class is the first digit
        for name, c in data['Classes'].items():
            for number, item in c['stitches'].items():
                if item is not None:
                    ctx.check(str(database[number].number)[0] == name.split()[-1][0], 'builtin-stitch', '%s in %s' % (number, name))

    ##############################################

    def yarns(rng):
        tex = rng.choice((rng.uniform(.1, 1000.), float(rng.randint(1, 200)), rng.randint(1, 200)))
        twist = rng.choice((None, TwistType.S, TwistType.Z))
        fiber, color = word(rng), rng.choice(('red', '#112233'))
        ctx.note(tex=tex, twist=twist, fiber=fiber)
        yarn = Yarn(fiber, color, tex, twist) if twist is not None or rng.random() < .5 else Yarn(fiber, color, tex)
        ctx.check(yarn.fiber == fiber and yarn.color == color, 'yarn')
        ctx.close(yarn.tex, tex, 'yarn', 1e-12, 0)
        ctx.close(yarn.denier, 9*tex, 'yarn', 1e-12, 0)
        ctx.close(yarn.nm, 1000/tex, 'yarn', 1e-12, 0)
        ctx.check(yarn.twist_type is twist, 'yarn-twist')
        ctx.close(Yarn(fiber, color, repr(tex)).denier, 9*tex, 'yarn', 1e-12, 0)
        ctx.close(YarnModule.den2tex(yarn.denier), tex, 'yarn-inverse', 1e-12, 0)
        ctx.close(YarnModule.nm2tex(yarn.nm), tex, 'yarn-inverse', 1e-12, 0)
        ctx.close(YarnModule.tex2den(YarnModule.den2tex(tex)), tex, 'yarn-inverse', 1e-12, 0)
        ctx.close(YarnModule.tex2nm(YarnModule.nm2tex(tex)), tex, 'yarn-inverse', 1e-12, 0)
        ctx.close(YarnModule.tex2den(tex), 9*tex, 'yarn-inverse', 1e-12, 0)
        ctx.close(YarnModule.tex2nm(tex), 1000/tex, 'yarn-inverse', 1e-12, 0)

    def others(rng):
        a, b, c = (word(rng) for i in range(3))
        size, multiplicity = rng.choice((60, 70, 90, 110)), rng.choice((1, 2, 3))
        ctx.note(names=(a, b, c), size=size, multiplicity=multiplicity)
        system = NeedleSystem(a, b)
        kind = NeedleType(b, c, a)
        ctx.equal((system.name, system.description), (a, b), 'needle')
        ctx.equal((kind.name, kind.description, kind.fabric_use), (b, c, a), 'needle')
        for needle, m in ((Needle(system, kind, size), 1), (Needle(system, kind, str(size), multiplicity), multiplicity), (Needle(system, kind, size, str(multiplicity)), multiplicity)):
            ctx.check(needle.system is system and needle.type is kind and needle.nm_size == size and needle.multiplicity == m, 'needle')
        fields = dict(bending=(rng.random(), rng.random()), stretch=(rng.randint(0, 9), '1.5'), shear=rng.random(), friction=rng.random(), weight=rng.randint(1, 500), pressure=rng.random())
        if rng.random() < .5:
            fields['shrinkage'] = (rng.random(), rng.random())
        cls = rng.choice((Fabric, WovenFabric))
        ctx.check(isinstance(cls(**fields), Fabric), 'fabric')
        missing = rng.choice([x for x in fields if x != 'shrinkage'])
        ctx.raises(KeyError, lambda: cls(**{k: v for k, v in fields.items() if k != missing}), 'fabric-missing', missing)
        letters, lower, rows = rng.choice(('SS', 'LS', 'BS', 'FS', 'EF', 'OS')), rng.choice(('a', 'b', 'aa', 'bc')), rng.randint(1, 4)
        ctx.equal(AstmSeam(letters, lower, rows).name, '%s%s-%d' % (letters, lower, rows), 'seam')

    ##############################################

    def logs(rng):
        level = rng.choice((None, 'DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL'))
        name = rng.choice((None, 'patro', 'other'))
        ctx.note(level=level, name=name)
        env = {k: v for k, v in os.environ.items() if k != 'PatroLogLevel'}
        if level is not None:
            env['PatroLogLevel'] = level
        p = subprocess.run([sys.executable, '-c', LOGGING, REPO] + ([name] if name else []), env=env, cwd=directory, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True,
                           encoding='utf8', timeout=120)
        if not ctx.check(p.returncode == 0, 'logging-level', lambda: p.stderr[-1000:]):
            return
        out = json.loads(p.stdout.split('@@')[1])
        effective = getattr(logging, level) if level is not None else logging.DEBUG
        ctx.equal((out['name'], out['level']), (name or 'Patro', effective), 'logging-level')
        ctx.equal(out['handlers'], ['StreamHandler'], 'logging-level')
        ctx.equal(os.path.realpath(out['file']), os.path.realpath(os.path.join(REPO, 'Patro', 'Config', 'logging.yml')), 'config-file')
        text = p.stdout + p.stderr
        # the console shows the informations
        ctx.equal(['an information' in text, 'a warning' in text, 'a detail' in text], [effective <= logging.INFO, effective <= logging.WARNING, False], 'logging-output')
        if 'a warning' in text:
            line = [x for x in p.stdout.splitlines() if 'a warning' in x][0]
            ctx.check('<ESC>' not in line and 'WARNING' in line and (name or 'Patro') in line, 'logging-output', line)

    ##############################################

    try:
        ctx.cases('sequences', sequences, 400)
        ctx.cases('paths', paths, 300)
        ctx.cases('find', finding, 60, 800)
        ctx.cases('arguments', arguments, 150, 2000)
        ctx.cases('fibres', fibres, 80, 1000)
        ctx.cases('stitches', stitches, 80, 1000)
        ctx.cases('builtin', builtin, 1, 1)
        ctx.cases('yarns', yarns, 300)
        ctx.cases('others', others, 200)
        ctx.cases('logging', logs, 8, 40)
    finally:
        shutil.rmtree(directory)
