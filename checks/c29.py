"""C29 -- Qt application: user scripts, messages, scene shown by the window, platform"""

import json
import math
import os
import shutil
import subprocess
import sys
import tempfile

import core

PID = 'C29'
RULE = ('the application is started offscreen in a subprocess with random user scripts (ending, failing at random places, not compiling, missing, relative paths, arguments, messages sent to Qt) '
        'and with a script which performs random operations of a user on its window (scenes set by the script, keys, wheel, drags, clicks, moves, buttons, resizing); the recorded events are '
        'compared offline with a shadow of the view; descriptions of random machines are read by the platform; non-trivial: all')
ASSUMPTIONS = ['Qt offscreen platform and software rendering', 'icons are not compiled', 'Linux']
MONITORS = ['script-run', 'script-once', 'script-exit', 'script-error', 'script-syntax', 'script-missing', 'script-context', 'script-arguments', 'no-script', 'single', 'message', 'critical',
            'scene', 'scene-changed', 'key', 'wheel', 'drag', 'click', 'label', 'button', 'resize', 'no-scene', 'platform', 'platform-host', 'platform-text', 'platform-screen']

HERE = os.path.dirname(os.path.abspath(__file__))


def start(arguments, cwd):
    log = os.path.join(cwd, 'events')
    if os.path.exists(log):
        os.unlink(log)
    env = dict(os.environ, QT_QPA_PLATFORM='offscreen', QT_QUICK_BACKEND='software', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=HERE, PYTHONIOENCODING='utf8', XDG_RUNTIME_DIR=cwd, HOME=cwd)
    p = subprocess.run([sys.executable, '-B', os.path.join(HERE, 'appdriver.py'), core.REPO, log] + arguments, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    events = []
    if os.path.exists(log):
        with open(log, encoding='utf8') as fh:
            events = [json.loads(line) for line in fh]
    return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace'), events


def run(ctx):

    ##############################################

    def in_directory(function):
        def wrapper(rng):
            directory = tempfile.mkdtemp(prefix='verif-c29-')
            os.chmod(directory, 0o700)
            try:
                function(rng, directory)
            finally:
                shutil.rmtree(directory)
        return wrapper

    def script(rng, directory, kind):
        ctx.note(kind=kind)
        name = rng.choice(('script.py', 'my script.py', 'sub/a.py', 'été.py'))
        path = os.path.join(directory, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        arguments = rng.choice(('', 'a b', '--x=1 é', 'foo.val'))
        word = 'w%06d' % rng.randrange(10**6)
        code = rng.randint(1, 60)
        head = ['# -*- coding: utf-8 -*-', 'import sys', 'from appdriver import event', "event('run', %r)" % word,
                "event('names', sorted(n for n in globals() if not n.startswith('_')))",
                'from Patro.QtApplication.QmlApplication import Application',
                "event('context', application is Application.instance)",
                'from PyQt5.QtGui import QGuiApplication',
                "event('text', 'étoffe ✂')",
                "event('windows', len(QGuiApplication.topLevelWindows()))",
                "event('screens', [[s.name, s.screen_width, s.screen_height] for s in application.platform.screens], [[s.name(), s.size().width(), s.size().height()] for s in QGuiApplication.screens()], str(application.platform))"]
        body = []
        messages = []
        if kind == 'messages':
            body.append('from PyQt5 import QtCore')
            for i in range(rng.randint(1, 6)):
                level = rng.choice(('Debug', 'Info', 'Warning', 'Critical'))
                text = rng.choice(('message', 'with {} braces {0}', 'percent %s', 'été')) + ' %d-%s' % (i, word)
                # a message of the QML engine keeps non ASCII characters
                if not text.isascii():
                    text = text.replace('é', 'e')
                messages.append((level.upper(), text))
                body.append("QtCore.q%s(%r)" % (level, text))
        padding = ['x = %d' % i for i in range(rng.randint(0, 30))]
        if kind == 'raise':
            body += padding + [rng.choice(("raise ValueError('failed %s')" % word, "{}['failed %s']" % word, "open('/nonexistent/failed %s')" % word))]
            body += ["event('after')"]
        elif kind == 'syntax':
            body += padding + ["x = = 'failed %s'" % word]
        body += ["event('end')", 'sys.exit(%d)' % code]
        if kind not in ('missing', 'none'):
            with open(path, 'w', encoding='utf8') as fh:
                fh.write('\n'.join(head + body) + '\n')
        argv = []
        if kind != 'none':
            argv += ['--user-script', rng.choice((name, path, os.path.join('.', name)))]
        if arguments:
            argv += ['--user-script-args=' + arguments] if arguments.startswith('-') else ['--user-script-args', arguments]
        rc, out, err, events = start(argv, directory)
        detail = lambda: 'rc=%s %s %s %s' % (rc, out[-600:], err[-600:], [e for e in events if e[0] != 'log'])
        ctx.check(['second', 'NameError'] in events and ['instance', True] in events, 'single', detail)
        created = [e for e in events if e[0] == 'created']
        if ctx.check(len(created) == 1, 'script-arguments', detail):
            ctx.equal(created[0][2], arguments, 'script-arguments')
            if kind == 'none':
                ctx.equal(created[0][1], 'None', 'script-arguments')
            else:
                ctx.equal(os.path.normpath(os.path.join(directory, created[0][1])), os.path.normpath(path), 'script-arguments')
            ctx.check(created[0][3], 'no-scene')
        runs = [e for e in events if e[0] == 'run']
        if kind == 'none':
            ctx.check(rc == 5 and ['no-script'] in events and not runs, 'no-script', detail)
            return
        if kind == 'missing':
            ctx.check(rc == 1 and not runs, 'script-missing', detail)
            return
        if kind == 'syntax':
            ctx.check(rc == 1 and not runs and 'failed ' + word in out and 'Critical Error' in out, 'script-syntax', detail)
            return
        ctx.equal(len(runs), 1, 'script-once', detail)
        ctx.check(runs == [['run', word]] and ['text', 'étoffe ✂'] in events, 'script-run', detail)
        ctx.check(['context', True] in events, 'script-context', detail)
        ctx.check(any(e[0] == 'names' and 'application' in e[1] for e in events), 'script-context', detail)
        ctx.check(['windows', 1] in events, 'script-context', detail)
        for e in events:
            if e[0] == 'screens':
                ctx.check(e[1] == e[2] and len(e[1]) > 0, 'platform-screen', detail)
                ctx.check(all('%s' % s[0] in e[3] and '%dx%d' % (s[1], s[2]) in e[3] for s in e[2]), 'platform-screen', detail)
        if kind == 'raise':
            ctx.check(rc == 1 and 'failed ' + word in out and 'Traceback' in out and 'Critical Error' in out, 'script-error', detail)
            ctx.check(['after'] not in events, 'script-error', detail)
            return
        ctx.check(rc == code and ['end'] in events, 'script-exit', detail)
        log = [e for e in events if e[0] == 'log' and e[2].endswith('Application') and word in e[3]]
        wanted = [m for m in messages if m[0] != 'CRITICAL']
        if messages:
            ctx.check([e[1] for e in log] == [m[0] for m in wanted] and all(m[1] in e[3] for e, m in zip(log, wanted)), 'message', lambda: 'got %s, expected %s' % (log, wanted))
        for m in messages:
            if m[0] == 'CRITICAL':
                ctx.check(m[1] in out, 'critical', detail)
            else:
                ctx.check(m[1] not in out, 'critical', detail)

    ##############################################

    def view(rng, directory):
        scenes = []
        for i in range(rng.randint(1, 3)):
            segments = []
            for j in range(rng.randint(1, 5)):
                segments.append([float(rng.randint(-60, 60)) for k in range(4)])
            xs = [s[k] for s in segments for k in (0, 2)]
            ys = [s[k] for s in segments for k in (1, 3)]
            scenes.append(dict(segments=segments, box=[[min(xs) - rng.randint(1, 9), max(xs) + rng.randint(1, 9)], [min(ys) - rng.randint(1, 9), max(ys) + rng.randint(1, 9)]]))
        operations = []
        size = [1000, 380]
        bars = 120
        current = None

        # shadow
        zoom = 1.
        centre = None

        def point():
            return [rng.randrange(5, size[0] - 5), rng.randrange(5, size[1] - 5)]

        def fit(i):
            (x0, x1), (y0, y1) = scenes[i]['box']
            return min(size[0]/(1.02*(x1 - x0)), size[1]/(1.02*(y1 - y0))), ((x0 + x1)/2, (y0 + y1)/2)

        def inverse(p):
            return ((p[0] - size[0]/2)/zoom + centre[0], (size[1]/2 - p[1])/zoom + centre[1])

        focus = True
        expected = []
        emitted = 0
        selected = {}

        def record(**kwargs):
            expected.append(dict(zoom=zoom, centre=centre, size=tuple(size), scene=current, emitted=emitted, **kwargs))

        n = rng.randint(10, 24)
        for i in range(n):
            k = rng.choice(('scene', 'key', 'key', 'wheel', 'drag', 'click', 'click', 'move', 'button', 'resize')) if i != 1 else 'scene'
            live = current is not None
            extra = {}
            if k == 'key' and not focus:
                k = 'click'
            if k == 'button':
                # a button takes the focus, a click gives it back to the view
                focus = False
            elif k in ('click', 'drag'):
                focus = True
            if k == 'scene':
                s = rng.randrange(len(scenes)) if rng.random() < .9 or not live else None
                operations.append(['scene', s])
                if s != current:
                    emitted += 1
                    current = s
                    if s is not None:
                        zoom, centre = fit(s)
            elif k == 'key':
                key = rng.choice(('Left', 'Right', 'Up', 'Down'))
                operations.append(['key', key])
                if live:
                    dx, dy = dict(Left=(-10, 0), Right=(10, 0), Up=(0, 10), Down=(0, -10))[key]
                    centre = (centre[0] + dx/zoom, centre[1] + dy/zoom)
            elif k == 'wheel':
                p = point()
                d = rng.choice((120, -120))
                if live and not .3 < zoom*(2 if d > 0 else .5) < 60:
                    d = -d
                operations.append(['wheel', p, d])
                if live:
                    centre = inverse(p)
                    zoom *= 2 if d > 0 else .5
            elif k == 'drag':
                ps = [point()]
                for j in range(rng.randint(1, 4)):
                    q = point()
                    if q == ps[-1]:
                        q[0] += 1
                    ps.append(q)
                operations.append(['drag', ps])
                if live:
                    dx, dy = ps[-1][0] - ps[0][0], ps[0][1] - ps[-1][1]
                    centre = (centre[0] + 1.5*dx/zoom, centre[1] + 1.5*dy/zoom)
            elif k == 'click':
                p = point()
                if live and rng.random() < .7:
                    # near a segment
                    x0, y0, x1, y1 = rng.choice(scenes[current]['segments'])
                    t = rng.random()
                    q = (x0 + t*(x1 - x0), y0 + t*(y1 - y0))
                    q = [round((q[0] - centre[0])*zoom + size[0]/2) + rng.randint(-6, 6), round(size[1]/2 - (q[1] - centre[1])*zoom) + rng.randint(-6, 6)]
                    if 2 < q[0] < size[0] - 3 and 2 < q[1] < size[1] - 3:
                        p = q
                operations.append(['click', p])
                if live:
                    q = inverse(p)
                    distances = sorted((distance(q, s)*zoom, j) for j, s in enumerate(scenes[current]['segments']))
                    if abs(distances[0][0] - 10) < 1e-3 or len(distances) > 1 and abs(distances[1][0] - distances[0][0]) < 1e-3 and distances[0][0] < 11:
                        extra['skip'] = True
                        selected[current] = None
                    else:
                        selected[current] = [distances[0][1]] if distances[0][0] < 10 else []
            elif k == 'move':
                p = point()
                operations.append(['move', p])
                extra['label'] = p
            elif k == 'button':
                b = rng.randrange(3)
                if live and b == 1 and zoom > 50 or live and b == 2 and zoom < .4:
                    b = 0
                operations.append(['button', b])
                if live:
                    if b == 0:
                        zoom, centre = fit(current)
                    else:
                        zoom *= 1.1 if b == 1 else .9
            else:
                size = [rng.randint(400, 1200), rng.randint(200, 900)]
                operations.append(['resize', [size[0], size[1] + bars]])
            record(**extra)
            expected[-1]['selected'] = selected.get(current, []) if current is not None else []
        job = os.path.join(directory, 'job.json')
        with open(job, 'w') as fh:
            json.dump(dict(scenes=scenes, operations=operations), fh)
        ctx.note(operations=[o[0] for o in operations], scenes=len(scenes))
        rc, out, err, events = start(['--user-script', os.path.join(HERE, 'appview.py'), '--user-script-args', job], directory)
        states = [e for e in events if e[0] == 'state']
        if not ctx.check(rc == 42 and ['done'] in events and len(states) == len(operations) + 1, 'script-exit',
                         lambda: 'rc=%s after %d operations of %s %s %s' % (rc, len(states) - 1, operations, out[-1500:].partition('Traceback')[2], err[-800:])):
            return
        first = states[0][2]
        if first['size'] != [1000., 380.] or first['buttons'] != 3 or first['offset'] != [0., 0.]:
            # other decorations: the positions are unknown
            raise core.HarnessError('unexpected layout of the window %s' % first)
        names = dict(key='key', wheel='wheel', drag='drag', click='click', move='label', button='button', resize='resize', scene='scene')
        for (_, op, got), e in zip(states[1:], expected):
            m = names[op[0]]
            detail = lambda: 'after %s: got %s, expected %s' % (op, got, e)
            if e['scene'] is None:
                m = 'no-scene'
                ctx.check(got['scene'] is None and got['application_scene'] is None, 'no-scene', detail)
                if 'label' in e:
                    ctx.check(got['label'] == [''], 'no-scene', detail) if e['centre'] is None else None
                continue
            ctx.check(got['scene'] == e['scene'] and got['application_scene'] == e['scene'], 'scene', detail)
            ctx.equal(got['emitted'], e['emitted'], 'scene-changed', detail)
            ctx.equal(tuple(got['size']), tuple(map(float, e['size'])), 'resize')
            w, h = e['size'][0]/e['zoom']/2, e['size'][1]/e['zoom']/2
            x, y = e['centre']
            ok = abs(got['zoom'] - e['zoom']) < 1e-9*e['zoom'] and all(abs(a - b) < 1e-6*(abs(b) + w + h) for a, b in zip(got['area'], (x - w, x + w, y - h, y + h)))
            if not ctx.check(ok, m, detail):
                return
            if e['selected'] is not None:
                ctx.equal(got['selected'], e['selected'], 'click', detail)
            if 'label' in e:
                p = e['label']
                wanted = ((p[0] - e['size'][0]/2)/e['zoom'] + x, (e['size'][1]/2 - p[1])/e['zoom'] + y)
                ok = False
                if len(got['label']) == 1 and got['label'][0].count(', ') == 1:
                    try:
                        ok = all(abs(float(a) - b) < 1e-3 for a, b in zip(got['label'][0].split(', '), wanted))
                    except ValueError:
                        pass
                ctx.check(ok, 'label', detail)

    def distance(p, s):
        x0, y0, x1, y1 = s
        dx, dy = x1 - x0, y1 - y0
        n = dx*dx + dy*dy
        t = 0 if n == 0 else min(1, max(0, ((p[0] - x0)*dx + (p[1] - y0)*dy)/n))
        return math.hypot(p[0] - x0 - t*dx, p[1] - y0 - t*dy)

    ##############################################

    from Patro.Common.Platform import Platform, PlatformType, QtPlatform

    def machine(rng):
        import builtins
        import io
        cores = rng.randint(1, 130)
        model = rng.choice(('Intel(R) Xeon(R) CPU E5 @ 2.80GHz', 'AMD EPYC 64-Core Processor', 'virtual processor: fast', 'ARM model name: x'))
        mhz = rng.choice((None, '%.3f' % rng.uniform(400, 5000)))
        memory = rng.randint(10**5, 10**9)
        lines = []
        for i in range(cores):
            lines += ['processor\t: %d' % i, 'vendor_id\t: X']
            lines += ['model name\t: ' + model]
            if mhz is not None:
                lines += ['cpu MHz\t\t: ' + mhz]
            lines += ['flags\t\t: fpu processor_id' if rng.random() < .2 else 'flags\t\t: fpu', '']
        files = {'/proc/cpuinfo': '\n'.join(lines), '/proc/meminfo': 'MemTotal:       %8d kB\nMemFree:         1234 kB\nSwapTotal:   0 kB\n' % memory}
        ctx.note(cores=cores, model=model, mhz=mhz, memory=memory)
        saved = builtins.open, io.open

        def fake(path, *args, **kwargs):
            text = files.get(os.fspath(path) if not isinstance(path, int) else path)
            if text is not None:
                return io.StringIO(text)
            return saved[0](path, *args, **kwargs)
        builtins.open = io.open = fake
        try:
            p = rng.choice((Platform, QtPlatform))()
        finally:
            builtins.open, io.open = saved
        ctx.equal(p.os, PlatformType.Linux, 'platform')
        ctx.equal(p.number_of_cores, cores, 'platform')
        ctx.equal(p.cpu, model, 'platform')
        if mhz is not None:
            ctx.check(abs(p.cpu_khz - 1000*float(mhz)) <= 1, 'platform')
            ctx.check(abs(p.cpu_mhz - float(mhz)) <= 1, 'platform')
        ctx.equal(p.memory_size_kb, memory, 'platform')
        ctx.check(abs(p.memory_size_mb - memory/1024) <= 1, 'platform')
        text = str(p)
        ctx.check(model in text and str(p.memory_size_mb) + ' MB' in text and 'Cores: %d\n' % cores in text, 'platform-text', text)

    def host(rng):
        import platform
        p = Platform()
        ctx.note(node=p.node)
        ctx.equal((p.node, p.machine, p.python_version, p.architecture), (platform.node(), platform.machine(), platform.python_version(), platform.architecture()[0]), 'platform-host')
        with open('/proc/cpuinfo') as fh:
            ctx.equal(p.number_of_cores, sum(line.split(':')[0].strip() == 'processor' for line in fh), 'platform-host')
        ctx.close(p.memory_size_kb*1024, os.sysconf('SC_PHYS_PAGES')*os.sysconf('SC_PAGE_SIZE'), 'platform-host', .02)

    for kind, n in (('exit', 4), ('raise', 4), ('syntax', 2), ('missing', 2), ('none', 1), ('messages', 6)):
        ctx.cases('script-' + kind, in_directory(lambda rng, directory: script(rng, directory, kind)), n, 8*n)
    ctx.cases('view', in_directory(view), 10, 150)
    ctx.cases('machine', machine, 40, 2000)
    ctx.cases('host', host, 1, 1)
