"""C14 -- real roots of polynomials, elementary functions"""
import math
from fractions import Fraction as Fr
import numpy as np

PID = 'C14'
QUICK_FACTOR = 2
RULE = ('polynomials of degree at most 3 and 5 built from chosen real roots and irreducible quadratic factors (integers, '
        'rationals, well separated floats, multiple roots, null leading coefficients, roots of very different magnitudes) or '
        'random coefficients decided by sign changes; non-trivial: degree at least one')
ASSUMPTIONS = ['float coefficients: roots are separated by at least 1e-2 or multiple with integer coefficients']
MONITORS = ['quadratic', 'cubic', 'quintic', 'cubic-degenerate', 'quadratic-none', 'multiple', 'sign', 'trignometric-clamp', 'helpers']


def run(ctx):
    from Patro.Common.Math.Root import quadratic_root, cubic_root, fifth_root, fifth_root_normalised
    from Patro.Common.Math import Functions

    def as_list(roots):
        if roots is None:
            return []
        try:
            return sorted(float(r) for r in roots)
        except TypeError:
            return [float(roots)]

    def expand(factors):
        """product of polynomials, highest degree first, exact"""
        r = [Fr(1)]
        for f in factors:
            out = [Fr(0)]*(len(r)+len(f)-1)
            for i, a in enumerate(r):
                for j, b in enumerate(f):
                    out[i+j] += a*b
            r = out
        return r

    def distinct(roots, tol):
        out = []
        for r in roots:
            if not out or abs(r-out[-1]) > tol*max(1, abs(r)):
                out.append(r)
        return out

    def compare(got, roots, monitor, tol, detail, scale=1):
        roots = sorted(set(roots))
        got = distinct([x/scale for x in as_list(got)], tol)
        roots = [x/scale for x in roots]
        ok = len(got) == len(roots) and all(abs(g-e) <= tol*max(1, abs(e)) for g, e in zip(got, roots))
        ctx.check(ok, monitor, lambda: (got, roots, detail))

    def make(rng, degree):
        integer = rng.random() < .6
        roots, factors = [], []
        n = degree
        while n:
            if n >= 2 and rng.random() < .3:
                b = rng.randint(-5, 5)
                c = b*b + rng.randint(1, 10) # 2 complex roots
                factors.append([Fr(1), Fr(b), Fr(c)])
                n -= 2
            else:
                if integer:
                    r = Fr(rng.randint(-8, 8))
                    if roots and rng.random() < .2:
                        r = rng.choice(roots)
                else:
                    for _ in range(100):
                        r = Fr(round(rng.uniform(-3, 3), 2))
                        if all(abs(r-s) > Fr(1, 10) for s in roots):
                            break
                    else:
                        continue
                roots.append(r)
                factors.append([Fr(1), -r])
                n -= 1
        k = Fr(rng.choice([1, -1, 2, 3, -5]))
        coefs = [k*c for c in expand(factors)]
        return integer, roots, coefs

    def rescale(rng, roots, c):
        """The polynomial k p(x/s), exactly"""
        k, s = Fr(2)**rng.choice([0, rng.randint(-60, 60), rng.randint(-30, 30)]), Fr(2)**rng.choice([0, rng.randint(-20, 20)])
        n = len(c)-1
        return float(s), [r*s for r in roots], [k*x*s**i for i, x in enumerate(c)]

    def quadratic(rng):
        mode = rng.random()
        if mode < .7:
            degree = rng.choice([1, 2, 2, 2])
            integer, roots, c = make(rng, degree)
            c = [Fr(0)]*(3-len(c)) + c
            ctx.note(roots=roots, c=c)
            if not integer and len(set(roots)) < len(roots):
                return
            kind = int if integer else float
            got = quadratic_root(*[kind(x) for x in c])
            compare(got, [float(r) for r in roots], 'quadratic' if roots else 'quadratic-none', 1e-9, c)
        elif mode < .95:
            # very different magnitudes
            r1, r2 = rng.uniform(.5, 2)*rng.choice([-1, 1]), rng.choice([-1, 1])*10**rng.uniform(3, 9)
            a = rng.choice([1, 1e-3, 1e-8, -2])
            c = (a, -a*(r1+r2), a*r1*r2)
            ctx.note(c=c)
            compare(quadratic_root(*c), [r1, r2], 'quadratic', 1e-6, c)
        else:
            ctx.note(trivial=True)
            ctx.equal(as_list(quadratic_root(0, 0, rng.randint(1, 5))), [], 'quadratic-none')

    def cubic(rng):
        degree = rng.choice([3, 3, 3, 2, 1])
        integer, roots, c = make(rng, degree)
        c = [Fr(0)]*(4-len(c)) + c
        scale = 1
        if rng.random() < .4:
            integer = False
            scale, roots, c = rescale(rng, roots, c)
        ctx.note(roots=roots, c=c)
        kind = int if integer else float
        got = cubic_root(*[kind(x) for x in c])
        ctx.check(got is not None and not isinstance(got, (int, float)), 'cubic-degenerate', 'cubic roots are a list')
        monitor = 'cubic-degenerate' if degree < 3 else ('multiple' if len(set(roots)) < len(roots) else 'cubic')
        compare(got, [float(r) for r in roots], monitor, 1e-6, c, scale)

    def quintic(rng):
        degree = rng.choice([5]*6 + [4]*3 + [3, 3, 2, 1, 0])
        if degree == 0:
            c = [0]*5 + [rng.choice([0, 1, -2.5, rng.uniform(-3, 3)])]
            ctx.note(c=c, trivial=True)
            ctx.equal((list(fifth_root(*c)), list(cubic_root(*c[2:]))), ([], []), 'quintic')
            return
        if rng.random() < .15:
            # x**n = k
            n = rng.choice([3, 5])
            r = rng.choice([rng.uniform(-3, 3), rng.randint(-3, 3) or 1])
            k = rng.choice([1, -2, rng.uniform(.5, 3)])
            args = [k] + [0]*(n-1) + [-k*r**n]
            ctx.note(args=args)
            got = as_list(fifth_root(*args) if n == 5 else cubic_root(*args) if rng.random() < .5 else fifth_root(0, 0, *args))
            if ctx.check(len(got) == 1, 'quintic', lambda: (args, got)):
                ctx.close(got[0], r, 'quintic', 1e-6)
            return
        integer, roots, c = make(rng, degree)
        if len(set(roots)) < len(roots) and (not integer or abs(c[0]) != 1):
            return # division by the leading coefficient breaks multiple roots
        c = [Fr(0)]*(6-len(c)) + c
        scale = 1
        if len(set(roots)) == len(roots) and rng.random() < .4:
            integer = False
            scale, roots, c = rescale(rng, roots, c)
        ctx.note(roots=roots, c=c)
        kind = int if integer else float
        args = [kind(x) for x in c]
        compare(fifth_root(*args), [float(r) for r in roots], 'quintic', 1e-5, c, scale)
        if degree == 5 and c[0] == 1:
            compare(fifth_root_normalised(*args[1:]), [float(r) for r in roots], 'quintic', 1e-5, c, scale)

    def functions(rng):
        x = rng.choice([0, 0., -0., rng.uniform(-1e6, 1e6), rng.randint(-5, 5), 1e-300, -1e-300])
        ctx.note(x=x)
        if x:
            ctx.equal(Functions.sign(x), 1 if x > 0 else -1, 'sign')
        a, b = sorted((rng.uniform(-1, 1), rng.uniform(-1, 1)))
        y = rng.choice([1+1e-12, -1-1e-12, rng.uniform(-3, 3), 1, -1])
        ctx.equal(Functions.trignometric_clamp(y), max(-1, min(1, y)), 'trignometric-clamp')
        ctx.equal(bool(Functions.is_in_trignometric_range(y)), -1 <= y <= 1, 'trignometric-clamp', y)
        # helpers
        ctx.equal(Functions.cmp(a, b), -1 if a < b else 0, 'helpers')
        ctx.equal(Functions.cmp(b, a), 1 if a < b else 0, 'helpers')
        ctx.equal(Functions.cmp(a, a), 0, 'helpers')
        ctx.close(Functions.middle(a, b), (a+b)/2, 'helpers', 1e-12)
        n = rng.randint(-1000, 1000)
        f = rng.uniform(.01, .99)
        ctx.equal((Functions.ceil_int(n+f), Functions.ceil_int(n)), (n+1, n), 'helpers')
        if abs(f-.5) > 1e-3:
            ctx.equal(Functions.rint(n+f), n if f < .5 else n+1, 'helpers')
        e = rng.choice([1e-3, 1e-6, .5])
        d = rng.choice([0, .5, .9, 1.1, 2, 100])*e*rng.choice([-1, 1])
        if e == 1e-3 and rng.random() < .5:
            ctx.equal(bool(Functions.epsilon_float(a, a+d)), abs(d) < e, 'helpers')
        else:
            ctx.equal(bool(Functions.epsilon_float(a, a+d, e)), abs(d) < e, 'helpers')

    ctx.cases('quadratic', quadratic, 3000, 60000)
    ctx.cases('cubic', cubic, 300, 4000)
    ctx.cases('quintic', quintic, 120, 1500)
    ctx.cases('functions', functions, 1000, 20000)
