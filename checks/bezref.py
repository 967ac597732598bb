"""Reference Bezier curves: de Casteljau and quadrature (independent of the code under test)"""
import math
from functools import lru_cache
import numpy as np


def evaluate(p, t):
    q = [tuple(map(float, x)) for x in p]
    while len(q) > 1:
        q = [(a[0]+t*(b[0]-a[0]), a[1]+t*(b[1]-a[1])) for a, b in zip(q, q[1:])]
    return q[0]


def derivative(p, t):
    n = len(p)-1
    d = [(n*(b[0]-a[0]), n*(b[1]-a[1])) for a, b in zip(p, p[1:])]
    return evaluate(d, t)


def evaluate_array(p, t):
    """t: numpy array -> (n, 2)"""
    q = [np.outer(np.ones_like(t), np.array(x, float)) for x in p]
    u = t[:, None]
    while len(q) > 1:
        q = [a + u*(b-a) for a, b in zip(q, q[1:])]
    return q[0]


_X, _W = np.polynomial.legendre.leggauss(12)


def length(p, t0=0., t1=1., n=200):
    k = len(p)-1
    d = [(k*(b[0]-a[0]), k*(b[1]-a[1])) for a, b in zip(p, p[1:])]
    h = (t1-t0)/n
    t = (t0 + h*(np.arange(n)[:, None] + (_X[None, :]+1)/2)).ravel()
    v = evaluate_array(d, t)
    return float((np.hypot(v[:, 0], v[:, 1]).reshape(n, -1) * _W).sum() * h/2)


def area(p):
    """area between the curve and its chord, positive when the loop curve + chord is counter-clockwise"""
    k = len(p)-1
    d = [(k*(b[0]-a[0]), k*(b[1]-a[1])) for a, b in zip(p, p[1:])]
    t = (_X+1)/2
    c, v = evaluate_array(p, t), evaluate_array(d, t)
    a = float(((c[:, 0]*v[:, 1] - c[:, 1]*v[:, 0]) * _W).sum() / 4)
    (x0, y0), (x1, y1) = p[0], p[-1]
    return a + (x1*y0 - x0*y1)/2


def min_distance(p, q, n=400):
    """distance of a point to the curve: dense sampling then golden refinement"""
    t = np.linspace(0, 1, n+1)
    c = evaluate_array(p, t)
    d = np.hypot(c[:, 0]-q[0], c[:, 1]-q[1])
    best = d.min()
    # every local minimum which can be the global one
    e = np.concatenate(([np.inf], d, [np.inf]))
    step = np.hypot(*np.diff(c, axis=0).T).max()
    order = [i for i in range(n+1) if e[i] >= d[i] <= e[i+2] and d[i] <= best + step]
    for i in sorted(order, key=lambda i: d[i])[:12]:
        a, b = max(0, t[i]-1/n), min(1, t[i]+1/n)
        f = lambda s: math.dist(evaluate(p, s), q)
        g = (math.sqrt(5)-1)/2
        x, y = b-g*(b-a), a+g*(b-a)
        fx, fy = f(x), f(y)
        for _ in range(60):
            if fx < fy:
                b, y, fy = y, x, fx
                x = b-g*(b-a)
                fx = f(x)
            else:
                a, x, fx = x, y, fy
                y = a+g*(b-a)
                fy = f(y)
        best = min(best, fx, fy)
    return float(best)
