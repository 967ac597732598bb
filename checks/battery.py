"""Everything which can be observed on a geometric object, as a comparable structure

An object which was modified must be indistinguishable from a new one which is made of the same values.
"""
import math
import numbers

SKIP = {'reversed_points'}
# methods which take a point or a parameter
WITH_POINT = ('distance_to_point', 'is_point_inside', 'side_of', 'projected_abscissa', 'projected_point', 'distance_to_line', 'signed_distance_to_point',
              'angle_for_point', 'contain_point', 'is_collinear')
WITH_PARAMETER = ('point_at_t', 'point_at_angle', 'tangent_at', 'normal_at', 'point_at_distance', 'tangent_at_angle', 'interpolate')
WITHOUT = ('to_line', 'to_bezier', 'to_path', 'to_polygon', 'to_cubic', 'reverse', 'clone', 'matrix', 'moment_x', 'moment_y')


def normal(x, depth=0):
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, numbers.Real):
        return float(x)
    if type(x).__name__ in ('bool_', 'bool'):
        return bool(x)
    if hasattr(x, 'x') and hasattr(x, 'y') and not hasattr(x, 'inf'):
        if hasattr(x.x, 'inf'):
            return ['box'] + [float(v) for v in x.bounding_box]
        return ['vector', float(x.x), float(x.y)]
    if depth > 3:
        return type(x).__name__
    if hasattr(x, 'tolist'):
        return normal(x.tolist(), depth + 1)
    if hasattr(x, 'p') and hasattr(x, 'v') and hasattr(x, 'vn'):
        return [type(x).__name__, normal(x.p, depth + 1), normal(x.v, depth + 1)]
    if hasattr(x, 'start') and hasattr(x, 'stop') and hasattr(x, 'span'):
        return ['domain', float(x.start), float(x.stop)]
    if hasattr(x, 'geometry') and hasattr(x, 'path'):
        try:
            return [type(x).__name__, normal(list(x.points), depth + 1)]
        except Exception as e:
            return ['raise', type(e).__name__]
    if hasattr(x, 'center') and hasattr(x, 'domain'):
        return [type(x).__name__] + [normal(getattr(x, k), depth + 1) for k in ('center', 'radius', 'radius_x', 'radius_y', 'angle', 'domain') if hasattr(x, k)]
    if hasattr(x, 'p0') and hasattr(x, 'is_closed') and hasattr(x, 'line_to'): # a path
        return [type(x).__name__, normal(x.p0, depth + 1), bool(x.is_closed), [normal(s, depth + 1) for s in x]]
    if hasattr(x, 'points'):
        return [type(x).__name__] + [normal(p, depth + 1) for p in x.points]
    if isinstance(x, dict):
        return [[normal(k, depth + 1), normal(v, depth + 1)] for k, v in x.items()]
    if hasattr(x, '__iter__'):
        r = []
        for i, y in enumerate(x):
            if i > 50:
                break
            r.append(normal(y, depth + 1))
        return r
    return type(x).__name__


def observe(o, points, parameters):
    """name -> value"""
    r = {}

    def get(name, f):
        try:
            r[name] = normal(f())
        except Exception as e:
            r[name] = ['raise', type(e).__name__]
    cls = type(o)
    for name in dir(cls):
        if not name.startswith('_') and name not in SKIP and isinstance(getattr(cls, name), property):
            get(name, lambda: getattr(o, name))
    for name in WITHOUT:
        if hasattr(o, name):
            get(name, lambda: getattr(o, name)())
    for name in WITH_POINT:
        if hasattr(o, name):
            for i, p in list(enumerate(points)) + [(0, p) for p in points[:1]]:
                get((name, i), lambda: getattr(o, name)(p))
    for name in WITH_PARAMETER:
        if hasattr(o, name):
            for t in list(parameters) + list(parameters[:1]):
                get((name, t), lambda: getattr(o, name)(t))
    return r


def calls(o, table):
    """answers of queries which take arguments; table: [(name of the method, arguments)]"""
    r = {}
    first = {}
    for i, (name, args) in enumerate(table):
        first.setdefault(name, i)
    # the last query of each method is its first one: the next calls start with the query which was just answered
    for k, i in [(0, i) for i in range(len(table))] + [(1, i) for i in first.values()]:
        name, args = table[i]
        try:
            r[(name, i, k)] = normal(getattr(o, name)(*args))
        except Exception as e:
            r[(name, i, k)] = ['raise', type(e).__name__]
    return r


def equal(a, b, tol=1e-6):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str):
        return a == b
    if isinstance(a, float):
        if not isinstance(b, float):
            return False
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol*max(1., abs(a), abs(b))
    if not isinstance(b, list) or len(a) != len(b):
        return False
    return all(equal(x, y, tol) for x, y in zip(a, b))


def differences(a, b, tol=1e-6):
    """names whose value differs"""
    return [(k, a.get(k), b.get(k)) for k in a if k not in b or not equal(a[k], b[k], tol)] + [(k, None, b[k]) for k in b if k not in a]
