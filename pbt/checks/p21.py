"""P21: geometry helpers against definitions (exact integer hull oracle)."""
import math
from engine import Violation, Discard
from geom import Poly
from gerber.utils import convex_hull, rotate_point, inch, metric, decimal_string, nearly_equal, sq_distance

TECHNIQUE = 'generated point sets, angles and numbers, against the defining properties of each helper'
NOTE = 'No counterexample among the generated cases counted in the evidence.'
RULE = ('hull: point multisets on small integer grids, on circles, on stroke outlines and random, '
        'non-trivial = at least 3 non-collinear points; rotate: point, angle, centre, non-trivial = '
        'angle not 0 and point != centre; numbers: non-trivial = non-zero')
ASSUMPTIONS = ['convex hulls are only defined for point sets with non-zero area']


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def exact_hull(pts):
    pts = sorted(set(pts))
    lo = []
    for p in pts:
        while len(lo) >= 2 and cross(lo[-2], lo[-1], p) <= 0:
            lo.pop()
        lo.append(p)
    hi = []
    for p in reversed(pts):
        while len(hi) >= 2 and cross(hi[-2], hi[-1], p) <= 0:
            hi.pop()
        hi.append(p)
    return lo[:-1] + hi[:-1]


def prop_hull(d):
    kind = d.below(3)
    if kind == 0:
        m = d.choice([2, 3, 5, 10, 100])
        pts = [(d.signed(m), d.signed(m)) for _ in range(d.integer(3, 14))]
    elif kind == 1:   # the eight corners of a stroke by a rectangular aperture
        x0, y0, x1, y1 = [d.signed(20) for _ in range(4)]
        w, h = d.integer(1, 6), d.integer(1, 6)
        pts = [(x + sx * w, y + sy * h) for x, y in ((x0, y0), (x1, y1)) for sy in (-1, 1) for sx in (-1, 1)]
    else:
        n = d.integer(3, 12)
        pts = [(int(1000 * math.cos(2 * math.pi * i / n)), int(1000 * math.sin(2 * math.pi * i / n))) for i in range(n)]
        pts += [(d.signed(1000), d.signed(1000)) for _ in range(d.below(6))]
        pts = d.shuffled(pts)
    ref = exact_hull(pts)
    if len(ref) < 3:
        raise Discard()
    d.show(points=pts, hull=ref)
    d.nontrivial(tuple(pts))
    if len(set(pts)) < len(pts):
        d.label('duplicates')
    got = convex_hull(tuple((float(x), float(y)) for x, y in pts))
    gi = [(int(x), int(y)) for x, y in got]
    if any(g not in pts for g in gi):
        raise Violation('hull %r has a point that is not in the input' % (got,))
    if set(gi) != set(ref) or len(gi) != len(ref):
        raise Violation('hull %r, expected the vertices %r' % (gi, ref))
    area = sum(gi[i - 1][0] * gi[i][1] - gi[i][0] * gi[i - 1][1] for i in range(len(gi)))
    sgn = 1 if area > 0 else -1
    for i in range(len(gi)):
        if sgn * cross(gi[i - 2], gi[i - 1], gi[i]) <= 0:
            raise Violation('hull %r is not in convex order' % (gi,))


def prop_hull_float(d):
    """strokes of apertures at inexact coordinates: the hull encloses every point"""
    k = d.choice([1.0, 25.4, 1 / 25.4])
    x0, y0, x1, y1 = [d.mm(20) * k for _ in range(4)]
    if d.boolean(0.2):
        x1 = x0
    if d.boolean(0.2):
        y1 = y0
    if d.boolean(0.4):
        w, h = d.pos(0.001, 3) * k / 2, d.pos(0.001, 3) * k / 2
        shape = [(-w, -h), (w, -h), (w, h), (-w, h)]
    else:
        n, r, a = d.integer(3, 12), d.pos(0.001, 3) * k, d.choice([0, 45, d.mm(360)])
        shape = [(r * math.cos(math.radians(a + 360.0 * i / n)), r * math.sin(math.radians(a + 360.0 * i / n)))
                 for i in range(n)]
    pts = d.shuffled([(x + p, y + q) for x, y in ((x0, y0), (x1, y1)) for p, q in shape])
    d.show(points=pts)
    d.nontrivial(tuple(pts))
    got = convex_hull(pts)
    if any(g not in pts for g in got):
        raise Violation('hull %r has a point that is not in the input' % (got,))
    tol = 1e-9 * (1 + max(abs(c) for p in pts for c in p))
    poly = Poly(got)
    for q in pts:
        if poly.status(q, tol) < 0:
            raise Violation('hull %r leaves out %r' % (got, q))
    if len(set(got)) != len(got):
        raise Violation('hull %r repeats a point' % (got,))
    sgn = 0
    for i in range(len(got)):
        c = cross(got[i - 2], got[i - 1], got[i])
        if abs(c) > tol:
            if sgn * c < 0:
                raise Violation('hull %r is not in convex order' % (got,))
            sgn = c


def prop_rotate(d):
    p = (d.mm(100), d.mm(100))
    c = d.choice([None, (0.0, 0.0), (d.mm(100), d.mm(100))])
    a = d.choice([0, 30, 45, 90, 180, 270, 360, -90, d.mm(720)])
    b = d.mm(360)
    cc = (0.0, 0.0) if c is None else c
    d.show(point=p, center=c, angle=a)
    if a and p != cc:
        d.nontrivial((p, c, a, b))
    rot = (lambda q, t: rotate_point(q, t)) if c is None else (lambda q, t: rotate_point(q, t, c))
    q = rot(p, a)
    r = complex(math.cos(math.radians(a)), math.sin(math.radians(a))) * complex(p[0] - cc[0], p[1] - cc[1])
    exp = (r.real + cc[0], r.imag + cc[1])
    for got, e, what in ((q, exp, 'rotated point'), (rot(q, -a), p, 'rotated there and back'),
                         (rot(q, b), rot(p, a + b), 'two rotations')):
        if abs(got[0] - e[0]) > 1e-8 or abs(got[1] - e[1]) > 1e-8:
            raise Violation('%s %r, expected %r' % (what, got, e))
    if abs(sq_distance(p, cc) - sq_distance(q, cc)) > 1e-7:
        raise Violation('rotation changed the distance to the centre')


def prop_numbers(d):
    v = d.mm(1000, d.integer(0, 9)) if d.boolean(0.8) else d.integer(1, 999999) * 10.0 ** -d.integer(1, 12)
    if d.boolean(0.3):
        v = -v
    prec = d.integer(0, 9)
    pad = d.boolean()
    d.show(value=repr(v), precision=prec, padding=pad)
    if v:
        d.nontrivial((v, prec, pad))
    if metric(v) != v * 25.4 or abs(inch(metric(v)) - v) > 1e-12 * max(1, abs(v)) or abs(metric(inch(v)) - v) > 1e-12 * max(1, abs(v)):
        raise Violation('inch/metric conversion of %r' % v)
    s = decimal_string(v, precision=prec, padding=pad)
    ip, dot, fp = s.partition('.')
    if dot != '.' or not ip.lstrip('-').isdigit() or (fp and not fp.isdigit()) or len(fp) > prec and fp != '0':
        raise Violation('decimal_string(%r, %d) = %r is not decimal text' % (v, prec, s))
    if pad and len(fp) != prec and not (prec == 0 and fp == '0'):
        raise Violation('decimal_string(%r, %d, True) = %r is not padded' % (v, prec, s))
    # ten significant digits are kept, then cut (not rounded) at the precision
    if not (abs(float(s) - v) < 10.0 ** -prec * (1 + 1e-6) + abs(v) * 1e-9):
        raise Violation('decimal_string(%r, %d) = %r' % (v, prec, s))
    if s.startswith('-') and v >= 0 or v < 0 and float(s) > 0:
        raise Violation('sign of decimal_string(%r) = %r' % (v, s))
    n = d.integer(2, 6)
    dx = d.signed(30) / 10.0 * 10.0 ** -n
    if abs(abs(dx) - 0.5 * 10.0 ** -n) > 0.05 * 10.0 ** -n:
        near = abs(dx) < 0.5 * 10.0 ** -n
        if bool(nearly_equal((0.0, 1.0), (dx, 1.0), n)) != near or bool(nearly_equal((1.0, dx), (1.0, 0.0), n)) != near:
            raise Violation('nearly_equal at distance %r with %d digits' % (dx, n))


UNITS = [
    {'name': 'hull', 'prop': prop_hull, 'n': {'quick': 20000, 'thorough': 1000000}, 'weight': 2},
    {'name': 'hull_float', 'prop': prop_hull_float, 'n': {'quick': 20000, 'thorough': 1000000}},
    {'name': 'rotate', 'prop': prop_rotate, 'n': {'quick': 20000, 'thorough': 1000000}},
    {'name': 'numbers', 'prop': prop_numbers, 'n': {'quick': 20000, 'thorough': 1000000}},
]
