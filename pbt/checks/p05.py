"""P05: the area of flashed aperture macro primitives against the specification's shapes."""
import math
from engine import Violation
from geom import Disc, Poly, rect, rot, ngon, paint, box_union
from gmodel import diff
from gerber import rs274x

TECHNIQUE = 'generated macro primitives, against independent plane geometry sampled at points decided with a margin; metamorphic conversion and rotation'
NOTE = 'No counterexample among the generated cases counted in the evidence.'
RULE = ('a case is one macro of 1-4 primitives (circle, vector line, centre line, lower-left line, outline, '
        'polygon, thermal; exposure on or off) flashed at random points, compared at 40 sample points per '
        'flash, again after each of up to 4 unit conversions, offsets and moves; non-trivial = a rotated or '
        'off-origin primitive and at least 10 decided sample points on each side of the outline')
ASSUMPTIONS = ['arcs of thermals may be approximated within 0.4 % of the outer diameter',
               'polygons and thermals are rotated only when centred on the macro origin, as the specification requires']


class Thermal(object):
    def __init__(self, c, ro, ri, gap, deg, slack=0.008):
        self.a = (c, ro, ri, gap, deg)
        self.slack = slack

    def status(self, q, tol):
        c, ro, ri, gap, deg = self.a
        x, y = rot(q, -deg, c)
        x, y = abs(x - c[0]), abs(y - c[1])
        r = math.hypot(x, y)
        t = tol + self.slack * ro
        m = [ro - r, r - ri, x - gap / 2.0, y - gap / 2.0]
        if min(m) > t:
            return 1
        return -1 if min(m) < -t else 0

    def edges(self):
        c, ro, ri, gap, deg = self.a
        return Disc(c, ro).edges() + Disc(c, ri).edges() + rect(c, gap, ro, deg).edges() + rect(c, ro, gap, deg).edges()

    def map(self, f, scale):
        c, ro, ri, gap, deg = self.a
        return Thermal(f(c), ro * scale, ri * scale, gap * scale, deg)


def num(v):
    s = ('%.5f' % v).rstrip('0').rstrip('.')
    return '0' if s in ('-0', '') else s


def gen_prim(d):
    """(macro words, shape about the macro origin, dark?, interesting?)"""
    def c(m=2000):
        return d.signed(m) / 1000.0
    def l(hi=2000):
        return d.integer(10, hi) / 1000.0
    kind = d.choice(['circle', 'vector', 'center', 'lower', 'outline', 'polygon', 'thermal'])
    exp = 0 if d.boolean(0.2) else 1
    deg = d.choice([0, 0, 90, 45, -30, d.integer(-360, 360), d.integer(-3600, 3600) / 10.0])
    if kind == 'circle':
        dia, x, y = l(), c(), c()
        w = [1, exp, dia, x, y]
        if d.boolean():
            w.append(deg)
        else:
            deg = 0
        return w, Disc(rot((x, y), deg), dia / 2), exp, bool(x or y)
    if kind == 'vector':
        wd, a, b = l(), (c(), c()), (c(), c())
        if a == b:
            b = (a[0] + 1.0, a[1])
        t = math.atan2(b[1] - a[1], b[0] - a[0])
        nx, ny = -math.sin(t) * wd / 2, math.cos(t) * wd / 2
        pts = [(a[0] + nx, a[1] + ny), (b[0] + nx, b[1] + ny), (b[0] - nx, b[1] - ny), (a[0] - nx, a[1] - ny)]
        return [d.choice([20, 2]), exp, wd, a[0], a[1], b[0], b[1], deg], Poly([rot(p, deg) for p in pts]), exp, True
    if kind in ('center', 'lower'):
        wd, h, x, y = l(), l(), c(), c()
        ctr = (x, y) if kind == 'center' else (x + wd / 2, y + h / 2)
        return [21 if kind == 'center' else 22, exp, wd, h, x, y, deg], rect(ctr, wd, h, deg, (0, 0)), exp, True
    if kind == 'outline':
        n = d.integer(3, 8)
        cx, cy = c(), c()
        # star-shaped about (cx, cy), so never self-intersecting
        pts, base = [], d.integer(0, 359)
        for i in range(n):
            a = math.radians(base + 360.0 * i / n + d.integer(0, 60) / float(n))
            r = d.integer(200, 1500) / 1000.0
            pts.append((round(cx + r * math.cos(a), 4), round(cy + r * math.sin(a), 4)))
        if d.boolean():
            pts.reverse()
        w = [4, exp, n]
        for p in pts + pts[:1]:
            w += list(p)
        return w + [deg], Poly([rot(p, deg) for p in pts]), exp, True
    x, y = (0, 0) if d.boolean() else (c(), c())
    if x or y:
        deg = 0
    if kind == 'polygon':
        n, dia = d.integer(3, 12), l()
        return [5, exp, n, x, y, dia, deg], ngon((x, y), dia / 2, n, deg), exp, bool(deg or x or y)
    do = d.integer(200, 3000) / 1000.0
    di = round(do * d.integer(0, 90) / 100.0, 4)
    gap = round(do * d.integer(2, 60) / 100.0, 4)
    return [7, x, y, do, di, gap, deg], Thermal((x, y), do / 2, di / 2, gap, deg), 1, bool(deg or x or y)


def actual(p):
    """what the library's objects claim to cover"""
    n = type(p).__name__
    if n == 'Circle':
        return Disc(p.position, p.diameter / 2.0)
    if n == 'Polygon':
        return Poly([tuple(v) for v in p.vertices])
    if n == 'Outline':
        segs = p.primitives
        tol = 1e-9 * (1 + max(abs(c) for s in segs for c in s.start + s.end))
        for a, b in zip(segs, segs[1:] + segs[:1]):
            if type(a).__name__ != 'Line' or diff(tuple(a.end), tuple(b.start), tol):
                raise Violation('outline segment ends at %r, the next starts at %r' % (a.end, b.start))
        return Poly([tuple(s.start) for s in segs])
    raise Violation('unexpected member %s' % n)


def members_units(g, units):
    for p in g.primitives:
        if p.units != units:
            raise Violation('group in %s has a %s in %s' % (units, type(p).__name__, p.units))
        for s in getattr(p, 'primitives', ()):
            if s.units != units or s.aperture.units != units:
                raise Violation('group in %s has an outline segment in %s' % (units, s.units))


def compare(g, shapes, pts, size, what):
    got = [(actual(p), p.level_polarity == 'dark') for p in g.primitives]
    tol = 1e-6 * size
    n = [0, 0]
    for q in pts:
        e = paint(shapes, q, tol)
        if e == 0:
            continue
        n[e > 0] += 1
        a = paint(got, q, tol / 100)
        if a != 0 and a != e:
            raise Violation('%s: point %r is %s by the specification, %s by the objects' % (
                what, q, 'covered' if e > 0 else 'empty', 'covered' if a > 0 else 'empty'))
    u = box_union(p.bounding_box for p in g.primitives)
    r = diff(g.bounding_box, u)
    if r:
        raise Violation('%s: group bounding box differs from its members at %s' % (what, r))
    return n


def prop_shapes(d):
    prims = [gen_prim(d) for _ in range(d.size(1, 4))]
    units = d.choice(['inch', 'metric'])
    px, py = d.signed(30000), d.signed(30000)
    body = '*'.join(','.join(num(v) for v in w) for w, _, _, _ in prims)
    text = '%%FSLAX34Y34*%%\n%%MO%s*%%\n%%AMSHAPE*%s*%%\n%%ADD10SHAPE*%%\nD10*\nX%dY%dD03*\n' % (
        'IN' if units == 'inch' else 'MM', body, px, py)
    two = d.boolean(0.3)
    if two:
        qx, qy = d.signed(30000), d.signed(30000)
        text += 'X%dY%dD03*\n' % (qx, qy)
    text += 'M02*\n'
    f = rs274x.loads(text)
    if len(f.primitives) != 1 + two:
        raise Violation('%d objects, expected %d' % (len(f.primitives), 1 + two))
    g = f.primitives[0]
    shapes = [(s, bool(e)) for _, s, e, _ in prims]

    # sample points about the macro origin
    pts = []
    edges = [e for s, _ in shapes for e in s.edges()]
    xs = [p[0] for e in edges for p in e]
    ys = [p[1] for e in edges for p in e]
    for _ in range(40):
        if d.boolean(0.3):
            pts.append((min(xs) + (max(xs) - min(xs)) * d.integer(0, 1000) / 1000.0,
                        min(ys) + (max(ys) - min(ys)) * d.integer(0, 1000) / 1000.0))
        else:
            a, b = edges[d.below(len(edges))]
            t = d.integer(0, 100) / 100.0
            off = d.signed(1000) / 4000.0 * (0.1 if d.boolean() else 1)
            dx, dy = b[0] - a[0], b[1] - a[1]
            h = math.hypot(dx, dy) or 1.0
            pts.append((a[0] + t * dx - dy / h * off, a[1] + t * dy + dx / h * off))

    state = {'f': lambda p, x=px / 1e4, y=py / 1e4: (p[0] + x, p[1] + y), 'k': 1.0, 'pos': (px / 1e4, py / 1e4)}

    def check(what):
        k, pos = state['k'], state['pos']
        def m(p):
            return (p[0] * k + pos[0], p[1] * k + pos[1])
        r = diff(tuple(g.position), pos)
        if r:
            raise Violation('%s: position is %r, expected %r' % (what, g.position, pos))
        return compare(g, [(s.map(m, k), e) for s, e in shapes], [m(q) for q in pts], k, what)

    hist = ['read']
    d.show(text=text, history=hist)
    members_units(g, units)
    n = check('after reading')
    for _ in range(d.size(0, 4)):
        op = d.choice(['metric', 'inch', 'offset', 'position'])
        if op in ('metric', 'inch'):
            getattr(g, 'to_' + op)()
            if op != units:
                c = 25.4 if op == 'metric' else 1 / 25.4
                units = op
                state['k'] *= c
                state['pos'] = (state['pos'][0] * c, state['pos'][1] * c)
            if g.units != units:
                raise Violation('units are %r after to_%s' % (g.units, op))
        else:
            v = (d.mm(20), d.mm(20))
            if op == 'offset':
                g.offset(*v)
                state['pos'] = (state['pos'][0] + v[0], state['pos'][1] + v[1])
            else:
                g.position = v
                state['pos'] = v
        hist.append(op if op in ('metric', 'inch') else (op, v))
        members_units(g, units)
        check('after %r' % (hist,))
    if two:     # the second flash of the same aperture is independent of the first
        g = f.primitives[1]
        state['k'], state['pos'] = 1.0, (qx / 1e4, qy / 1e4)
        check('second flash')
    if any(i for _, _, _, i in prims) and min(n) >= 10:
        d.nontrivial(text + repr(hist))
    d.label('points', sum(n))
    for w, _, _, _ in prims:
        d.label('code %d' % w[0])


UNITS = [
    {'name': 'shapes', 'prop': prop_shapes, 'n': {'quick': 12000, 'thorough': 300000}},
]
