"""P20: a rendered image is dark exactly where the objects say (cairo back end)."""
import io
import math
import os
import cairocffi
from xml.etree import ElementTree
from engine import Violation, Discard
import geom
from geom import Disc, Poly, Stroke, Union, Minus, rot

TECHNIQUE = 'generated object lists, Gerber programs and layer stacks rendered, every pixel decided by independent plane geometry compared with the painted colour'
NOTE = 'No counterexample among the generated pictures counted in the evidence.'
RULE = ('a case is one rendered picture: a generated list of objects (flashes with holes and rotations, strokes, arcs, '
        'regions with arcs, drills, slots, macro groups, test points; dark and clear), a generated RS-274X program, or a '
        'stack of layers, at a generated scale, origin, colour, inversion and mirroring; non-trivial = at least 10 '
        'decided painted pixels and 10 decided unpainted pixels')
ASSUMPTIONS = ['pixels within 0.8 pixels of an edge of any object that decides them are not judged',
               'contours are simple (a star-shaped ring of lines and arcs, or one full circle)',
               'strokes use round apertures, lines also rectangular ones, as RS-274X requires; objects are at least '
               'visible (no zero-size bounds)',
               'the text of a netlist test point is not judged, only its mark']
BUDGET = {'quick': 150, 'thorough': 600}
MARGIN = 0.8


# --- object descriptions -> independent geometry ---------------------------------
def arc_points(s, e, c, ccw, full):
    r = math.hypot(s[0] - c[0], s[1] - c[1])
    a = math.atan2(s[1] - c[1], s[0] - c[0])
    b = math.atan2(e[1] - c[1], e[0] - c[0])
    sweep = (b - a) % (2 * math.pi) if ccw else -((a - b) % (2 * math.pi))
    if full:
        sweep = 2 * math.pi if ccw else -2 * math.pi
    n = max(4, int(abs(sweep) / (math.pi / 48)) + 1)
    return [(c[0] + r * math.cos(a + sweep * k / n), c[1] + r * math.sin(a + sweep * k / n)) for k in range(n + 1)]


def hull(pts):
    pts = sorted(set(pts))
    if len(pts) < 3:
        return pts
    out = []
    for seq in (pts, pts[::-1]):
        h = []
        for p in seq:
            while len(h) >= 2 and geom.cross(h[-2], h[-1], p) <= 0:
                h.pop()
            h.append(p)
        out += h[:-1]
    return out


def with_holes(s, base):
    dia, w, h = s.get('hole', (0, 0, 0))
    if dia:
        base = Minus(base, Disc(s['pos'], dia / 2.0))
    if w and h:
        base = Minus(base, geom.rect(s['pos'], w, h, s.get('rot', 0)))
    return base


class Group(object):
    """members drawn in order: dark adds, clear removes, within the group only"""

    def __init__(self, parts):
        self.parts = parts

    def status(self, q, tol):
        return geom.paint(self.parts, q, tol)


def shape(s):
    k = s['k']
    if k == 'C':
        return with_holes(s, Disc(s['pos'], s['d'] / 2.0))
    if k == 'R':
        return with_holes(s, geom.rect(s['pos'], s['w'], s['h'], s['rot']))
    if k == 'O':
        w, h, (x, y) = s['w'], s['h'], s['pos']
        r = min(w, h) / 2.0
        e = ((w / 2.0 - r, 0) if w > h else (0, h / 2.0 - r))
        a, b = rot((x - e[0], y - e[1]), s['rot'], (x, y)), rot((x + e[0], y + e[1]), s['rot'], (x, y))
        return with_holes(s, Stroke(a, b, r))
    if k == 'P':
        return with_holes(s, geom.ngon(s['pos'], s['r'], s['n'], s['rot']))
    if k == 'drill':
        return Disc(s['pos'], s['d'] / 2.0)
    if k == 'test':
        return Disc(s['pos'], 0.0075)
    if k == 'slot':
        return Stroke(s['a'], s['b'], s['d'] / 2.0)
    if k == 'line':
        ap = s['ap']
        if ap[0] == 'C':
            return Stroke(s['a'], s['b'], ap[1] / 2.0)
        pts = []
        if ap[0] == 'O':
            # everything within r of the parallelogram that the axis sweeps
            r = min(ap[1], ap[2]) / 2.0
            e = (ap[1] / 2.0 - r, ap[2] / 2.0 - r)
            (x0, y0), (x1, y1) = s['a'], s['b']
            p = [(x0 - e[0], y0 - e[1]), (x0 + e[0], y0 + e[1]), (x1 + e[0], y1 + e[1]), (x1 - e[0], y1 - e[1])]
            return Union([Poly(p)] + [Stroke(p[i], p[(i + 1) % 4], r) for i in range(4)])
        for c in (s['a'], s['b']):
            pts += (geom.rect(c, ap[1], ap[2]) if ap[0] == 'R' else geom.ngon(c, ap[1], ap[2], ap[3])).pts
        return Poly(hull(pts))
    if k == 'arc':
        pts = arc_points(s['a'], s['b'], s['c'], s['ccw'], s['full'])
        return Union([Stroke(pts[i], pts[i + 1], s['ap'][1] / 2.0) for i in range(len(pts) - 1)])
    if k in ('region', 'outline'):
        pts = [s['segs'][0][1]]
        for g in s['segs']:
            if g[0] == 'line':
                pts.append(g[2])
            else:
                pts += arc_points(g[1], g[2], g[3], g[4], g[5])
        return Poly(pts)
    if k == 'group':
        return Group([(shape(m), m['pol'] == 'dark') for m in s['parts']])
    raise KeyError(k)


# --- object descriptions -> objects of the code under test -------------------------
def build(s):
    from gerber import primitives as gp
    kw = {'level_polarity': s['pol'], 'units': 'inch'}
    k = s['k']
    if 'rot' in s and k in 'CROP':
        kw['rotation'] = s['rot']
    if s.get('hole') and any(s['hole']):
        kw.update(hole_diameter=s['hole'][0], hole_width=s['hole'][1], hole_height=s['hole'][2])
    if k == 'C':
        return gp.Circle(s['pos'], s['d'], **kw)
    if k == 'R':
        return gp.Rectangle(s['pos'], s['w'], s['h'], **kw)
    if k == 'O':
        return gp.Obround(s['pos'], s['w'], s['h'], **kw)
    if k == 'P':
        return gp.Polygon(s['pos'], s['n'], s['r'], **kw)
    if k == 'drill':
        return gp.Drill(s['pos'], s['d'], units='inch')
    if k == 'slot':
        return gp.Slot(s['a'], s['b'], s['d'], units='inch')
    if k == 'test':
        return gp.TestRecord(s['pos'], s['net'], 'both', units='inch')
    if k == 'line':
        return gp.Line(s['a'], s['b'], build_ap(s['ap']), **kw)
    if k == 'arc':
        return gp.Arc(s['a'], s['b'], s['c'], 'counterclockwise' if s['ccw'] else 'clockwise', build_ap(s['ap']),
                      'multi-quadrant', **kw)
    if k in ('region', 'outline'):
        segs = []
        for g in s['segs']:
            if g[0] == 'line':
                segs.append(gp.Line(g[1], g[2], build_ap(('C', 0)), units='inch'))
            else:
                segs.append(gp.Arc(g[1], g[2], g[3], 'counterclockwise' if g[4] else 'clockwise',
                                   build_ap(('C', 0)), 'multi-quadrant', units='inch'))
        return (gp.Region if k == 'region' else gp.Outline)(segs, **kw)
    if k == 'group':
        g = gp.AMGroup([MacroPart(m) for m in s['parts']], **kw)
        g.position = (0.0, 0.0)
        return g
    raise KeyError(k)


class MacroPart(object):
    """stands in for a primitive of an aperture macro"""
    def __init__(self, spec):
        self.spec = spec

    def to_primitive(self, units):
        return build(self.spec)


def build_ap(a):
    from gerber import primitives as gp
    if a[0] == 'C':
        return gp.Circle(None, a[1], units='inch')
    if a[0] == 'P':
        return gp.Polygon(None, a[2], a[1], rotation=a[3], units='inch')
    return (gp.Rectangle if a[0] == 'R' else gp.Obround)(None, a[1], a[2], units='inch')


# --- generator ---------------------------------------------------------------------
class Scene(object):
    """sizes in pixels are drawn first, then scaled and moved to coordinates"""

    def __init__(self, d):
        self.d = d
        self.scale = d.choice([10, 30, 100, 300, 25.4, 17.5])
        self.W = d.integer(16, 72)
        self.H = d.integer(16, 72)
        self.w = self.W / float(self.scale)
        self.h = self.H / float(self.scale)
        self.ox = d.choice([0.0, 1.0, -0.5, d.signed(3000) / 1000.0])
        self.oy = d.choice([0.0, 1.0, -0.5, d.signed(3000) / 1000.0])
        self.bounds = ((self.ox, self.ox + self.w), (self.oy, self.oy + self.h))

    def pt(self, over=0.15):
        d = self.d
        return (self.ox + self.w * d.integer(int(-over * 100), int(100 + over * 100)) / 100.0,
                self.oy + self.h * d.integer(int(-over * 100), int(100 + over * 100)) / 100.0)

    def size(self, lo=4, hi=None):
        hi = hi or int(max(self.W, self.H) * 0.8)
        return self.d.integer(lo, max(lo, hi)) / float(self.scale)

    def pol(self):
        return self.d.weighted([(3, 'dark'), (1, 'clear')])

    def angle(self):
        return self.d.weighted([(3, 0), (1, 90), (1, 45), (2, self.d.integer(-180, 180))])

    def hole(self, m):
        """a hole within a shape whose inner radius is m"""
        k = self.d.below(4)
        if k < 2 or m * self.scale < 4:
            return (0, 0, 0)
        if k == 2:
            return (2 * m * self.d.integer(30, 90) / 100.0, 0, 0)
        return (0, 1.4 * m * self.d.integer(30, 90) / 100.0, 1.4 * m * self.d.integer(30, 90) / 100.0)

    def flash(self, kinds='CROP', hole=True, rotate=True):
        d = self.d
        k = d.choice(kinds)
        s = {'k': k, 'pos': self.pt(), 'pol': self.pol(), 'rot': self.angle() if rotate else 0}
        if k == 'C':
            s['d'] = self.size(6)
            m = s['d'] / 2
        elif k in 'RO':
            s['w'], s['h'] = self.size(5), self.size(5)
            if k == 'O' and s['w'] == s['h']:
                s['w'] *= 2
            m = min(s['w'], s['h']) / 2
        else:
            s['n'] = d.integer(3, 12) if d.boolean(0.7) else d.choice([3, 4, 6, 8])
            s['r'] = self.size(5) / 2 + 3.0 / self.scale
            m = s['r'] * math.cos(math.pi / s['n'])
        s['hole'] = self.hole(m) if hole else (0, 0, 0)
        return s

    def stroke(self):
        d = self.d
        k = d.choice(['line', 'line', 'arc'])
        s = {'k': k, 'a': self.pt(), 'pol': self.pol()}
        if k == 'line':
            s['b'] = self.pt() if d.boolean(0.9) else s['a']
            if d.boolean(0.6):
                s['ap'] = ('C', self.size(3, 20))
            else:
                s['ap'] = (d.choice('RRO'), self.size(3, 20), self.size(3, 20))
                if d.boolean(0.25):
                    s['ap'] = ('P', self.size(6, 16) / 2, d.integer(3, 8), self.angle())
            return s
        s.update(self.arc(s['a']))
        s['ap'] = ('C', self.size(3, 16))
        return s

    def arc(self, start):
        """an arc from start: centre, end, direction"""
        d = self.d
        r = self.size(4, 40)
        a = d.integer(-180, 180)
        c = (start[0] - r * math.cos(math.radians(a)), start[1] - r * math.sin(math.radians(a)))
        ccw = d.boolean()
        full = d.boolean(0.25)
        sweep = d.integer(5, 355)
        e = start if full else rot(start, sweep if ccw else -sweep, c)
        return {'c': c, 'b': e, 'ccw': ccw, 'full': full}

    def contour(self, kind='region'):
        d = self.d
        s = {'k': kind, 'pol': self.pol()}
        c = self.pt(0)
        if kind == 'region' and d.boolean(0.2):
            r = self.size(4, 40)
            a = (c[0] + r, c[1]) if d.boolean() else rot((c[0] + r, c[1]), d.integer(0, 359), c)
            s['segs'] = [('arc', a, a, c, d.boolean(), True)]
            return s
        n = d.integer(3, 7)
        turn = d.integer(0, 359)
        ccw = d.boolean()
        pts = []
        for i in range(n):
            r = self.size(5, 40)
            ang = turn + (360.0 * i / n) * (1 if ccw else -1)
            pts.append((c[0] + r * math.cos(math.radians(ang)), c[1] + r * math.sin(math.radians(ang))))
        segs = []
        for i in range(n):
            a, b = pts[i], pts[(i + 1) % n]
            if kind == 'region' and d.boolean(0.35):
                # an arc close to the chord, bulging outwards or inwards
                length = math.hypot(b[0] - a[0], b[1] - a[1])
                h = length * d.choice([0.6, 1.0, 2.0])
                side = 1 if d.boolean() else -1
                mx, my = (a[0] + b[0]) / 2, (a[1] + b[1]) / 2
                nx, ny = -(b[1] - a[1]) / length, (b[0] - a[0]) / length
                cen = (mx + side * h * nx, my + side * h * ny)
                # the centre left of the direction of travel: short way is counterclockwise
                segs.append(('arc', a, b, cen, side > 0, False))
            else:
                segs.append(('line', a, b))
        s['segs'] = segs
        return s

    def item(self, kinds=('flash', 'stroke', 'region', 'hole', 'group', 'test')):
        d = self.d
        k = d.choice(kinds)
        if k == 'flash':
            return self.flash()
        if k == 'stroke':
            return self.stroke()
        if k == 'region':
            return self.contour()
        if k == 'hole':
            if d.boolean():
                return {'k': 'drill', 'pos': self.pt(), 'd': self.size(5, 20), 'pol': 'dark'}
            return {'k': 'slot', 'a': self.pt(), 'b': self.pt(), 'd': self.size(4, 16), 'pol': 'dark'}
        if k == 'test':
            return {'k': 'test', 'pos': self.pt(0), 'net': d.choice(['A', 'GND', '']), 'pol': 'dark'}
        parts = []
        for _ in range(d.size(1, 4) if d.boolean(0.8) else d.integer(5, 8)):
            j = d.below(3)
            parts.append(self.flash('CRP', hole=False) if j < 2 else self.contour('outline'))
        parts[0]['pol'] = 'dark'
        return {'k': 'group', 'parts': parts, 'pol': self.pol()}


# --- pictures ----------------------------------------------------------------------
class Stub(object):
    """what a renderer needs of a layer"""

    def __init__(self, primitives, bounds, layer_class='top'):
        self.primitives, self.bounds, self.layer_class = primitives, bounds, layer_class
        self.cam_source = None


class Picture(object):
    def __init__(self, data):
        s = cairocffi.ImageSurface.create_from_png(io.BytesIO(data))
        self.w, self.h = s.get_width(), s.get_height()
        self.stride = s.get_stride()
        self.alpha = s.get_format() == cairocffi.FORMAT_ARGB32
        self.data = bytes(s.get_data())

    def at(self, i, j):
        o = j * self.stride + 4 * i
        b, g, r, a = self.data[o:o + 4]
        return (r, g, b, a if self.alpha else 255)


def g_color(d):
    return tuple(d.choice([0.0, 1.0, 0.5, 0.25, 0.8]) for _ in range(3))


def over(top, alpha, under):
    return tuple(t * alpha + u * (1 - alpha) for t, u in zip(top, under))


def near(a, b, tol=5):
    return all(abs(x - y) <= tol for x, y in zip(a, b))


def judge(d, pic, scale, bounds, stack, bg, what, hide=()):
    """stack: list of (shapes, colour, alpha, invert, mirror), drawn in order over bg"""
    W, H = (bounds[0][1] - bounds[0][0]) * scale, (bounds[1][1] - bounds[1][0]) * scale
    if abs(pic.w - W) > 1.001 or abs(pic.h - H) > 1.001:
        raise Violation('%s: the picture is %d x %d pixels, the bounds make it %g x %g' % (what, pic.w, pic.h, W, H))
    tol = MARGIN / scale
    seen = {}
    for j in range(pic.h):
        for i in range(pic.w):
            if i + 0.5 > W - 1 or j + 0.5 > H - 1:
                continue
            y = bounds[1][0] + (H - (j + 0.5)) / scale
            color = bg
            tops = []
            for shapes, c, alpha, invert, mirror in stack:
                x = bounds[0][0] + ((W - (i + 0.5)) if mirror else (i + 0.5)) / scale
                st = geom.paint(shapes, (x, y), tol)
                if st == 0:
                    color = None
                    break
                st = (st == 1) != invert
                tops.append(st)
                if st:
                    color = over(c, alpha, color)
            if color is None or any(x0 <= i <= x1 and y0 <= j <= y1 for x0, y0, x1, y1 in hide):
                continue
            k = tuple(tops)
            seen[k] = seen.get(k, 0) + 1
            want = tuple(255 * v for v in color)
            got = pic.at(i, j)
            if not near(got[:3], want) or got[3] != 255:
                raise Violation('%s: pixel (%d, %d), at (%.5f, %.5f), is %r; the objects %s make it %r' % (
                    what, i, j, x, y, got, ['cover' if t else 'do not cover' for t in tops], tuple(int(v) for v in want)))
    painted = sum(n for k, n in seen.items() if any(k))
    blank = sum(n for k, n in seen.items() if not all(k))
    return painted, blank


def prop_scene(d):
    from gerber.render.cairo_backend import GerberCairoContext
    from gerber.render.render import RenderSettings
    sc = Scene(d)
    items = [sc.item() for _ in range(d.size(1, 6))]
    color, bg = g_color(d), g_color(d)
    alpha = d.choice([1.0, 1.0, 1.0, 0.5, 0.5, 0.0])
    invert, mirror = d.boolean(0.3), d.boolean(0.3)
    d.show(scale=sc.scale, bounds=sc.bounds, objects=items, color=color, background=bg, alpha=alpha, invert=invert, mirror=mirror)
    for s in items:
        d.label(s['k'] + (' hole' if any(s.get('hole', ())) else ''))
    hide = []
    for s in items:
        if s['k'] == 'test' and s['net']:
            px = (s['pos'][0] - sc.ox + 0.015) * sc.scale
            py = sc.H - (s['pos'][1] - sc.oy + 0.015) * sc.scale
            hide.append((0, py - 18, sc.W - px + 4, py + 8) if mirror else (px - 4, py - 18, sc.W, py + 8))

    def draw():
        ctx = GerberCairoContext(sc.scale)
        ctx.render_layer(Stub([build(s) for s in items], sc.bounds), settings=RenderSettings(color, alpha, invert, mirror),
                         bgsettings=RenderSettings(bg))
        return ctx
    data = draw().dump_str()
    painted, blank = judge(d, Picture(data), sc.scale, sc.bounds,
                           [([(shape(s), s['pol'] == 'dark') for s in items], color, alpha, invert, mirror)], bg, 'layer', hide)
    if painted >= 10 and blank >= 10:
        d.nontrivial(repr((sc.scale, sc.bounds, items, invert, mirror)))
    again = draw()
    if again.dump_str() != data:
        raise Violation('drawing the same objects again gives a different picture')
    if d.boolean(0.1):
        path = os.path.join(os.environ['PBT_SCRATCH'], 'picture.svg')
        text = again.dump_svg_str() if d.boolean() else None
        again.dump(path)
        with open(path, 'rb') as fh:
            data = fh.read()
        if text is None:
            text = again.dump_svg_str()
        if text != data:
            raise Violation('the SVG text is not what the SVG file holds (%d and %d bytes)' % (len(text), len(data)))
        root = ElementTree.fromstring(data)
        box = [float(v) for v in root.get('viewBox').split()]
        if not root.tag.endswith('svg') or max(abs(a - b) for a, b in zip(box, (0, 0, sc.W, sc.H))) > 1e-6 * sc.W + 1e-3:
            raise Violation('the SVG has the view %r, the picture is %g x %g' % (box, sc.W, sc.H))


# --- whole files -----------------------------------------------------------------
class Unsure(object):
    """an object whose inside is not judged"""

    def __init__(self, base):
        self.base = base

    def status(self, q, tol):
        return min(0, self.base.status(q, tol))


def spec(o):
    """description of an object of a Gerber program -> geometry"""
    k = o[0]
    if k in ('line', 'arc'):
        ap = o[3] if k == 'line' else o[6]
        solid = not any(ap[-1][1:])
        if k == 'line':
            a = ('P', ap[1] / 2.0, ap[2], ap[3]) if ap[0] == 'P' else ap
            g = shape({'k': 'line', 'a': o[1], 'b': o[2], 'ap': a})
        else:
            s, e, c, way, quad = o[1:6]
            if ap[0] != 'C' or (s == e and quad == 'single-quadrant'):
                solid = False
            width = {'C': lambda: ap[1], 'P': lambda: ap[1]}.get(ap[0], lambda: 1.5 * max(ap[1:3]))()
            g = shape({'k': 'arc', 'a': s, 'b': e, 'c': c, 'ccw': way == 'counterclockwise',
                       'full': s == e and quad != 'single-quadrant', 'ap': ('C', width)})
        return g if solid else Unsure(g)
    if k == 'flashC':
        return shape({'k': 'C', 'pos': o[1], 'd': o[2], 'hole': o[3][1:], 'rot': 0})
    if k in ('flashR', 'flashO'):
        return shape({'k': k[-1], 'pos': o[1], 'w': o[2], 'h': o[3], 'rot': o[4], 'hole': o[5][1:]})
    if k == 'flashP':
        return shape({'k': 'P', 'pos': o[1], 'r': o[2] / 2.0, 'n': o[3], 'rot': o[4], 'hole': o[5][1:]})
    if k in ('region', 'outline'):
        segs = [g if g[0] == 'line' else ('arc', g[1], g[2], g[3], g[4] == 'counterclockwise',
                                          g[1] == g[2] and g[5] != 'single-quadrant') for g in o[1]]
        return shape({'k': 'region', 'segs': segs})
    if k == 'flashAM':
        return Group([(spec(m), m[-2] == 'dark') for m in o[2]])
    raise KeyError(k)


def prop_file(d):
    from gerber import rs274x
    from gerber.render.cairo_backend import GerberCairoContext
    import gmodel
    from checks.p03 import RichGen
    g = RichGen(d)
    g.rich = d.boolean(0.5)
    text = gmodel.to_text(g.run())
    f = rs274x.loads(text)
    if not f.primitives:
        raise Discard()
    from checks.p03 import image
    objects = image(f)
    bounds = f.bounding_box
    w, h = bounds[0][1] - bounds[0][0], bounds[1][1] - bounds[1][0]
    if min(w, h) <= 0 or max(w, h) / min(w, h) > 12:
        raise Discard()
    scale = d.integer(40, 90) / max(w, h)
    invert = d.boolean(0.3)
    d.show(text=text, scale=scale, invert=invert, bounds=bounds)
    for o in objects:
        d.label(o[0])
    path = os.path.join(os.environ['PBT_SCRATCH'], 'picture.png')

    def draw(name):
        ctx = GerberCairoContext(scale)
        f.render(ctx, invert=invert, filename=name)
        if name is not None:
            with open(name, 'rb') as fh:
                return fh.read()
        return ctx.dump_str()
    data = draw(path)
    stack = [([(spec(o), o[-2] == 'dark') for o in objects], (0.7215, 0.451, 0.2), 1.0, invert, False)]
    painted, blank = judge(d, Picture(data), scale, bounds, stack, (0.0, 0.0, 0.0), 'file')
    if painted >= 10 and blank >= 10:
        d.nontrivial(repr((scale, invert, text)))
    if draw(None) != data:
        raise Violation('drawing the same file again gives a different picture')


# --- boards ------------------------------------------------------------------------
CLASSES = {'outline': 'gko', 'topsilk': 'gto', 'topmask': 'gts', 'top': 'gtl', 'internal': 'g%d', 'bottom': 'gbl',
           'bottommask': 'gbs', 'bottomsilk': 'gbo', 'unknown': 'xyz', 'toppaste': 'gtp'}


class Board(object):
    """files of the layers of one board, with what each of them shows (in inches)"""

    def __init__(self, d):
        self.d = d
        self.w = d.choice([1.0, 2.5, 0.5, d.integer(30, 500) / 100.0])
        self.h = self.w * d.choice([1.0, 0.5, 1.5, 0.77])
        self.ox = d.choice([0.0, 0.5, 0.25, d.integer(0, 300) / 100.0])
        self.oy = d.choice([0.0, 0.5, 0.25, d.integer(0, 300) / 100.0])
        self.units = d.choice(['inch', 'metric'])
        self.count = 0

    def unit(self):
        return self.units if self.d.boolean(0.7) else self.d.choice(['inch', 'metric'])

    def pt(self):
        return (self.ox + self.w * self.d.integer(0, 100) / 100.0, self.oy + self.h * self.d.integer(0, 100) / 100.0)

    def size(self, lo, hi):
        return min(self.w, self.h) * self.d.integer(lo, hi) / 100.0

    def gerber(self, cls, corners=True):
        """-> layer: class, file name, text, units, shapes, bounds"""
        d, units = self.d, self.unit()
        k, per = (1e5, 1.0) if units == 'inch' else (1e4, 25.4)
        xs, ys = [], []
        body, aps, shapes = [], {}, []
        pol = ['dark']

        def grid(p):
            return (int(round(p[0] * per * k)), int(round(p[1] * per * k)))

        def inch(g):
            return (g[0] / k / per, g[1] / k / per)

        def word(g, op):
            xs.append(inch(g)[0])
            ys.append(inch(g)[1])
            return 'X%dY%dD0%d*' % (g[0], g[1], op)

        def aperture(text):
            if text not in aps:
                aps[text] = 10 + len(aps)
            body.append('D%d*' % aps[text])

        def dim(v):
            t = '%.5f' % (v * per)
            return t, float(t) / per
        if corners:
            body += [word(grid((self.ox, self.oy)), 2), word(grid((self.ox + self.w, self.oy + self.h)), 2)]
        for _ in range(d.size(1 if corners else 0, 4)):
            want = d.weighted([(3, 'dark'), (1, 'clear')])
            if want != pol[0]:
                body.append('%%LP%s*%%' % want[0].upper())
                pol[0] = want
            kind = d.choice('CROPLLG')
            if kind == 'G':
                c, n, turn = self.pt(), d.integer(3, 6), d.integer(0, 359)
                pts = []
                for i in range(n):
                    r, a = self.size(8, 40), math.radians(turn + 360.0 * i / n)
                    q = (c[0] + r * math.cos(a), c[1] + r * math.sin(a))
                    pts.append(grid((max(q[0], self.ox), max(q[1], self.oy))))
                body += ['G36*', word(pts[0], 2)] + [word(q, 1) for q in pts[1:] + pts[:1]] + ['G37*']
                shapes.append((Poly([inch(q) for q in pts]), want == 'dark'))
                continue
            a = grid(self.pt())
            if kind == 'L':
                b = grid(self.pt())
                t, v = dim(self.size(5, 20))
                aperture('C,' + t)
                body += [word(a, 2), word(b, 1)]
                shapes.append((Stroke(inch(a), inch(b), v / 2), want == 'dark'))
                continue
            s = {'k': kind, 'pos': inch(a), 'rot': 0}
            t, v = dim(self.size(15, 60))
            text = kind + ',' + t
            m = v
            if kind == 'C':
                s['d'] = v
            elif kind == 'P':
                s['r'], s['n'], s['rot'] = v / 2, d.integer(3, 8), d.choice([0, 15, 45])
                text += 'X%dX%d' % (s['n'], s['rot'])
                m = v * math.cos(math.pi / s['n'])
            else:
                t, u = dim(self.size(16, 60))
                s['w'], s['h'] = v, u
                if kind == 'O' and v == u:
                    continue
                text += 'X' + t
                m = min(v, u)
            if d.boolean(0.3):
                t, v = dim(m * 0.6)
                text += 'X' + t
                s['hole'] = (v, 0, 0)
            aperture(text)
            body.append(word(a, 3))
            shapes.append((shape(s), want == 'dark'))
        head = ['%FSLAX25Y25*%%MOIN*%' if units == 'inch' else '%FSLAX34Y34*%%MOMM*%'] + ['%%ADD%d%s*%%' % (n, t) for t, n in sorted(aps.items())]
        self.count += 1
        ext = CLASSES[cls]
        number = None
        if cls == 'internal':
            number = self.count
            name = 'In%d.Cu.gbr' % number if number <= 4 and d.boolean() else 'brd.g%d' % number if number <= 6 else 'x.gnd-%d.gbr' % number
        else:
            name = 'brd.' + ext
        return {'cls': cls, 'name': name, 'number': number, 'text': '\n'.join(head + body + ['M02*']) + '\n', 'units': units,
                'shapes': shapes, 'bounds': ((min(xs), max(xs)), (min(ys), max(ys))) if xs else None}

    def drill(self, n):
        d, units = self.d, self.unit()
        per = 1.0 if units == 'inch' else 25.4
        lines = ['M48', 'INCH,LZ' if units == 'inch' else 'METRIC,LZ']
        tools = []
        for i in range(d.integer(1, 3)):
            t = '%.4f' % (self.size(10, 30) * per)
            tools.append(float(t) / per)
            lines.append('T%dC%s' % (i + 1, t))
        lines.append('%')
        shapes, boxes = [], []

        def word(p):
            x, y = '%.4f' % (p[0] * per), '%.4f' % (p[1] * per)
            return 'X%sY%s' % (x, y), (float(x) / per, float(y) / per)
        for i, dia in enumerate(tools):
            lines.append('T%d' % (i + 1))
            for _ in range(d.integer(1, 3)):
                t, a = word(self.pt())
                b = a
                if d.boolean(0.2):
                    u, b = word(self.pt())
                    t += 'G85' + u
                lines.append(t)
                shapes.append((Stroke(a, b, dia / 2), True))
                for c in (a, b):
                    boxes.append(((c[0] - dia / 2, c[0] + dia / 2), (c[1] - dia / 2, c[1] + dia / 2)))
        return {'cls': 'drill', 'name': 'brd%d.drl' % n, 'number': None, 'text': '\n'.join(lines + ['M30']) + '\n', 'units': units,
                'shapes': shapes, 'bounds': geom.box_union(boxes)}


def fitted(layers, max_width, max_height):
    """scale (pixels per inch) of a picture of these layers, its bounds in inches"""
    first = layers[0]
    per = 1.0 if first['units'] == 'inch' else 25.4
    box = geom.box_union([l['bounds'] for l in layers if l['bounds']])
    s = min(max_width / ((box[0][1] - box[0][0]) * per), max_height / ((box[1][1] - box[1][0]) * per))
    if abs(s - round(s)) < 1e-6:
        raise Discard()      # rounded down from either side of a whole number
    return (math.floor(s) if s > 1 else s) * per, first['bounds']


def settings_of(theme, layers):
    """render settings by layer, the background first"""
    internal = 0
    out = []
    back = any(l['cls'] in theme and l['cls'] != 'internal' and theme[l['cls']][3] for l in layers)
    for l in layers:
        if l['cls'] == 'internal':
            s = theme['internal'][internal % len(theme['internal'])]
            internal += 1
        else:
            s = theme.get(l['cls'], ((0.0, 0.0, 0.0), 1.0, False, False))
        # what belongs to no side is seen from the same side as the rest
        out.append((l['shapes'],) + tuple(s[:3]) + (s[3] or back and l['cls'] in ('outline', 'drill'),))
    return out


FR4, WHITE, MASK, HASL, RED, BLACK = (0.290, 0.345, 0.0), (1.0, 1.0, 1.0), (0.0, 0.412, 0.278), (0.871, 0.851, 0.839), (1.0, 0.0, 0.0), (0.0, 0.0, 0.0)
SPECTRUM = [(0.804, 0.216, 0), (0.78, 0.776, 0.251), (0.545, 0.451, 0.333), (0.545, 0.137, 0.137),
            (0.329, 0.545, 0.329), (0.133, 0.545, 0.133), (0, 0.525, 0.545), (0.227, 0.373, 0.804)]


def plain(c, alpha=1.0, invert=False, mirror=False):
    return (c, alpha, invert, mirror)


DEFAULT = {'background': plain(FR4), 'topsilk': plain(WHITE), 'bottomsilk': plain(WHITE, mirror=True),
           'topmask': plain(MASK, 0.85, True), 'bottommask': plain(MASK, 0.85, True, True), 'top': plain(HASL),
           'bottom': plain(HASL, mirror=True), 'drill': plain(BLACK), 'ipc_netlist': plain(RED),
           'internal': [plain(c) for c in SPECTRUM]}


def prop_stack(d):
    import gerber
    from gerber.render.cairo_backend import GerberCairoContext
    from gerber.render import theme as T
    from gerber.render.render import RenderSettings
    b = Board(d)
    layers = []
    back = d.boolean(0.4)
    classes = ['bottom', 'bottommask', 'bottomsilk', 'outline'] if back else ['top', 'topmask', 'topsilk', 'outline', 'internal', 'internal', 'unknown']
    many = not back and d.boolean(0.06)
    for i in range(d.integer(6, 12) if many else d.size(1, 5)):
        if d.boolean(0.25):
            layers.append(b.drill(i))
        else:
            layers.append(b.gerber('internal' if many and i % 4 else d.choice(classes), corners=i == 0 or d.boolean()))
    want = dict(DEFAULT)
    kw = {}
    name = 'default'
    if d.boolean(0.6):
        name = 'custom'
        for k in ('background', 'top', 'bottom', 'topmask', 'bottommask', 'drill', 'topsilk'):
            if d.boolean():
                want[k] = plain(g_color(d), 1.0 if k == 'background' else d.choice([1.0, 0.5, 0.85]),
                                k != 'background' and d.boolean(0.3), k.startswith('bottom'))
                kw[k] = RenderSettings(*want[k])
        if d.boolean(0.4):
            want['internal'] = [plain(g_color(d)) for _ in range(d.choice([1, 2, 2, 6]))]
            kw['internal'] = [RenderSettings(*s) for s in want['internal']]
    # a shared theme drawn with before gives the same picture
    theme = T.Theme(name, **kw) if kw else T.THEMES['default']
    mw, mh = d.integer(30, 90), d.integer(30, 90)
    scale, bounds = fitted(layers, mw, mh)
    if min(bounds[0][1] - bounds[0][0], bounds[1][1] - bounds[1][0]) * scale < 6:
        raise Discard()
    d.show(layers=[(l['name'], l['text']) for l in layers], max_width=mw, max_height=mh, theme=sorted(kw))
    d.label('mixed units' if len(set(l['units'] for l in layers)) > 1 else 'one unit')
    d.label('%d layers' % len(layers))
    for l in layers:
        d.label(l['cls'])
    path = os.path.join(os.environ['PBT_SCRATCH'], 'stack.png')
    loaded = [gerber.load_layer_data(l['text'], l['name']) for l in layers]
    ctx = GerberCairoContext()

    def draw():
        ctx.render_layers(loaded, path, theme, max_width=mw, max_height=mh)
        with open(path, 'rb') as fh:
            return fh.read()
    data = draw()
    if ctx.dump_str() != data:
        raise Violation('the written file is not the picture')
    painted, blank = judge(d, Picture(data), scale, bounds, settings_of(want, layers), want['background'][0], 'layers')
    if painted >= 10 and blank >= 10 and len(layers) > 1:
        d.nontrivial(repr([l['text'] for l in layers]))
    if draw() != data:
        raise Violation('drawing the same layers again gives a different picture')


UNITS = [
    {'name': 'stack', 'prop': prop_stack, 'n': {'quick': 2500, 'thorough': 60000}},
    {'name': 'file', 'prop': prop_file, 'n': {'quick': 2500, 'thorough': 60000}},
    {'name': 'scene', 'prop': prop_scene, 'n': {'quick': 2500, 'thorough': 60000}},
]
