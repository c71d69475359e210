"""P10: bounding boxes enclose the drawn shape tightly."""
import math
from engine import Violation, Discard
from geom import rot, box_union
from prims import gen, build, brief, compare, step, transform
from gmodel import to_text, label
from checks.p03 import gen as gen_file, diff_abs
from gerber import rs274x

TECHNIQUE = 'generated objects and files against independently computed extents (analytic extremes, sampled outline points)'
NOTE = 'Every drawable class of gerber.primitives and generated Gerber files; no counterexample among the cases counted in the evidence.'
RULE = ('a case is one generated object (unit object; optionally moved, converted or changed first) whose bounding '
        'box is compared with extents computed from its parameters alone and with sampled points of its outline, or '
        'one RS-274X program (unit file); non-trivial = rotated, an arc, or a stroke that is not axis-parallel')
ASSUMPTIONS = ['strokes use circle, rectangle, obround or polygon apertures',
               'polygons are enclosed by the box of their circumscribed circle, rounded and chamfered rectangles by the '
               'box of the uncut rectangle (as the existing tests document)',
               'coordinates stay below a million units']


def half(ap):
    k = ap['kind']
    if k == 'Circle':
        return ap['diameter'] / 2.0, ap['diameter'] / 2.0
    if k == 'Polygon':
        return ap['radius'], ap['radius']
    return ap['width'] / 2.0, ap['height'] / 2.0


def grow(b, h):
    return ((b[0][0] - h[0], b[0][1] + h[0]), (b[1][0] - h[1], b[1][1] + h[1]))


def of_points(pts):
    xs, ys = zip(*pts)
    return ((min(xs), max(xs)), (min(ys), max(ys)))


def arc_points(s):
    """start, end and the axis extremes the arc passes"""
    c, a, b = s['center'], s['start'], s['end']
    r = math.hypot(a[0] - c[0], a[1] - c[1])
    t0 = math.degrees(math.atan2(a[1] - c[1], a[0] - c[0]))
    t1 = math.degrees(math.atan2(b[1] - c[1], b[0] - c[0]))
    sg = 1 if s['direction'] == 'counterclockwise' else -1
    if a == b:
        sweep = 360.0 if s['quadrant_mode'] == 'multi-quadrant' else 0.0
    else:
        sweep = (sg * (t1 - t0)) % 360.0
    pts = [a, b]
    for q in range(4):
        if (sg * (90.0 * q - t0)) % 360.0 <= sweep:
            pts.append((c[0] + r * (0, 1)[q == 0] - r * (q == 2), c[1] + r * (q == 1) - r * (q == 3)))
    return pts, sweep


def extents(s):
    """-> (box, box without aperture or None, sample points of the outline)"""
    k = s['kind']
    if k == 'Line':
        b = of_points([s['start'], s['end']])
        return grow(b, half(s['aperture'])), b, [s['start'], s['end']]
    if k == 'Arc':
        pts, sweep = arc_points(s)
        b = of_points(pts)
        c, a = s['center'], s['start']
        sg = 1 if s['direction'] == 'counterclockwise' else -1
        on = [rot(a, sg * sweep * i / 40.0, c) for i in range(41)]
        return grow(b, half(s['aperture'])), b, on
    if k == 'Slot':
        r = s['diameter'] / 2.0
        return grow(of_points([s['start'], s['end']]), (r, r)), None, [s['start'], s['end']]
    if k == 'Outline':
        b = of_points([m['start'] for m in s['primitives']])
        return b, None, [m['start'] for m in s['primitives']]
    if k == 'Region':
        parts = [extents(m) for m in s['primitives']]
        return box_union(p[1] for p in parts), None, [q for p in parts for q in p[2]]
    p, t = s['position'], math.radians(s.get('rotation') or 0)
    co, si = abs(math.cos(t)), abs(math.sin(t))
    if k in ('Circle', 'Drill', 'RoundButterfly'):
        h = (s['diameter'] / 2.0,) * 2
        pts = [(p[0] + h[0] * math.cos(i), p[1] + h[0] * math.sin(i)) for i in range(12)]
    elif k == 'Polygon':
        h = (s['radius'],) * 2
        pts = [rot((p[0] + h[0], p[1]), s['rotation'] + 360.0 * i / s['sides'], p) for i in range(s['sides'])]
    elif k == 'SquareButterfly':
        h = (s['side'] / 2.0,) * 2
        pts = []
    elif k == 'SquareRoundDonut':
        h = (s['outer_diameter'] / 2.0,) * 2
        pts = []
    elif k == 'Donut':
        o = s['outer_diameter'] / 2.0
        h = (o * (math.sqrt(3) / 2 if s['shape'] == 'hexagon' else 1), o)
        pts = []
    else:
        w, g = s['width'] / 2.0, s['height'] / 2.0
        if k in ('Rectangle', 'ChamferRectangle', 'RoundRectangle'):
            h = (w * co + g * si, w * si + g * co)
            pts = [rot((p[0] + x * w, p[1] + y * g), s['rotation'], p) for x in (-1, 1) for y in (-1, 1)]
            if k != 'Rectangle':
                pts = [rot((p[0] + x * w, p[1]), s['rotation'], p) for x in (-1, 1)]
        elif k == 'Diamond':
            pts = [rot((p[0] + x, p[1] + y), s['rotation'], p) for x, y in ((w, 0), (-w, 0), (0, g), (0, -g))]
            h = (max(w * co, g * si), max(w * si, g * co))
        elif k == 'Ellipse':
            h = (math.hypot(w * co, g * si), math.hypot(w * si, g * co))
            pts = [rot((p[0] + w * math.cos(i), p[1] + g * math.sin(i)), s['rotation'], p) for i in range(12)]
        elif k == 'Obround':
            r = min(w, g)
            a, b = w - r, g - r       # half extents of the line between the caps' centres
            h = (a * co + b * si + r, a * si + b * co + r)
            pts = [rot((p[0] + a * x + r * math.cos(i), p[1] + b * x + r * math.sin(i)), s['rotation'], p)
                   for i in range(6) for x in (-1, 1)]
        else:
            raise Discard()
    return grow((p[:1] * 2, p[1:] * 2), h), None, pts


def corners(s):
    """the corner points in order along the outline, for shapes with straight sides"""
    k, p = s['kind'], s.get('position')
    if k == 'Outline':
        return [m['start'] for m in s['primitives']]
    if k == 'Polygon':
        return [rot((p[0] + s['radius'], p[1]), s['rotation'] + 360.0 * i / s['sides'], p) for i in range(s['sides'])]
    if k not in ('Rectangle', 'Diamond', 'ChamferRectangle'):
        return None
    w, h = s['width'] / 2.0, s['height'] / 2.0
    if k == 'Diamond':
        rel = [(w, 0), (0, h), (-w, 0), (0, -h)]
    elif k == 'Rectangle':
        rel = [(w, h), (-w, h), (-w, -h), (w, -h)]
    else:
        c = s['chamfer']
        rel = []
        for (sx, sy), cut in zip(((1, 1), (-1, 1), (-1, -1), (1, -1)), s['corners']):
            x, y = sx * w, sy * h
            if not cut:
                rel.append((x, y))
            elif sx * sy > 0:      # arriving along the vertical side
                rel += [(x, y - sy * c), (x - sx * c, y)]
            else:
                rel += [(x - sx * c, y), (x, y - sy * c)]
    return [rot((p[0] + x, p[1] + y), s['rotation'], p) for x, y in rel]


def same_ring(a, b, tol):
    if len(a) != len(b):
        return False
    n = len(a)
    for ring in (b, b[::-1]):
        for k in range(n):
            if all(abs(a[i][0] - ring[(i + k) % n][0]) <= tol and abs(a[i][1] - ring[(i + k) % n][1]) <= tol for i in range(n)):
                return True
    return False


KINDS = ['Arc', 'Arc', 'Line', 'Region', 'Region', 'Outline', 'Circle', 'Ellipse', 'Rectangle', 'Diamond', 'ChamferRectangle',
         'RoundRectangle', 'Obround', 'Polygon', 'RoundButterfly', 'SquareButterfly', 'Donut', 'SquareRoundDonut',
         'Drill', 'Slot']


def prop_object(d):
    s = gen(d, kinds=KINDS)
    o = build(s)
    hist = []
    d.show(spec=brief(s), history=hist)
    if d.boolean(0.3):
        for _ in range(d.integer(1, 3)):
            s, w = step(d, s, o, ['offset', 'inch', 'metric', 'read'])
            hist.append(w)
    k = s['kind']
    box, inner, pts = extents(s)
    got = o.bounding_box
    r = compare(got, box)
    if r:
        raise Violation('%s bounding box%s; box %r, drawn extents %r' % (k, r, got, box))
    r = compare(o.bounding_box_no_aperture, inner if inner is not None else box)
    if r:
        raise Violation('%s bounding box without aperture%s' % (k, r))
    tol = 1e-8 * (1 + max(abs(c) for b in box for c in b))
    for q in pts:
        for i in (0, 1):
            if not got[i][0] - tol <= q[i] <= got[i][1] + tol:
                raise Violation('%s: outline point %r outside the bounding box %r' % (k, q, got))
    cs = corners(s)
    if cs is not None:
        vs = [tuple(v) for v in o.vertices]
        if not same_ring(vs, cs, tol):
            raise Violation('%s: vertices %r, expected %r' % (k, vs, cs))
    if k in ('Rectangle', 'Donut'):
        r = compare((o.lower_left, o.upper_right), ((box[0][0], box[1][0]), (box[0][1], box[1][1])))
        if r:
            raise Violation('%s corners%s' % (k, r))
    d.label(k)
    if s.get('rotation', 0) % 90 or k in ('Arc', 'Region', 'Outline') or (
            k in ('Line', 'Slot') and s['start'][0] != s['end'][0] and s['start'][1] != s['end'][1]):
        d.nontrivial(repr((brief(s), hist)))


def region_box(p):
    return box_union(seg_box(q) for q in p.primitives)


def spec_of(p):
    if type(p).__name__ == 'Line':
        return {'kind': 'Line', 'start': p.start, 'end': p.end}
    return {'kind': 'Arc', 'start': p.start, 'end': p.end, 'center': p.center, 'direction': p.direction,
            'quadrant_mode': p.quadrant_mode}


def seg_box(p):
    s = spec_of(p)
    return of_points([s['start'], s['end']] if s['kind'] == 'Line' else arc_points(s)[0])


def slack(p):
    """by how much rounding made the radii at an arc's two ends differ"""
    if type(p).__name__ == 'Region':
        return max(slack(q) for q in p.primitives)
    if type(p).__name__ != 'Arc':
        return 0.0
    c = p.center
    return abs(math.hypot(p.start[0] - c[0], p.start[1] - c[1]) - math.hypot(p.end[0] - c[0], p.end[1] - c[1]))


def prop_file(d):
    p = gen_file(d, notation='any')
    text = to_text(p)
    label(d, p)
    f = rs274x.loads(text)
    d.show(text=text)
    hist = []
    if d.boolean(0.3):
        hist.append(d.choice(['to_inch', 'to_metric']))
        getattr(f, hist[0])()
        d.show(text=text, history=hist)
    # the extent of the coordinates the program gives
    seen = {'x': [], 'y': []}
    at = {'x': 0, 'y': 0}
    k = {(u, v): 1.0 for u in ('inch', 'metric') for v in ('inch', 'metric')}
    k['inch', 'metric'], k['metric', 'inch'] = 25.4, 1 / 25.4
    for c in p.cmds:
        for l in 'xy':
            if c[0] == 'coord' and c[1].get(l) is not None:
                at[l] = c[1][l] + (at[l] if p.notation == 'incremental' else 0)
                seen[l].append(at[l] / p.scale * k[p.units, f.units])
    xs, ys = seen['x'], seen['y']
    r = compare(f.bounds, ((min(xs), max(xs)), (min(ys), max(ys))))
    if r:
        raise Violation('bounds%s' % r)
    b = f.bounds
    r = compare(tuple(f.size), (b[0][1] - b[0][0], b[1][1] - b[1][0]))
    if r:
        raise Violation('size%s' % r)
    if not f.primitives:
        raise Discard()
    boxes = []
    for q in f.primitives:
        n = type(q).__name__
        if n in ('Line', 'Arc'):
            ap = q.aperture
            h = (ap.radius, ap.radius) if hasattr(ap, 'radius') else (ap.width / 2.0, ap.height / 2.0)
            e = grow(seg_box(q), h)
        elif n == 'Region':
            e = region_box(q)
        elif n == 'AMGroup' and not q.primitives:
            # only a moire, which is not supported: draws nothing, at its position
            e = ((q.position[0],) * 2, (q.position[1],) * 2)
        elif n == 'AMGroup':
            e = box_union(m.bounding_box for m in q.primitives)
        else:
            h = (q.radius, q.radius) if hasattr(q, 'radius') else (q.width / 2.0, q.height / 2.0)
            e = grow(((q.position[0],) * 2, (q.position[1],) * 2), h)
        r = diff_abs(q.bounding_box, e, slack(q) * 1.01 + 1e-8)
        if r:
            raise Violation('%s bounding box%s' % (n, r))
        boxes.append(q.bounding_box)
    r = compare(f.bounding_box, box_union(boxes))
    if r:
        raise Violation('file bounding box%s, expected %r' % (r, box_union(boxes)))
    if len(boxes) >= 2:
        d.nontrivial(text)


UNITS = [
    {'name': 'object', 'prop': prop_object, 'n': {'quick': 60000, 'thorough': 2000000}},
    {'name': 'file', 'prop': prop_file, 'n': {'quick': 8000, 'thorough': 200000}},
]
