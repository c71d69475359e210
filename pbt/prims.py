"""Specs of graphical objects: generated parameters, how to build the library's object
from them, how the parameters change under conversion/translation, and what an observer
reads from an object.  A spec is {'kind', 'units', <parameter>: value}."""
import math
from engine import Violation
from geom import rot
from gerber import primitives as gp
from gerber.gerber_statements import AMParamStmt

# parameter types: pt (position), len, hole (length, or None/0), ang, any (unchanged),
# ap (aperture: scaled, not moved), mem (member objects), words (macro primitives)
SCHEMA = {
    'Line': [('start', 'pt'), ('end', 'pt'), ('aperture', 'ap')],
    'Arc': [('start', 'pt'), ('end', 'pt'), ('center', 'pt'), ('direction', 'any'), ('aperture', 'ap'),
            ('quadrant_mode', 'any')],
    'Circle': [('position', 'pt'), ('diameter', 'len'), ('hole_diameter', 'hole'), ('hole_width', 'hole'),
               ('hole_height', 'hole')],
    'Ellipse': [('position', 'pt'), ('width', 'len'), ('height', 'len')],
    'Rectangle': [('position', 'pt'), ('width', 'len'), ('height', 'len'), ('hole_diameter', 'hole'),
                  ('hole_width', 'hole'), ('hole_height', 'hole')],
    'Diamond': [('position', 'pt'), ('width', 'len'), ('height', 'len')],
    'ChamferRectangle': [('position', 'pt'), ('width', 'len'), ('height', 'len'), ('chamfer', 'len'), ('corners', 'any')],
    'RoundRectangle': [('position', 'pt'), ('width', 'len'), ('height', 'len'), ('radius', 'len'), ('corners', 'any')],
    'Obround': [('position', 'pt'), ('width', 'len'), ('height', 'len'), ('hole_diameter', 'hole'),
                ('hole_width', 'hole'), ('hole_height', 'hole')],
    'Polygon': [('position', 'pt'), ('sides', 'any'), ('radius', 'len'), ('hole_diameter', 'hole'),
                ('hole_width', 'hole'), ('hole_height', 'hole')],
    'Outline': [('primitives', 'mem')],
    'Region': [('primitives', 'mem')],
    'RoundButterfly': [('position', 'pt'), ('diameter', 'len')],
    'SquareButterfly': [('position', 'pt'), ('side', 'len')],
    'Donut': [('position', 'pt'), ('shape', 'any'), ('inner_diameter', 'len'), ('outer_diameter', 'len')],
    'SquareRoundDonut': [('position', 'pt'), ('inner_diameter', 'len'), ('outer_diameter', 'len')],
    'Drill': [('position', 'pt'), ('diameter', 'len')],
    'Slot': [('start', 'pt'), ('end', 'pt'), ('diameter', 'len')],
    'TestRecord': [('position', 'pt'), ('net_name', 'any'), ('layer', 'any')],
    'AMGroup': [('position', 'pt'), ('words', 'words')],
}
ROTATES = ('Ellipse', 'Rectangle', 'Diamond', 'ChamferRectangle', 'RoundRectangle', 'Obround', 'Polygon')

# what is read besides the parameters: (attribute, how it compares)
DERIVED = {
    'Line': [('angle', 'ang'), ('bounding_box', ''), ('bounding_box_no_aperture', ''), ('vertices', 'hull'),
             ('segments', 'segs'), ('flashed', '')],
    'Arc': [('radius', ''), ('start_angle', 'ang'), ('end_angle', 'ang'), ('sweep_angle', 'ang'), ('bounding_box', ''),
            ('bounding_box_no_aperture', ''), ('flashed', '')],
    'Circle': [('radius', ''), ('hole_radius', ''), ('bounding_box', '')],
    'Ellipse': [('axis_aligned_width', ''), ('axis_aligned_height', ''), ('bounding_box', '')],
    'Rectangle': [('hole_radius', ''), ('upper_right', ''), ('lower_left', ''), ('bounding_box', ''), ('vertices', ''),
                  ('segments', ''), ('axis_aligned_width', ''), ('axis_aligned_height', '')],
    'Diamond': [('bounding_box', ''), ('vertices', ''), ('segments', ''), ('axis_aligned_width', ''),
                ('axis_aligned_height', '')],
    'ChamferRectangle': [('bounding_box', ''), ('vertices', ''), ('segments', ''), ('axis_aligned_width', ''),
                         ('axis_aligned_height', '')],
    'RoundRectangle': [('bounding_box', ''), ('axis_aligned_width', ''), ('axis_aligned_height', '')],
    'Obround': [('hole_radius', ''), ('orientation', ''), ('bounding_box', ''), ('axis_aligned_width', ''),
                ('axis_aligned_height', ''), ('subshapes', 'subs')],
    'Polygon': [('diameter', ''), ('hole_radius', ''), ('bounding_box', ''), ('vertices', ''), ('segments', '')],
    'Outline': [('bounding_box', ''), ('vertices', ''), ('width', '')],
    'Region': [('bounding_box', '')],
    'RoundButterfly': [('radius', ''), ('bounding_box', '')],
    'SquareButterfly': [('bounding_box', '')],
    'Donut': [('width', ''), ('height', ''), ('lower_left', ''), ('upper_right', ''), ('bounding_box', '')],
    'SquareRoundDonut': [('bounding_box', '')],
    'Drill': [('radius', ''), ('bounding_box', '')],
    'Slot': [('bounding_box', '')],
    'TestRecord': [],
    'AMGroup': [('bounding_box', '')],
}
KINDS = list(SCHEMA)


# --- generation ---------------------------------------------------------------
def g_pt(d):
    if d.boolean(0.15):
        return (0.0, 0.0)
    return (d.mm(100), d.mm(100))


def g_len(d, hi=10.0):
    return d.pos(0.01, hi)


def g_ang(d):
    return d.choice([0, 0, 45, 90, 180, 270, -90, 135, d.integer(-360, 720), d.integer(-7200, 7200) / 20.0])


def g_hole(d, kind, which):
    if which == 'hole_diameter':
        if d.boolean(0.6):
            return None if kind == 'Circle' else 0
        return d.pos(0.01, 2)
    return 0 if d.boolean(0.7) else d.pos(0.01, 2)


def g_aperture(d, units, kinds=('Circle', 'Rectangle', 'Obround', 'Polygon')):
    k = d.choice(kinds)
    s = gen(d, k, units)
    s['position'] = None
    if k != 'Polygon':
        s['rotation'] = 0
    return s


def g_arc(d, center=None):
    """start, end, center, direction, quadrant mode: radius the same at both ends"""
    c = g_pt(d) if center is None else center
    r = d.pos(0.05, 20)
    direction = d.choice(['counterclockwise', 'clockwise'])
    single = d.boolean(0.3)
    a0 = d.choice([0, 90, 180, 270, d.integer(0, 3599) / 10.0])
    if single:
        sweep = d.choice([0, 90, d.integer(1, 899) / 10.0])
    else:
        sweep = d.choice([0, 90, 180, 270, d.integer(1, 3599) / 10.0, d.integer(1, 3599) / 10.0])
    a1 = a0 + (sweep if direction == 'counterclockwise' else -sweep)
    start = at(c, r, a0)
    end = start if sweep == 0 else at(c, r, a1)
    return start, end, c, direction, ('single-quadrant' if single else 'multi-quadrant')


def at(c, r, deg):
    """exact on the axes"""
    q = deg % 360
    ex = {0: (1, 0), 90: (0, 1), 180: (-1, 0), 270: (0, -1)}.get(q)
    if ex:
        return (c[0] + ex[0] * r, c[1] + ex[1] * r)
    return (c[0] + r * math.cos(math.radians(deg)), c[1] + r * math.sin(math.radians(deg)))


def gen(d, kind=None, units='?', kinds=KINDS, arc_apertures=('Circle', 'Rectangle', 'Obround', 'Polygon')):
    if kind is None:
        kind = d.choice(kinds)
    if units == '?':
        units = d.weighted([(4, 'inch'), (4, 'metric'), (1, None)])
    if kind == 'AMGroup' and units is None:
        units = 'inch'
    s = {'kind': kind, 'units': units, 'level_polarity': d.choice(['dark', 'clear'])}
    if kind in ('Line', 'Slot'):
        s['start'] = g_pt(d)
        s['end'] = s['start'] if d.boolean(0.1) else g_pt(d)
        if d.boolean(0.2):
            s['end'] = (s['end'][0], s['start'][1])
        if kind == 'Line':
            s['aperture'] = g_aperture(d, units)
        else:
            s['diameter'] = g_len(d)
    elif kind == 'Arc':
        s['start'], s['end'], s['center'], s['direction'], s['quadrant_mode'] = g_arc(d)
        s['aperture'] = g_aperture(d, units, arc_apertures)
    elif kind in ('Outline', 'Region'):
        s['primitives'] = g_contour(d, kind, units)
    elif kind == 'Donut':
        a, b = 0 if d.boolean(0.1) else g_len(d, 5), g_len(d, 5)
        s.update(position=g_pt(d), shape=d.choice(['round', 'square', 'hexagon', 'octagon']), inner_diameter=a,
                 outer_diameter=a + b)
    elif kind == 'SquareRoundDonut':
        a, b = 0 if d.boolean(0.1) else g_len(d, 5), g_len(d, 5)
        s.update(position=g_pt(d), inner_diameter=a, outer_diameter=a + b)
    elif kind == 'TestRecord':
        s.update(position=g_pt(d), net_name='NET%d' % d.integer(0, 9), layer=d.choice(['both', 'top', 'bottom']))
    elif kind == 'AMGroup':
        s['position'] = g_pt(d)
        s['words'] = g_words(d)
        s['level_polarity'] = 'dark'
    else:
        for name, t in SCHEMA[kind]:
            s[name] = (g_pt(d) if t == 'pt' else g_len(d) if t == 'len' else g_hole(d, kind, name) if t == 'hole' else None)
        if kind == 'Polygon':
            s['sides'] = d.integer(3, 12)
        if kind in ('ChamferRectangle', 'RoundRectangle'):
            s['corners'] = tuple(d.boolean() for _ in range(4))
            k = 'chamfer' if kind == 'ChamferRectangle' else 'radius'
            s[k] = round(min(s['width'], s['height']) * d.integer(1, 50) / 100.0, 6)
    if kind in ROTATES:
        s['rotation'] = g_ang(d)
    return s


def g_contour(d, kind, units):
    n = d.integer(3, 6) if kind == 'Outline' else d.integer(2, 5)
    ap = {'kind': 'Circle', 'units': units, 'level_polarity': 'dark', 'position': None,
          'diameter': 0 if kind == 'Outline' else g_len(d, 2), 'hole_diameter': None, 'hole_width': 0, 'hole_height': 0}
    pts = []
    mem = []
    cur = g_pt(d)
    first = cur
    for i in range(n):
        if kind == 'Region' and d.boolean(0.3):
            # an arc from the current point
            r, a, sw = d.pos(0.1, 10), d.integer(0, 3599) / 10.0, d.integer(1, 3599) / 10.0
            c = (cur[0] - r * math.cos(math.radians(a)), cur[1] - r * math.sin(math.radians(a)))
            dr = d.choice(['counterclockwise', 'clockwise'])
            end = at(c, r, a + (sw if dr == 'counterclockwise' else -sw))
            mem.append({'kind': 'Arc', 'units': units, 'level_polarity': 'dark', 'start': cur, 'end': end, 'center': c,
                        'direction': dr, 'quadrant_mode': 'multi-quadrant', 'aperture': ap})
            cur = end
            continue
        end = first if i == n - 1 else g_pt(d)
        mem.append({'kind': 'Line', 'units': units, 'level_polarity': 'dark', 'start': cur, 'end': end, 'aperture': ap})
        cur = end
    if cur != first:
        mem.append({'kind': 'Line', 'units': units, 'level_polarity': 'dark', 'start': cur, 'end': first, 'aperture': ap})
    return mem


def g_words(d):
    """macro primitives as lists of (value, is a length)"""
    out = []
    for _ in range(d.integer(1, 3)):
        def c():
            return (d.signed(2000) / 1000.0, True)
        def l():
            return (d.integer(10, 2000) / 1000.0, True)
        exp = (1, False)
        deg = (d.choice([0, 90, 45, d.integer(-360, 360)]), False)
        k = d.choice([1, 20, 21, 22, 4, 5, 7])
        if k == 1:
            w = [(1, False), exp, l(), c(), c(), deg]
        elif k == 20:
            a, b = (c(), c()), (c(), c())
            if a == b:
                b = ((a[0][0] + 1.0, True), a[1])
            w = [(20, False), exp, l(), a[0], a[1], b[0], b[1], deg]
        elif k in (21, 22):
            w = [(k, False), exp, l(), l(), c(), c(), deg]
        elif k == 4:
            n = d.integer(3, 6)
            pts = [(c(), c()) for _ in range(n)]
            w = [(4, False), exp, (n, False)]
            for p in pts + pts[:1]:
                w += list(p)
            w.append(deg)
        elif k == 5:
            w = [(5, False), exp, (d.integer(3, 12), False), (0, True), (0, True), l(), deg]
        else:
            do = d.integer(200, 3000) / 1000.0
            w = [(7, False), (0, True), (0, True), (do, True), (round(do * d.integer(10, 90) / 100.0, 4), True),
                 (round(do * d.integer(2, 30) / 100.0, 4), True), deg]
        out.append(w)
    return out


# --- building -----------------------------------------------------------------
def build(s, share=None):
    """the library's object; specs that are the same dict share one aperture object"""
    share = {} if share is None else share
    kw = {}
    if s.get('level_polarity') is not None and s['kind'] not in ('Drill', 'Slot'):
        kw['level_polarity'] = s['level_polarity']
    kw['units'] = s['units']
    if s.get('rotation'):
        kw['rotation'] = s['rotation']
    if s['kind'] == 'AMGroup':
        return build_am(s)
    for name, t in SCHEMA[s['kind']]:
        v = s[name]
        if t == 'ap':
            if id(v) not in share:
                share[id(v)] = build(v, share)
            v = share[id(v)]
        elif t == 'mem':
            v = [build(m, share) for m in v]
        elif name == 'corners':
            v = list(v)
        kw[name] = v
    return getattr(gp, s['kind'])(**kw)


def dec(v):
    t = ('%.15f' % v).rstrip('0').rstrip('.')
    return '0' if t in ('-0', '') else t


def build_am(s):
    body = '*'.join(','.join(dec(v) for v, _ in w) for w in s['words'])
    stmt = AMParamStmt('AM', 'SHAPE', body)
    stmt.units = s['units']
    stmt.build([[0]])
    g = gp.AMGroup(stmt.primitives, stmt=stmt, units=s['units'])
    g.position = s['position']
    return g


# --- what happens to the parameters ---------------------------------------------
def transform(s, k=1, dx=0, dy=0, units=None, memo=None):
    """a new spec: lengths times k, then points moved by (dx, dy)"""
    memo = {} if memo is None else memo
    if id(s) in memo:
        return memo[id(s)][0]
    n = dict(s)
    memo[id(s)] = (n, s)
    if units:
        n['units'] = units
    for name, t in SCHEMA[s['kind']]:
        v = s[name]
        if v is None:
            continue
        if t == 'pt':
            n[name] = (v[0] * k + dx, v[1] * k + dy)
        elif t in ('len', 'hole'):
            n[name] = v * k
        elif t == 'ap':
            n[name] = transform(v, k, 0, 0, units, memo)
        elif t == 'mem':
            n[name] = [transform(m, k, dx, dy, units, memo) for m in v]
        elif t == 'words':
            n[name] = [[(x * k if isl else x, isl) for x, isl in w] for w in v]
    return n


def converted(s, units):
    if s['units'] is None or s['units'] == units:
        return s
    return transform(s, 25.4 if units == 'metric' else 1 / 25.4, 0, 0, units)


# --- observing ---------------------------------------------------------------------
def plain(v):
    if isinstance(v, (list, tuple)):
        return tuple(plain(x) for x in v)
    if isinstance(v, gp.Primitive):
        return snap(v)
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    raise Violation('a parameter or derived value is a %s' % type(v).__name__)


def params(o):
    k = type(o).__name__
    out = {'kind': k, 'units': o.units, 'level_polarity': o.level_polarity}
    if k == 'AMGroup':
        out['position'] = plain(o.position)
        out['members'] = tuple(snap(p) for p in o.primitives)
        if o.stmt is not None:
            out['stmt'] = o.stmt.units
        return out
    for name, t in SCHEMA[k]:
        out[name] = plain(getattr(o, name))
    if k in ROTATES:
        out['rotation'] = o.rotation
    return out


def read(o, name):
    how = dict(DERIVED[type(o).__name__])[name]
    v = getattr(o, name)
    if how == 'ang':
        return (math.cos(v), math.sin(v))
    if how == 'hull':
        if v is None:
            return None
        pts = plain(v)
        return tuple(max(x * math.cos(a) + y * math.sin(a) for x, y in pts)
                     for a in [math.pi * i / 8 for i in range(16)])
    if how == 'segs':
        if v is None:
            return None
        vs = o.vertices
        if len(v) != len(vs) * (len(vs) - 1) // 2:
            raise Violation('%d segments for %d vertices' % (len(v), len(vs)))
        return None
    if how == 'subs':
        return tuple((n, plain(tuple(getattr(v[n], 'position'))), v[n].bounding_box) for n in sorted(v))
    return plain(v)


def snap(o):
    """everything an observer can see: parameters, then derived values"""
    out = params(o)
    for name, _ in DERIVED[out['kind']]:
        if out['kind'] in ('Circle', 'Rectangle', 'Obround', 'Polygon') and o.position is None:
            continue      # an aperture
        if name == 'bounding_box' and type(getattr(o, 'aperture', None)).__name__ in ('AMGroup', 'NoneType') \
                and out['kind'] in ('Line', 'Arc'):
            continue      # a contour segment, which has no width
        out['.' + name] = read(o, name)
    return out


def compare(a, b, rel=1e-9, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return '%s: %s' % (path, sorted(set(a) ^ set(b)))
        for k in a:
            r = compare(a[k], b[k], rel, path + '.' + k.lstrip('.'))
            if r:
                return r
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return '%s: %r, expected %r' % (path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            r = compare(x, y, rel, '%s[%d]' % (path, i))
            if r:
                return r
        return None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        if abs(a - b) <= rel * (1 + abs(a) + abs(b)) * 10:
            return None
        return '%s: %r, expected %r' % (path, a, b)
    return None if a == b else '%s: %r, expected %r' % (path, a, b)


def brief(s):
    out = {}
    for k, v in s.items():
        if isinstance(v, dict):
            v = brief(v)
        elif isinstance(v, list) and v and isinstance(v[0], dict):
            v = [brief(x) for x in v]
        out[k] = v
    return out


# --- histories -----------------------------------------------------------------------
def setters(s):
    k = s['kind']
    out = [(n, t) for n, t in SCHEMA[k] if t in ('pt', 'len', 'hole', 'any', 'ap')]
    if k in ROTATES:
        out += [('rotation', 'ang'), ('rotation', 'ang')]
    return out


def new_value(d, s, name, t):
    k = s['kind']
    if t == 'pt':
        return g_pt(d)
    if name == 'outer_diameter':
        return s['inner_diameter'] + g_len(d)
    if name == 'inner_diameter':
        return s['outer_diameter'] * d.integer(1, 99) / 100.0
    if t == 'len':
        return g_len(d)
    if t == 'hole':
        return g_hole(d, k, name)
    if t == 'ang':
        return g_ang(d)
    if name == 'sides':
        return d.integer(3, 12)
    if name == 'corners':
        return tuple(d.boolean() for _ in range(4))
    if name == 'shape':
        return d.choice(['round', 'square', 'hexagon', 'octagon'])
    if name == 'direction':
        return d.choice(['clockwise', 'counterclockwise'])
    if name == 'quadrant_mode':
        return d.choice(['multi-quadrant', 'single-quadrant'])
    return d.choice(['A', 'B', 'both'])


def do_set(d, s, o):
    """change one parameter of spec and object alike -> (new spec, text)"""
    k = s['kind']
    if k in ('Outline', 'Region'):
        i = d.below(len(s['primitives']))
        if k == 'Outline':      # a corner: the chain stays closed
            v = g_pt(d)
            mem = [dict(m) for m in s['primitives']]
            j = (i + 1) % len(mem)
            o.primitives[i].end = mem[i]['end'] = v
            o.primitives[j].start = mem[j]['start'] = v
            n = dict(s)
            n['primitives'] = mem
            return n, 'corner %d=%r' % (j, v)
        if d.boolean(0.3):
            v = (d.mm(20), d.mm(20))
            o.primitives[i].offset(*v)
            m, what = transform(s['primitives'][i], 1, v[0], v[1]), 'offset%r' % (v,)
            m['aperture'] = s['primitives'][i]['aperture']
        else:
            name = d.choice(['start', 'end'])
            v = g_pt(d)
            setattr(o.primitives[i], name, v)
            m = dict(s['primitives'][i])
            m[name] = v
            what = '%s=%r' % (name, v)
        n = dict(s)
        n['primitives'] = s['primitives'][:i] + [m] + s['primitives'][i + 1:]
        return n, 'primitives[%d].%s' % (i, what)
    name, t = d.choice(setters(s))
    n = dict(s)
    if t == 'ap':
        if d.boolean(0.5):
            n[name] = g_aperture(d, s['units'])
            setattr(o, name, build(n[name]))
            return n, 'aperture=%r' % (brief(n[name]),)
        an, at_ = d.choice([x for x in setters(s[name]) if x[1] in ('len', 'hole') or x[0] == 'sides'])
        v = new_value(d, s[name], an, at_)
        setattr(o.aperture, an, v)
        n[name] = dict(s[name])
        n[name][an] = v
        return n, 'aperture.%s=%r' % (an, v)
    v = new_value(d, s, name, t)
    if name == 'corners':
        setattr(o, name, list(v))
    else:
        setattr(o, name, v)
    n[name] = v
    return n, '%s=%r' % (name, v)


def step(d, s, o, ops):
    op = d.choice(ops)
    if op == 'read':
        names = [n for n, _ in DERIVED[s['kind']]]
        if not names:
            return s, 'none'
        if d.boolean(0.5):
            snap(o)
            return s, 'read all'
        n = d.choice(names)
        read(o, n)
        return s, 'read ' + n
    if op in ('inch', 'metric'):
        getattr(o, 'to_' + op)()
        return converted(s, op), 'to_' + op
    if op == 'offset':
        v = (d.mm(100), d.mm(100))
        w = d.below(8)
        if w == 0:
            o.offset(x_offset=v[0])
            v = (v[0], 0)
        elif w == 1:
            o.offset(y_offset=v[1])
            v = (0, v[1])
        else:
            o.offset(*v)
        return transform(s, 1, v[0], v[1]), 'offset%r' % (v,)
    return do_set(d, s, o)


def expect(o, s, what):
    r = compare(snap(o), snap(build(s)))
    if r:
        raise Violation('%s: %s%s' % (what, s['kind'], r))
