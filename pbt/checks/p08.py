"""P08: offsetting translates the geometry and does nothing else."""
import ast
import math
from fractions import Fraction
from engine import Violation
from prims import gen, build, step, expect, snap, compare, brief, transform
from gmodel import to_text, label
from checks.p03 import gen as gen_file, image, write, diff_abs
from dmodel import DGen, Model, operate, load, label as label_drill
from checks.p13 import scratch, check_reread
from checks.p14 import check_boxes, check_counts
from gerber import rs274x, excellon
import os

TECHNIQUE = 'histories of offsets, reads and conversions on generated objects and files, against freshly built translated objects'
NOTE = 'Every class of gerber.primitives and generated Gerber and Excellon files; no counterexample among the cases counted in the evidence.'
RULE = ('a case is one generated object of any class (unit object) or a generated RS-274X program (unit file) or '
        'Excellon program (unit drill), taken through offsets mixed with reads and conversions; parameters and '
        'derived values are compared with an object built at the translated place; non-trivial = an offset along '
        'both axes after a read')
ASSUMPTIONS = ['a move with both coordinates precedes the first operation of a file, so no object relies on the initial position']


def prop_object(d):
    s = gen(d)
    o = build(s)
    hist = []
    d.show(spec=brief(s), history=hist)
    s0 = s
    read = eff = False
    for _ in range(d.size(1, 7)):
        s, what = step(d, s, o, ['offset', 'offset', 'offset', 'read', 'read', 'inch', 'metric'])
        hist.append(what)
        if what.startswith('read'):
            read = True
        if what.startswith('offset') and read:
            eff = True
        if d.boolean(0.5):
            expect(o, s, repr(hist))
    expect(o, s, repr(hist))
    # back to where it was
    a = snap(o)
    v = (d.mm(50), d.mm(50))
    o.offset(*v)
    s2 = transform(s, 1, v[0], v[1])
    expect(o, s2, '%r and offset%r' % (hist, v))
    o.offset(-v[0], -v[1])
    r = compare(snap(o), a)
    if r:
        raise Violation('%r, offset by %r and back: %s' % (hist, v, r))
    d.label(s['kind'])
    if eff and v[0] and v[1]:
        d.nontrivial(repr((brief(s0), hist)))


# which values are positions
POINT = ('position', 'start', 'end', 'center', 'upper_right', 'lower_left')
BOX = ('bounding_box', 'bounding_box_no_aperture')


def snap_any(p):
    if type(p).__name__ == 'AMGroup':
        return {'kind': 'AMGroup', 'position': tuple(p.position), 'units': p.units, '.bounding_box': p.bounding_box,
                'primitives': tuple(snap_any(q) for q in p.primitives), 'level_polarity': p.level_polarity}
    return snap(p)


def shift(v, dx, dy):
    """the snapshot of a Gerber object moved by (dx, dy)"""
    out = {}
    for k, x in v.items():
        n = k.lstrip('.')
        if x is None or n == 'aperture':
            out[k] = x
        elif n in POINT:
            out[k] = (x[0] + dx, x[1] + dy)
        elif n in BOX:
            out[k] = ((x[0][0] + dx, x[0][1] + dx), (x[1][0] + dy, x[1][1] + dy))
        elif n == 'vertices' and v['kind'] == 'Line':
            out[k] = tuple(h + dx * math.cos(math.pi * i / 8) + dy * math.sin(math.pi * i / 8) for i, h in enumerate(x))
        elif n == 'vertices':
            out[k] = tuple((a + dx, b + dy) for a, b in x)
        elif n == 'segments':
            out[k] = tuple(((a + dx, b + dy), (c + dx, e + dy)) for (a, b), (c, e) in x)
        elif n == 'primitives':
            out[k] = tuple(shift(q, dx, dy) for q in x)
        elif n == 'subshapes':
            out[k] = tuple((m, (p[0] + dx, p[1] + dy), ((b[0][0] + dx, b[0][1] + dx), (b[1][0] + dy, b[1][1] + dy)))
                           for m, p, b in x)
        else:
            out[k] = x
    return out


def fuzzy(v, dx, dy):
    """a feature so small against its distance from the origin that rounding decides its direction"""
    pts = [v[k] for k in ('start', 'end', 'center') if isinstance(v.get(k), tuple)]
    mag = max([1e-9] + [abs(c) for p in pts for c in p] + [abs(dx), abs(dy)])
    return any(a != b and math.hypot(a[0] - b[0], a[1] - b[1]) < mag * 1e-5 for a in pts for b in pts)


def settle(a, b, unit):
    """box a, or box b when they differ by less than a unit of the coordinates

    The two ends of an arc lie on its circle to within that; which of them the rounding of an angle puts past
    an extreme of the circle decides that much of a box.
    """
    try:
        if all(abs(x - y) <= unit for p, q in zip(a, b) for x, y in zip(p, q)):
            return b
    except TypeError:
        pass
    return a


def sharp(a, b, dx, dy, unit):
    """both snapshots without the derived values that rounding decides"""
    if '.bounding_box' in b and '.bounding_box' in a and b.get('kind') in ('Arc', 'Region', 'AMGroup'):
        a = dict(a)
        for k in BOX:
            if '.' + k in b:
                a['.' + k] = settle(a['.' + k], b['.' + k], unit)
    if b.get('kind') in ('Line', 'Arc') and fuzzy(b, dx, dy):
        return tuple(dict((k, v) for k, v in s.items() if not k.startswith('.')) for s in (a, b))
    if isinstance(b.get('primitives'), tuple) and len(a['primitives']) == len(b['primitives']):
        pairs = [sharp(x, y, dx, dy, unit) for x, y in zip(a['primitives'], b['primitives'])]
        a, b = dict(a), dict(b)
        a['primitives'], b['primitives'] = tuple(x for x, _ in pairs), tuple(y for _, y in pairs)
        if any(fuzzy(y, dx, dy) for _, y in pairs):
            a.pop('.bounding_box', None), b.pop('.bounding_box', None)
    return a, b


def prop_file(d):
    p = gen_file(d, fit_conversion=True, single_quadrant=False, notation='any')
    text = to_text(p)
    label(d, p)
    f = rs274x.loads(text)
    hist = []
    d.show(text=text, history=hist)
    objs = [snap_any(q) for q in f.primitives]
    bounds, box = f.bounds, f.bounding_box
    n = len(f.statements)
    tot = [0.0, 0.0]
    unit = 1.01 * 10.0 ** -p.fmt[1]
    m = (10 ** p.fmt[0]) / 100.0
    for _ in range(d.integer(1, 3)):
        v = (d.signed(1000) / 1000.0 * m, d.signed(1000) / 1000.0 * m)
        f.offset(*v)
        hist.append(v)
        tot = [tot[0] + v[0], tot[1] + v[1]]
        now = [snap_any(q) for q in f.primitives]
        if len(now) != len(objs) or len(f.statements) != n:
            raise Violation('%r: %d objects and %d statements, there were %d and %d' % (
                hist, len(now), len(f.statements), len(objs), n))
        for i, (a, b) in enumerate(zip(now, objs)):
            r = compare(*sharp(a, shift(b, tot[0], tot[1]), tot[0], tot[1], unit), rel=1e-9)
            if r:
                raise Violation('%r: object %d (%s)%s' % (hist, i, b['kind'], r))
        sh = shift({'bounding_box': bounds, '.bounding_box': box, 'kind': ''}, tot[0], tot[1])
        r = compare((f.bounds, settle(f.bounding_box, sh['.bounding_box'], unit) if objs else None), (sh['bounding_box'], sh['.bounding_box'] if objs else None))
        if r:
            raise Violation('%r: bounds and bounding box%s' % (hist, r))
        if f.units != p.units:
            raise Violation('units changed')
    # the written text describes the moved image
    top = 10 ** p.fmt[0] - 1
    if max([abs(c) for s in f.statements if hasattr(s, 'x') for c in (s.x, s.y) if c is not None] or [0]) < top:
        out = write(f)
        d.show(text=text, history=hist, written=out)
        g = rs274x.loads(out)
        r = diff_abs(image(g), image(f), 1.01 * 10.0 ** -p.fmt[1] + 1e-8)
        if r:
            raise Violation('%r: written and read again, object%s' % (hist, r))
        d.label('written')
    back = (-tot[0], -tot[1])
    f.offset(*back)
    for i, (a, b) in enumerate(zip([snap_any(q) for q in f.primitives], objs)):
        r = compare(*sharp(a, b, tot[0], tot[1], unit))
        if r:
            raise Violation('%r and back: object %d (%s)%s' % (hist, i, b['kind'], r))
    if len(objs) >= 2 and tot[0] and tot[1]:
        d.nontrivial(text + repr(hist))


COORDS = (('x', 0), ('y', 1), ('x_start', 0), ('x_end', 0), ('y_start', 1), ('y_end', 1))


def stated(f):
    return [tuple(getattr(s, a, None) for a, _ in COORDS) if type(s).__name__ in ('CoordinateStmt', 'SlotStmt') else None
            for s in f.statements]


def check_stated(f, before, v, hist):
    """coordinates of the statements have moved along, those which are not stated have not appeared"""
    now = stated(f)
    if len(now) != len(before):
        raise Violation('%r: %d statements, there were %d' % (hist, len(now), len(before)))
    for i, (a, b) in enumerate(zip(now, before)):
        want = b and tuple(c if c is None else c + v[k] for c, (_, k) in zip(b, COORDS))
        r = compare(a, want)
        if r:
            raise Violation('%r: statement %d (%s)%s' % (hist, i, type(f.statements[i]).__name__, r))


def prop_drill(d):
    p = DGen(d, limit=d.choice([1, Fraction(1, 30)])).run()
    f = load(p)
    m = Model(p)
    hist = []
    d.show(text=p.text, given=repr(p.given), ext=repr(p.ext), history=hist)
    label_drill(d, p)
    sized = all(t['diameter'] is not None for t in m.tools.values())
    absolute = f.notation == 'absolute' and not any(type(s).__name__ == 'IncrementalModeStmt' for s in f.statements)
    read = eff = False
    for _ in range(d.choice([1, 1, 2, 3, 5])):
        before = stated(f)
        w = operate(d, f, m, ('offset', 'offset', 'offset', 'read', 'read', 'inch', 'metric'))
        hist.append(w)
        if absolute and w.startswith('offset'):
            check_stated(f, before, ast.literal_eval(w[6:]), hist)
        read = read or w == 'read'
        eff = eff or w.startswith('offset')
        if sized and d.boolean(0.6):
            check_boxes(f, m)
    if sized:
        check_boxes(f, m)
        check_counts(f, m)
    if eff and len(p.holes) >= 2:
        d.nontrivial(p.text + repr(hist))
    if m.fits() and d.boolean(0.5):
        path = scratch('p08')
        try:
            f.write(path)
            with open(path) as h:
                text = h.read()
        finally:
            if os.path.exists(path):
                os.remove(path)
        check_reread(excellon.loads(text, settings=f.settings), m)
        d.label('written')


UNITS = [
    {'name': 'object', 'prop': prop_object, 'n': {'quick': 40000, 'thorough': 1500000}},
    {'name': 'file', 'prop': prop_file, 'n': {'quick': 8000, 'thorough': 200000}},
    {'name': 'drill', 'prop': prop_drill, 'n': {'quick': 8000, 'thorough': 200000}},
]
