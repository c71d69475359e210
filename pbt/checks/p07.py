"""P07: unit conversion of graphical objects and Gerber files."""
from engine import Violation
import prims
from prims import gen, build, converted, transform, step, expect, snap, compare, brief
from gmodel import Gen, to_text, label
from checks.p03 import gen as gen_file
from gerber import rs274x

TECHNIQUE = 'histories of conversions, reads and moves on generated objects and files, against freshly built objects with scaled parameters'
NOTE = 'Every class of gerber.primitives and generated Gerber files; no counterexample among the cases counted in the evidence.'
RULE = ('a case is one generated object of any class (unit object), a group of 2-4 objects sharing an aperture '
        '(unit shared) or a generated RS-274X program (unit file), taken through a sequence of to_inch/to_metric '
        'calls mixed with reads and offsets; every parameter and derived value is compared with an object built '
        'from scaled parameters; non-trivial = at least one effective conversion after a read')
ASSUMPTIONS = ['coordinates stay below a million units (GerberFile.bounds starts from that value)']


def prop_object(d):
    s = gen(d)
    o = build(s)
    hist = []
    d.show(spec=brief(s), history=hist)
    s0 = s
    read = eff = False
    for _ in range(d.size(1, 7)):
        s2, what = step(d, s, o, ['inch', 'metric', 'inch', 'metric', 'read', 'offset'])
        hist.append(what)
        read = read or what.startswith('read')
        if what.startswith('to_'):
            if s2 is not s and read:
                eff = True
            if s2 is s:
                # nothing may change: compare exactly with a second call
                a = snap(o)
                getattr(o, what)()
                if snap(o) != a:
                    raise Violation('%r: a conversion to the units in use changes %s' % (hist, s['kind']))
        s = s2
        if d.boolean(0.5):
            expect(o, s, repr(hist))
    expect(o, s, repr(hist))
    d.label(s['kind'])
    # there and back
    if s['units'] is not None:
        a = snap(o)
        other = 'metric' if s['units'] == 'inch' else 'inch'
        getattr(o, 'to_' + other)()
        if o.units != other:
            raise Violation('units are %r after to_%s' % (o.units, other))
        getattr(o, 'to_' + s['units'])()
        r = compare(snap(o), a)
        if r:
            raise Violation('%r, converted there and back: %s' % (hist, r))
    if eff:
        d.nontrivial(repr((brief(s0), hist)))


def prop_shared(d):
    units = d.choice(['inch', 'metric'])
    ap = prims.g_aperture(d, units, ('Circle', 'Rectangle'))
    specs = []
    for _ in range(d.integer(2, 4)):
        s = gen(d, d.choice(['Line', 'Arc', 'Line']), units)
        s['aperture'] = ap
        specs.append(s)
    share = {}
    objs = [build(s, share) for s in specs]
    hist = []
    d.show(specs=[brief(s) for s in specs], history=hist)
    for _ in range(d.integer(1, 3)):
        for i, o in enumerate(objs):
            if d.boolean():
                snap(o)
                hist.append('read %d' % i)
        u = d.choice(['inch', 'metric'])
        for o in d.shuffled(objs):
            getattr(o, 'to_' + u)()
        hist.append('to_' + u)
        specs = [converted(s, u) for s in specs]
        for o, s in zip(objs, specs):
            expect(o, s, repr(hist))
    d.nontrivial(repr((specs, hist)))


def everything(f):
    return {'units': f.units, 'sunits': f.settings.units, 'bounds': f.bounds, 'size': f.size,
            'box': f.bounding_box if f.primitives else None,
            'objects': [snap_any(p) for p in f.primitives]}


def snap_any(p):
    if type(p).__name__ == 'AMGroup':
        return ('AMGroup', tuple(p.position), tuple(snap_any(q) for q in p.primitives), p.units, p.bounding_box)
    s = snap(p)
    return tuple(sorted(s.items(), key=lambda kv: kv[0]))


# names of values that are lengths or positions (everything else must not change)
KEEP = ('angle', 'start_angle', 'end_angle', 'sweep_angle', 'rotation', 'sides', 'kind', 'units', 'level_polarity',
        'direction', 'quadrant_mode', 'flashed', 'orientation', 'corners', 'net_name', 'layer')


def scaled(v, k, units, name=''):
    """the snapshot an observer should see after the conversion"""
    if isinstance(v, dict):
        return dict((n, scaled(x, k, units, n.lstrip('.'))) for n, x in v.items())
    if isinstance(v, list):
        return [scaled(x, k, units, name) for x in v]
    if isinstance(v, tuple):
        if len(v) == 2 and isinstance(v[0], str):
            return (v[0], scaled(v[1], k, units, v[0].lstrip('.')))
        return tuple(scaled(x, k, units, name) for x in v)
    if v in ('inch', 'metric'):
        return units
    if name in KEEP or isinstance(v, (bool, str)) or v is None:
        return v
    return v * k


def listy(v):
    if isinstance(v, list):
        return tuple(listy(x) for x in v)
    if isinstance(v, tuple):
        return tuple(listy(x) for x in v)
    if isinstance(v, dict):
        return dict((k, listy(x)) for k, x in v.items())
    return v


def prop_file(d):
    p = gen_file(d, notation='any')
    text = to_text(p)
    label(d, p)
    f = rs274x.loads(text)
    hist = []
    d.show(text=text, history=hist)
    g = rs274x.loads(text)          # never read from before its conversion
    state = everything(f)
    u = p.units
    for _ in range(d.integer(1, 3)):
        t = d.choice(['inch', 'metric'])
        getattr(f, 'to_' + t)()
        hist.append('to_' + t)
        if t != u:
            state = scaled(state, 25.4 if t == 'metric' else 1 / 25.4, t)
            u = t
        r = compare(listy(everything(f)), listy(state))
        if r:
            raise Violation('%r: file%s' % (hist, r))
        if d.boolean(0.3):
            v = (d.mm(10), d.mm(10))
            f.offset(*v)
            f.offset(-v[0], -v[1])
            hist.append('offset there and back')
    getattr(g, 'to_' + u)()
    r = compare(listy(everything(g)), listy(state))
    if r:
        raise Violation('converted unread to %s: file%s' % (u, r))
    if len(f.primitives) >= 2:
        d.nontrivial(text + repr(hist))


UNITS = [
    {'name': 'object', 'prop': prop_object, 'n': {'quick': 40000, 'thorough': 1500000}},
    {'name': 'shared', 'prop': prop_shared, 'n': {'quick': 8000, 'thorough': 200000}},
    {'name': 'file', 'prop': prop_file, 'n': {'quick': 8000, 'thorough': 200000}},
]
