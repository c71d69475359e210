"""P03: writing a Gerber file and reading it back."""
import copy
import os
from engine import Violation, Discard
from gmodel import Gen, to_text, describe, diff, label, num_text
from gerber import rs274x
from gerber.cam import FileSettings

TECHNIQUE = 'generated RS-274X programs taken through operations, written and read again (round trip), also compared byte for byte on a second write'
NOTE = 'No counterexample among the generated cases counted in the evidence.'
RULE = ('a case is one generated RS-274X program (apertures with holes, macros with shared parameters, '
        'draws, arcs, flashes, regions, polarity) read, optionally converted/offset, written (optionally under '
        'other number-format settings), re-read and re-written; non-trivial = at least 3 objects')
ASSUMPTIONS = ['absolute notation where operations come in between; coordinates also fit the format after conversion',
               'a move with both coordinates precedes the first operation, so no object relies on the initial position',
               'after a change, arcs are multi-quadrant (the rounding of a single-quadrant arc is ambiguous)']


def loosely(a, b, tol, where=''):
    """numeric difference allowed everywhere except in counts and names"""
    return diff_abs(a, b, tol, where)


def diff_abs(a, b, tol, path=''):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return '%s: %d items, expected %d' % (path or 'object list', len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff_abs(x, y, tol, '%s[%d]' % (path, i))
            if r:
                return r
        return None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if abs(a - b) <= tol:
            return None
        return '%s: %r, expected %r (tolerance %g)' % (path, a, b, tol)
    return None if a == b else '%s: %r, expected %r' % (path, a, b)


def same_image(a, b, tol, what):
    r = diff_abs(a, b, tol)
    if r:
        i = int(r[1:r.index(']')]) if r.startswith('[') else None
        extra = '\n written object  %r\n original object %r' % (a[i], b[i]) if i is not None else ''
        raise Violation('%s: object%s%s' % (what, r, extra))


def write(f, settings=None):
    path = os.path.join(os.environ['PBT_SCRATCH'], 'out.gbr')
    if settings is None:
        f.write(path)
    else:
        f.write(path, settings)
    with open(path) as fh:
        return fh.read()


def describe_am(p):
    """flashed macro groups may hold any macro primitive"""
    n = type(p).__name__
    if n == 'AMGroup':
        return ('flashAM', tuple(p.position), tuple(describe_am(q) for q in p.primitives), p.level_polarity, p.units)
    return describe(p)


def image(f):
    return [describe_am(p) for p in f.primitives]


MACROS = [   # (body, number of parameters, kinds of the parameters: length or angle)
    ('21,1,$1,$2,$3,0.1,$4', 'llla'), ('20,1,$1,0,0,$2,0.25,$3', 'lla'), ('1,1,$1,0.5,$2', 'll'),
    ('22,1,0.25,$1,0,$2,$3', 'lla'), ('5,1,6,0,0,$1,$2', 'la'), ('7,0,0,$1+2,0.5,0.1,$2', 'la'),
    ('4,1,4,$1,0.1,0.5,0.1,0.5,0.5,0.1,0.5,$1,0.1,$2', 'la'),
    ('0 $1 = width*$3=$1x2+0.01*1,1,$3,0,0*1,0,$3/4,$2,-$2', 'll'),
    ('$2=$1/2*21,1,$1+0.1,$2,0.1x(1+1),0,30*1,0,0.00002,$1-0.5,.5', 'l'),
    ('20,1,0.05,-0.1,-0.2,0.1,0.2,0*0 last', ''), ('5,0,8,0.1,0.2,0.3,0', ''),
    ('1,1,0.00001,0,0', ''), ('1,1,0.12345678,1.00000001,0,15', ''),
]


def rich_macros(d, g):
    """declare macros of every primitive kind, shared by several apertures"""
    for n in range(d.integer(1, 2)):
        body, kinds = d.choice(MACROS)
        name = 'RICH%d' % n
        g.add('param', 'AM%s*%s' % (name, body))
        for _ in range(d.integer(0, 3)):
            ps = [g.dim() if k == 'l' else float(d.choice([0, 45, 90, d.integer(-180, 180)])) for k in kinds]
            code = g.next_d
            g.next_d += 1
            g.add('param', 'ADD%d%s%s' % (code, name, (',' + 'X'.join(num_text(v) for v in ps)) if ps else ''))
            g.aps[code] = ('AM', ())
            g.p.f('rich macro')


class RichGen(Gen):
    rich = False

    def start(self):
        Gen.start(self)
        if self.rich:
            rich_macros(self.d, self)
        x, y = self.coord(), self.coord()
        self.add('coord', {'x': x, 'y': y, 'd': 'D02', 'full': (x, y, 'D02')})
        self.x, self.y = x, y


def gen(d, **kw):
    g = RichGen(d, **kw)
    g.rich = d.boolean(0.6)
    p = g.run()
    # a hole word, image options that do not change what is read
    return p


def prop_plain(d):
    p = gen(d, line_apertures=('C', 'R', 'O', 'P'), notation='any')
    text = to_text(p)
    d.show(text=text)
    label(d, p)
    if len(p.objects) >= 3:
        d.nontrivial(text)
    f = rs274x.loads(text)
    before = image(f)
    out = write(f)
    d.show(text=text, written=out)
    same_image(image(f), before, 0, 'writing changed the file itself')
    g = rs274x.loads(out)
    same_image(image(g), before, 1e-9, 'after write and read')
    settings_same(g, f, p)
    out2 = write(g)
    if out2 != out:
        raise Violation('second write differs: %r' % first_line_diff(out2, out))
    path = os.path.join(os.environ['PBT_SCRATCH'], 'in.gbr')
    with open(path, 'w') as fh:
        fh.write(out)
    same_image(image(rs274x.read(path)), before, 1e-9, 'after reading the written file')


def first_line_diff(a, b):
    for x, y in zip(a.split('\n'), b.split('\n')):
        if x != y:
            return (x, y)
    return (len(a), len(b))


def settings_same(g, f, p):
    for s in ('units', 'notation'):
        if getattr(g, s) != getattr(f, s):
            raise Violation('%s is %r, was %r' % (s, getattr(g, s), getattr(f, s)))
    if tuple(g.format) != tuple(f.format) or g.settings.zero_suppression != f.settings.zero_suppression:
        raise Violation('format %r %r, was %r %r' % (g.format, g.zero_suppression, f.format, f.zero_suppression))


def prop_changed(d):
    kw = dict(fit_conversion=True, single_quadrant=False)
    p = gen(d, **kw)
    text = to_text(p)
    f = rs274x.loads(text)
    if len(p.objects) >= 3:
        d.nontrivial(text)
    label(d, p)
    hist = []
    fmt = p.fmt
    top = 10 ** p.fmt[0]
    room = top / 26.0 / 4
    for _ in range(d.integer(1, 3)):
        k = d.below(4)
        if k < 2:
            u = ['inch', 'metric'][k]
            f.to_inch() if k == 0 else f.to_metric()
            hist.append('to_' + u)
        else:
            v = (d.signed(1000) / 1000.0 * room * (0.01 if f.units == 'inch' else 0.2),
                 d.signed(1000) / 1000.0 * room * (0.01 if f.units == 'inch' else 0.2))
            f.offset(*v)
            hist.append(('offset', v))
    settings = None
    if d.boolean(0.4):
        settings = FileSettings(format=(6, d.integer(4, 7)), zero_suppression=d.choice(['leading', 'trailing']),
                                units=f.units)
        fmt = settings.format
        hist.append(('write with', settings.format, settings.zero_suppression))
    d.show(text=text, history=hist)
    if max([abs(c) for s in f.statements if hasattr(s, 'x') for c in (s.x, s.y, s.i, s.j) if c is not None] or [0]) >= 10 ** fmt[0] - 1:
        raise Discard()
    before = image(f)
    out = write(f, settings)
    d.show(text=text, history=hist, written=out)
    same_image(image(f), before, 0, 'writing changed the file itself')
    g = rs274x.loads(out)
    if g.units != f.units:
        raise Violation('units are %s, were %s' % (g.units, f.units))
    # half a unit of the last place per coordinate, centres add up two of them
    res = 10.0 ** -fmt[1]
    same_image(image(g), before, 1.01 * res + 1e-8, 'after %r, write and read' % (hist,))
    out2 = write(g)
    if out2 != out:
        raise Violation('second write differs: %r' % (first_line_diff(out2, out),))


UNITS = [
    {'name': 'plain', 'prop': prop_plain, 'n': {'quick': 10000, 'thorough': 300000}},
    {'name': 'changed', 'prop': prop_changed, 'n': {'quick': 10000, 'thorough': 300000}},
]
