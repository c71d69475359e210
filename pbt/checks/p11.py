"""P11: derived geometry never goes stale."""
from engine import Violation
from prims import gen, build, step, expect, snap, compare, brief

TECHNIQUE = 'model-based histories (set, resize, rotate, replace or change the aperture, move, convert, read) against freshly built objects'
NOTE = 'Every class of gerber.primitives; no counterexample among the cases counted in the evidence.'
RULE = ('a case is one generated object of any class with a history of 1-10 changes (any settable parameter, '
        'rotation, aperture replaced or resized in place, contour members moved, offset, conversion) mixed with '
        'reads; non-trivial = some derived value was read before a later change')
ASSUMPTIONS = ['members and apertures are changed through their own attributes, not by replacing private fields']


def prop_history(d):
    s = gen(d)
    o = build(s)
    hist = []
    d.show(spec=brief(s), history=hist)
    s0 = s
    read = eff = False
    exact = s['kind'] != 'AMGroup'
    if d.boolean(0.3):
        snap(o)
        hist.append('read all')
        read = True
    for _ in range(d.size(1, 10)):
        s, what = step(d, s, o, ['set', 'set', 'set', 'read', 'read', 'offset', 'inch', 'metric'])
        hist.append(what)
        if what.startswith('read'):
            read = True
        else:
            eff = eff or read
            if 'offset' in what or what.startswith('to_'):
                exact = False           # these round
        if d.boolean(0.4):
            expect(o, s, repr(hist))
    expect(o, s, repr(hist))
    if exact:
        if d.boolean(0.5):
            snap(o)
        f = build(s)
        if not (o == f) or not (f == o):
            raise Violation('%r: not equal to an object built with the same parameters' % (hist,))
        d.label('equality')
    d.label(s['kind'])
    if eff:
        d.nontrivial(repr((brief(s0), hist)))


UNITS = [
    {'name': 'history', 'prop': prop_history, 'n': {'quick': 50000, 'thorough': 2000000}},
]
