"""P12: Excellon interpretation against the generator's own execution of the rules."""
from engine import Violation
from dmodel import DGen, load, holes_of, same_hole, show_hole, near, label

TECHNIQUE = 'generated Excellon programs against the generator\'s own execution of their commands'
NOTE = 'No counterexample among the generated programs counted in the evidence.'
RULE = ('a case is one generated Excellon program (header styles, formats, zero modes, units, notation, tools, holes, '
        'repeats, slots, routs, modal omissions); non-trivial = at least 3 holes or slots')
ASSUMPTIONS = ['a program uses one unit, stated before its tools', 'format statements come before tool definitions',
               'a program stating its zero mode uses it throughout', 'G85 and repeats are used in drill mode only',
               'M00 is only generated where the next tool number is known', 'tool numbers have at most three digits, two in Holesize comments']


def check_tools(f, tools):
    if sorted(f.tools) != sorted(tools):
        raise Violation('tools %r, declared %r' % (sorted(f.tools), sorted(tools)))
    for n, t in sorted(tools.items()):
        got = f.tools[n]
        if got.number != n:
            raise Violation('tool %d is listed under %d' % (got.number, n))
        for k, v in t.values():
            g = getattr(got, k)
            if (g != v) if k == 'plated' else not near(g, v):
                raise Violation('tool %d: %s is %r, declared %r' % (n, k, g, v if v is None or k == 'plated' else float(v)))


def check_holes(f, holes):
    got = holes_of(f)
    for i, (a, b) in enumerate(zip(got, holes)):
        if not same_hole(a, b):
            raise Violation('feature %d is %s, commanded %s' % (i, show_hole(a), show_hole(b)))
    if len(got) != len(holes):
        raise Violation('%d features, commanded %d' % (len(got), len(holes)))
    for h in f.hits:
        if f.tools.get(h.tool.number) is not h.tool:
            raise Violation('a feature uses a tool that is not the one in the table')


def check_primitives(f, p):
    prims = f.primitives
    if len(prims) != len(p.holes):
        raise Violation('%d objects for %d features' % (len(prims), len(p.holes)))
    for i, (q, h) in enumerate(zip(prims, p.holes)):
        kind = {'hit': 'Drill', 'slot': 'Slot'}[h[0]]
        pts = (q.position,) if kind == 'Drill' and type(q).__name__ == kind else \
            (q.start, q.end) if type(q).__name__ == kind else ()
        if not pts or not all(near(x, y) for a, b in zip(pts, h[2:4]) for x, y in zip(a, b)) or \
                not near(q.diameter, p.tools[h[1]].diameter) or q.units != p.units:
            raise Violation('object %d is %s %s %s %r, commanded %s' % (
                i, type(q).__name__, pts, q.units, getattr(q, 'diameter', None), show_hole(h)))


def prop_program(d):
    p = DGen(d).run()
    d.show(text=p.text, given=repr(p.given), ext=repr(p.ext))
    label(d, p)
    if len(p.holes) >= 3:
        d.nontrivial(p.text)
    f = load(p)
    if f.units != p.units or f.settings.units != p.units:
        raise Violation('units %s, %s in the program' % (f.units, p.units))
    if f.zeros != p.zeros or tuple(f.format) != p.fmt or f.notation != p.notation:
        raise Violation('settings %s %s %s, in the program %s %s %s' % (f.zeros, f.format, f.notation, p.zeros, p.fmt, p.notation))
    check_holes(f, p.holes)
    check_tools(f, p.tools)
    check_primitives(f, p)


UNITS = [
    {'name': 'program', 'prop': prop_program, 'n': {'quick': 24000, 'thorough': 800000}},
]
