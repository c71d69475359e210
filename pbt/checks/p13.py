"""P13: writing a drill file and reading it back preserves tools and holes."""
import os
from fractions import Fraction
from engine import Violation
from dmodel import DGen, Model, operate, load, holes_of, show_hole, label
from gerber import excellon

TECHNIQUE = 'generated Excellon programs taken through generated operations, written and read again, against a model of the tools and holes'
NOTE = 'No counterexample among the generated programs counted in the evidence.'
RULE = ('a case is one generated Excellon program, read, taken through up to three operations (unit conversion, offset, '
        'tool update, reads), written and read again (unit program), or one whose statements are written one by one '
        '(unit statements); non-trivial = at least 3 holes or slots, or at least two tools with parameters')
ASSUMPTIONS = ['the values fit the number format of the file after the operations',
               'a file that does not state its units and format is read again with the settings of the file written',
               'statements are written one by one only for programs without routs']


def scratch(name):
    d = os.environ.get('PBT_SCRATCH') or '/tmp'
    return os.path.join(d, '%s-%d' % (name, os.getpid()))


def per_tool(holes):
    out = {}
    for h in holes:
        out.setdefault(h[1], []).append(h)
    return out


def close(a, b, tol):
    if len(a) != len(b) or a[0] != b[0] or (a[0] == 'slot' and a[4] != b[4]):
        return False
    return all(abs(float(x) - float(y)) <= tol for p, q in zip(a[2:], b[2:]) if isinstance(p, tuple) for x, y in zip(p, q))


def compare_holes(got, want, tol):
    got, want = per_tool(got), per_tool(want)
    for n in sorted(set(got) | set(want)):
        left = list(got.get(n, []))
        for h in want.get(n, []):
            for g in left:
                if close(g, h, tol):
                    left.remove(g)
                    break
            else:
                raise Violation('%s is gone after writing; tool %d has %s' % (
                    show_hole(h), n, ', '.join(show_hole(g) for g in got.get(n, [])[:6])))
        if left:
            raise Violation('%s appeared by writing' % show_hole(left[0]))


def compare_tools(got, want, unit):
    if sorted(got) != sorted(want):
        raise Violation('tools %r after writing, %r before' % (sorted(got), sorted(want)))
    for n, t in sorted(want.items()):
        g = got[n]
        if g.number != n:
            raise Violation('tool %d is listed under %d' % (g.number, n))
        for a, v in sorted(t.items()):
            if a == 'plated':
                continue
            x = getattr(g, a)
            # diameters are cut off, the others rounded
            tol = unit * (1000 if a == 'rpm' else 1) * (1.01 if a in ('diameter', 'rpm') else 0.51)
            if (x is None) != (v is None) or v is not None and abs(x - float(v)) > tol + 1e-9 * abs(float(v)):
                raise Violation('tool %d: %s is %r after writing, %r before' % (n, a, x, v if v is None else float(v)))


def check_reread(f2, m, tol=0.51):
    unit = 10.0 ** -m.fmt[1]
    if f2.units != m.units:
        raise Violation('units are %s after writing, %s before' % (f2.units, m.units))
    if tuple(f2.format) != m.fmt:
        raise Violation('format is %r after writing, %r before' % (f2.format, m.fmt))
    compare_holes(holes_of(f2), m.holes, unit * tol)
    compare_tools(f2.tools, m.tools, unit)


def prop_program(d):
    p = DGen(d, limit=d.choice([1, Fraction(1, 3), Fraction(1, 30)])).run()
    f = load(p)
    m = Model(p)
    hist = []
    d.show(text=p.text, given=repr(p.given), ext=repr(p.ext), history=hist)
    label(d, p)
    for _ in range(d.choice([0, 0, 1, 1, 2, 3])):
        hist.append(operate(d, f, m))
        d.label(hist[-1].split('(')[0])
    if not m.fits():
        d.label('does not fit')
        return
    if len(m.holes) >= 3 or sum(1 for t in m.tools.values() if sum(v is not None for v in t.values()) > 1) >= 2:
        d.nontrivial(p.text + repr(hist))
    path = scratch('p13')
    try:
        f.write(path)
        with open(path) as h:
            text = h.read()
        d.show(written=text)
        f2 = excellon.loads(text, settings=f.settings)
        check_reread(f2, m)
        if p.stated:
            # without being told anything
            check_reread(excellon.read(path), m)
            check_reread(excellon.loads(text), m)
        # and once more
        f2.write(path)
        with open(path) as h:
            text = h.read()
        check_reread(excellon.loads(text, settings=f2.settings), m, 0.52)
    finally:
        if os.path.exists(path):
            os.remove(path)


def prop_statements(d):
    """each statement's own text, in the order of the program"""
    p = DGen(d, limit=Fraction(1, 30), ext=False, undeclared=False).run()
    d.show(text=p.text, given=repr(p.given))
    if 'G00' in p.text or 'G01' in p.text:
        return
    f = load(p)
    units = d.choice([None, 'inch', 'metric'])
    m = Model(p)
    if units and units != m.units:
        (f.to_inch if units == 'inch' else f.to_metric)()
        m.convert(units)
    if not m.fits():
        return
    label(d, p)
    if len(p.holes) >= 3:
        d.nontrivial(p.text + repr(units))
    s = f.settings
    text = '\n'.join(t.to_excellon(s) for t in f.statements) + '\n'
    d.show(written=text)
    given = f.settings
    given.notation = p.given['notation'] if p.given else 'absolute'
    f2 = excellon.loads(text, settings=given)
    unit = 10.0 ** -m.fmt[1]
    got = holes_of(f2)
    if len(got) != len(m.holes):
        raise Violation('%d holes after writing the statements, %d before' % (len(got), len(m.holes)))
    # rounding adds up in repeats and incremental coordinates
    steps = 1 + (len(m.holes) * 2 if units else 0)
    for i, (a, b) in enumerate(zip(got, m.holes)):
        if a[1] != b[1] or not close(a, b, unit * 0.51 * steps):
            raise Violation('hole %d is %s after writing the statements, %s before' % (i, show_hole(a), show_hole(b)))
    for n, t in sorted(m.tools.items()):
        if n not in f2.tools:
            raise Violation('tool %d is gone after writing the statements' % n)
    declared = dict((n, t) for n, t in m.tools.items() if 'tool by comment' not in p.feat)
    compare_tools(dict((n, f2.tools[n]) for n in declared), declared, unit)


UNITS = [
    {'name': 'program', 'prop': prop_program, 'n': {'quick': 16000, 'thorough': 500000}},
    {'name': 'statements', 'prop': prop_statements, 'n': {'quick': 8000, 'thorough': 200000}},
]
