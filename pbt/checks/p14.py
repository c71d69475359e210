"""P14: reports, counts, lengths and boxes of drill files agree with the holes."""
import os
import re
from engine import Violation
from dmodel import DGen, Model, operate, load, near, label, holes_of, show_hole
from checks.p13 import close, scratch

TECHNIQUE = 'generated Excellon programs taken through generated operations, against counts, lengths and boxes computed from the model'
NOTE = 'No counterexample among the generated programs counted in the evidence.'
RULE = ('a case is one generated Excellon program taken through a sequence of unit conversions, offsets, tool updates and '
        'reads; after each step hit counts, path lengths, bounding box, objects and report are compared with the model; '
        'non-trivial = at least 3 holes with two tools')
ASSUMPTIONS = ['every tool has a diameter', 'the bounding box is compared for files with at least one hole',
               'the report is parsed by its columns, so its labels may be worded differently']


def same(what, a, b):
    if isinstance(b, tuple):
        if not isinstance(a, (tuple, list)) or len(a) != len(b):
            raise Violation('%s is %r, expected %r' % (what, a, b))
        for x, y in zip(a, b):
            same(what, x, y)
    elif a is None or abs(float(a) - float(b)) > 1e-9 * max(1.0, abs(float(b))) + 1e-9:
        raise Violation('%s is %r, expected %r' % (what, a, float(b)))


def check_counts(f, m):
    counts = f.hit_count()
    if sorted(counts) != sorted(m.tools):
        raise Violation('hit counts list tools %r, the file has %r' % (sorted(counts), sorted(m.tools)))
    for n in sorted(m.tools):
        if counts[n] != m.hits(n) or f.hit_count(n) != m.hits(n):
            raise Violation('tool %d: hit count %r (%r by number), %d holes' % (n, counts[n], f.hit_count(n), m.hits(n)))
    for n, t in sorted(m.tools.items()):
        for a in ('diameter', 'feed_rate', 'retract_rate', 'rpm', 'max_hit_count', 'depth_offset'):
            v = getattr(f.tools[n], a)
            if (v is None) != (t[a] is None):
                raise Violation('tool %d: %s is %r, expected %r' % (n, a, v, t[a] and float(t[a])))
            if v is not None:
                same('%s of tool %d' % (a, n), v, t[a])
    lengths = f.path_length()
    for n in sorted(m.tools):
        want = m.path(n)
        if n not in lengths and m.hits(n):
            raise Violation('tool %d has no path length' % n)
        same('path length of tool %d' % n, lengths.get(n) or 0.0, want)
        same('path length of tool %d by number' % n, f.path_length(n) or 0.0, want)
    extra = set(lengths) - set(m.tools)
    if extra:
        raise Violation('path lengths for tools %r' % sorted(extra))


def check_boxes(f, m):
    if m.holes:
        same('bounding box', f.bounding_box, m.bounding_box())
    got = holes_of(f)
    if len(got) != len(m.holes):
        raise Violation('%d holes, expected %d' % (len(got), len(m.holes)))
    for i, (a, b) in enumerate(zip(got, m.holes)):
        if a[1] != b[1] or not close(a, b, 1e-6):
            raise Violation('hole %d is %s, expected %s' % (i, show_hole(a), show_hole(b)))
    prims = f.primitives
    if len(prims) != len(m.holes):
        raise Violation('%d objects for %d holes' % (len(prims), len(m.holes)))
    for i, (q, h) in enumerate(zip(prims, m.holes)):
        if q.units != m.units:
            raise Violation('object %d is in %s, the file in %s' % (i, q.units, m.units))
        same('diameter of object %d' % i, q.diameter, m.tools[h[1]]['diameter'])
        pts = (q.position,) if h[0] == 'hit' else (q.start, q.end)
        same('place of object %d' % i, tuple(tuple(p) for p in pts), tuple(v for v in h[2:] if isinstance(v, tuple)))


ROW = re.compile(r'^\s*T(\d+)\s+(-?[\d.]+)\s+(\d+)\s+(-?[\d.]+)\s*([a-z.]*)\s*$')


def check_report(f, m, decimals):
    path = scratch('p14')
    try:
        r = f.report(path)
        with open(path) as h:
            saved = h.read()
    finally:
        if os.path.exists(path):
            os.remove(path)
    if f.report() != r or saved != r:
        raise Violation('the report printed and the report saved differ')
    rows = {}
    for line in r.splitlines():
        k = ROW.match(line)
        if k:
            n = int(k.group(1))
            if n in rows:
                raise Violation('tool %d is listed twice in the report' % n)
            rows[n] = k.groups()
    if sorted(rows) != sorted(m.tools):
        raise Violation('the report lists tools %r, the file has %r:\n%s' % (sorted(rows), sorted(m.tools), r))
    for n, (_, size, hits, length, unit) in sorted(rows.items()):
        if abs(float(size) - float(m.tools[n]['diameter'])) > 0.51 * 10 ** -decimals + 1e-9:
            raise Violation('tool %d: size %s in the report, diameter %s' % (n, size, float(m.tools[n]['diameter'])))
        if int(hits) != m.hits(n):
            raise Violation('tool %d: %s hits in the report, %d holes' % (n, hits, m.hits(n)))
        if abs(float(length) - m.path(n)) > 1e-6 + 1e-9 * m.path(n):
            raise Violation('tool %d: path length %s in the report, %s' % (n, length, m.path(n)))
        if unit and unit != {'inch': 'in.', 'metric': 'mm'}[m.units]:
            raise Violation('lengths of the report are in %s, the file in %s' % (unit, m.units))
    low = r.lower()
    if ('inch' in low) != (m.units == 'inch') or ('millimet' in low) != (m.units == 'metric'):
        raise Violation('the file is in %s, the report says\n%s' % (m.units, r))


def prop_program(d):
    p = DGen(d, diameters=True).run()
    f = load(p)
    m = Model(p)
    hist = []
    d.show(text=p.text, given=repr(p.given), ext=repr(p.ext), history=hist)
    label(d, p)
    if len(p.holes) >= 3 and len(set(h[1] for h in p.holes)) > 1:
        d.nontrivial(p.text + repr(hist))
    if not m.tools:
        return
    if p.feat.get('tool without diameter'):
        return
    for i in range(d.choice([1, 1, 2, 3, 5])):
        if i:
            hist.append(operate(d, f, m))
            d.label(hist[-1].split('(')[0])
        if i and d.boolean(0.3):
            continue
        check_counts(f, m)
        check_boxes(f, m)
        check_report(f, m, m.fmt[1])
        notation = f.report().lower()
        if ('absolute' in notation) != (p.notation == 'absolute'):
            raise Violation('the file is %s, the report says\n%s' % (p.notation, f.report()))
    check_counts(f, m)
    check_boxes(f, m)
    check_report(f, m, m.fmt[1])


UNITS = [
    {'name': 'program', 'prop': prop_program, 'n': {'quick': 14000, 'thorough': 500000}},
]
