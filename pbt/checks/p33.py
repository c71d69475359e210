"""P33: a drill file whose holes or tools were edited, or which was put together by hand, is what its holes and tools say."""
import os
from fractions import Fraction
from engine import Violation
from dmodel import DGen, DProg, DTool, FORMATS, Model, operate, load, label, settings_of
from checks.p13 import scratch, check_reread
from checks.p14 import check_counts, check_boxes, check_report
from gerber import excellon
from gerber.cam import FileSettings
from gerber.excellon import DrillHit, DrillSlot, ExcellonFile
from gerber.excellon_statements import ExcellonTool
from gerber.layers import DrillLayer, PCBLayer
from prims import compare, snap

TECHNIQUE = ('generated sequences of edits (holes reordered, added, removed, moved, given another tool, tools added) on generated '
             'drill files, read or put together by hand, against a model of the holes and tools')
NOTE = 'No counterexample among the generated histories counted in the evidence.'
RULE = ('a case is one generated drill file taken through generated edits and operations, compared with the model in its counts, '
        'path lengths, boxes, objects and report, and in what is read back after writing it; non-trivial = at least two '
        'edits, and at least 3 holes left')
ASSUMPTIONS = ['every tool has a diameter', 'holes use tools of the file, and every hole is in the list once',
               'tools are added, not removed; their settings say the units they are given in',
               'what is written is compared if its values fit the format']

KINDS = {'ROUT': DrillSlot.TYPE_ROUT, 'G85': DrillSlot.TYPE_G85}
FIELDS = ('diameter', 'feed_rate', 'retract_rate', 'rpm', 'max_hit_count', 'depth_offset')


def point(d, m):
    q = 10 ** m.fmt[1]
    top = 10 ** sum(m.fmt) // 3
    n = d.choice([top, min(top, 3 * q), min(top, 30 * q)])
    return Fraction(d.signed(n), q), Fraction(d.signed(n), q)


def floats(p):
    return tuple(float(v) for v in p)


def new_hole(d, f, m):
    """a hole and its model"""
    n = d.choice(sorted(m.tools))
    if d.boolean(0.7):
        at = point(d, m)
        return DrillHit(f.tools[n], floats(at)), ('hit', n, at)
    a, b = point(d, m), point(d, m)
    if d.boolean(0.1):
        b = a
    k = d.choice(['ROUT', 'G85'])
    return DrillSlot(f.tools[n], floats(a), floats(b), KINDS[k]), ('slot', n, a, b, k)


def tool_values(d, m):
    q = 10 ** m.fmt[1]
    v = dict.fromkeys(FIELDS)
    v['diameter'] = Fraction(d.integer(1, 3 * q), q)
    for a in FIELDS[1:]:
        if d.boolean(0.2):
            v[a] = Fraction(d.integer(1, 9 * q), q) * (1000 if a == 'rpm' else 1)
    return v


def make_tool(settings, n, v):
    return ExcellonTool(settings, number=n, **dict((a, float(x)) for a, x in v.items() if x is not None))


def edit(d, f, m):
    k = d.choice(['order', 'swap', 'drop', 'cut', 'add', 'insert', 'move', 'shift', 'retool', 'tool', 'build', 'sort'])
    i = d.integer(0, max(0, len(m.holes) - 1))
    if k == 'tool' or not m.tools:
        n = d.integer(1, 40)
        if n in m.tools:
            n = max(m.tools) + 1
        v = tool_values(d, m)
        f.tools[n] = make_tool(f.settings, n, v)
        m.tools[n] = dict(v, plated=None)
        return 'new tool(%d)' % n
    if k in ('add', 'insert') or not m.holes:
        h, w = new_hole(d, f, m)
        at = len(f.hits) if k == 'add' else i
        f.hits.insert(at, h)
        m.holes.insert(at, w)
        return '%s(%d)' % ('insert', at)
    if k == 'order':
        o = d.shuffled(list(range(len(m.holes))))
        f.hits = [f.hits[x] for x in o]
        m.holes = [m.holes[x] for x in o]
        return 'reorder(%r)' % o
    if k == 'sort':
        o = sorted(range(len(m.holes)), key=lambda x: m.holes[x][1])
        f.hits.sort(key=lambda h: h.tool.number)
        m.holes = [m.holes[x] for x in o]
        return 'sort by tool'
    if k == 'swap':
        j = d.integer(0, len(m.holes) - 1)
        f.hits[i], f.hits[j] = f.hits[j], f.hits[i]
        m.holes[i], m.holes[j] = m.holes[j], m.holes[i]
        return 'swap(%d, %d)' % (i, j)
    if k == 'drop':
        del f.hits[i]
        del m.holes[i]
        return 'drop(%d)' % i
    if k == 'cut':
        if len(m.holes) > 3 or d.boolean(0.2):
            n = m.holes[i][1]
            f.hits = [h for h in f.hits if h.tool.number != n]
            m.holes = [h for h in m.holes if h[1] != n]
            return 'drop all of tool %d' % n
        f.hits = f.hits[:i + 1]
        m.holes = m.holes[:i + 1]
        return 'keep %d' % (i + 1)
    h, w = f.hits[i], m.holes[i]
    if k == 'build':
        # holes made anew from the ones there are
        f.hits = [DrillHit(f.tools[x.tool.number], x.position) if isinstance(x, DrillHit) else
                  DrillSlot(f.tools[x.tool.number], x.start, x.end, x.slot_type) for x in f.hits]
        return 'made anew'
    if k == 'move':
        a, b = point(d, m), point(d, m)
        if w[0] == 'hit':
            h.position = floats(a)
            m.holes[i] = w[:2] + (a,)
        elif d.boolean():
            h.start = floats(a)
            m.holes[i] = w[:2] + (a,) + w[3:]
        else:
            h.end = floats(b)
            m.holes[i] = w[:3] + (b,) + w[4:]
        return 'move(%d)' % i
    if k == 'shift':
        q = 10 ** m.fmt[1]
        v = [Fraction(d.signed(3 * q), q) for _ in range(2)]
        h.offset(*floats(v))
        m.holes[i] = tuple((x[0] + v[0], x[1] + v[1]) if isinstance(x, tuple) else x for x in w)
        return 'offset hole %d' % i
    n = d.choice(sorted(m.tools))
    h.tool = f.tools[n]
    m.holes[i] = w[:1] + (n,) + w[2:]
    return 'hole %d with tool %d' % (i, n)


def merge(d, f, m, shown):
    """take over the holes of another program, with the tools the file has not got"""
    p = DGen(d, diameters=True, limit=Fraction(1, 3)).run()
    shown.append(p.text + repr(p.given) + repr(p.ext))
    if p.feat.get('tool without diameter'):
        return 'nothing merged'
    g, o = load(p), Model(p)
    (g.to_inch if m.units == 'inch' else g.to_metric)()
    o.convert(m.units)
    for n in sorted(o.tools):
        if n not in m.tools:
            f.tools[n] = g.tools[n]
            m.tools[n] = dict(o.tools[n])
    for h in g.hits:
        h.tool = f.tools[h.tool.number]
    if d.boolean():
        f.hits = f.hits + g.hits
        m.holes = m.holes + o.holes
    else:
        f.hits = g.hits + f.hits
        m.holes = o.holes + m.holes
    return 'merge(%d)' % len(o.holes)


def judge(d, f, m, layer=None):
    check_counts(f, m)
    check_boxes(f, m)
    if layer is not None and m.holes:
        if layer.bounds != f.bounding_box:
            raise Violation('the layer made of the file has bounds %r, the file %r' % (layer.bounds, f.bounding_box))
        a, b = tuple(snap(q) for q in layer.primitives), tuple(snap(q) for q in f.primitives)
        r = compare(a, b)
        if r:
            raise Violation('objects of the layer made of the file, compared with those of the file%s' % r)
    check_report(f, m, m.fmt[1])


def written(d, f, m):
    if not m.fits():
        d.label('does not fit')
        return
    path = scratch('p33')
    try:
        if d.boolean():
            f.write(path)
        else:
            f.filename = path
            f.write()
        with open(path) as h:
            text = h.read()
        d.show(written=text)
        f2 = excellon.loads(text, settings=f.settings)
        check_reread(f2, m)
        if sum(len(x) for x in f2.hit_count().values() if not isinstance(x, int)) or \
                sum(f2.hit_count().values()) != len(m.holes):
            raise Violation('%r holes counted in the file read back, %d before' % (f2.hit_count(), len(m.holes)))
    finally:
        if os.path.exists(path):
            os.remove(path)


def history(d, f, m, hist, merged=None):
    edits = 0
    layer = d.choice([None, DrillLayer('a.drl', f), PCBLayer('a.drl', 'drill', f)]) if d.boolean(0.6) else None
    for _ in range(d.integer(1, 8)):
        if merged is not None and d.boolean(0.08):
            hist.append(merge(d, f, m, merged))
            d.label('merge')
            edits += 1
        elif d.boolean(0.7):
            hist.append(edit(d, f, m))
            d.label(hist[-1].split('(')[0].rstrip('0123456789').split(' ')[0])
            edits += 1
        else:
            hist.append(operate(d, f, m))
        if d.boolean(0.3):
            judge(d, f, m, layer)
        if d.boolean(0.1):
            written(d, f, m)
    if edits >= 2 and len(m.holes) >= 3:
        d.nontrivial(repr(hist))
    judge(d, f, m, layer)
    written(d, f, m)
    judge(d, f, m, layer)


def prop_edited(d):
    p = DGen(d, diameters=True, limit=Fraction(1, 3)).run()
    f = load(p)
    m = Model(p)
    hist, merged = [], []
    d.show(text=p.text, given=repr(p.given), ext=repr(p.ext), history=hist, merged=merged)
    if p.feat.get('tool without diameter'):
        return
    label(d, p)
    history(d, f, m, hist, merged)


def prop_built(d):
    p = DProg()
    p.units = d.choice(['inch', 'metric'])
    p.fmt = d.choice(FORMATS)
    p.notation = 'incremental' if d.boolean(0.1) else 'absolute'
    s = FileSettings(units=p.units, zeros=d.choice(['leading', 'trailing']), format=p.fmt, notation=p.notation)
    p.given = True
    m = Model(p)
    hist = ['%s %r %s %s' % (s.units, s.format, s.zeros, s.notation)]
    d.show(history=hist)
    each = d.boolean()
    f = ExcellonFile([], {}, [], s)
    for n in sorted(set(d.integer(1, 12) for _ in range(d.integer(1, 4)))):
        v = tool_values(d, m)
        t = f.settings if each else s
        f.tools[n] = make_tool(t, n, v)
        m.tools[n] = dict(v, plated=None)
        hist.append('tool %d: %r' % (n, dict((a, float(x)) for a, x in v.items() if x is not None)))
    d.label('settings of their own' if each else 'settings shared')
    for _ in range(d.integer(0, 6)):
        h, w = new_hole(d, f, m)
        f.hits.append(h)
        m.holes.append(w)
    if d.boolean():
        f = ExcellonFile([], f.tools, f.hits, s, d.choice([None, 'a.drl']))
    history(d, f, m, hist)


UNITS = [
    {'name': 'edited', 'prop': prop_edited, 'n': {'quick': 8000, 'thorough': 200000}},
    {'name': 'built', 'prop': prop_built, 'n': {'quick': 5000, 'thorough': 100000}},
]
