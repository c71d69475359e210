"""P09: file operations return changed copies and leave their input alone."""
import os
from engine import Violation
from dmodel import DGen, load, label as label_drill
from gmodel import to_text, label
from checks.p03 import gen as gen_file
from checks.p08 import snap_any
from checks.p13 import scratch
from gerber import operations, rs274x
from gerber.excellon import DrillSlot
from prims import compare

TECHNIQUE = 'generated files and operation histories, against the same change applied in place to a second reading of the file'
NOTE = 'No counterexample among the generated files and histories counted in the evidence.'
RULE = ('a case is one generated RS-274X (unit gerber) or Excellon (unit excellon) file taken through a chain of '
        'operations, each compared with the in-place change, followed by edits of one of the files while all the '
        'others are watched; non-trivial = at least 2 objects and an operation that changes something')
ASSUMPTIONS = ['observable parts are objects, apertures, tools, holes, statements and their text, settings, bounds and '
               'written text']


def plain(v):
    """a value of a statement as something comparable"""
    if isinstance(v, (list, tuple)):
        return tuple(plain(x) for x in v)
    if isinstance(v, dict):
        return tuple(sorted((str(k), plain(x)) for k, x in v.items()))
    if v is None or isinstance(v, (int, float, str)):
        return v
    if isinstance(v, set):
        return tuple(sorted(v))
    if hasattr(v, '__dict__'):
        return (type(v).__name__,) + tuple((k, plain(x)) for k, x in sorted(v.__dict__.items())
                                           if not k.startswith('_') and k not in ('id', 'hit'))
    return type(v).__name__


def written(f):
    path = scratch('p09')
    try:
        f.write(path)
        with open(path) as h:
            return h.read()
    except Exception as e:      # values that outgrew the format
        return type(e).__name__
    finally:
        if os.path.exists(path):
            os.remove(path)


def observe(f):
    out = {'units': f.units, 'zeros': f.zeros, 'format': tuple(f.format), 'notation': f.notation,
           'filename': f.filename, 'class': type(f).__name__, 'settings': str(f.settings)}
    out['objects'] = tuple(snap_any(p) for p in f.primitives)
    out['statements'] = tuple((type(s).__name__,) + plain(s)[1:] for s in f.statements)
    out['written'] = written(f)
    sized = True
    if hasattr(f, 'tools'):
        out['tools'] = tuple((n, plain(t)) for n, t in sorted(f.tools.items()))
        out['hits'] = tuple((h.tool.number,) + ((tuple(h.start), tuple(h.end), h.slot_type) if isinstance(h, DrillSlot) else
                                                (tuple(h.position),)) for h in f.hits)
        out['counts'] = tuple(sorted(f.hit_count().items()))
        sized = all(t.diameter is not None for t in f.tools.values())
    else:
        out['apertures'] = tuple((type(a).__name__, plain(a)) for a in f.apertures)
    if out['objects'] and sized:
        out['bounds'] = (f.bounds, f.bounding_box)
    return out


def expect(f, want, what):
    got = observe(f)
    for k in sorted(set(got) | set(want)):
        r = compare(got.get(k), want.get(k))
        if r:
            raise Violation('%s: %s%s' % (what, k, r[:600]))


def operation(d, m):
    k = d.choice(['to_inch', 'to_metric', 'offset', 'offset'])
    if k != 'offset':
        return k, lambda f: getattr(operations, k)(f), lambda f: getattr(f, k)()
    v = tuple(0 if d.boolean(0.2) else d.signed(2000) / 1000.0 for _ in range(2))
    return 'offset%r' % (v,), lambda f: operations.offset(f, *v), lambda f: f.offset(*v)


def edit(d, f):
    """change a part of the file in place"""
    k = d.choice(['to_inch', 'to_metric', 'offset', 'object', 'statement', 'tool', 'list', 'aperture'])
    if k in ('to_inch', 'to_metric'):
        getattr(f, k)()
    elif k == 'offset':
        f.offset(1.5, -0.25)
    elif k == 'object':
        if hasattr(f, 'hits'):
            if f.hits:
                d.choice(f.hits).offset(0.5, 0.25)
        elif f.primitives:
            p = d.choice(f.primitives)
            p.offset(0.5, 0.25)
            p.level_polarity = 'clear' if p.level_polarity == 'dark' else 'dark'
    elif k == 'statement':
        for s in f.statements:
            if getattr(s, 'x', None) is not None:
                s.x += 1
    elif k == 'tool':
        for t in getattr(f, 'tools', {}).values():
            t.diameter = 0.75
            t.hit_count += 1
    elif k == 'list':
        if f.statements:
            f.statements.pop()
        if hasattr(f, 'hits'):
            if f.hits:
                f.hits.pop()
        elif f.primitives:
            f.primitives.pop()
    elif k == 'aperture':
        for a in list(getattr(f, 'apertures', [])):
            if type(a).__name__ == 'Polygon':
                a.radius = 0.22
            elif hasattr(a, 'diameter'):
                a.diameter = 0.33
            elif hasattr(a, 'width'):
                a.width = 0.44
    return k


def check(d, reread, case, n):
    f = reread()
    hist = []
    case['history'] = hist
    d.show(**case)
    files = [(f, observe(f))]
    changed = False
    steps = []
    for _ in range(d.choice([1, 1, 2, 3])):
        i = d.below(len(files))
        src, before = files[i]
        name, copied, inplace = operation(d, src)
        hist.append('%d: %s' % (i, name))
        r = copied(src)
        if r is src or r is None:
            raise Violation('%r returned %r' % (hist, r))
        after = observe(r)
        expect(src, before, '%r changed its input' % hist)
        # the same history in place on a second reading
        g = reread()
        chain = steps[i - 1] + [inplace] if i else [inplace]
        for s in chain:
            s(g)
        expect(r, observe(g), '%r against the change in place' % hist)
        changed = changed or any(compare(after[k], before[k]) for k in after)
        files.append((r, after))
        steps.append(chain)
    if d.boolean(0.8):
        # later changes to one file do not show in the others
        for _ in range(d.integer(1, 2)):
            i = d.below(len(files))
            hist.append('%d: edit %s' % (i, edit(d, files[i][0])))
            d.label(hist[-1][3:])
            files[i] = (files[i][0], observe(files[i][0]))
            for j, (g, want) in enumerate(files):
                if j != i:
                    expect(g, want, '%r: file %d' % (hist, j))
    if changed and n >= 2:
        d.nontrivial(repr(case))


def prop_gerber(d):
    p = gen_file(d, fit_conversion=True, notation='any')
    text = to_text(p)
    label(d, p)
    check(d, lambda: rs274x.loads(text, 'a.gbr'), {'text': text}, len(p.objects))


def prop_excellon(d):
    p = DGen(d, limit=d.choice([1, None])).run()
    label_drill(d, p)
    check(d, lambda: load(p), {'text': p.text, 'given': repr(p.given), 'ext': repr(p.ext)}, len(p.holes))


UNITS = [
    {'name': 'gerber', 'prop': prop_gerber, 'n': {'quick': 4000, 'thorough': 100000}},
    {'name': 'excellon', 'prop': prop_excellon, 'n': {'quick': 6000, 'thorough': 150000}},
]
