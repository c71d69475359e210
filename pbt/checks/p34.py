"""P34: a Gerber file put together or edited by hand is what its objects and statements are."""
import copy
from engine import Violation
from prims import KINDS, gen, build, converted, transform, step, expect, compare, brief, g_aperture
from geom import box_union
from gmodel import to_text, label
from checks.p03 import gen as gen_file, write, diff_abs
from gerber import rs274x
from gerber.cam import FileSettings
from gerber.gerber_statements import CommentStmt, CoordStmt
from gerber.layers import PCBLayer
from gerber.render.render import GerberContext
from gerber.rs274x import GerberFile

TECHNIQUE = ('generated histories of edits of the objects and of the statements of Gerber files, against objects freshly built '
             'from the parameters they have by then and a list of the statements')
NOTE = 'No counterexample among the generated histories counted in the evidence.'
RULE = ('a case is a file put together from 1 to 6 generated objects of any class (unit objects) or read from a generated '
        'program (unit statements), taken through generated edits, conversions, offsets and reads; non-trivial = at least '
        'two edits and one operation on the whole file')
ASSUMPTIONS = ['objects are given in the units of the file, and each is in the list once; apertures may be shared',
               'what is written is compared if its values fit the format']

PLACED = [k for k in KINDS if k not in ('TestRecord',)]


class Recorder(GerberContext):
    """a context that lists what it is given"""
    def __init__(self):
        super(Recorder, self).__init__()
        self.seen = []

    def set_bounds(self, bounds, new_surface=False):
        self.area = bounds

    def paint_background(self):
        pass

    def new_render_layer(self, *args, **kwargs):
        pass

    def flatten(self, *args, **kwargs):
        pass

    def render(self, primitive):
        self.seen.append(primitive)


def prop_objects(d):
    units = d.choice(['inch', 'metric'])
    s = FileSettings(units=units, format=d.choice([(2, 4), (3, 5), (4, 6)]), zero_suppression='leading')
    aps = [g_aperture(d, units) for _ in range(d.integer(0, 3))]
    share = {}
    apertures = [build(a, share) for a in aps]
    for a, o in zip(aps, apertures):
        share[id(a)] = o
    keep = [aps]      # specs that are shared must stay alive, they are told apart by their identity

    def new(u):
        v = gen(d, d.choice(PLACED), u)
        if 'aperture' in v and aps and d.boolean():
            v['aperture'] = d.choice(aps)
            d.label('shared aperture')
        return v
    specs = [new(units) for _ in range(d.integer(0, 5))]
    objs = [build(v, share) for v in specs]
    f = GerberFile([], s, list(objs), apertures)
    layer = PCBLayer('a.gtl', 'top', f) if d.boolean(0.3) else None
    hist = []
    d.show(units=units, specs=[brief(v) for v in specs], history=hist)
    edits = whole = 0

    def look():
        if len(f.primitives) != len(specs):
            raise Violation('%r: %d objects, expected %d' % (hist, len(f.primitives), len(specs)))
        for o, v in zip(f.primitives, specs):
            expect(o, v, repr(hist))
        for o, v in zip(f.apertures, aps):
            expect(o, v, '%r: aperture' % (hist,))
        if specs:
            want = box_union([build(v).bounding_box for v in specs])
            c = Recorder()
            f.render(c)
            for what, box in (('bounding box', f.bounding_box), ('area rendered', c.area)):
                r = compare(box, want)
                if r:
                    raise Violation('%r: %s%s' % (hist, what, r))
            if [id(o) for o in c.seen] != [id(o) for o in f.primitives]:
                raise Violation('%r: %d objects rendered, of %d' % (hist, len(c.seen), len(specs)))
            if layer:
                if [id(o) for o in layer.primitives] != [id(o) for o in f.primitives]:
                    raise Violation('%r: the layer has %d objects, the file %d' % (hist, len(layer.primitives), len(specs)))
        if f.units != units or f.settings.units != units:
            raise Violation('%r: units are %r' % (hist, f.units))

    for _ in range(d.integer(2, 8)):
        k = d.choice(['add', 'add', 'insert', 'drop', 'replace', 'order', 'some', 'step', 'step', 'step', 'inch', 'metric', 'offset'])
        i = d.integer(0, max(0, len(specs) - 1))
        if k in ('inch', 'metric'):
            getattr(f, 'to_' + k)()
            memo = {}
            if k != units:
                c = 25.4 if k == 'metric' else 1 / 25.4
                specs = [transform(v, c, 0, 0, k, memo) for v in specs]
                aps[:] = [transform(a, c, 0, 0, k, memo) for a in aps]
                keep.append(memo)
                share.clear()
                for a, o in zip(aps, f.apertures):
                    share[id(a)] = o
            units = k
            whole += 1
            hist.append('to_' + k)
        elif k == 'offset':
            v = (d.mm(50), d.mm(50))
            f.offset(*v)
            specs = [dict(transform(q, 1, v[0], v[1]), **({'aperture': q['aperture']} if 'aperture' in q else {})) for q in specs]
            whole += 1
            hist.append('offset%r' % (v,))
        elif k in ('add', 'insert') or not specs:
            n = new(units)
            o = build(n, share)
            at = len(specs) if k == 'add' else i
            if d.boolean():
                f.primitives.insert(at, o)
            else:
                f.primitives = f.primitives[:at] + [o] + f.primitives[at:]
            specs = specs[:at] + [n] + specs[at:]
            hist.append('insert %s at %d' % (brief(n), at))
            edits += 1
        elif k == 'drop':
            del f.primitives[i]
            specs = specs[:i] + specs[i + 1:]
            hist.append('drop %d' % i)
            edits += 1
        elif k == 'replace':
            n = new(units)
            f.primitives[i] = build(n, share)
            specs = specs[:i] + [n] + specs[i + 1:]
            hist.append('%d is %s' % (i, brief(n)))
            edits += 1
        elif k == 'order':
            o = d.shuffled(list(range(len(specs))))
            f.primitives = [f.primitives[x] for x in o]
            specs = [specs[x] for x in o]
            hist.append('order %r' % (o,))
            edits += 1
        elif k == 'some':
            o = [x for x in range(len(specs)) if d.boolean()]
            f.primitives = [f.primitives[x] for x in o]
            specs = [specs[x] for x in o]
            hist.append('keep %r' % (o,))
            edits += 1
        else:
            v = specs[i]
            if any(v.get('aperture') is a for a in aps):
                ops = ['offset', 'read']
            else:
                ops = ['offset', 'read', 'set', 'set']
            if v['kind'] == 'AMGroup':
                ops = ['offset', 'read']
            n, what = step(d, v, f.primitives[i], ops)
            if any(v.get('aperture') is a for a in aps):
                n = dict(n, aperture=v['aperture'])
            specs = specs[:i] + [n] + specs[i + 1:]
            hist.append('%d %s' % (i, what))
            edits += not what.startswith(('read', 'none'))
        d.label(hist[-1].split(' ')[0].split('(')[0] if not hist[-1][0].isdigit() else 'object changed')
        if d.boolean(0.4):
            look()
    look()
    if edits >= 2 and whole:
        d.nontrivial(repr(hist))


def coords(f):
    return [s for s in f.statements if isinstance(s, CoordStmt)]


def prop_statements(d):
    p = gen_file(d, fit_conversion=True, single_quadrant=False, notation='any', max_cmds=10)
    text = to_text(p)
    label(d, p)
    f = rs274x.loads(text)
    hist = []
    d.show(text=text, history=hist)
    comments = list(f.comments)
    where = [[s.x, s.y] for s in coords(f)]
    size = 10.0 ** p.fmt[0] / 100
    units = p.units
    edits = whole = 0

    def look():
        if list(f.comments) != comments:
            raise Violation('%r: comments are %r, expected %r' % (hist, f.comments, comments))
        at = [0, 0]
        seen = [[], []]
        for c in where:
            for k in (0, 1):
                if c[k] is not None:
                    at[k] = at[k] + c[k] if f.notation == 'incremental' else c[k]
                    seen[k].append(at[k])
        if seen[0] and seen[1]:
            want = tuple((min(v), max(v)) for v in seen)
            r = compare(f.bounds, want)
            if r:
                raise Violation('%r: bounds%s' % (hist, r))
            r = compare(tuple(f.size), (want[0][1] - want[0][0], want[1][1] - want[1][0]))
            if r:
                raise Violation('%r: size%s' % (hist, r))
        r = compare(tuple((s.x, s.y) for s in coords(f)), tuple(map(tuple, where)))
        if r:
            raise Violation('%r: coordinates%s' % (hist, r))

    for _ in range(d.integer(1, 7)):
        k = d.choice(['comment', 'move', 'move', 'drop', 'copy', 'quiet', 'metric', 'inch', 'offset'])
        stmts = coords(f)
        if not stmts:
            return
        i = d.below(len(stmts))
        at = [n for n, s in enumerate(f.statements) if s is stmts[i]][0]
        if k == 'comment':
            t = 'note %d' % d.integer(0, 99)
            c = d.choice([CommentStmt(t), CommentStmt(comment=t)])
            f.statements.insert(at, c)
            comments = [s.comment for s in f.statements if isinstance(s, CommentStmt)]
            if t not in comments:
                raise Violation('comment %r is %r' % (t, c.comment))
            edits += 1
        elif k == 'quiet':
            f.statements = [s for s in f.statements if not isinstance(s, CommentStmt)]
            comments = []
            edits += 1
        elif k == 'move':
            s = stmts[i]
            for n, a in enumerate('xy'):
                if getattr(s, a) is not None:
                    v = d.signed(1000) / 1000.0 * size
                    setattr(s, a, v)
                    where[i][n] = v
            edits += 1
        elif k == 'drop':
            del f.statements[at]
            del where[i]
            edits += 1
        elif k == 'copy':
            s = stmts[i]
            f.statements.insert(at + 1, copy.copy(s))
            where.insert(i + 1, list(where[i]))
            edits += 1
        elif k == 'offset':
            v = (d.signed(1000) / 1000.0 * size, d.signed(1000) / 1000.0 * size)
            f.offset(*v)
            left = list(v)
            for c in where:
                for n in (0, 1):
                    if c[n] is not None:
                        c[n] += left[n]
                        if f.notation == 'incremental':
                            left[n] = 0
            whole += 1
        else:
            getattr(f, 'to_' + k)()
            if k != units:
                c = 25.4 if k == 'metric' else 1 / 25.4
                where = [[x if x is None else x * c for x in q] for q in where]
                units = k
            whole += 1
        hist.append(k)
        d.label(k)
        if d.boolean(0.4):
            look()
    look()
    if edits >= 2 and whole:
        d.nontrivial(text + repr(hist))
    top = 10 ** p.fmt[0] - 1
    at = [0, 0]
    for c in where:
        for n in (0, 1):
            if c[n] is not None:
                at[n] = at[n] + c[n] if f.notation == 'incremental' else c[n]
                if abs(c[n]) >= top or abs(at[n]) >= top:
                    d.label('does not fit')
                    return
    out = write(f)
    d.show(text=text, history=hist, written=out)
    g = rs274x.loads(out)
    if list(g.comments) != comments:
        raise Violation('%r: written and read again, comments are %r, expected %r' % (hist, g.comments, comments))
    r = diff_abs(tuple((s.x, s.y) for s in coords(g)), tuple(map(tuple, where)), 0.51 * 10.0 ** -p.fmt[1] + 1e-8)
    if r:
        raise Violation('%r: written and read again, coordinates%s' % (hist, r))
    look()


UNITS = [
    {'name': 'objects', 'prop': prop_objects, 'n': {'quick': 12000, 'thorough': 300000}},
    {'name': 'statements', 'prop': prop_statements, 'n': {'quick': 8000, 'thorough': 200000}},
]
