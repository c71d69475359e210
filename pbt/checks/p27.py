"""P27: files that were read do not influence each other, nor what is read later."""
import os
import re
from engine import Violation
from dmodel import DGen, settings_of, ext_of
from gmodel import to_text
from checks.p03 import gen as gen_gerber
from checks.p09 import observe, plain, edit
from checks.p13 import scratch
from checks.p16 import Net
from checks.p08 import snap_any
from prims import compare
import gerber
from gerber import excellon, ipc356, rs274x
from gerber.layers import PCBLayer

TECHNIQUE = 'generated histories over several files (reading, changing, writing, reporting, rendering), every file and every later reading compared with what it was'
NOTE = 'No counterexample among the generated histories counted in the evidence.'
RULE = ('a case is two to four generated files of the three kinds and a history of readings and uses of them; '
        'non-trivial = at least two files and a step that changes or renders one of them')
ASSUMPTIONS = ['a layer built on a file shows that file, so it counts as the same file']


class Source(object):
    def __init__(self, d):
        self.kind = d.weighted([(4, 'gerber'), (4, 'drill'), (2, 'netlist')])
        if self.kind == 'gerber':
            p = gen_gerber(d, fit_conversion=True, max_cmds=8, notation='any')
            self.text = to_text(p)
        elif self.kind == 'drill':
            p = DGen(d, limit=d.choice([1, None]), small=True).run()
            self.text = p.text
            self.p = p
        else:
            self.text = Net(d).run()
        self.omit(d)
        self.objects = len(p.objects) if self.kind == 'gerber' else len(p.holes) if self.kind == 'drill' else 1

    def omit(self, d):
        """some files leave things to the defaults, which are to stay what they are"""
        if not d.boolean(0.25):
            return
        arcs = re.search(r'G0?[23]\b|G0?[23][XYIJD]', self.text)      # these need the right numbers
        keys = d.choice({'gerber': [('%MO',), ('%LP',)] + ([] if arcs else [('%FS',), ('%MO', '%FS')]),
                         'drill': [('INCH', 'METRIC', 'M71', 'M72'), ('FMAT',)],
                         'netlist': [('P  UNITS',), ('P  ',)]}[self.kind])
        self.text = '\n'.join(line for line in self.text.split('\n') if not line.startswith(keys))

    @property
    def reader(self):
        return {'gerber': rs274x, 'netlist': ipc356, 'drill': excellon}[self.kind].loads

    def read(self):
        if self.kind == 'gerber':
            return rs274x.loads(self.text)
        if self.kind == 'netlist':
            return ipc356.loads(self.text)
        kw = {}
        if self.p.given:
            kw['settings'] = settings_of(self.p)
        if self.p.ext:
            kw['tools'] = ext_of(self.p)
        return excellon.loads(self.text, **kw)


def state(f):
    if hasattr(f, 'test_records'):
        return {'statements': tuple((type(s).__name__,) + plain(s)[1:] for s in f.statements), 'units': f.units,
                'settings': str(f.settings), 'nets': tuple(sorted((n.name, tuple(sorted(n.adjacent_nets))) for n in f.nets)),
                'components': tuple(sorted(f.components)), 'vias': len(f.vias),
                'objects': tuple((tuple(q.position), q.net_name, q.layer) for q in f.primitives)}
    return observe(f)


def differs(a, b):
    for k in sorted(set(a) | set(b)):
        r = compare(a.get(k), b.get(k))
        if r:
            return '%s%s' % (k, r[:500])
    return None


def use(d, f):
    """something done with a file; -> name and whether the file itself changes"""
    net = hasattr(f, 'test_records')
    k = d.choice(['edit', 'edit', 'inch', 'metric', 'offset', 'write', 'report', 'layer', 'render', 'settings'])
    if net and k in ('edit', 'inch', 'metric', 'offset', 'write', 'report'):
        k = d.choice(['layer', 'settings', 'record'])
    sized = all(t.diameter is not None for t in getattr(f, 'tools', {}).values())
    if k == 'edit':
        return 'edit ' + edit(d, f), True
    if k == 'record':
        for s in f.test_records:
            s.net_name = 'CHANGED'
        return k, True
    if k in ('inch', 'metric'):
        getattr(f, 'to_' + k)()
        return 'to_' + k, True
    if k == 'offset':
        f.offset(0.5, -0.25)
        return k, True
    if k == 'write':
        path = scratch('p27')
        try:
            f.write(path)
        except Exception as e:        # values that outgrew the format
            k += ' ' + type(e).__name__
        finally:
            if os.path.exists(path):
                os.remove(path)
        return k, False
    if k == 'report' and hasattr(f, 'report') and sized and getattr(f, 'hits', None):
        try:
            f.report()
        except TypeError:           # a changed tool
            pass
        return k, False
    if k == 'settings':
        f.settings.units = 'inch' if f.settings.units == 'metric' else 'metric'
        f.settings.format = (5, 1)
        f.settings.notation = 'incremental'
        return k, True
    if k == 'render' and not net and sized and len(f.primitives) and not hasattr(f, 'tools'):
        from gerber.render.rs274x_backend import Rs274xContext
        ctx = Rs274xContext(f.settings)
        try:
            for p in f.primitives:
                ctx.render(p)
            ctx.dump()
        except Exception as e:      # not every changed object has a Gerber form
            k += ' ' + type(e).__name__
        return k, False
    # layers of boards
    for layer in (PCBLayer('a.gtl', 'top', f), PCBLayer.from_cam(f)):
        layer.primitives
        if sized and f.primitives and not net:
            layer.bounds
    return 'layer', False


def damaged(d, text):
    """a text with a few characters or lines missing, doubled, exchanged or replaced (digits are not added)"""
    for _ in range(d.choice([1, 1, 2, 4])):
        k = d.choice(['cut', 'put', 'replace', 'lines', 'end'])
        i = d.integer(0, len(text))
        if k == 'cut':
            text = text[:i] + text[i + d.choice([1, 1, 2, 8]):]
        elif k in ('put', 'replace'):
            c = d.choice(['%', '*', 'X', 'Y', '-', '.', '(', 'G36*', 'D03*', 'LPC*%', 'M15', 'T', '\n', '%AMX*', 'ICI,ON', 'M48', 'x'])
            text = text[:i] + c + text[i + (k == 'replace'):]
        elif k == 'lines':
            lines = text.split('\n')
            i, j = d.integer(0, len(lines) - 1), d.integer(0, len(lines) - 1)
            lines[i], lines[j] = lines[j], lines[i]
            text = '\n'.join(lines)
        else:
            text = text[:i]
    return text


def read_damaged(d, s, hist):
    """read something that may not be readable at all"""
    text = damaged(d, s.text)
    how = d.choice([s.reader, gerber.loads])
    hist.append('read damaged %r' % text)
    try:
        f = how(text)
        f.primitives, f.bounding_box
        if d.boolean():
            f.offset(0.5, 0.25)
            f.to_inch()
    except Exception as e:
        hist.append(type(e).__name__)
        d.label('refused')
    else:
        d.label('damaged and read')


def prop_histories(d):
    sources = [Source(d) for _ in range(d.choice([2, 2, 3, 4]))]
    hist = []
    d.show(files=[s.text for s in sources], history=hist)
    first = []
    files = []       # (source, file, state)
    changed = False
    for i, s in enumerate(sources):
        f = s.read()
        st = state(f)
        first.append(st)
        files.append([i, f, st])
        hist.append('read %d' % i)
        for j, g, want in files[:-1]:
            r = differs(state(g), want)
            if r:
                raise Violation('%r: file %d changed: %s' % (hist, j, r))
    for _ in range(d.size(1, 7)):
        if d.boolean(0.15):
            read_damaged(d, d.choice(sources), hist)
            n = None
        elif d.boolean(0.35):
            i = d.below(len(sources))
            hist.append('read %d' % i)
            f = sources[i].read()
            st = state(f)
            r = differs(st, first[i])
            if r:
                raise Violation('%r: reading %d again differs: %s' % (hist, i, r))
            files.append([i, f, st])
            n = len(files) - 1
        else:
            n = d.below(len(files))
            name, ch = use(d, files[n][1])
            hist.append('%d: %s' % (n, name))
            d.label(name)
            changed = changed or ch or name == 'render'
            if ch:
                files[n][2] = state(files[n][1])
        for j, (i, g, want) in enumerate(files):
            if j == n and hist[-1].startswith('read'):
                continue
            r = differs(state(g), want)
            if r:
                raise Violation('%r: file %d changed: %s' % (hist, j, r))
    for i, s in enumerate(sources):
        r = differs(state(s.read()), first[i])
        if r:
            raise Violation('%r: reading %d again differs: %s' % (hist, i, r))
    if changed:
        d.nontrivial(repr((hist, [s.text for s in sources])))


UNITS = [
    {'name': 'histories', 'prop': prop_histories, 'n': {'quick': 4000, 'thorough': 120000}},
]
BUDGET = {'quick': 90, 'thorough': 600}
