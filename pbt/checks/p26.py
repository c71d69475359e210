"""P26: what a file says up to some point does not depend on what follows."""
import os
from engine import Violation, Discard
from dmodel import DGen, load, holes_of, same_hole, show_hole, label as label_drill
from gmodel import Gen, cmd_text, describe, diff, label
from checks.p13 import scratch
from checks.p16 import Net, check as check_net
from gerber import rs274x, ipc356

TECHNIQUE = 'generated files cut off at generated places, objects compared with those the commands before the cut define'
NOTE = 'No counterexample among the generated cases counted in the evidence.'
RULE = ('a case is one generated Gerber program, drill program or netlist and one or more places to cut it; '
        'non-trivial = at least one object before a cut and one after it')
ASSUMPTIONS = ['drill programs and netlists are cut between lines, and their formats are stated or given to the reader',
               'a netlist is not cut between a record and its continuation lines']


class Track(list):
    """a list which also records how many objects there were when each item was added"""

    def __init__(self, objects):
        self.objects = objects
        self.marks = []

    def append(self, x):
        self.marks.append(len(self.objects()))
        list.append(self, x)

    def __iadd__(self, xs):
        for x in xs:
            self.append(x)
        return self

    def extend(self, xs):
        self += xs

    def after(self, k):
        """objects defined by the first k items"""
        return self.marks[k] if k < len(self.marks) else len(self.objects())


def check_gerber(text, want, exact, what, read=rs274x.loads):
    f = read(text)
    got = [describe(q) for q in f.primitives]
    if exact and len(got) != len(want) or len(got) > len(want):
        raise Violation('%s: %d objects, the commands before the cut define %d' % (what, len(got), len(want)))
    r = diff(got, want[:len(got)])
    if r:
        raise Violation('%s: %s' % (what, r))
    return f


def prop_gerber(d):
    g = Gen(d, max_cmds=d.choice([5, 12, 20]), notation='any')
    g.p.cmds = cmds = Track(lambda: g.p.objects)
    p = g.run()
    label(d, p)
    eol = d.choice(['\n', '\n', '\r\n', ''])
    pieces = [cmd_text(c, p) + eol for c in cmds]
    for _ in range(d.choice([1, 2, 3])):
        k = d.integer(0, len(pieces))
        n = cmds.after(k)
        text = ''.join(pieces[:k])
        what = 'cut after %d of %d commands' % (k, len(pieces))
        part = 0
        if d.boolean(0.4) and k < len(pieces) and len(pieces[k]) > 1:
            # within a command, which then is not there
            part = d.integer(1, len(pieces[k]) - 1)
            what += ' and %d characters' % part
        ended = d.boolean(0.2) and not part
        if k < len(pieces):
            text += pieces[k][:part]
        if ended:
            text += 'M02*' + eol
        d.show(text=text, cut=what, rest=''.join(pieces[k:])[part:])
        # within a command the objects so far are all there too; the command itself may be complete up to its last character
        want = p.objects[:n]
        if part and pieces[k][:part].rstrip().endswith('*') and not pieces[k].startswith('%'):
            want = p.objects[:cmds.after(k + 1)]
        if part and pieces[k].startswith('%'):
            d.label('inside a parameter')
        elif part:
            d.label('inside a command')
        path = None
        if d.boolean(0.1):
            path = scratch('p26.gbr')
            with open(path, 'w', newline='') as h:
                h.write(text)
        try:
            f = check_gerber(text, want, True, what, rs274x.loads if path is None else lambda t: rs274x.read(path))
        finally:
            if path:
                os.remove(path)
        if any(c[0] == 'param' and c[1].startswith('FS') for c in cmds[:k]):
            s = f.settings
            if tuple(s.format) != p.fmt or s.notation != p.notation:
                raise Violation('%s: format %r %s, stated %r %s' % (what, s.format, s.notation, p.fmt, p.notation))
        if want and n < len(p.objects):
            d.nontrivial(text)


def prop_drill(d):
    g = DGen(d)
    g.p.lines = Track(lambda: g.p.holes)
    p = g.run()
    lines = p.lines
    label_drill(d, p)
    full = load(p)
    for _ in range(d.choice([1, 2, 3])):
        k = d.integer(1, len(lines))
        text = p.newline.join(lines[:k]) + (p.newline if d.boolean(0.8) else '')
        what = 'cut after %d of %d lines' % (k, len(lines))
        d.show(text=text, cut=what, rest=p.newline.join(lines[k:]), given=repr(p.given), ext=repr(p.ext))
        f = load(p, text)
        got, want = holes_of(f), p.holes[:lines.after(k)]
        if len(got) != len(want):
            raise Violation('%s: %d holes and slots, the lines before the cut command %d' % (what, len(got), len(want)))
        for i, (a, b) in enumerate(zip(got, want)):
            if not same_hole(a, b):
                raise Violation('%s: feature %d is %s, commanded %s' % (what, i, show_hole(a), show_hole(b)))
        for n, t in f.tools.items():
            if n not in full.tools:
                raise Violation('%s: tool %r, which the whole file does not have' % (what, n))
        if want and len(want) < len(p.holes):
            d.nontrivial(text)


def prop_netlist(d):
    n = Net(d)
    want = n.want
    n.lines = Track(lambda: want)
    n.run()
    lines = n.lines
    for _ in range(d.choice([1, 2, 3])):
        k = d.integer(0, len(lines))
        while k < len(lines) and lines[k][:1] == '0':
            k += 1
        text = ''.join(l + '\n' for l in lines[:k])
        d.show(text=text, cut='cut after %d of %d lines' % (k, len(lines)))
        if not any(l.startswith('P  UNITS') for l in lines[:k]) and any(l.startswith('P  UNITS') for l in lines):
            d.label('cut in the header')
            continue
        n.want = want[:lines.after(k)]
        check_net(ipc356.loads(text), n, None)
        if n.want and k < len(lines):
            d.nontrivial(text)


UNITS = [
    {'name': 'gerber', 'prop': prop_gerber, 'n': {'quick': 12000, 'thorough': 400000}},
    {'name': 'drill', 'prop': prop_drill, 'n': {'quick': 12000, 'thorough': 400000}},
    {'name': 'netlist', 'prop': prop_netlist, 'n': {'quick': 12000, 'thorough': 400000}},
]
