"""P16: IPC-D-356 netlists, decoded field by field."""
import math
import os
from fractions import Fraction
from engine import Violation
from checks.p13 import scratch
from gerber import ipc356

TECHNIQUE = 'generated IPC-D-356 netlists against the values their columns were written from'
NOTE = 'No counterexample among the generated netlists counted in the evidence.'
RULE = ('a case is one generated netlist: parameters, aliases, comments, test records of every kind with optional '
        'fields present or blank, conductors, outlines, adjacency records and continuation lines; non-trivial = at '
        'least 3 test records')
ASSUMPTIONS = ['units are declared before the records, aliases before the records they are for', 'access sides are those of the first 9 codes',
               'test records reach at least to their Y coordinate', 'continuation lines break between words']

KINDS = {'1': 'through-hole', '2': 'smt', '3': 'tooling-feature', '4': 'tooling-hole', '6': 'non-plated-tooling-hole'}
ACCESS = ['both', 'top', 'layer2', 'layer3', 'layer4', 'layer5', 'layer6', 'layer7', 'bottom']
MASK = {'0': 'none', '1': 'primary side', '2': 'secondary side', '3': 'both'}
NAMES = ['GND', 'VCC', 'N$3', '+5VDC', '/RESET', 'A', 'N-C', 'D0', 'X1Y2', 'NNAME', 'NNAMEX1', 'CLK_100MHZ', 'ABCDEFGHIJKLMN']


class Net(object):
    def __init__(self, d):
        self.d = d
        self.lines = []
        self.want = []       # ('kind', {field: value})
        self.alias = {}
        self.units = 'inch'
        self.angle = 'degrees'
        self.scale = Fraction(1, 10000)
        self.pad = d.boolean(0.3)      # short lines are filled with blanks
        self.zero = d.boolean(0.5)     # numbers are filled with zeros

    def put(self, s):
        t = s.ljust(80) if self.pad else s.rstrip()
        self.lines.append(t)

    def num(self, v, width, sign=False):
        d = self.d
        if self.zero:
            t = '%0*d' % (width - 1 if sign else width, abs(v))
            return (('-' if v < 0 else d.choice([' ', '+', ' ', '0']) if not sign else ' ') + t) if sign else t
        return ('%d' % v).rjust(width)

    def net_name(self):
        d = self.d
        if self.alias and d.boolean(0.25):
            a = d.choice(sorted(self.alias))
            return a, self.alias[a]
        n = d.choice(NAMES) if d.boolean(0.7) else ''.join(
            d.choice('ABCXYZ0189_-+$/.#') for _ in range(d.integer(1, 14)))
        if n.startswith('NNAME') and n[5:].isdigit():
            n = 'Q'
        if d.boolean(0.1):
            n = 'NNAME%d' % d.choice([1, 2, 3, 12, 90, 99])     # looks like an alias, but may not be declared
            return n, self.alias.get(n, n)
        return n, n

    def record(self):
        d = self.d
        k = d.choice('112222346')
        w = {'feature_type': KINDS[k]}
        text, w['net_name'] = ('', '') if d.boolean(0.07) else self.net_name()
        via = k == '1' and d.boolean(0.25)
        ident = 'VIA' if via else '' if d.boolean(0.07) else d.choice(['R1', 'C12', 'U100', 'J4', 'CONN12', 'X', 'TP-1'])
        shift = 0
        pin = ''
        if not via and ident and d.boolean(0.9):
            pin = d.choice(['1', '+', '-', 'A1', '1234', 'M2', 'D', '22'])
            if d.boolean(0.06):
                ident = d.choice(['COMMUNICATION', 'CONNECTOR', 'ABCDEFG'])
                d.label('long component name')
            shift = max(0, len(ident) - 6)
        if ident == 'TP-1' and not pin:
            ident = 'TP1'
        w['id'] = ident
        w['pin'] = pin or None
        s = '3%s7%-14s   %-6s%s%-4s' % (k, text, ident, '-' if pin or d.boolean(0.1) else ' ', pin)
        mid = d.boolean(0.2)
        w['location'] = 'middle' if mid else 'end'
        s += 'M' if mid else ' '
        if k != '2' or d.boolean(0.1):
            v = d.integer(0, 9999)
            w['hole_diameter'] = v * self.scale
            s += 'D' + self.num(v, 4)
        else:
            s += ' ' * 5
        plated = d.choice('PU ' if k != '1' else 'PU')
        w['plated'] = plated == 'P'
        a = d.integer(0, 8)
        w['access'] = ACCESS[a]
        s += '%sA%02d' % (plated, a)
        for c, f in (('X', 'x_coord'), ('Y', 'y_coord')):
            v = d.signed(d.choice([100, 99999, 999999])) if not d.boolean(0.1) else 0
            w[f] = v * self.scale
            if not self.zero and abs(v) < 1000000 and d.boolean(0.9) or v < 0 and not self.zero:
                t = ('%d' % v).rjust(7)
            else:
                t = d.choice(['-'] if v < 0 else [' ', '+']) + '%06d' % abs(v)
            s += c + t
            if v < 0:
                d.label('negative coordinate')
        # optional fields; a record may stop after any of them
        if d.boolean(0.9):
            v = d.integer(0, 9999)
            w['rect_x'] = v * self.scale
            s += 'X' + self.num(v, 4)
            if d.boolean(0.8):
                v = d.integer(0, 9999)
                w['rect_y'] = v * self.scale
                s += 'Y' + self.num(v, 4)
                if d.boolean(0.7):
                    v = d.integer(0, 359 if self.angle == 'degrees' else 6)
                    w['rect_rotation'] = v if self.angle == 'degrees' else math.degrees(v)
                    s += 'R' + self.num(v, 3)
                else:
                    s += ' ' * 4
            else:
                s += ' ' * 9
        else:
            s += ' ' * 14
        if d.boolean(0.5):
            m = d.choice('0123')
            w['soldermask_info'] = MASK[m]
            s += ' S' + m
        else:
            d.label('ends early')
        self.put(s)
        self.want.append(('test', w))

    def points(self, n):
        """coordinate words; an axis left out is unchanged, and zero at the start of a shape; returns words and points"""
        d = self.d
        words, pts, x, y = [], [], 0, 0
        for i in range(n):
            both = d.boolean(0.95 if i == 0 else 0.7)
            which = 'XY' if both else d.choice(['X', 'Y'])
            s = ''
            if 'X' in which:
                x = d.signed(d.choice([20, 99999]))
                s += 'X%d' % x
            if 'Y' in which:
                y = d.signed(d.choice([20, 99999]))
                s += 'Y%d' % y
            words.append(s)
            pts.append((x * self.scale, y * self.scale))
        return words, pts

    def wrap(self, first, words, cont):
        """a record on one or several lines"""
        d = self.d
        line = first
        for i, w in enumerate(words):
            if i and d.boolean(0.25) or len(line) + 1 + len(w) > 80 and i:
                self.put(line)
                line = cont + ' ' * d.choice([1, 1, 19])
                line += w
                d.label('continuation')
            else:
                line += ('' if line.endswith(' ') else ' ') + w
        self.put(line)

    def outline(self):
        d = self.d
        kind = d.choice(['BOARD_EDGE', 'PANEL_EDGE', 'SCORE_LINE', 'OTHER_FAB'])
        words, pts = self.points(d.integer(1, 8))
        self.wrap('389%-14s    ' % kind, words, '089')
        self.want.append(('outline', {'type': kind, 'points': tuple(pts)}))

    def conductor(self):
        d = self.d
        text, name = self.net_name()
        layer = d.integer(1, 99)
        ax = d.integer(1, 999)
        ay = d.integer(1, 999) if d.boolean(0.5) else None
        words = ['X%d' % ax + ('' if ay is None else 'Y%d' % ay)]
        shapes = []
        for i in range(d.integer(1, 3)):
            w, pts = self.points(d.integer(1, 5))
            if i:
                if d.boolean(0.5):
                    words[-1] += '*'
                else:
                    words.append('*')
            words += w
            shapes.append(tuple(pts))
        self.wrap('378%-14s L%02d' % (text, layer), words, '078')
        self.want.append(('conductor', {'net_name': name, 'layer': layer, 'shapes': tuple(shapes),
                                        'aperture': (ax * self.scale, None if ay is None else ay * self.scale)}))

    def adjacency(self):
        d = self.d
        nets = [self.net_name() for _ in range(d.integer(2, 6))]
        # the names of the netlist, mostly
        known = [w['net_name'] for k, w in self.want if k == 'test' and w['net_name']]
        nets = [((n, self.alias.get(n, n)) if known and d.boolean(0.7) and (n := d.choice(known)) else v) for v in nets] if known else nets
        nets = [v for v in nets if ' ' not in v[0]]
        self.wrap('379' + nets[0][0], [v[0] for v in nets[1:]], '079')
        self.want.append(('adjacency', {'net': nets[0][1], 'adjacent_nets': tuple(v[1] for v in nets[1:])}))

    def header(self):
        d = self.d
        for _ in range(d.integer(0, 2)):
            self.comment()
        if d.boolean(0.5):
            self.param('JOB', d.choice(['EAGLE 7.1 NETLIST', 'board', '']))
        u = d.choice(['CUST 0', 'CUST 1', 'CUST 2', 'CUST', None])
        if u:
            self.param('UNITS', u)
            self.units = 'metric' if u == 'CUST 1' else 'inch'
            self.angle = 'radians' if u == 'CUST 2' else 'degrees'
            self.scale = Fraction(1, 1000 if self.units == 'metric' else 10000)
        if d.boolean(0.5):
            self.param('DIM', 'N')
        for i in range(d.integer(0, 3)):
            k = d.choice([1, 2, 12, i + 1])
            v = d.choice(['A_REALLY_LONG_NET_NAME', 'GND', 'VERY.LONG/NAME_%d' % i])
            self.param('NNAME%d' % k, v)
            self.alias['NNAME%d' % k] = v

    def late(self):
        """an alias for the records after it"""
        d = self.d
        k = 'NNAME%d' % d.choice([1, 2, 3, 12, 90])
        v = d.choice(NAMES[:6] + ['ANOTHER_LONG_NET_NAME'])
        self.param(k, v)
        self.alias[k] = v
        d.label('alias between records')

    def comment(self):
        c = self.d.choice(['', 'a comment', '317GND', 'C C', 'P  UNITS CUST 1'])
        self.put('C  ' + c)
        self.want.append(('comment', {'comment': c}))

    def param(self, k, v):
        self.put('P  %s %s' % (k, v))
        self.want.append(('parameter', {'parameter': k, 'value': v}))

    def run(self):
        d = self.d
        self.header()
        for _ in range(d.size(1, 14)):
            k = d.weighted([(9, self.record), (2, self.outline), (2, self.conductor), (2, self.adjacency), (1, self.comment), (1, self.late)])
            k()
        if d.boolean(0.9):
            self.put('999')
            self.want.append(('end', {}))
        return d.choice(['\n', '\n', '\r\n']).join(self.lines) + ('\n' if d.boolean(0.9) else '')


CLASSES = {'test': 'IPC356_TestRecord', 'outline': 'IPC356_Outline', 'conductor': 'IPC356_Conductor',
           'adjacency': 'IPC356_Adjacency', 'comment': 'IPC356_Comment', 'parameter': 'IPC356_Parameter',
           'end': 'IPC356_EndOfFile'}
TEST_FIELDS = ('hole_diameter', 'rect_x', 'rect_y', 'rect_rotation', 'soldermask_info')


def same(a, b):
    if isinstance(b, (tuple, list)):
        return isinstance(a, (tuple, list)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, (int, float, Fraction)) and not isinstance(b, bool):
        return isinstance(a, (int, float)) and abs(a - float(b)) <= 1e-9 * max(1.0, abs(float(b)))
    return a == b


def show(v):
    if isinstance(v, tuple):
        return '(%s)' % ', '.join(show(x) for x in v)
    return repr(float(v) if isinstance(v, Fraction) else v)


def check(f, n, name):
    if f.units != n.units or f.settings.units != n.units or f.settings.angle_units != n.angle:
        raise Violation('units are %s and %s, declared %s and %s' % (f.units, f.settings.angle_units, n.units, n.angle))
    if f.filename != name:
        raise Violation('the file name is %r, %r was read' % (f.filename, name))
    got = f.statements
    if [type(s).__name__ for s in got] != [CLASSES[k] for k, _ in n.want]:
        raise Violation('records %s, the file has %s' % ([type(s).__name__ for s in got], [CLASSES[k] for k, _ in n.want]))
    for i, (s, (k, w)) in enumerate(zip(got, n.want)):
        for a, v in sorted(w.items()):
            g = getattr(s, a, '(none)')
            if not same(g, v):
                raise Violation('record %d (%s): %s is %r, written %s' % (i, k, a, g, show(v)))
        if k == 'test':
            for a in TEST_FIELDS:
                if a not in w and getattr(s, a, None) is not None:
                    raise Violation('record %d: %s is %r, its columns are blank' % (i, a, getattr(s, a)))
    for view, kind in (('test_records', 'test'), ('comments', 'comment'), ('parameters', 'parameter'),
                       ('outlines', 'outline'), ('adjacency_records', 'adjacency')):
        a, b = getattr(f, view), [s for s, (k, _) in zip(got, n.want) if k == kind]
        if [id(x) for x in a] != [id(x) for x in b]:
            raise Violation('%s has %d entries, the file %d' % (view, len(a), len(b)))
    tests = [w for k, w in n.want if k == 'test']
    adj = [w for k, w in n.want if k == 'adjacency']
    nets = f.nets
    names = sorted(set(w['net_name'] for w in tests if w['net_name']))
    if sorted(x.name for x in nets) != names:
        raise Violation('nets %r, the records have %r' % (sorted(x.name for x in nets), names))
    for x in nets:
        want = set()
        for w in adj:
            if w['net'] == x.name:
                want.update(w['adjacent_nets'])
            elif x.name in w['adjacent_nets']:
                want.add(w['net'])
        if set(x.adjacent_nets) != want:
            raise Violation('net %s is next to %r, recorded %r' % (x.name, sorted(x.adjacent_nets), sorted(want)))
    comps = sorted(set(w['id'] for w in tests if w['id'] and w['id'] != 'VIA'))
    if sorted(f.components) != comps:
        raise Violation('components %r, the records have %r' % (sorted(f.components), comps))
    if list(f.vias) != ['VIA'] * sum(w['id'] == 'VIA' for w in tests):
        raise Violation('%d vias, the records have %d' % (len(f.vias), sum(w['id'] == 'VIA' for w in tests)))
    if len(f.primitives) != len(tests):
        raise Violation('%d objects for %d test records' % (len(f.primitives), len(tests)))
    for i, (p, w) in enumerate(zip(f.primitives, tests)):
        if not same(tuple(p.position), (w['x_coord'], w['y_coord'])) or p.net_name != w['net_name'] or p.layer != w['access']:
            raise Violation('object %d is at %r on %r, side %r; the record is %s' % (
                i, p.position, p.net_name, p.layer, show((w['x_coord'], w['y_coord'], w['net_name'], w['access']))))

    class Ctx(object):
        def render(self, p):
            drawn.append(p)
    for layer, sides in (('both', ('top', 'bottom', 'both')), ('top', ('top', 'both')), ('bottom', ('bottom', 'both'))):
        drawn = []
        f.render(Ctx(), layer)
        if [id(p) for p in drawn] != [id(p) for p in f.primitives if p.layer in sides]:
            raise Violation('rendering %s draws %d of the %d records' % (
                layer, len(drawn), sum(p.layer in sides for p in f.primitives)))


def prop_netlist(d):
    first = None
    if d.boolean(0.2):
        # whatever was read before
        first = Net(d).run()
        ipc356.loads(first)
    n = Net(d)
    text = n.run()
    d.show(text=text, first=first)
    for k, w in n.want:
        d.label(k)
    tests = sum(k == 'test' for k, _ in n.want)
    if tests >= 3:
        d.nontrivial(text)
    check(ipc356.loads(text), n, None)
    if d.boolean(0.2):
        path = scratch('p16')
        try:
            with open(path, 'w', newline='') as h:
                h.write(text)
            check(ipc356.read(path), n, path)
        finally:
            os.remove(path)


UNITS = [
    {'name': 'netlist', 'prop': prop_netlist, 'n': {'quick': 50000, 'thorough': 1000000}},
]
