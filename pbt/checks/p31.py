"""P31: values outside their range are refused when given, those inside are kept as given."""
import os
import shutil
import tempfile
from engine import Violation
from prims import gen, build, snap, compare, SCHEMA
from gerber import primitives as gp
from gerber import am_statements as am
from gerber import rs274x, excellon
from gerber.pcb import PCB
from gerber.am_read import read_macro
from gerber.render.render import GerberContext
from gerber.render.rs274x_backend import Rs274xContext
from gerber.render.excellon_backend import ExcellonContext
from gerber.cam import FileSettings
from gerber.gerber_statements import MOParamStmt, QuadrantModeStmt, RegionModeStmt
from gerber.excellon_statements import (IncrementalModeStmt, VersionStmt, FormatStmt, MeasuringModeStmt)
from gerber.ipc356 import (IPC356_Comment, IPC356_Parameter, IPC356_TestRecord, IPC356_Outline, IPC356_Conductor,
                           IPC356_Adjacency)

TECHNIQUE = 'generated values on both sides of every stated limit, and histories of accepted and refused assignments, against a table of the limits'
NOTE = 'No counterexample among the generated cases counted in the evidence.'
RULE = ('a case gives one value (or a history of values) to something with a stated range; non-trivial = the value is '
        'refused, or it is accepted at or next to a limit')
ASSUMPTIONS = ['values are finite numbers, text or sequences of numbers']


def refuses(fn, exc, what):
    try:
        fn()
    except exc as e:
        if type(e) is not exc:
            raise Violation('%s: raises %s, expected %s' % (what, type(e).__name__, exc.__name__))
        return
    raise Violation('%s: accepted, expected %s' % (what, exc.__name__))


# --- drawing contexts -------------------------------------------------------------------
COLORS = ('color', 'drill_color', 'background_color')


def channel(d):
    return d.choice([0, 1, 0.0, 1.0, d.integer(0, 1000) / 1000.0, d.integer(0, 255) / 255.0])


def outside(d):
    return d.choice([-1, 2, 255, -d.integer(1, 1000) / 1000.0, 1 + d.integer(1, 1000) / 1000.0, -1e-9, 1 + 1e-9])


def prop_context(d):
    cls = d.choice([GerberContext, GerberContext, Rs274xContext, ExcellonContext])
    ctx = cls() if cls is GerberContext else cls(FileSettings())
    other = GerberContext()
    names = COLORS + ('units', 'alpha', 'invert')
    m = dict((n, getattr(ctx, n)) for n in names)
    fresh = dict((n, getattr(other, n)) for n in names)
    hist = []
    d.show(context=cls.__name__, history=hist)
    acc = ref = 0
    for _ in range(d.size(1, 8)):
        n = d.choice(COLORS + ('units', 'alpha', 'alpha', 'invert'))
        bad, exc = d.boolean(), ValueError
        if n == 'units':
            v = d.choice(['inches', 'mm', '', 'INCH', None, 'metrics']) if bad else d.choice(['inch', 'metric'])
        elif n == 'invert':
            bad, v = False, d.boolean()
        elif n == 'alpha':
            v = outside(d) if bad else channel(d)
        else:
            v = [channel(d) for _ in range(3)]
            if bad and d.boolean():
                v[d.below(3)] = outside(d)
            elif bad:
                v, exc = [channel(d) for _ in range(d.choice([0, 1, 2, 4, 5]))], TypeError
            v = tuple(v)
        hist.append((n, v, 'refuse' if bad else 'accept'))
        if bad:
            refuses(lambda: setattr(ctx, n, v), exc, 'assigning %s = %r' % (n, v))
            ref += 1
        else:
            setattr(ctx, n, v)
            m[n] = v
            acc += 1
        for k in names:
            if getattr(ctx, k) != m[k]:
                raise Violation('after %r: %s is %r, expected %r' % (hist, k, getattr(ctx, k), m[k]))
            if getattr(other, k) != fresh[k]:
                raise Violation('after %r: %s of another context is %r, expected %r' % (hist, k, getattr(other, k), fresh[k]))
    if acc and ref:
        d.nontrivial(tuple(map(repr, hist)))


# --- graphical objects ------------------------------------------------------------------
PLACED = [k for k in SCHEMA if k not in ('Line', 'Arc', 'Outline', 'Region', 'AMGroup')]


def bad_point(d):
    a, b = d.mm(100), d.integer(-50, 50)
    return d.choice([(), (a,), (a, b, a), [a], (a, b, b, b), ('1', a), (a, '2'), (None, a), (a, None), ((a, b), b),
                     (a, complex(1, 1))])


def prop_object(d):
    k = d.choice(PLACED + ['Outline', 'Donut', 'SquareRoundDonut'])
    s = gen(d, k)
    d.label(k)
    what = d.choice(['valid', 'point', 'own', 'own'])
    exc = ValueError
    if what == 'point' and k != 'Outline':
        names = [n for n, t in SCHEMA[k] if t == 'pt']
        n = d.choice(names)
        s[n] = bad_point(d)
        exc = TypeError
    elif what == 'own' and k == 'Donut' and d.boolean():
        s['shape'] = d.choice(['', 'Round', 'triangle', 'hex', 'circle', None, 'octagonal'])
    elif what == 'own' and k in ('Donut', 'SquareRoundDonut'):
        s['inner_diameter'] = d.choice([s['outer_diameter'], s['outer_diameter'] + d.pos(0.001, 1)])
        if s['inner_diameter'] == s['outer_diameter']:
            d.label('equal diameters')
    elif what == 'own' and k == 'Outline':
        m = s['primitives'][-1] = dict(s['primitives'][-1])
        m['end'] = (m['end'][0] + d.choice([0.001, 1, -2]), m['end'][1])
    elif what in ('point', 'own'):
        what = 'valid'
    d.show(spec=repr(s), case=what)
    if what == 'valid':
        if k in ('Donut', 'SquareRoundDonut') and d.boolean():     # next to the limit
            s['inner_diameter'] = s['outer_diameter'] * (1 - 1e-6)
            d.nontrivial((k, 'limit', s['outer_diameter']))
        if 'position' in s and d.boolean(0.3):
            s['position'] = d.choice([None, (d.integer(-9, 9), d.integer(-9, 9)), [1.5, 2]])
        o = build(s)
        for n, t in SCHEMA[k]:
            if t in ('pt', 'len', 'any') and n != 'corners' and getattr(o, n) != s[n]:
                raise Violation('%s of a %s is %r, given %r' % (n, k, getattr(o, n), s[n]))
        return
    d.nontrivial((k, repr(s)))
    refuses(lambda: build(s), exc, '%s built from %r' % (k, s))


# --- primitives of macros ---------------------------------------------------------------
CODES = (0, 1, 2, 4, 5, 6, 7, 20, 21, 22, 9999)
MACRO = {      # class -> (its codes, parameters: names and kinds)
    'AMCirclePrimitive': ((1,), ['code', 'exposure', 'diameter', 'position', 'rotation']),
    'AMVectorLinePrimitive': ((2, 20), ['code', 'exposure', 'width', 'start', 'end', 'rotation']),
    'AMOutlinePrimitive': ((4,), ['code', 'exposure', 'start_point', 'points', 'rotation']),
    'AMPolygonPrimitive': ((5,), ['code', 'exposure', 'vertices', 'position', 'diameter', 'rotation']),
    'AMMoirePrimitive': ((6,), ['code', 'position', 'diameter', 'ring_thickness', 'gap', 'max_rings',
                                'crosshair_thickness', 'crosshair_length', 'rotation']),
    'AMThermalPrimitive': ((7,), ['code', 'position', 'outer_diameter', 'inner_diameter', 'gap', 'rotation']),
    'AMCenterLinePrimitive': ((21,), ['code', 'exposure', 'width', 'height', 'center', 'rotation']),
    'AMLowerLeftLinePrimitive': ((22,), ['code', 'exposure', 'width', 'height', 'lower_left', 'rotation']),
    'AMCommentPrimitive': ((0,), ['code', 'comment']),
    'AMPrimitive': (CODES, ['code', 'exposure']),
}
POINTS = ('position', 'start', 'end', 'start_point', 'center', 'lower_left')


def pt(d):
    return (d.integer(-100, 100) / 10.0, d.integer(-9, 9))


def prop_macro(d):
    name = d.choice(sorted(MACRO))
    codes, params = MACRO[name]
    v = {}
    for p in params:
        if p == 'code':
            v[p] = d.choice(codes)
        elif p == 'exposure':
            v[p] = d.choice(['on', 'off', 'ON', 'Off'] + ([None] if name == 'AMPrimitive' else []))
        elif p == 'comment':
            v[p] = d.choice(['', 'text', 'two words'])
        elif p in POINTS:
            v[p] = pt(d)
        elif p == 'points':
            v[p] = [pt(d) for _ in range(d.integer(1, 5))] + [v['start_point']]
        elif p == 'vertices':
            v[p] = d.choice([3, 12, d.integer(3, 12)])
        elif p == 'max_rings':
            v[p] = d.integer(0, 5)
        else:
            v[p] = d.integer(0, 1000) / 100.0
    d.label(name)
    bad = d.choice(['', 'code', 'exposure', 'point', 'own'])
    exc = ValueError
    if bad == 'code':
        c = [x for x in CODES + (3, 8, 10, -1, 23, 100) if x not in codes]
        v['code'] = d.choice(c)
        if name == 'AMPrimitive' and d.boolean(0.3):
            v['code'], exc = d.choice(['1', 1.5, None, '', (1,)]), TypeError
    elif bad == 'exposure' and 'exposure' in v:
        v['exposure'] = d.choice(['', 'o', 'yes', '1', 'onoff', 'exposed', ' on'])
    elif bad == 'point' and [p for p in params if p in POINTS]:
        p = d.choice([p for p in params if p in POINTS])
        v[p] = bad_point(d)
        exc = TypeError
        if p == 'start_point' and d.boolean():
            v[p] = (0, 0)
            v['points'] = [(0, 1), bad_point(d), (0, 0)]
    elif bad == 'own' and name == 'AMPolygonPrimitive':
        v['vertices'] = d.choice([2, 13, 0, -3, 1, d.integer(13, 100)])
    elif bad == 'own' and name == 'AMOutlinePrimitive':
        x, y = v['start_point']
        v['points'][-1] = d.choice([(x + 0.001, y), (x, y - 1), (y + 1, x)])
        if v['points'][-1] == (x, y):
            bad = ''
    else:
        bad = ''
    d.show(cls=name, args=repr([v[p] for p in params]), case=bad)
    make = lambda: getattr(am, name)(*[v[p] for p in params])
    if bad:
        d.nontrivial((name, repr(v)))
        refuses(make, exc, '%s%r' % (name, tuple(v[p] for p in params)))
        return
    o = make()
    if v.get('vertices') in (3, 12):
        d.nontrivial((name, repr(v)))
    for p in params:
        e = v[p].lower() if p == 'exposure' and v[p] else v[p]
        if getattr(o, p) != e:
            raise Violation('%s of %s%r is %r' % (p, name, tuple(v[q] for q in params), getattr(o, p)))


# --- statements -------------------------------------------------------------------------
def any_case(d, t):
    return ''.join(c.upper() if d.boolean() else c for c in t) if d.boolean() else t


def prop_statement(d):
    k = d.choice(['ici', 'ver', 'fmat', 'mode', 'mode line', 'mo', 'quadrant', 'quadrant line', 'region', 'region line',
                  'ipc', 'parens'])
    d.label(k)
    bad = d.boolean()
    word = lambda *ws: (d.choice(['', 'x', 'none', 'onn', 'single', 'inches', 'millimeter', 'G3', 'mm in', '-'])
                        if bad else any_case(d, d.choice(ws)))
    if k == 'ici':
        v = word('on', 'off')
        fn, out = lambda: IncrementalModeStmt(v), lambda o: (o.mode.lower(), o.to_excellon())
        exp = (v.lower(), 'ICI,' + v.upper())
    elif k in ('ver', 'fmat'):
        cls, text = (VersionStmt, 'VER') if k == 'ver' else (FormatStmt, 'FMAT')
        v = d.choice([0, 3, -1, 12, 21, d.integer(3, 99)]) if bad else d.integer(1, 2)
        how = d.below(3)
        fn = (lambda: cls(v), lambda: cls(str(v)), lambda: cls.from_excellon('%s,%d' % (text, v)))[how]
        out = lambda o: (o.version if k == 'ver' else o.format, o.to_excellon())
        exp = (v, '%s,%d' % (text, v))
    elif k == 'mode':
        v = word('inch', 'metric')
        fn, out = lambda: MeasuringModeStmt(v), lambda o: (o.units, o.to_excellon())
        exp = (v.lower(), 'M72' if v.lower() == 'inch' else 'M71')
    elif k == 'mode line':
        v = d.choice(['M70', 'M73', 'M7', '', 'INCH', 'M17']) if bad else d.choice(['M71', 'M72'])
        fn, out = lambda: MeasuringModeStmt.from_excellon(v), lambda o: o.units
        exp = 'inch' if v == 'M72' else 'metric'
    elif k == 'mo':
        v = word('in', 'mm')
        fn, out = lambda: MOParamStmt.from_dict({'param': 'MO', 'mo': v}), lambda o: (o.mode, o.to_gerber())
        exp = ('inch' if v.lower() == 'in' else 'metric', '%%MO%s*%%' % v.upper())
    elif k == 'quadrant':
        v = word('single-quadrant', 'multi-quadrant')
        fn, out = lambda: QuadrantModeStmt(v), lambda o: (o.mode, o.to_gerber())
        exp = (v.lower(), 'G74*' if v.lower()[:1] == 's' else 'G75*')
    elif k == 'quadrant line':
        v = d.choice(['G73', 'G76', 'G7', '', 'G36', 'G01']) if bad else d.choice(['G74', 'G75'])
        v += d.choice(['', '*'])
        fn, out = lambda: QuadrantModeStmt.from_gerber(v), lambda o: o.mode
        exp = 'single-quadrant' if v[:3] == 'G74' else 'multi-quadrant'
    elif k == 'region':
        v = word('on', 'off')
        fn, out = lambda: RegionModeStmt(v), lambda o: (o.mode, o.to_gerber())
        exp = (v.lower(), 'G36*' if v.lower() == 'on' else 'G37*')
    elif k == 'region line':
        v = d.choice(['G35', 'G38', 'G3', '', 'G74', 'G01']) if bad else d.choice(['G36', 'G37'])
        v += d.choice(['', '*'])
        fn, out = lambda: RegionModeStmt.from_gerber(v), lambda o: o.mode
        exp = 'on' if v[:3] == 'G36' else 'off'
    elif k == 'ipc':
        st = FileSettings()
        good = {'comment': 'C  a comment', 'parameter': 'P  UNITS CUST 0',
                'record': '317NET1            VIA         MD0118PA00X 006647Y 012900X0360Y0360R180S3',
                'conductor': '378NET1           L01 X0040Y X 012900Y 006647X 013500Y 006647*', 'adjacency': '379NET1 NET2 NET3'}
        read = {'comment': (IPC356_Comment.from_line, lambda o: o.comment == 'a comment'),
                'parameter': (IPC356_Parameter.from_line, lambda o: (o.parameter, o.value) == ('UNITS', 'CUST 0')),
                'record': (lambda l: IPC356_TestRecord.from_line(l, st), lambda o: o.net_name == 'NET1'),
                'conductor': (lambda l: IPC356_Conductor.from_line(l, st), lambda o: o.net_name == 'NET1' and o.layer == 1),
                'adjacency': (IPC356_Adjacency.from_line, lambda o: (o.net, o.adjacent_nets) == ('NET1', ['NET2', 'NET3']))}
        w = d.choice(sorted(good))
        other = [x for x in sorted(good) if x != w and not (w == 'record' and x in ('conductor', 'adjacency'))]
        v = good[d.choice(other)] if bad else good[w]
        line = v
        fn, out, exp = lambda: read[w][0](line), read[w][1], True
        v = (w, line)
    else:
        # an unmatched closing bracket in a macro
        n = d.integer(1, 4)
        parts, depth = [], 0
        for i in range(n):
            o = d.below(2)
            c = d.below(depth + o + 1)
            depth += o - c
            parts.append('(' * o + str(d.integer(1, 9)) + ')' * c)
        parts[-1] += ')' * depth
        text = d.choice('+-xX/').join(parts)
        if bad:
            text = d.choice([text + ')', '1)+' + text, text + ')' + '+(2'])
        v = d.choice(['1,1,%s,0,0*', '$1=%s*', '20,1,0.1,0,0,1,%s,0*']) % text
        fn, out, exp = lambda: list(read_macro(v)), lambda o: len(o) > 0, True
    d.show(kind=k, value=v, refuse=bad)
    if bad:
        d.nontrivial((k, v))
        refuses(fn, ValueError, '%s %r' % (k, v))
        return
    got = out(fn())
    if got != exp:
        raise Violation('%s %r: %r, expected %r' % (k, v, got, exp))


# --- whole files ------------------------------------------------------------------------
def prop_file(d):
    k = d.choice(['ver', 'fmat', 'polygon', 'outline', 'format', 'units', 'parens'])
    d.label(k)
    bad = d.boolean()
    hits = [(d.integer(0, 99), d.integer(0, 99)) for _ in range(d.integer(1, 3))]
    if k in ('ver', 'fmat'):
        n = d.choice([0, 3, d.integer(3, 30)]) if bad else d.integer(1, 2)
        line = '%s,%d' % ('VER' if k == 'ver' else 'FMAT', n)
        head = ['INCH,LZ', line, 'T1C0.1']
        head = [head[i] for i in d.choice([(0, 1, 2), (1, 0, 2), (0, 2, 1)])]
        text = 'M48\n' + '\n'.join(head) + '\n%\nT1\n' + ''.join('X%02d.0Y%02d.0\n' % h for h in hits) + 'M30\n'
        load, count = excellon.loads, lambda f: len(f.hits)
    else:
        fs, mo, macro = '24', 'IN', '1,1,1,0,0'
        if k == 'polygon':
            macro = '5,1,%d,0,0,1,0' % (d.choice([2, 13, 1, 0, d.integer(13, 40)]) if bad else d.choice([3, 12, d.integer(3, 12)]))
        elif k == 'outline':
            macro = '4,1,3,0,0,1,0,1,1,%s,0' % (d.choice(['0,1', '0.001,0', '1,0']) if bad else '0,0')
        elif k == 'parens':
            macro = '1,1,%s,0,0' % (d.choice(['1+2)', '(1+2))', '1)x2']) if bad else d.choice(['(1+2)', '((1)+2)']))
        elif k == 'format':
            fs = '%d%d' % ((7, d.integer(0, 7)) if bad else d.choice([(6, 7), (6, 6), (1, 7), (6, 1)]))
        elif k == 'units':
            bad, mo = False, d.choice(['IN', 'MM', 'in', 'mm'])
        flash = ''.join('X%dY%dD03*\n' % h for h in hits)
        text = '%%FSLAX%sY%s*%%\n%%MO%s*%%\n%%AMM*%s*%%\n%%ADD10M*%%\nD10*\n%sM02*\n' % (fs, fs, mo, macro, flash)
        load, count = rs274x.loads, lambda f: len(f.primitives)
    d.show(text=text, refuse=bad)
    d.nontrivial(text)
    if bad:
        refuses(lambda: load(text), ValueError, 'reading %r' % text)
    elif count(load(text)) != len(hits):
        raise Violation('%d objects read from %r' % (count(load(text)), text))


def prop_directory(d):
    """only a directory is one, and reading it does not depend on a separator at its end"""
    top = tempfile.mkdtemp(prefix='p31')
    try:
        os.mkdir(os.path.join(top, 'board'))
        with open(os.path.join(top, 'board', 'a.gtl'), 'w') as f:
            f.write('%FSLAX24Y24*%\n%MOIN*%\n%ADD10C,0.1*%\nD10*\nX1Y1D03*\nM02*\n')
        name = d.choice(['board', 'board/', 'board/a.gtl', 'other', 'board/other', 'board/../board', 'board/a.gtl/'])
        d.show(name=name)
        path = os.path.join(top, name)
        if name.rstrip('/') in ('board', 'board/../board'):
            p = PCB.from_directory(path)
            if [(l.layer_class, len(l.primitives)) for l in p.layers] != [('top', 1)]:
                raise Violation('board at %r has layers %r' % (name, [l.layer_class for l in p.layers]))
        else:
            d.nontrivial(name)
            refuses(lambda: PCB.from_directory(path), TypeError, 'board at %r' % name)
    finally:
        shutil.rmtree(top)


UNITS = [
    {'name': 'context', 'prop': prop_context, 'n': {'quick': 15000, 'thorough': 300000}},
    {'name': 'object', 'prop': prop_object, 'n': {'quick': 30000, 'thorough': 1000000}},
    {'name': 'macro', 'prop': prop_macro, 'n': {'quick': 30000, 'thorough': 1000000}},
    {'name': 'statement', 'prop': prop_statement, 'n': {'quick': 30000, 'thorough': 1000000}},
    {'name': 'file', 'prop': prop_file, 'n': {'quick': 10000, 'thorough': 300000}},
    {'name': 'directory', 'prop': prop_directory, 'n': {'quick': 200, 'thorough': 5000}},
]
