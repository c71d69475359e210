"""P28: every statement of a drill file is read with its content and survives changes."""
import os
import re
from fractions import Fraction
from engine import Violation
from dmodel import DGen, load, settings_of, label
from checks.p13 import scratch
from gerber import excellon
from gerber import excellon_statements as es
from gerber.cam import FileSettings

TECHNIQUE = 'generated Excellon programs of every kind of statement, statements compared with an independent decoding of the lines after reading, after operations and through their own text'
NOTE = 'No counterexample among the generated cases counted in the evidence.'
RULE = ('a case is one generated Excellon program, read, converted and offset up to twice, each of its statements written and '
        'read by itself, and the file written; non-trivial = at least five kinds of statements')
ASSUMPTIONS = ['the statement which stands for the mode of a G00 or G01 line is not looked at, its coordinates have the mode',
               'offsets are applied to programs in absolute coordinates only here',
               'every tool is declared in the header']

INCH = Fraction(254, 10)
KEEP = ('comment', 'VER', 'FMAT', 'unknown')


class L(Fraction):
    """a length: scales with the units"""


class C(L):
    """a coordinate: moves, too"""


def number(t, p, kind=L):
    if '.' in t:
        return kind(Fraction(t))
    neg = t.startswith('-')
    t = t.lstrip('+-')
    a, b = p.fmt
    t = t.ljust(a + b, '0') if p.zeros == 'leading' else t.rjust(a + b, '0')
    v = Fraction(int(t), 10 ** b)
    return kind(-v if neg else v)


def axes(text, p, kind=L):
    m = re.match(r'(?:X([-+.\d]+))?(?:Y([-+.\d]+))?$', text)
    return tuple(None if t is None else number(t, p, kind) for t in m.groups())


def decode(p):
    """the statements that the lines of the program stand for"""
    out = []
    units = p.given['units'] if p.given else 'inch'
    header = False
    started = False
    pending = ''
    for line in p.lines:
        line = pending + line.strip()
        pending = ''
        if not line:
            continue
        if line in ('G00', 'G01'):
            pending = line
            continue
        k = line[:3]
        if line[0] == ';':
            out.append(('comment', line[1:]))
            header = header or 'HEADER:' in line or ' Holesize ' in line
        elif k == 'M48':
            out.append(('M48',))
            header = started = True
        elif line[0] == '%':
            out.append(('%',))
            header, started = not header and not started, True
        elif k == 'M95':
            out.append(('M95',))
            header = False
        elif k in ('M15', 'M16', 'M17', 'G05', 'G40', 'G41', 'G42', 'G90'):
            out.append((k,))
        elif k == 'M00':
            out.append(('next',))
        elif k == 'M30':
            out.append(('M30',) + axes(line[3:], p, C))
        elif k in ('G00', 'G01'):
            out.append(('coord', 'ROUT' if k == 'G00' else 'LINEAR') + axes(line[3:], p, C))
        elif k in ('INC', 'MET'):
            m = re.match(r'(INCH|METRIC),(LZ|TZ)(?:,(0+)\.(0+))?$', line)
            units = 'inch' if m.group(1) == 'INCH' else 'metric'
            out.append(('units', units, 'leading' if m.group(2) == 'LZ' else 'trailing',
                        (len(m.group(3)), len(m.group(4))) if m.group(3) else None))
        elif k in ('M71', 'M72'):
            out.append(('measuring', 'inch' if k == 'M72' else 'metric'))
        elif k == 'ICI':
            out.append(('ICI', 'off' if line.endswith('OFF') else 'on'))
        elif k == 'VER' or k == 'FMA':
            out.append((line.split(',')[0], int(line.split(',')[1])))
        elif line[0] == 'F':
            out.append(('F', int(line[1:])))
        elif line[0] == 'T' and line[1:2].isdigit() and header:
            out.append(('tool', int(re.match(r'T(\d+)', line).group(1)),) + tool(line, p))
        elif line[0] == 'T' and line[1:2].isdigit():
            n = line[1:]
            out.append(('T', int(n[:2]), int(n[2:])) if len(n) == 4 else ('T', int(n), None))
        elif line[0] == 'R':
            m = re.match(r'R(\d+)(.*)$', line)
            out.append(('R', int(m.group(1))) + axes(m.group(2), p))
        elif line[0] in 'XY' and 'G85' in line:
            a, b = line.split('G85')
            out.append(('slot', axes(a, p, C), axes(b, p, C)))
        elif line[0] in 'XY':
            out.append(('coord', None) + axes(line, p, C))
        else:
            out.append(('unknown', line))
    return out


def tool(line, p):
    w = dict((c, t) for c, t in re.findall(r'([A-SU-Z])([-+.\d]+)', line))

    def get(c, kind=Fraction, scale=1):
        return kind(number(w[c], p) * scale) if c in w else None
    return (get('C', L), get('F'), get('B'), get('S', Fraction, 1000), get('H'), get('Z', L))


# --- statements of the code under test ------------------------------------------------
PLAIN = {'HeaderBeginStmt': 'M48', 'RewindStopStmt': '%', 'HeaderEndStmt': 'M95', 'ZAxisRoutPositionStmt': 'M15',
         'RetractWithClampingStmt': 'M16', 'RetractWithoutClampingStmt': 'M17', 'DrillModeStmt': 'G05',
         'CutterCompensationOffStmt': 'G40', 'CutterCompensationLeftStmt': 'G41', 'CutterCompensationRightStmt': 'G42',
         'AbsoluteModeStmt': 'G90', 'NextToolSelectionStmt': 'next'}


def describe(s):
    n = type(s).__name__
    if n in PLAIN:
        return (PLAIN[n],)
    if n == 'CommentStmt':
        return ('comment', s.comment)
    if n == 'EndOfProgramStmt':
        return ('M30', s.x, s.y)
    if n == 'CoordinateStmt':
        return ('coord', s.mode, s.x, s.y)
    if n == 'SlotStmt':
        return ('slot', (s.x_start, s.y_start), (s.x_end, s.y_end))
    if n == 'RepeatHoleStmt':
        return ('R', s.count, s.xdelta, s.ydelta)
    if n == 'UnitStmt':
        return ('units', s.units, s.zeros, s.format)
    if n == 'MeasuringModeStmt':
        return ('measuring', s.units)
    if n == 'IncrementalModeStmt':
        return ('ICI', s.mode)
    if n == 'VersionStmt':
        return ('VER', s.version)
    if n == 'FormatStmt':
        return ('FMAT', s.format)
    if n == 'ZAxisInfeedRateStmt':
        return ('F', s.rate)
    if n == 'ToolSelectionStmt':
        return ('T', s.tool, s.compensation_index)
    if n == 'ExcellonTool':
        return ('tool', s.number, s.diameter, s.feed_rate, s.retract_rate, s.rpm, s.max_hit_count, s.depth_offset)
    if n == 'UnknownStmt':
        return ('unknown', s.stmt)
    raise Violation('unexpected statement %s' % n)


def statements(f):
    return [describe(s) for s in f.statements if type(s).__name__ not in ('RouteModeStmt', 'LinearModeStmt')]


def same(a, b, tol=0.0):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
        return abs(float(a) - float(b)) <= tol + 1e-9 * max(1.0, abs(float(b)))
    return a == b


def show(s):
    if isinstance(s, (tuple, list)):
        return '(%s)' % ', '.join(show(x) for x in s)
    return repr(float(s)) if isinstance(s, Fraction) else repr(s)


def compare(got, exp, what):
    for i, (a, b) in enumerate(zip(got + [None], exp + [None])):
        if a is None and b is None:
            break
        if a is not None and b is not None and a[0] == b[0] == 'slot':
            # an end of an absolute slot may repeat what it does not state
            a = (a[0], a[1], tuple(x if y is not None or x != z else None for x, y, z in zip(a[2], b[2], a[1])))
        if a is None or b is None or not same(a, b):
            raise Violation('%s: statement %d is %s, expected %s' % (what, i, show(a), show(b)))


def mapped(x, fn):
    if isinstance(x, (tuple, list)):
        return tuple(mapped(y, fn) for y in x)
    return fn(x)


def converted(exp, old, new):
    if old == new:
        return exp
    k = INCH if new == 'metric' else 1 / INCH
    out = []
    for s in exp:
        if s[0] == 'units':
            s = ('units', new) + s[2:]
        elif s[0] == 'measuring':
            s = ('measuring', new)
        out.append(mapped(s, lambda v: type(v)(v * k) if isinstance(v, L) else v))
    return out


def moved(exp, x, y):
    out = []
    for s in exp:
        if s[0] in ('coord', 'M30'):
            s = s[:-2] + tuple(None if v is None else C(v + o) for v, o in zip(s[-2:], (x, y)))
        elif s[0] == 'slot':
            s = s[:1] + tuple(tuple(None if v is None else C(v + o) for v, o in zip(e, (x, y))) for e in s[1:])
        out.append(s)
    return out


# --- the text of single statements ----------------------------------------------------
def reread(s, settings):
    """the statement its own text stands for"""
    n = type(s).__name__
    text = s.to_excellon(settings)
    if n in ('RouteModeStmt', 'LinearModeStmt') or n in PLAIN:
        return None
    cls = getattr(es, n)
    if n == 'ExcellonTool':
        return describe(cls.from_excellon(text, settings))
    if n == 'CoordinateStmt':
        mode = {'G00': 'ROUT', 'G01': 'LINEAR'}.get(text[:3])
        t = cls.from_excellon(text[3:] if mode else text, settings)
        t.mode = mode
        return describe(t)
    if n in ('SlotStmt', 'RepeatHoleStmt', 'EndOfProgramStmt'):
        return describe(cls.from_excellon(text, settings))
    return describe(cls.from_excellon(text))


def fits(s, fmt):
    top = Fraction(10 ** sum(fmt) - 1, 10 ** fmt[1])
    flat = []

    def walk(v):
        if isinstance(v, tuple):
            for w in v:
                walk(w)
        elif isinstance(v, (Fraction, float)):
            flat.append(abs(v))
    walk(s)
    return all(v <= top for v in flat)


def prop_statements(d):
    p = DGen(d, undeclared=False, ext=d.boolean(0.3), limit=d.choice([1, Fraction(1, 30)])).run()
    for i in range(len(p.lines)):
        # an end of the program away from the origin
        if p.lines[i] == 'M30X0Y0' and d.boolean(0.7):
            g = DGen(d)
            g.p, g.opt, g.pdec = p, dict(decimals=False), 0
            p.lines[i] = 'M30' + ''.join(c + g.word(d.signed(9999), False) for c in d.choice(['XY', 'XY', 'X', 'Y']))
    d.show(text=p.text, given=repr(p.given), ext=repr(p.ext))
    label(d, p)
    exp = decode(p)
    kinds = set(s[0] for s in exp)
    for k in kinds:
        d.label('statement ' + k)
    if len(kinds) >= 5:
        d.nontrivial(p.text)
    f = load(p)
    compare(statements(f), exp, 'after reading')
    hist = []
    units = p.units
    changed = any(s[0] == 'ICI' and s[1] == 'on' for s in exp) or p.given and p.given['notation'] == 'incremental'
    for _ in range(d.choice([0, 1, 1, 2])):
        k = d.choice(['inch', 'metric', 'offset'])
        if k == 'offset':
            if changed:
                continue
            x, y = Fraction(d.signed(1000), 1000), Fraction(d.signed(1000), 1000)
            f.offset(float(x), float(y))
            exp = moved(exp, x, y)
            k = (k, float(x), float(y))
        else:
            f.to_inch() if k == 'inch' else f.to_metric()
            exp = converted(exp, units, k)
            units = k
        hist.append(k)
        d.show(text=p.text, given=repr(p.given), ext=repr(p.ext), history=hist)
        compare(statements(f), exp, 'after %r' % (hist,))
    # each statement through its own text
    settings = FileSettings(units=units, format=p.fmt, zeros=p.zeros, notation='absolute' if not changed else 'incremental')
    unit = 10.0 ** -p.fmt[1]
    for s in f.statements:
        now = describe(s) if type(s).__name__ not in ('RouteModeStmt', 'LinearModeStmt') else None
        if now is None or now[0] == 'tool' and not fits(tuple(Fraction(v) / (1000 if i == 5 else 1) for i, v in enumerate(now)
                                                          if isinstance(v, float)), p.fmt):
            continue
        if now[0] != 'tool' and not fits(now, p.fmt):
            continue
        if now[0] == 'units' and now[3] not in (None, (2, 4), (3, 3), (4, 2)):
            continue
        again = reread(s, settings)
        if again is None:
            continue
        if now[0] == 'R':      # a distance of zero need not be written
            now, again = (x[:2] + tuple(v or 0.0 for v in x[2:]) for x in (now, again))
        tol = unit * (1.01 if now[0] == 'tool' else 0.51)
        if now[0] == 'tool':
            ok = same(again[:5] + again[6:], now[:5] + now[6:], tol) and same(again[5], now[5], 1000 * tol)
        else:
            ok = same(again, now, tol)
        if not ok:
            raise Violation('after %r: %s is written as %r, which says %s' % (
                hist, show(describe(s)), s.to_excellon(settings), show(again)))
    # the header of the file survives writing
    if not fits(tuple(Fraction(v) for h in f.hits for q in ((h.position,) if hasattr(h, 'position') else (h.start, h.end))
                      for v in q), p.fmt) or not all(fits(tuple(Fraction(v) for v in (
                          t.feed_rate, t.retract_rate, t.max_hit_count, t.depth_offset) if v is not None), p.fmt)
                          for t in f.tools.values()):
        d.label('outgrew the format')
        return
    path = scratch('p28')
    f.write(path)
    try:
        with open(path) as h:
            g = excellon.loads(h.read(), settings=FileSettings(units=units, format=p.fmt, zeros=p.zeros))
    finally:
        os.remove(path)
    want = [s for s in head(exp) if s[0] in KEEP]
    got = [s for s in head(statements(g)) if s[0] in KEEP]
    if got[:len(want)] != want:
        raise Violation('after %r and writing, the header has %s, before %s' % (hist, show(got), show(want)))


def head(sts):
    """statements before the first that drills or moves"""
    out = []
    for s in sts:
        if s[0] in ('coord', 'T', 'next', 'R', 'slot', 'M30', 'M15', 'M16', 'M17'):
            break
        out.append(s)
    return out


UNITS = [
    {'name': 'statements', 'prop': prop_statements, 'n': {'quick': 20000, 'thorough': 600000}},
]
BUDGET = {'quick': 60, 'thorough': 600}
