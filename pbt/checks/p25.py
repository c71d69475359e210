"""P25: every statement of a Gerber file survives reading, changing and writing."""
import os
from engine import Violation, Discard
from gmodel import Gen, to_text, label, num_text, shorten
from checks.p03 import write
from gerber import rs274x

TECHNIQUE = 'generated RS-274X programs of every statement kind, statement lists compared with the generated commands after reading, after operations and after writing and re-reading'
NOTE = 'No counterexample among the generated cases counted in the evidence.'
RULE = ('a case is one generated RS-274X program with comments, attributes and deprecated image commands among its '
        'drawing commands, read, optionally converted and offset, written and read again; non-trivial = at least two '
        'different kinds of commands without a drawing effect')
ASSUMPTIONS = ['offsets are applied to absolute files only here',
               'a leading zero of a function code is not kept, and a format without zero suppression may be written as either '
               'kind of suppression',
               'an image offset is written with five decimals']

FUNC = {'G01': 'G01', 'G02': 'G02', 'G03': 'G03', 'G1': 'G01', 'G2': 'G02', 'G3': 'G03', None: None}
OPS = {'D01': 'D01', 'D02': 'D02', 'D03': 'D03', 'D1': 'D01', 'D2': 'D02', 'D3': 'D03', None: None}


class L(float):
    """a length: scales with the units"""


# --- expected statements, from the generator's commands ------------------------------
def fnum(t):
    return float(t)


def macro_expect(text, params):
    out = []
    name, body = text[2:].split('*', 1)
    for block in body.split('*'):
        block = block.strip()
        if not block:
            continue
        if block.startswith('0'):
            out.append(('0', block[1:].strip()))
            continue
        words = [params[int(w[1:]) - 1] if w.startswith('$') else float(w) for w in block.split(',')]
        code = int(words[0])
        if code == 1:
            out.append((1, words[1], L(words[2]), L(words[3]), L(words[4])))
        elif code == 6:
            out.append((6,) + tuple(L(w) if i in (0, 1, 2, 3, 4, 6, 7) else w for i, w in enumerate(words[1:])))
        else:
            out.append((code,) + tuple(words[1:]))       # not a primitive of the format: nothing is known about it
    return name, tuple(out)


def expected(p):
    out = []
    scale = p.scale
    for n, c in enumerate(p.cmds):
        k = c[0]
        if k == 'comment':
            out.append(('comment', c[1]))
        elif k == 'word':
            w = c[1]
            if w in ('G70', 'G71'):
                out.append(('MO', 'inch' if w == 'G70' else 'metric'))
            elif w in FUNC:
                out.append(('coord', FUNC[w], None, None, None, None, None))
            elif w in OPS:
                out.append(('coord', None, None, None, None, None, OPS[w]))
            elif w in ('G74', 'G75'):
                out.append(('quadrant', 'single-quadrant' if w == 'G74' else 'multi-quadrant'))
            elif w in ('G36', 'G37'):
                out.append(('region', 'on' if w == 'G36' else 'off'))
            elif w in ('G90', 'G91'):
                out.append(('deprecated', w + '*'))
            elif w.startswith('G54D'):
                out.append(('D', int(w[4:]), True))
            elif w.startswith('D'):
                out.append(('D', int(w[1:]), False))
            else:
                out.append(('unknown', w + '*'))
        elif k == 'coord':
            o = c[1]
            v = [None if o.get(l) is None else L(o[l] / scale) for l in 'xyij']
            out.append(('coord', FUNC[o.get('g')]) + tuple(v) + (o['full'][2],))
        else:
            t = c[1]
            if t.startswith('FS'):
                out.append(('FS', p.zs, p.notation, p.fmt))
            elif t.startswith('MO'):
                out.append(('MO', 'inch' if t == 'MOIN' else 'metric'))
            elif t.startswith('LP'):
                out.append(('LP', 'dark' if t == 'LPD' else 'clear'))
            elif t.startswith('AM'):
                params = ()
                # the parameters of the last aperture made of it are the ones that show
                name = t[2:].split('*')[0]
                for later in p.cmds[n + 1:]:
                    if later[0] == 'param' and later[1].split('*')[0] == 'AM' + name:
                        break
                    if later[0] == 'param' and later[1].startswith('ADD') and later[1][3:].split(',')[0].lstrip('0123456789') == name:
                        mods = later[1].split(',')[1:]
                        params = [float(x) for x in mods[0].split('X')] if mods else []
                out.append(('AM',) + macro_expect(t, params))
            elif t.startswith('ADD'):
                head, _, mods = t[3:].partition(',')
                code = ''
                while head[len(code)].isdigit():
                    code += head[len(code)]
                shape = head[len(code):]
                nums = [float(x) for x in mods.split('X')] if mods else []
                if shape in ('C', 'R', 'O'):
                    nums = [L(x) for x in nums]
                elif shape == 'P':
                    nums = [x if i in (1, 2) else L(x) for i, x in enumerate(nums)]
                # parameters of a macro only mean something to the macro
                out.append(('AD', int(code), shape, tuple(nums)))
            elif t[:2] in MISC:
                out.append(c[2])
            else:
                out.append(('unknown', '%' + t + '*%'))
    out.append(('eof',))
    return out


MISC = ('AS', 'IN', 'IP', 'IR', 'MI', 'OF', 'SF', 'LN')


# --- statements of the code under test ------------------------------------------------
def numbers(prim):
    text = prim.to_gerber().strip().rstrip('*')
    if text.startswith('0'):
        return ('0', text[1:].strip())
    words = text.split(',')
    return (int(float(words[0])),) + tuple(float(w) for w in words[1:])


KINDS = {'CoordStmt': 'COORD', 'ApertureStmt': 'APERTURE', 'CommentStmt': 'COMMENT', 'EofStmt': 'EOF', 'UnknownStmt': 'UNKNOWN',
         'QuadrantModeStmt': 'QuadrantMode', 'RegionModeStmt': 'RegionMode', 'DeprecatedStmt': 'DEPRECATED'}


def describe(s):
    n = type(s).__name__
    kind = 'PARAM' if n.endswith('ParamStmt') else KINDS.get(n)
    if s.type != kind or kind == 'PARAM' and s.param != n[:2]:
        raise Violation('a %s has the type %r and parameter code %r' % (n, s.type, getattr(s, 'param', None)))
    if n == 'FSParamStmt':
        return ('FS', s.zero_suppression, s.notation, tuple(s.format))
    if n == 'MOParamStmt':
        return ('MO', s.mode)
    if n == 'LPParamStmt':
        return ('LP', s.lp)
    if n == 'ADParamStmt':
        return ('AD', s.d, s.shape, tuple(x for m in s.modifiers for x in m))
    if n == 'AMParamStmt':
        return ('AM', s.name, tuple(numbers(q) for q in s.primitives))
    if n == 'ASParamStmt':
        return ('AS', s.mode)
    if n == 'INParamStmt':
        return ('IN', s.name)
    if n == 'LNParamStmt':
        return ('LN', s.name)
    if n == 'IPParamStmt':
        return ('IP', s.ip)
    if n == 'IRParamStmt':
        return ('IR', s.angle)
    if n in ('MIParamStmt', 'OFParamStmt', 'SFParamStmt'):
        return (n[:2], s.a, s.b)
    if n == 'CoordStmt':
        return ('coord', FUNC[s.function], s.x, s.y, s.i, s.j, OPS[s.op])
    if n == 'ApertureStmt':
        return ('D', s.d, bool(s.deprecated))
    if n == 'CommentStmt':
        return ('comment', s.comment)
    if n == 'QuadrantModeStmt':
        return ('quadrant', s.mode)
    if n == 'RegionModeStmt':
        return ('region', s.mode)
    if n == 'EofStmt':
        return ('eof',)
    if n == 'DeprecatedStmt':
        return ('deprecated', s.line.strip())
    if n == 'UnknownStmt':
        return ('unknown', s.line.strip())
    raise Violation('unexpected statement %r' % n)


def compare(got, exp, what, tol=0.0):
    """tol: what rounding a coordinate may change"""
    if len(got) != len(exp):
        for i, (a, b) in enumerate(zip(got + [None], exp + [None])):
            if a is None or b is None or a[0] != b[0]:
                break
        raise Violation('%s: %d statements, expected %d; statement %d is %s, expected %s' % (
            what, len(got), len(exp), i, shorten(a), shorten(b)))
    for i, (a, b) in enumerate(zip(got, exp)):
        t = tol if b[0] == 'coord' else 1.01e-5 if b[0] == 'OF' and tol else 0.0
        if not same(a, b, t):
            raise Violation('%s: statement %d is %s, expected %s' % (what, i, shorten(a), shorten(b)))


def same(a, b, tol):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return abs(a - b) <= tol + 1e-9 * max(1.0, abs(b))
    return a == b


def check_apertures(f, exp, units, what):
    """the apertures of the file are those that its statements define, one for each code"""
    want = {}
    order = []
    for s in exp:
        if s[0] == 'AD':
            if s[1] not in want:
                order.append(s[1])
            want[s[1]] = s[2:]
    if len(f.apertures) != len(order):
        raise Violation('%s: %d apertures, defined are %d' % (what, len(f.apertures), len(order)))
    for a, n in zip(f.apertures, order):
        shape, mods = want[n]
        cls = {'C': 'Circle', 'R': 'Rectangle', 'O': 'Obround', 'P': 'Polygon'}.get(shape, 'AMGroup')
        if type(a).__name__ != cls or a.units != units:
            raise Violation('%s: aperture D%d is a %s in %s, defined is a %s in %s' % (
                what, n, type(a).__name__, a.units, cls, units))
        k = {'C': 1, 'R': 2, 'O': 2, 'P': 3}.get(shape)
        if k is None:
            continue
        size, hole = (mods + (0,) * 3)[:k], mods[k:]
        if shape == 'C':
            got = (a.diameter,)
        elif shape == 'P':
            got = (a.radius * 2, a.sides, a.rotation)
        else:
            got = (a.width, a.height)
        got += (a.hole_diameter or 0, a.hole_width or 0, a.hole_height or 0)
        exp1 = size + ((hole[0] if len(hole) == 1 else 0,) + (tuple(hole) if len(hole) == 2 else (0, 0)))
        if not same(got, exp1, 0.0):
            raise Violation('%s: aperture D%d has sizes %r, defined are %r' % (what, n, got, tuple(map(float, exp1))))


def scaled(x, k):
    if isinstance(x, tuple):
        return tuple(scaled(y, k) for y in x)
    return L(x * k) if isinstance(x, L) else x


def to_units(exp, old, new):
    if old == new:
        return exp
    k = 25.4 if new == 'metric' else 1 / 25.4
    return [('MO', new) if s[0] == 'MO' else scaled(s, k) for s in exp]


def moved(exp, dx, dy):
    out = []
    for s in exp:
        if s[0] == 'coord':
            s = s[:2] + (None if s[2] is None else L(s[2] + dx), None if s[3] is None else L(s[3] + dy)) + s[4:]
        out.append(s)
    return out


# --- generator ------------------------------------------------------------------------
class StmtGen(Gen):
    def misc(self):
        d = self.d
        k = d.choice(['AS', 'IN', 'IP', 'IR', 'MI', 'OF', 'SF', 'LN', 'comment', 'comment', 'unknown', 'G9', 'M0'])
        self.p.f('misc ' + k)
        if k == 'AS':
            m = d.choice(['AXBY', 'AYBX'])
            self.add('param', 'AS' + m, ('AS', m))
        elif k in ('IN', 'LN'):
            n = d.choice(['top', 'a b', 'Layer-1', 'x.y/z', 'R(1)', '1', 'LPC', 'TOP_COPPER', 'G04'])
            self.add('param', k + n, (k, n))
        elif k == 'IP':
            n = d.choice(['POS', 'NEG'])
            self.add('param', 'IP' + n, ('IP', 'positive' if n == 'POS' else 'negative'))
        elif k == 'IR':
            n = d.choice([0, 90, 180, 270])
            self.add('param', 'IR%d' % n, ('IR', n))
        elif k == 'MI':
            a, b = d.below(3), d.below(3)        # 2 = not given
            self.add('param', 'MI' + ('A%d' % a if a < 2 else '') + ('B%d' % b if b < 2 else ''), ('MI', a % 2, b % 2))
        elif k in ('OF', 'SF'):
            def value():
                v = d.signed(99999) / d.choice([1e3, 1e4, 1e5])
                return abs(v) + 0.001 if k == 'SF' else v
            a, b = value(), value()
            ta = '' if d.boolean(0.2) else 'A' + ('+' if a >= 0 and d.boolean(0.1) else '') + num_text(a)
            tb = '' if d.boolean(0.2) else 'B' + num_text(b)
            none = 0.0 if k == 'OF' else 1.0
            a, b = (float(t[1:]) if t else none for t in (ta, tb))
            kind = L if k == 'OF' else float
            self.add('param', k + ta + tb, (k, kind(a), kind(b)))
        elif k == 'comment':
            c = d.choice([' x', 'x', ' D03', ' LPC', ' X10Y10D01', ' G36', '', ' a, b: c', '  two  blanks', ' M02', ' %', ' é'][:10])
            self.add('comment', c)
        elif k == 'unknown':
            self.add('param', d.choice(['TF.FileFunction,Copper,L1,Top', 'TA.AperFunction,Conductor', 'TO.N,GND', 'TD',
                                        'TF.Part,Single', 'TF.MD5,ABCDEF01', 'KO', 'XX']))
        elif k == 'G9':
            self.add('word', 'G90' if self.p.notation == 'absolute' else 'G91')
        else:
            self.add('word', d.choice(['G99', 'M3', 'G60']))

    def other(self):
        if self.in_region or self.d.boolean(0.3):
            return Gen.other(self)
        self.misc()

    def start(self):
        d = self.d
        for _ in range(d.below(3)):
            if d.boolean(0.5):
                self.add('comment', d.choice([' top', '', ' 1']))
        Gen.start(self)
        for _ in range(d.below(5)):
            self.misc()


def prop_statements(d):
    p = StmtGen(d, notation='any', fit_conversion=True, single_quadrant=False,
                max_cmds=d.choice([4, 10, 20])).run()
    if d.boolean(0.1):
        p.cmds = unsupported(d, p)
    text = to_text(p)
    d.show(text=text)
    label(d, p)
    if len([k for k in p.feat if k.startswith('misc')]) >= 2:
        d.nontrivial(text)
    exp = expected(p)
    f = rs274x.loads(text)
    got = [describe(s) for s in f.statements]
    compare(got, exp, 'after reading')
    check_apertures(f, exp, p.units, 'after reading')
    comments = [s[1] for s in exp if s[0] == 'comment']
    if list(f.comments) != comments:
        raise Violation('comments are %r, expected %r' % (f.comments, comments))
    hist = []
    units, fmt = p.units, p.fmt
    m = (10 ** fmt[0]) / 100.0
    tol = 0.0
    for _ in range(d.choice([0, 0, 1, 2])):
        k = d.choice(['inch', 'metric', 'offset'])
        if k == 'offset':
            if p.notation != 'absolute':
                continue
            v = (d.signed(1000) / 1000.0 * m * 0.1, d.signed(1000) / 1000.0 * m * 0.1)
            f.offset(*v)
            exp = moved(exp, *v)
        else:
            f.to_inch() if k == 'inch' else f.to_metric()
            exp = to_units(exp, units, k)
            units, v = k, None
        tol = 1.01 * 10.0 ** -fmt[1]
        hist.append((k, v))
        d.show(text=text, history=hist)
        compare([describe(s) for s in f.statements], exp, 'after %r' % (hist,))
        check_apertures(f, exp, units, 'after %r' % (hist,))
    if max([abs(c) for s in exp if s[0] == 'coord' for c in s[2:6] if c is not None] or [0]) >= 10 ** fmt[0] - 1:
        raise Discard()
    out = write(f)
    d.show(text=text, history=hist, written=out)
    compare([describe(s) for s in f.statements], exp, 'after writing')
    g = rs274x.loads(out)
    got = [describe(s) for s in g.statements]
    if p.zs == 'none':
        # the file is written with either suppression
        exp = [s[:1] + ('either',) + s[2:] if s[0] == 'FS' else s for s in exp]
        got = [s[:1] + ('either',) + s[2:] if s[0] == 'FS' and s[1] in ('leading', 'trailing') else s for s in got]
    compare(got, exp, 'after %r, write and read' % (hist,), tol or 1e-9)
    if list(g.comments) != comments:
        raise Violation('comments of the written file are %r, expected %r' % (g.comments, comments))


def unsupported(d, p):
    """a block with a code that no primitive has goes into some macros"""
    out = []
    for c in p.cmds:
        if c[0] == 'param' and c[1].startswith('AM') and d.boolean(0.7):
            head, body = c[1].split('*', 1)
            blocks = body.split('*')
            blocks.insert(d.integer(0, len(blocks)), d.choice(['9,1,2', '8,0.5', '3,1,-0.25,4']))
            c = ('param', head + '*' + '*'.join(blocks))
            p.f('unsupported primitive')
        out.append(c)
    return out


UNITS = [
    {'name': 'statements', 'prop': prop_statements, 'n': {'quick': 20000, 'thorough': 600000}},
]
BUDGET = {'quick': 60, 'thorough': 600}
