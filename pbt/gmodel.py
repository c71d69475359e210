"""Generator of RS-274X programs together with the image they define.

`GProg` holds a list of abstract commands; each command knows its words.  The
generator executes the RS-274X rules itself while it generates, so the expected
objects come from the generator's own state and never from the code under test.
Coordinates are integers in units of the file's resolution.
"""
import math
from engine import Violation, Discard
from checks.p01 import model_text

POL = {'D': 'dark', 'C': 'clear'}


# ---------------------------------------------------------------------------
# descriptions of objects: nested tuples whose leaves are strings and numbers
# ---------------------------------------------------------------------------
def hole_of(p):
    return ('hole', p.hole_diameter or 0, p.hole_width or 0, p.hole_height or 0)


def describe_aperture(a):
    n = type(a).__name__
    if n == 'Circle':
        return ('C', a.diameter, hole_of(a))
    if n == 'Rectangle':
        return ('R', a.width, a.height, hole_of(a))
    if n == 'Obround':
        return ('O', a.width, a.height, hole_of(a))
    if n == 'Polygon':
        return ('P', a.radius * 2, a.sides, a.rotation, hole_of(a))
    if n == 'AMGroup':
        return ('AM', tuple(describe(p) for p in a.primitives))
    raise Violation('unexpected aperture %r' % n)


def describe_segment(p):
    n = type(p).__name__
    if n == 'Line':
        return ('line', tuple(p.start), tuple(p.end))
    if n == 'Arc':
        return ('arc', tuple(p.start), tuple(p.end), tuple(p.center), p.direction, p.quadrant_mode)
    raise Violation('unexpected contour segment %r' % n)


def describe(p, units=True):
    """canonical description of a graphical object read by the code under test"""
    n = type(p).__name__
    pol = p.level_polarity
    if n in ('Line', 'Arc'):
        d = describe_segment(p) + (describe_aperture(p.aperture), pol)
        if units and p.aperture.units != p.units:
            raise Violation('%s in %s has an aperture in %s' % (n, p.units, p.aperture.units))
    elif n == 'Circle':
        d = ('flashC', tuple(p.position), p.diameter, hole_of(p), pol)
    elif n == 'Rectangle':
        d = ('flashR', tuple(p.position), p.width, p.height, p.rotation, hole_of(p), pol)
    elif n == 'Obround':
        d = ('flashO', tuple(p.position), p.width, p.height, p.rotation, hole_of(p), pol)
    elif n == 'Polygon':
        d = ('flashP', tuple(p.position), p.radius * 2, p.sides, p.rotation, hole_of(p), pol)
    elif n == 'AMGroup':
        d = ('flashAM', tuple(p.position), tuple(describe(q, units) for q in p.primitives), pol)
    elif n == 'Region':
        d = ('region', tuple(describe_segment(q) for q in p.primitives), pol)
    elif n == 'Outline':
        d = ('outline', tuple(describe_segment(q) for q in p.primitives), pol)
    elif n == 'Drill':
        d = ('drill', tuple(p.position), p.diameter)
    elif n == 'Slot':
        d = ('slot', tuple(p.start), tuple(p.end), p.diameter)
    else:
        raise Violation('unexpected object %r' % n)
    return d + ((p.units,) if units else ())


def diff(a, b, tol=1e-9, path=''):
    """first difference between two descriptions, or None"""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return '%s: %d items, expected %d: %r / %r' % (path or 'object list', len(a), len(b), shorten(a), shorten(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, tol, '%s[%d]' % (path, i))
            if r:
                return r
        return None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        if abs(a - b) <= tol * max(1.0, abs(b)):
            return None
        return '%s: %r, expected %r' % (path, a, b)
    if a != b:
        return '%s: %r, expected %r' % (path, a, b)
    return None


def shorten(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def check_same(got, exp, what, tol=1e-9):
    r = diff(got, exp, tol)
    if r:
        raise Violation('%s differs at %s' % (what, r))


# ---------------------------------------------------------------------------
class GProg(object):
    def __init__(self, fmt, zs, units, notation='absolute'):
        self.fmt, self.zs, self.units, self.notation = fmt, zs, units, notation
        self.header = []       # commands before the body
        self.cmds = []         # list of command tuples
        self.objects = []      # expected descriptions
        self.feat = {}

    @property
    def scale(self):
        return float(10 ** self.fmt[1])

    def f(self, name):
        self.feat[name] = self.feat.get(name, 0) + 1


def num_text(v):
    """decimal text of a value given as k/10000 in float"""
    s = ('%.6f' % v).rstrip('0').rstrip('.')
    return s if s not in ('', '-0') else '0'


def fs_text(p):
    z = {'leading': 'L', 'trailing': 'T', 'none': ''}[p.zs]
    return 'FS%s%sX%d%dY%d%d' % (z, 'A' if p.notation == 'absolute' else 'I', p.fmt[0], p.fmt[1], p.fmt[0], p.fmt[1])


def coord_word(letter, k, p, style):
    """style: 0 canonical, 1 explicit plus sign, 2 all digits written"""
    if p.zs == 'none' or style == 2:
        t = ('-' if k < 0 else '') + str(abs(k)).rjust(sum(p.fmt), '0')
    else:
        t = model_text(k, p.fmt, p.zs)
    if style == 1 and k >= 0:
        t = '+' + t
    return letter + t


def cmd_text(c, p):
    """text of one command, without the block delimiters for parameters"""
    k = c[0]
    if k == 'param':
        return '%' + c[1] + '*%'
    if k == 'word':
        return c[1] + '*'
    if k == 'coord':
        o = c[1]
        st = o.get('style', 0)
        s = o.get('g', '')
        for l in 'xyij':
            if o.get(l) is not None:
                s += coord_word(l.upper(), o[l], p, st)
        return s + o.get('d', '') + '*'
    if k == 'comment':
        return 'G04' + c[1] + '*'
    raise ValueError(c)


def to_text(p, eol='\n', end='M02*'):
    return eol.join([cmd_text(c, p) for c in p.cmds] + [end]) + eol


# ---------------------------------------------------------------------------
# the last is a set of one-letter names (C, R, O and P are the standard shapes)
MACRO_NAMES = ['MAC%d', 'Dot.%d', 'a_%d', 'RoundRect$%d', 'CIRC%d', 'Rect-%d', 'OVAL+%d', 'Poly.%d', '$%d', '.%d',
               'ABDEFGHIJKLMNQSTUVWXYZabcdefghijkxyz']


def moire_text(g):
    """a moire primitive of an aperture macro"""
    d = g.d
    return '6,%s,%s,%s,%s,%s,%d,%s,%s,%d' % (num_text(d.signed(2000) / 1000.0), num_text(d.signed(2000) / 1000.0),
                                             num_text(g.dim()), num_text(g.dim(0.01, 0.2)), num_text(g.dim(0.01, 0.2)),
                                             d.integer(1, 5), num_text(g.dim(0.01, 0.1)), num_text(g.dim()),
                                             d.choice([0, 15, 45, -30]))


class Gen(object):
    """executes RS-274X semantics while generating"""

    def __init__(self, d, macros=True, regions=True, arcs=True, holes=True, max_cmds=25, fmts=None,
                 fit_conversion=False, styles=True, single_quadrant=True, modal=True, deprecated=True,
                 line_apertures=('C', 'R', 'O'), units=None, zs=None, notation='absolute', coord_mag=None):
        self.d = d
        self.opt = dict(macros=macros, regions=regions, arcs=arcs, holes=holes, styles=styles,
                        single=single_quadrant, modal=modal, deprecated=deprecated)
        self.line_apertures = line_apertures
        fmt = d.choice(fmts or [(2, 4), (2, 5), (3, 3), (3, 5), (2, 3), (4, 4), (3, 6), (4, 6), (2, 6), (1, 4), (6, 6), (5, 3)])
        zs = zs or d.choice(['leading', 'trailing', 'leading', 'trailing', 'none'])
        units = units or d.choice(['inch', 'metric'])
        if notation == 'any':
            notation = d.weighted([(5, 'absolute'), (1, 'incremental')])
        self.p = GProg(fmt, zs, units, notation)
        self.p.f(notation)
        self.max_cmds = max_cmds
        top = 10 ** sum(fmt) - 1
        if fit_conversion:
            # leaves room so that the converted coordinates still fit the format
            top = top // 26
        if notation == 'incremental':
            top = top // 4       # so that distances fit
        self.mag = min(top, int(20 * self.p.scale)) if coord_mag is None else coord_mag
        self.aps = {}
        self.cur = None
        self.x = self.y = 0
        self.op = 'D02'
        self.interp = 'G01'
        self.must_state = False
        self.quad = 'multi-quadrant'
        self.pol = 'dark'
        self.region = None       # list of segments while in region mode
        self.in_region = False
        self.next_d = 10 if d.boolean(0.9) else d.choice([99, 100, 999, 9990])
        self.macro_n = 0
        self.macro_names = []
        self.many_macros = False
        self.sizes = []
        self.earlier = {}
        self.macros = {}

    # -- helpers ---------------------------------------------------------------
    def pt(self, x, y):
        s = self.p.scale
        return (x / s, y / s)

    def coord(self):
        d = self.d
        k = d.below(5)
        m = self.mag
        if k == 0:
            return d.signed(min(m, 30))
        if k == 1:
            step = 10 ** min(self.p.fmt[1], 3)
            return d.signed(max(1, m // step)) * step if m >= step else d.signed(m)
        if k == 2:
            return d.integer(0, m)
        return d.signed(m)

    def dim(self, lo=0.01, hi=3.0):
        d = self.d
        k = d.below(3)
        if k == 0:
            return d.integer(1, 30) / 10.0
        if k == 1:
            return d.integer(int(lo * 1000), int(hi * 1000)) / 1000.0
        if d.boolean(0.1):
            return self.near(d.integer(int(lo * 10000), int(hi * 10000)) / 10000.0)
        return d.integer(int(lo * 10000), int(hi * 10000)) / 10000.0

    def near(self, v):
        """a size that differs from v by less than a writer may round off"""
        return round(v + self.d.choice([1, -1, 4, -4, 10, 30]) / 1e6, 6)

    def alike(self, v):
        """now and then, a size nearly that of an earlier aperture"""
        d = self.d
        if self.sizes and d.boolean(0.12):
            v = d.choice(self.sizes)
            if d.boolean(0.7):
                v = self.near(v)
                self.p.f('nearly equal sizes')
        self.sizes.append(v)
        return v

    def add(self, *c):
        self.p.cmds.append(tuple(c))

    # -- header ------------------------------------------------------------------
    def start(self):
        d, p = self.d, self.p
        if d.boolean(0.3):
            self.add('comment', d.choice([' hello', 'Title: a b', ' #@! x', '']))
        mo = d.choice(['mo', 'mo', 'mo', 'g70']) if self.opt['deprecated'] else 'mo'
        first = d.boolean(0.3)
        if mo == 'mo' and first:
            self.add('param', 'MO' + ('IN' if p.units == 'inch' else 'MM'))
        self.add('param', fs_text(p))
        if mo == 'mo' and not first:
            self.add('param', 'MO' + ('IN' if p.units == 'inch' else 'MM'))
        if mo == 'g70':
            self.add('word', 'G70' if p.units == 'inch' else 'G71')
            p.f('G70/G71')
        self.many_macros = d.boolean(0.1)
        for _ in range(d.integer(2, 7) if self.many_macros else d.integer(1, 4)):
            self.define()

    def define(self):
        d, p = self.d, self.p
        used = [c for c in sorted(self.aps) if c != self.cur]
        if used and d.boolean(0.06):
            # another aperture from here on, for a code that has one
            dcode = d.choice(used)
            p.f('aperture code defined again')
        else:
            dcode = self.next_d
            self.next_d += d.integer(1, 3) if d.boolean(0.8) else d.integer(1, 90)
        kind = d.weighted([(4, 'C'), (3, 'R'), (2, 'O'), (2, 'P'), (20 if self.many_macros else 2, 'AM')])
        if kind == 'AM' and not self.opt['macros']:
            kind = 'C'
        hole = ()
        if self.opt['holes'] and kind != 'AM' and d.boolean(0.35):
            hole = (self.dim(0.01, 0.5),) if d.boolean(0.6) else (self.dim(0.01, 0.5), self.dim(0.01, 0.5))
            p.f('hole%d' % len(hole))
        if kind in 'CROP' and kind in self.earlier and d.boolean(0.2):
            # the aperture before of this kind, but for one thing
            mods, hole = self.earlier[kind]
            mods = list(mods)
            i = d.integer(0, {'C': 1, 'R': 2, 'O': 2, 'P': 1}[kind])
            if i < len(mods) and (kind != 'P' or i < 1):
                mods[i] = self.near(mods[i])
            elif not hole:
                hole = (self.dim(0.01, 0.5),) if self.opt['holes'] and (kind != 'P' or len(mods) == 3) else ()
            else:
                hole = hole[:-1]
            given = mods
            p.f('aperture much like another')
        else:
            given = None
        hd = ('hole', hole[0] if len(hole) == 1 else 0, hole[0] if len(hole) == 2 else 0, hole[1] if len(hole) == 2 else 0)
        if kind == 'C':
            mods = given or [self.alike(self.dim())]
            ap = ('C', mods[0], hd)
        elif kind in 'RO':
            mods = given or [self.alike(self.dim()), self.alike(self.dim())]
            ap = (kind, mods[0], mods[1], hd)
        elif kind == 'P':
            mods = given or [self.alike(self.dim()), float(d.integer(3, 12))]
            rot = 0.0
            if given:
                rot = mods[2] if len(mods) > 2 else 0.0
            elif hole or d.boolean(0.6):
                rot = float(d.choice([0, 30, 45, -15, 90, d.integer(-360, 360)]))
                mods.append(rot)
            ap = ('P', mods[0], int(mods[1]), rot, hd)
        else:
            return self.define_macro(dcode)
        p.f('aperture ' + kind)
        self.earlier[kind] = (list(mods), tuple(hole))
        # a circular aperture of zero size is legal too
        text = 'ADD%d%s,%s' % (dcode, kind, 'X'.join(num_text(m) for m in list(mods) + list(hole)))
        self.add('param', text)
        self.aps[dcode] = ap

    def define_macro(self, dcode):
        """a macro of circle primitives whose diameter/position may be parameters"""
        d, p = self.d, self.p
        if self.macros and d.boolean(0.3):
            # another aperture of an earlier macro
            name = d.choice(sorted(self.macros))
            template, n = self.macros[name]
            params = [self.dim() for _ in range(n)]
            self.add('param', 'ADD%d%s%s' % (dcode, name, (',' + 'X'.join(num_text(v) for v in params)) if params else ''))
            self.aps[dcode] = ('AM', tuple(tuple(params[v[1]] if isinstance(v, tuple) else v for v in t) for t in template))
            p.f('macro used again')
            return
        self.macro_n += 1
        name = d.choice(MACRO_NAMES)
        name = name % self.macro_n if '%' in name else name[self.macro_n % len(name)]
        if self.macro_names and d.boolean(0.3):
            name = d.choice(self.macro_names)
            if len(name) > 1 and d.boolean():
                name = name.swapcase()
                p.f('macro names differ in case only')
            else:
                p.f('macro name defined again')
        self.macro_names.append(name)
        n = d.integer(1, 3)
        prims, params, descs, template = [], [], [], []
        for _ in range(n):
            exp = 0 if (descs and d.boolean(0.25)) else 1
            dia, x, y = self.dim(), d.signed(2000) / 1000.0, d.signed(2000) / 1000.0
            words, slots = [], []
            for v in (dia, x, y):
                slots.append(v)
                if v >= 0 and d.boolean(0.3):
                    slots[-1] = ('$', len(params))
                    params.append(v)
                    words.append('$%d' % len(params))
                else:
                    words.append(num_text(v))
            prims.append('1,%d,%s' % (exp, ','.join(words)))
            descs.append((dia, x, y, 'dark' if exp else 'clear'))
            template.append(tuple(slots) + (descs[-1][3],))
        if d.boolean(0.3):
            prims.insert(d.integer(0, len(prims)), d.choice(['0 a comment', '0 a comment', '0 0.5 mm', '0 007', '0 1,1,0.5,0,0', '0 $1=$2+3', '0 (a', '0']))
        if d.boolean(0.08):
            # not supported, so it draws nothing
            if d.boolean(0.2):
                prims, params, descs, template = [], [], [], []
            prims.insert(d.integer(0, len(prims)), moire_text(self))
            p.f('moire')
        text = 'AM%s*%s' % (name, '*'.join(prims))
        self.add('param', text)
        self.add('param', 'ADD%d%s%s' % (dcode, name, (',' + 'X'.join(num_text(v) for v in params)) if params else ''))
        self.aps[dcode] = ('AM', tuple(descs))
        self.macros[name] = (template, len(params))
        p.f('aperture AM')

    # -- body --------------------------------------------------------------------
    def select(self, kinds=None):
        d = self.d
        codes = [c for c in sorted(self.aps) if kinds is None or self.aps[c][0] in kinds]
        if not codes:
            self.define_simple()
            codes = [c for c in sorted(self.aps) if self.aps[c][0] == 'C']
        c = d.choice(codes)
        self.add('word', ('G54D%d' if self.opt['deprecated'] and d.boolean(0.2) else 'D%d') % c)
        self.cur = c

    def define_simple(self):
        dcode = self.next_d
        self.next_d += 1
        v = self.dim()
        self.add('param', 'ADD%dC,%s' % (dcode, num_text(v)))
        self.aps[dcode] = ('C', v, ('hole', 0, 0, 0))

    def gword(self, g):
        return 'G' + g[2] if self.d.boolean(0.2) else g

    def dword(self, op):
        return 'D' + op[2] if self.d.boolean(0.2) else op

    def emit_coord(self, x, y, op, g=None, i=None, j=None, elide=True):
        """one coordinate data block; leaves out what the modal state supplies"""
        d = self.d
        inc = self.p.notation == 'incremental'
        wx, wy = (x - self.x, y - self.y) if inc else (x, y)
        o = {'full': (wx, wy, op)}
        if g is not None:
            inline = d.boolean(0.6)
            if inline:
                o['g'] = self.gword(g)
            else:
                self.add('word', self.gword(g))
        for l, v, cur, w in (('x', x, self.x, wx), ('y', y, self.y, wy)):
            if v != cur or not elide or not d.boolean(0.5):
                o[l] = w
            else:
                self.p.f('modal ' + l)
        # a block holding only a function code would not be an operation
        if i is not None:
            if i != 0 or not d.boolean(0.4):
                o['i'] = i
            if j != 0 or not d.boolean(0.4):
                o['j'] = j
        if self.opt['modal'] and op == self.op and any(k in o for k in 'xyij') and d.boolean(0.4):
            self.p.f('modal operation')
        else:
            o['d'] = self.dword(op)
        if self.opt['styles']:
            o['style'] = d.weighted([(6, 0), (1, 1), (1, 2)])
        self.add('coord', o)
        self.op = op
        self.x, self.y = x, y

    def target(self):
        d = self.d
        k = d.below(6)
        if k == 0:
            return self.x, self.coord()
        if k == 1:
            return self.coord(), self.y
        if k == 2:
            return self.x, self.y
        return self.coord(), self.coord()

    def state_linear(self):
        """G word to give if the next draw is a line (None = modal state is fine)"""
        if self.interp != 'G01' or self.must_state or self.d.boolean(0.25):
            return 'G01'
        return None

    def move(self):
        x, y = self.target()
        g = None
        if self.d.boolean(0.1):
            g = 'G01'
        self.emit_coord(x, y, 'D02', g)
        if g:
            self.interp, self.must_state = 'G01', False
        self.p.f('move')
        if self.in_region:
            self.close_contour(by_move=True)

    def close_contour(self, by_move):
        seg = self.region
        self.region = []
        if seg:
            # a move ends the contour; a one-line contour encloses nothing
            if by_move and len(seg) == 1 and seg[0][0] == 'line':
                self.p.f('degenerate contour')
                return
            self.p.objects.append(('region', tuple(seg), self.pol, self.p.units))
            self.p.f('region')

    def line(self):
        if not self.in_region and (self.cur is None or self.aps[self.cur][0] not in self.line_apertures):
            self.select(self.line_apertures)
        g = self.state_linear()
        if self.in_region:
            g = 'G01' if (self.must_state or self.interp != 'G01' or self.d.boolean(0.3)) else None
        x0, y0 = self.x, self.y
        x, y = self.target()
        self.emit_coord(x, y, 'D01', g)
        self.interp, self.must_state = 'G01', False
        seg = ('line', self.pt(x0, y0), self.pt(x, y))
        self.emit_seg(seg)
        self.p.f('line')

    def emit_seg(self, seg):
        if self.in_region:
            self.region.append(seg)
        else:
            self.p.objects.append(seg + (self.aps[self.cur], self.pol, self.p.units))

    def arc(self):
        d = self.d
        if not self.in_region and (self.cur is None or self.aps[self.cur][0] not in self.line_apertures):
            self.select(self.line_apertures)
        g = d.choice(['G02', 'G03'])
        single = self.quad == 'single-quadrant'
        lim = max(2, self.mag // 4)
        a, b = d.signed(lim), d.signed(lim)    # start relative to the centre
        if a == 0 and b == 0:
            a = max(1, lim // 2)
        ex = self.arc_end(a, b, g, single)
        if ex is None:
            return
        ea, eb = ex
        cx, cy = self.x - a, self.y - b
        x, y = cx + ea, cy + eb
        top = 10 ** sum(self.p.fmt) - 1
        if max(abs(x), abs(y), abs(a), abs(b)) > (min(top, self.mag * 2) if self.p.notation == 'absolute' else min(top // 2, self.mag * 2)):
            return
        i, j = -a, -b
        if single:
            i, j = abs(i), abs(j)
        same = g == self.interp and not self.must_state
        gw = None if (same and d.boolean(0.5)) else g
        x0, y0 = self.x, self.y
        if gw is None:
            self.p.f('modal interpolation')
        self.emit_coord(x, y, 'D01', gw, i, j)
        self.interp, self.must_state = g, self.in_region
        self.emit_seg(('arc', self.pt(x0, y0), self.pt(x, y), self.pt(cx, cy),
                       'clockwise' if g == 'G02' else 'counterclockwise', self.quad))
        self.p.f('arc ' + ('single' if single else 'multi') + (' region' if self.in_region else ''))

    def arc_end(self, a, b, g, single):
        """end point relative to the centre"""
        d = self.d
        cands = [(a, b), (-a, b), (a, -b), (-a, -b), (b, a), (-b, a), (b, -a), (-b, -a)]
        if not single:
            if d.boolean(0.5):
                return d.choice(cands)
            r = math.hypot(a, b)
            t = d.integer(0, 3599) * math.pi / 1800
            return (int(round(r * math.cos(t))), int(round(r * math.sin(t))))
        ok = [c for c in cands if c != (a, b) and self.sweep_ok((a, b), c, g)]
        if not ok:
            return None
        e = d.choice(ok)
        # the centre must be the only one the unsigned offsets allow
        sols = set()
        for sx in (1, -1):
            for sy in (1, -1):
                c = (a - sx * abs(a) if True else 0, b - sy * abs(b))
                # candidate centre relative to the true centre
                s0 = (a - c[0], b - c[1])
                e0 = (e[0] - c[0], e[1] - c[1])
                err = abs(s0[0] ** 2 + s0[1] ** 2 - e0[0] ** 2 - e0[1] ** 2)
                if err <= 4 * (abs(a) + abs(b) + 1) and self.sweep_ok(s0, e0, g):
                    sols.add(c)
        if sols != {(0, 0)}:
            return None
        return e

    @staticmethod
    def sweep_ok(s, e, g):
        """sweep from s to e in direction g is at most 90 degrees (exact)"""
        cr = s[0] * e[1] - s[1] * e[0]
        dot = s[0] * e[0] + s[1] * e[1]
        return dot >= 0 and (cr >= 0 if g == 'G03' else cr <= 0)

    def flash(self):
        if self.cur is None or self.d.boolean(0.3):
            self.select()
        x, y = self.target()
        self.emit_coord(x, y, 'D03')
        pos = self.pt(x, y)
        ap = self.aps[self.cur]
        u = self.p.units
        if ap[0] == 'C':
            o = ('flashC', pos, ap[1], ap[2], self.pol, u)
        elif ap[0] == 'R':
            o = ('flashR', pos, ap[1], ap[2], 0, ap[3], self.pol, u)
        elif ap[0] == 'O':
            o = ('flashO', pos, ap[1], ap[2], 0, ap[3], self.pol, u)
        elif ap[0] == 'P':
            o = ('flashP', pos, ap[1], ap[2], ap[3], ap[4], self.pol, u)
        else:
            o = ('flashAM', pos, tuple(('flashC', (pos[0] + c[1], pos[1] + c[2]), c[0], ('hole', 0, 0, 0), c[3], u)
                                       for c in ap[1]), self.pol, u)
        self.p.objects.append(o)
        self.p.f('flash ' + ap[0])

    def polarity(self):
        v = self.d.choice('DC')
        self.add('param', 'LP' + v)
        if POL[v] != self.pol:
            self.p.f('polarity change')
        self.pol = POL[v]

    def quadrant(self):
        if not self.opt['single']:
            self.add('word', 'G75')
            return
        self.quad = self.d.choice(['multi-quadrant', 'single-quadrant'])
        self.add('word', 'G75' if self.quad == 'multi-quadrant' else 'G74')

    def region_block(self):
        d = self.d
        self.add('word', 'G36')
        self.in_region, self.region = True, []
        for _ in range(d.integer(1, 3)):
            if d.boolean(0.9):
                self.move()
            for _ in range(d.size(0, 6)):
                if self.opt['arcs'] and d.boolean(0.35):
                    self.arc()
                else:
                    self.line()
            if d.boolean(0.1):
                self.quadrant()
        if d.boolean(0.2):
            self.move()
        self.add('word', 'G37')
        self.close_contour(by_move=False)
        self.in_region, self.region = False, None

    def other(self):
        d = self.d
        k = d.below(5)
        if k == 0:
            self.add('comment', d.choice([' x', ' D03', ' LPC', ' X10Y10D01', ' G36', '']))
        elif k == 1:
            self.select()
        elif k == 2:
            self.define()
        elif k == 3:
            self.add('word', self.gword('G01'))
            self.interp, self.must_state = 'G01', False
        else:
            self.add('word', self.d.choice(['D02', 'D2']))
            self.op = 'D02'

    def run(self):
        d = self.d
        self.start()
        for _ in range(d.size(1, self.max_cmds)):
            k = d.weighted([(5, 'line'), (4, 'flash'), (3, 'move'), (3, 'arc'), (2, 'region'), (2, 'pol'),
                            (1, 'quad'), (2, 'other')])
            if k == 'line':
                self.line()
            elif k == 'flash':
                self.flash()
            elif k == 'move':
                self.move()
            elif k == 'arc' and self.opt['arcs']:
                self.arc()
            elif k == 'region' and self.opt['regions']:
                self.region_block()
            elif k == 'pol':
                self.polarity()
            elif k == 'quad':
                self.quadrant()
            else:
                self.other()
        return self.p


def label(d, p):
    for k in sorted(p.feat):
        d.label(k, p.feat[k])
    d.label('objects', len(p.objects))
