"""Generator of Excellon programs together with the holes, slots and tools they command.

`DGen(d).run()` executes the rules itself while it writes the program; coordinates are integers in units of the
format's resolution, so the expected positions are exact decimals and never come from the code under test.
"""
from fractions import Fraction
from engine import Violation

FORMATS = [(2, 4), (3, 3), (2, 5), (4, 2), (3, 4), (1, 5), (3, 5), (4, 4), (2, 3)]
FMAT = {(2, 4): 'FMAT,2', (1, 5): 'FMAT,1'}
UNIT_FMT = {(2, 4): '00.0000', (3, 3): '000.000', (4, 2): '0000.00'}


class DTool(object):
    def __init__(self, number):
        self.number = number
        self.diameter = self.feed_rate = self.retract_rate = self.rpm = None
        self.max_hit_count = self.depth_offset = self.plated = None

    FIELDS = ('diameter', 'feed_rate', 'retract_rate', 'rpm', 'max_hit_count', 'depth_offset', 'plated')

    def values(self):
        return tuple((k, getattr(self, k)) for k in self.FIELDS)


class DProg(object):
    """what a program means"""
    def __init__(self):
        self.lines = []
        self.tools = {}        # number -> DTool, every tool known to the program
        self.holes = []        # ('hit', tool number, (x, y)) and ('slot', tool number, start, end, kind)
        self.units = 'inch'
        self.zeros = 'leading'
        self.fmt = (2, 4)
        self.notation = 'absolute'
        self.feat = {}
        self.given = None      # settings the reader is given, or None
        self.ext = None        # externally defined tools
        self.stated = False    # units, zero mode and format are all stated in the text
        self.newline = '\n'

    @property
    def text(self):
        return self.newline.join(self.lines) + self.newline

    def f(self, name):
        self.feat[name] = self.feat.get(name, 0) + 1


class DGen(object):
    def __init__(self, d, stated=None, decimals=True, slots=True, header=None, diameters=False, limit=None,
                 incremental=True, ext=True, undeclared=True, small=False):
        self.d = d
        self.p = DProg()
        self.opt = dict(stated=stated, decimals=decimals, slots=slots, header=header, diameters=diameters,
                        incremental=incremental, ext=ext, undeclared=undeclared, small=small)
        self.limit = limit     # largest absolute coordinate, as a part of the format's range

    # -- numbers -------------------------------------------------------------
    def value(self, n):
        return Fraction(n, 10 ** self.p.fmt[1])

    def word(self, n, sign=True):
        """text of n resolution units in the format and zero mode in force"""
        d, (a, b) = self.d, self.p.fmt
        neg, m = n < 0, abs(n)
        s = '-' if neg else ('+' if sign and d.boolean(0.05) else '')
        if self.opt['decimals'] and d.boolean(self.pdec):
            t = '%0*d' % (b + 1, m)
            t = t[:-b] + '.' + t[-b:] if b else t + '.'
            if d.boolean(0.5):
                t = t.rstrip('0')
            if d.boolean(0.2) and t.startswith('0') and len(t) > 2:
                t = t[1:]
            return s + t
        t = '%0*d' % (a + b, m)
        assert len(t) == a + b, (n, self.p.fmt)
        z = len(t) - (len(t.rstrip('0')) if self.p.zeros == 'leading' else len(t.lstrip('0')))
        cut = d.weighted([(6, z), (1, d.integer(0, z)), (1, 0)])
        cut = min(cut, len(t) - 1)
        if cut:
            t = t[:-cut] if self.p.zeros == 'leading' else t[cut:]
        return s + t

    def coord(self):
        """a position along one axis, in resolution units"""
        d, (a, b) = self.d, self.p.fmt
        top = self.top
        k = d.integer(0, 3)
        if k == 0:
            return d.signed(30) * 10 ** max(0, b - 1)  if 30 * 10 ** max(0, b - 1) <= top else d.signed(top)
        if k == 1:
            return d.signed(top)
        return d.signed(min(top, 10 ** b * 3))

    # -- header --------------------------------------------------------------
    def line(self, text):
        if self.noise and self.d.boolean(0.08):
            self.p.lines.append(self.d.choice(['', '   ', ';a comment', ';T5 is not used', 'G93X0Y0', 'M25', 'M47,METRIC 1 INCH']))
        self.p.lines.append(text)

    def unit_line(self, with_format):
        p = self.p
        s = '%s,%s' % ('INCH' if p.units == 'inch' else 'METRIC', 'LZ' if p.zeros == 'leading' else 'TZ')
        if with_format:
            s += ',' + UNIT_FMT[p.fmt]
        self.line(s)

    def tool_params(self, t, need_c):
        d, p = self.d, self.p
        a, b = p.fmt
        top = 10 ** (a + b) - 1
        parts = []

        def num(letter, attr, hi, scale=1):
            n = d.integer(0 if letter != 'C' else 1, min(top, hi))
            if letter != 'C' and d.boolean(0.1):
                n = 0
            if letter == 'Z' and d.boolean(0.5):
                n = -n
            setattr(t, attr, self.value(n) * scale)
            parts.append(letter + self.word(n, sign=False))
        if need_c or d.boolean(0.95):
            num('C', 'diameter', 10 ** b * (1 if p.units == 'inch' else 9))
        for letter, attr, scale in (('F', 'feed_rate', 1), ('S', 'rpm', 1000), ('B', 'retract_rate', 1),
                                    ('H', 'max_hit_count', 1), ('Z', 'depth_offset', 1)):
            if d.boolean(0.25):
                num(letter, attr, top, scale)
        return ''.join(d.shuffled(parts))

    def tname(self, n):
        t = self.d.choice(['%02d', '%02d', '%02d', '%d', '%03d']) % n
        return 'T' + t

    def header(self):
        d, p, o = self.d, self.p, self.opt
        p.units = d.choice(['inch', 'metric'])
        p.zeros = d.choice(['leading', 'trailing'])
        p.fmt = d.choice(FORMATS)
        p.stated = d.boolean(0.6) if o['stated'] is None else o['stated']
        kind = o['header'] or d.weighted([(8, 'M48'), (2, 'M95'), (2, '%M48'), (1, '%'), (1, 'allegro'), (1, 'open')])
        if kind == 'none' and p.stated:
            p.stated = False
        if kind == 'allegro':
            p.stated = False
        self.kind = kind
        p.f('header ' + kind)
        self.noise = kind not in ('allegro',)
        self.pdec = d.choice([0, 0, 0, 0.2, 1]) if o['decimals'] else 0
        a, b = p.fmt
        self.top = 10 ** (a + b) - 1
        if self.limit is not None:
            self.top = int(self.top * self.limit)
        if not p.stated:
            # the reader is told; the header may still repeat some of it
            p.given = {'units': p.units, 'zeros': p.zeros, 'format': p.fmt, 'notation': 'absolute'}
            if o['incremental'] and d.boolean(0.1):
                p.given['notation'] = p.notation = 'incremental'
        if kind in ('M48', 'M95', 'open'):
            self.line('M48')
        elif kind == '%M48':
            self.line('%')
            self.line('M48')
        elif kind == '%':
            self.p.lines.append('%')
        if kind == 'allegro':
            p.lines += [';LEADER: 12', ';HEADER:', ';CODE  : ASCII']
        if kind not in ('none', 'allegro'):
            if d.boolean(0.2):
                self.line('VER,1')
            if p.stated:
                # units and zeros, and the format in one of the three ways
                how = d.choice(['comment', 'comment'] + (['unit', 'unit'] if p.fmt in UNIT_FMT else []) +
                               (['fmat'] if p.fmt in FMAT else []))
                if how == 'comment' and d.boolean(0.5):
                    self.line(';FILE_FORMAT=%d:%d' % p.fmt)
                    how = ''
                self.unit_line(how == 'unit')
                if how == 'comment':
                    self.line(';FILE_FORMAT=%d:%d' % p.fmt)
                elif how == 'fmat':
                    self.line(FMAT[p.fmt])
                p.f('format by ' + (how or 'comment'))
                if d.boolean(0.3):
                    # what the reader is told is overruled
                    p.given = {'units': d.choice(['inch', 'metric']), 'zeros': d.choice(['leading', 'trailing']),
                               'format': d.choice(FORMATS), 'notation': 'absolute'}
            else:
                if d.boolean(0.3):
                    self.unit_line(False)
                elif d.boolean(0.3):
                    self.line('M72' if p.units == 'inch' else 'M71')
            if o['incremental'] and d.boolean(0.15):
                p.notation = d.choice(['incremental', 'absolute'])
                self.line('ICI' if p.notation == 'incremental' and d.boolean(0.5) else
                          'ICI,' + ('ON' if p.notation == 'incremental' else 'OFF'))
                p.f('ICI in header')
        # tools
        self.declared = []
        plated = None
        n = d.integer(0 if o['undeclared'] or kind == 'allegro' else 1, 5)
        numbers = []
        if kind == 'none':
            n = 0
        for i in range(n):
            m = (numbers[-1] if numbers else 0) + d.choice([1, 1, 1, 1, 2, 7, 100])
            if m < (100 if kind == 'allegro' else 1000):
                numbers.append(m)
        if kind == 'open' and (not numbers or numbers[0] != 1):
            numbers = [1] + numbers
        if not o['undeclared'] and not numbers and kind != 'none':
            numbers = [1]
        for m in numbers:
            t = DTool(m)
            if kind == 'allegro':
                self.allegro_tool(t)
            else:
                if d.boolean(0.08):
                    plated = d.choice(['plated', 'nonplated'])
                    self.p.lines.append(';TYPE=' + ('PLATED' if plated == 'plated' else 'NON_PLATED'))
                t.plated = plated
                self.line(self.tname(m) + self.tool_params(t, o['diameters'] or True))
                p.tools[m] = t
            self.declared.append(m)
        if numbers and kind != 'allegro' and d.boolean(0.05):
            # the same tool again, the later definition counts
            t = DTool(d.choice(numbers))
            t.plated = plated
            self.line(self.tname(t.number) + self.tool_params(t, True))
            p.tools[t.number] = t
            p.f('tool defined again')
        if o['ext'] and d.boolean(0.12):
            self.ext_tools()
        if kind not in ('none',) and numbers and d.boolean(0.05) and kind != 'allegro':
            self.line('TCST,OFF')
        if kind == 'M95':
            self.line('M95')
        elif kind in ('M48', '%M48', '%', 'allegro'):
            self.line('%')

    def allegro_tool(self, t):
        """a tool defined by a comment, in thousandths of an inch or millimetres"""
        d, p = self.d, self.p
        mm = d.boolean(0.4)
        size = Fraction(d.integer(1, 9999), 1000 if mm else 100)
        if p.units == 'inch':
            t.diameter = size / Fraction(254, 10) if mm else size / 1000
        else:
            t.diameter = size if mm else size * Fraction(254, 10000)
        pl = d.choice(['PLATED', 'NON_PLATED', 'OPTIONAL'])
        t.plated = {'PLATED': 'plated', 'NON_PLATED': 'nonplated', 'OPTIONAL': 'optional'}[pl]
        p.lines.append(';%s Holesize %d. = %s Tolerance = +0.0/-0.0 %s %s Quantity = %d' % (
            ('T%02d' % t.number) if d.boolean(0.5) else ' ', t.number, ('%.3f' % float(size)),
            pl, 'MM' if mm else 'MILS', d.integer(1, 99)))
        self.lazy[t.number] = t
        p.f('tool by comment')

    def ext_tools(self):
        """tools from a separate file: plating for declared ones, everything for undeclared ones"""
        d, p = self.d, self.p
        p.ext = {}
        for m in sorted(set([d.integer(1, 6) for _ in range(d.integer(1, 3))])):
            pl = d.choice([None, 'plated', 'nonplated', 'optional'])
            dia = Fraction(d.integer(1, 2000), 10000 if p.units == 'inch' else 100)
            p.ext[m] = (dia, pl)
            if m in p.tools:
                if p.tools[m].plated is None:
                    p.tools[m].plated = pl
            elif m not in self.lazy:
                t = DTool(m)
                t.diameter, t.plated = dia, pl
                self.lazy[m] = t
        p.f('external tools')

    # -- body ----------------------------------------------------------------
    def use(self, n):
        """tool number n is selected or used"""
        p = self.p
        if n not in p.tools:
            if n in self.lazy:
                p.tools[n] = self.lazy[n]
            else:
                t = DTool(n)
                t.diameter = Fraction(16 + 8 * n, 1000)
                if p.units == 'metric':
                    t.diameter *= Fraction(254, 10)
                p.tools[n] = t
                p.f('undeclared tool')
        self.active = n

    def has(self, n):
        return n in self.declared

    def ready(self):
        """a hole can be drilled: a tool is active, or the program has a tool 1 to start with"""
        return self.active is not None or self.has(1)

    def words(self, need=True):
        """coordinate words and the resulting position"""
        d, p = self.d, self.p
        which = d.weighted([(6, 'XY'), (1, 'X'), (1, 'Y')]) if need else d.weighted([(3, 'XY'), (1, 'X'), (1, 'Y')])
        s, new = '', list(self.pos)
        for i, c in enumerate('XY'):
            if c in which:
                v = self.coord()
                if p.notation == 'incremental':
                    if abs(new[i] + v) > self.top:
                        v = -v
                    if abs(new[i] + v) > self.top:
                        v = 0
                    new[i] += v
                else:
                    new[i] = v
                s += c + self.word(v)
        if len(which) == 1:
            p.f('one axis')
        self.pos = new
        return s

    def at(self, pos=None):
        x, y = pos or self.pos
        return (self.value(x), self.value(y))

    def hole(self, text=None):
        d, p = self.d, self.p
        if self.active is None:
            self.use(1)
        self.line(self.words())
        p.holes.append(('hit', self.active, self.at()))
        p.f('hit')

    def repeat(self):
        d, p = self.d, self.p
        n = d.integer(1, 6)
        which = d.choice(['XY', 'X', 'Y', 'XY'])
        dv = [0, 0]
        for i, c in enumerate('XY'):
            if c in which:
                v = d.signed(max(1, min(self.top // 8, 10 ** self.p.fmt[1])))
                if abs(self.pos[i] + n * v) > self.top:
                    v = -v
                if abs(self.pos[i] + n * v) > self.top:
                    v = 0
                dv[i] = v
        self.line('R%s' % d.choice(['%d', '%02d']) % n + ''.join(
            c + self.word(dv[i]) for i, c in enumerate('XY') if c in which))
        for _ in range(n):
            self.pos = [self.pos[0] + dv[0], self.pos[1] + dv[1]]
            p.holes.append(('hit', self.active, self.at()))
        p.f('repeat')

    def slot(self):
        d, p = self.d, self.p
        if self.active is None:
            self.use(1)
        a = self.words()
        s = self.at()
        b = self.words(False)
        self.line(a + 'G85' + b)
        p.holes.append(('slot', self.active, s, self.at(), 'G85'))
        p.f('G85 slot')

    def rout(self):
        d, p = self.d, self.p

        def go(code):
            w = self.words()
            if d.boolean(0.2):
                # on a line of its own
                p.lines.append(code)
                p.lines.append(w)
            else:
                self.line(code + w)
        if d.boolean(0.9):
            go('G00')
            if d.boolean(0.1):
                # another rapid move
                self.line(self.words())
        else:
            p.f('rout without G00')
        down = d.boolean(0.9)
        if down:
            self.line('M15')
        if d.boolean(0.1):
            self.line(d.choice(['G40', 'G41', 'G42', 'F100']))
        first = True
        for _ in range(d.integer(1, 4)):
            if d.boolean(0.06) and self.opt['incremental']:
                self.notation()
            if d.boolean(0.05) and not first:
                self.select()
                p.f('tool changed while routing')
            s = self.at()
            if first or d.boolean(0.4):
                go('G01')
                first = False
            else:
                self.line(self.words())
                p.f('modal G01')
            if down:
                if self.active is None:
                    self.use(1)
                p.holes.append(('slot', self.active, s, self.at(), 'ROUT'))
                p.f('rout')
        if down and d.boolean(0.9):
            self.line(d.choice(['M16', 'M17']))
            if d.boolean(0.2):
                # moves with the tool up
                go('G00')
                if d.boolean(0.5):
                    go('G01')
                    self.line(self.words())
                p.f('rout with tool up')
        self.line('G05')

    def notation(self):
        d, p = self.d, self.p
        if d.boolean(0.5):
            p.notation = 'absolute'
            self.line(d.choice(['G90', 'ICI,OFF']))
        else:
            p.notation = 'incremental'
            self.line('ICI,ON')
        p.f('notation changed')

    def select(self):
        d, p, o = self.d, self.p, self.opt
        known = sorted(set(self.declared) | set(self.lazy))
        if known and (not o['undeclared'] or not d.boolean(0.06)):
            n = d.choice(known)
        elif o['undeclared'] or not known:
            n = d.choice([3, 9, 21, 45])
        if d.boolean(0.05) and n < 100:
            self.line('T%02d%02d' % (n, n))
            p.f('compensation index')
        else:
            self.line(self.tname(n))
        self.use(n)

    def run(self):
        d, p, o = self.d, self.p, self.opt
        self.pos = [0, 0]
        self.active = None
        self.lazy = {}
        self.noise = True
        p.newline = d.weighted([(6, '\n'), (1, '\r\n')])
        self.header()
        # leave out a diameter of a tool that is never used: it has no size to speak of
        if self.kind == 'open':
            # holes before the header ends
            for _ in range(d.integer(1, 4)):
                self.hole()
            p.f('holes in header')
            if d.boolean(0.7):
                self.line(d.choice(['%', 'M95']))
            else:
                self.finish()
                return p
        else:
            if d.boolean(0.15):
                self.line('G05')
            if d.boolean(0.15) and p.notation == 'absolute':
                self.line('G90')
            if d.boolean(0.1):
                self.line('M72' if p.units == 'inch' else 'M71')
        for _ in range(d.integer(1, 14)):
            k = d.weighted([(3, 'select'), (10, 'hit'), (2, 'repeat'), (2, 'slot'), (2, 'rout'), (1, 'mode'), (1, 'next'),
                            (1, 'other')])
            if k == 'select' or not self.ready():
                self.select()
            elif k == 'hit':
                self.hole()
            elif k == 'repeat':
                if self.active is not None and p.holes:
                    self.repeat()
                else:
                    self.hole()
            elif k == 'slot' and o['slots']:
                self.slot()
            elif k == 'rout' and o['slots']:
                self.rout()
            elif k == 'mode' and o['incremental']:
                self.notation()
            elif k == 'next':
                if self.active is not None and self.has(self.active + 1):
                    self.line('M00')
                    self.use(self.active + 1)
                    p.f('M00')
            elif k == 'other':
                self.line(d.choice(['G05', 'F200', 'G40', ';comment', 'M25', 'T00' if self.active else 'G05']))
        self.finish()
        return p

    def finish(self):
        d = self.d
        if d.boolean(0.2):
            self.p.lines.append('T00' if self.kind != 'open' else 'G05')
        self.p.lines.append(d.choice(['M30', 'M30', 'M30X0Y0']))


# ---------------------------------------------------------------------------
def settings_of(p):
    from gerber.cam import FileSettings
    return FileSettings(**p.given) if p.given else None


def ext_of(p):
    from gerber.excellon_statements import ExcellonTool
    if p.ext is None:
        return None
    return dict((n, ExcellonTool(None, number=n, diameter=float(v[0]), plated=v[1])) for n, v in p.ext.items())


def load(p, text=None):
    from gerber import excellon
    return excellon.loads(p.text if text is None else text, settings=settings_of(p), tools=ext_of(p))


def near(a, b, tol=1e-9):
    if a is None or b is None:
        return a is None and b is None
    return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(b)))


def holes_of(f):
    """the holes of a file read by the code under test"""
    from gerber.excellon import DrillHit, DrillSlot
    out = []
    for h in f.hits:
        if isinstance(h, DrillHit):
            out.append(('hit', h.tool.number, tuple(h.position)))
        elif isinstance(h, DrillSlot):
            out.append(('slot', h.tool.number, tuple(h.start), tuple(h.end),
                        {DrillSlot.TYPE_ROUT: 'ROUT', DrillSlot.TYPE_G85: 'G85'}[h.slot_type]))
        else:
            raise Violation('unknown feature %r' % (h,))
    return out


def same_hole(a, b, tol=1e-9, kinds=True):
    if a[:2] != b[:2] or len(a) != len(b):
        return False
    if a[0] == 'slot' and kinds and a[4] != b[4]:
        return False
    return all(near(x, y, tol) for p, q in zip(a[2:4] if a[0] == 'slot' else a[2:3], b[2:4] if b[0] == 'slot' else b[2:3])
               for x, y in zip(p, q))


def show_hole(h):
    return repr(tuple(tuple(float(x) for x in v) if isinstance(v, tuple) else v for v in h))


def label(d, p):
    for k in p.feat:
        d.label(k)
    d.label('stated' if p.stated else 'given')


# ---------------------------------------------------------------------------
INCH = Fraction(254, 10)


class Model(object):
    """the holes and tools of a program under the operations on drill files"""
    def __init__(self, p):
        self.units, self.fmt = p.units, p.fmt
        self.holes = list(p.holes)
        self.tools = dict((n, dict(t.values())) for n, t in p.tools.items())

    def points(self, fn):
        self.holes = [h[:2] + tuple(fn(v) if isinstance(v, tuple) else v for v in h[2:]) for h in self.holes]

    def convert(self, units):
        if units == self.units:
            return
        k = INCH if units == 'metric' else 1 / INCH
        self.points(lambda v: (v[0] * k, v[1] * k))
        for t in self.tools.values():
            for a in ('diameter', 'depth_offset'):
                if t[a] is not None:
                    t[a] *= k
        self.units = units

    def offset(self, x, y):
        self.points(lambda v: (v[0] + x, v[1] + y))

    def fits(self):
        """everything can be written in the format"""
        top = Fraction(10 ** sum(self.fmt) - 1, 10 ** self.fmt[1])
        nums = [abs(c) for h in self.holes for v in h[2:] if isinstance(v, tuple) for c in v]
        nums += [abs(v) / (1000 if a == 'rpm' else 1) for t in self.tools.values() for a, v in t.items()
                 if a not in ('plated', 'diameter', 'rpm') and v is not None]
        return all(n <= top for n in nums)

    def bounding_box(self):
        xs, ys = [], []
        for h in self.holes:
            r = self.tools[h[1]]['diameter'] / 2
            for v in h[2:]:
                if isinstance(v, tuple):
                    xs += [v[0] - r, v[0] + r]
                    ys += [v[1] - r, v[1] + r]
        return ((min(xs), max(xs)), (min(ys), max(ys)))

    def path(self, n):
        import math
        at, total = (Fraction(0), Fraction(0)), 0.0
        for h in self.holes:
            if h[1] == n:
                for v in h[2:]:
                    if isinstance(v, tuple):
                        total += math.hypot(float(v[0] - at[0]), float(v[1] - at[1]))
                        at = v
        return total

    def hits(self, n):
        return sum(1 for h in self.holes if h[1] == n)


def operate(d, f, m, kinds=('inch', 'metric', 'offset', 'tool', 'read')):
    """one operation on the file and on its model; returns what was done"""
    k = d.choice(kinds)
    if k in ('inch', 'metric'):
        (f.to_inch if k == 'inch' else f.to_metric)()
        m.convert(k)
        return 'to_' + k
    if k == 'offset':
        q = 10 ** m.fmt[1]
        v = [Fraction(0 if d.boolean(0.15) else d.signed(10 * q), q) for _ in range(2)]
        f.offset(float(v[0]), float(v[1]))
        m.offset(*v)
        return 'offset(%s, %s)' % (float(v[0]), float(v[1]))
    if k == 'tool' and m.tools:
        n = d.choice(sorted(m.tools))
        q = 10 ** m.fmt[1]
        args = {}
        for a in ('diameter', 'feed_rate', 'retract_rate', 'rpm', 'max_hit_count', 'depth_offset'):
            if d.boolean(0.4):
                v = Fraction(d.integer(1, 9 * q), q) * (1000 if a == 'rpm' else 1)
                if a != 'diameter' and d.boolean(0.15):
                    v = Fraction(0)
                args[a] = float(v)
                m.tools[n][a] = v
        f.update_tool(n, **args)
        return 'update_tool(%d, %r)' % (n, args)
    # reading anything must not change anything
    f.primitives, f.hit_count(), f.path_length()
    if all(t['diameter'] is not None for t in m.tools.values()):
        f.bounding_box, f.report()
    return 'read'
