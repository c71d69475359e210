"""P19: regenerating a Gerber file from its objects preserves the image."""
import math
import re
from engine import Violation, Discard
from gmodel import to_text, label
from checks.p03 import gen as gen_file, image, same_image, describe_am
import prims
from gerber import rs274x
from gerber.cam import FileSettings
from gerber.primitives import AMGroup, Rectangle
from gerber.render.rs274x_backend import Rs274xContext

TECHNIQUE = 'generated object lists, read from generated programs or built, rendered to Gerber text and read back; independent scan of the definitions'
NOTE = 'No counterexample among the generated object lists counted in the evidence.'
RULE = ('a case is the object list of one generated RS-274X program (unit files) or one generated list of lines, arcs, '
        'regions, flashes and macro groups (unit built) rendered through the Gerber back end under generated settings; '
        'non-trivial = at least 3 objects')
ASSUMPTIONS = ['the settings are in the units of the objects, with absolute notation, and the coordinates fit the format',
               'objects are ones that Gerber can express: no rotated rectangle, obround or hole, no drill; contours are connected and of one polarity',
               'single-quadrant arcs have coordinates on the grid of the format']


def definitions(text, objects):
    """every aperture and macro used is defined once, before its use, and not twice under different codes"""
    codes, macros, bodies = {}, {}, {}
    text = re.sub(r'%[^%]*%', lambda m: m.group().replace('\n', ''), text)
    for line in text.splitlines():
        m = re.match(r'%ADD(\d+)([A-Za-z_$.][^,*%]*),?([^*%]*)\*%$', line)
        a = re.match(r'%AM([^*%]*)\*(.*)%$', line)
        u = re.match(r'(?:G54)?D0*(\d{2,})\*$', line)
        if m:
            code, shape, mods = int(m.group(1)), m.group(2), m.group(3)
            if code in codes:
                raise Violation('aperture D%d is defined twice' % code)
            if code < 10:
                raise Violation('aperture code D%d' % code)
            if shape not in ('C', 'R', 'O', 'P'):
                if shape not in macros:
                    raise Violation('aperture D%d uses the undefined macro %s' % (code, shape))
                shape = macros[shape]
            what = (shape, tuple(float(x) for x in mods.split('X')) if mods else ())
            if what in bodies:
                raise Violation('apertures D%d and D%d are the same: %r' % (bodies[what], code, what))
            bodies[what] = code
            codes[code] = what
        elif line.startswith('%AD'):
            raise Violation('aperture definition %r' % line)
        elif a:
            if a.group(1) in macros:
                raise Violation('macro %s is defined twice' % a.group(1))
            macros[a.group(1)] = a.group(2)
        elif line.startswith('%AM'):
            raise Violation('macro %r' % line)
        elif u and int(u.group(1)) >= 10 and int(u.group(1)) not in codes:
            raise Violation('D%s is used before it is defined' % u.group(1))
    if 'M02*' not in text.splitlines()[-1:]:
        raise Violation('the text ends with %r' % text[-40:])
    return codes


def configure(d, ctx, objects):
    if d.boolean(0.2):
        ctx.condensed_flash = False
    # a contour of one line, which encloses nothing, is dropped by the extra move
    degenerate = any(type(o).__name__ == 'Region' and len(o.primitives) == 1 for o in objects)
    if not degenerate and d.boolean(0.2):
        ctx.explicit_region_move_end = True


def header(g, s):
    if g.units != s.units:
        raise Violation('units %r instead of %r' % (g.units, s.units))
    if tuple(g.format) != tuple(s.format) or g.settings.zero_suppression != s.zero_suppression:
        raise Violation('format %r %r instead of %r %r' % (g.format, g.settings.zero_suppression, s.format, s.zero_suppression))


def prop_files(d):
    p = gen_file(d, line_apertures=('C', 'R', 'O', 'P'))
    text = to_text(p)
    d.show(text=text)
    label(d, p)
    if len(p.objects) >= 3:
        d.nontrivial(text)
    f = rs274x.loads(text)
    before = image(f)
    settings = f.settings
    if d.boolean(0.3):
        settings = FileSettings(units=f.units, format=(6, d.integer(f.format[1], 7)),
                                zero_suppression=d.choice(['leading', 'trailing']))
    ctx = Rs274xContext(settings)
    configure(d, ctx, f.primitives)
    taken = []
    if before and d.boolean(0.6):
        f.render(ctx)
    else:
        for i, o in enumerate(f.primitives):
            if d.boolean(0.15):
                taken.append((i, ctx.dump().getvalue()))
            ctx.render(o)
    out = ctx.dump().getvalue()
    d.show(text=text, rendered=out)
    same_image(image(f), before, 0, 'rendering changed the objects')
    if len(before) == len(f.primitives):
        for i, t in taken[:2]:
            d.label('text taken in between')
            same_image(image(rs274x.loads(t)), before[:i], 1e-8, 'the text taken after %d of %d objects' % (i, len(before)))
    g = rs274x.loads(out)
    same_image(image(g), before, 1e-8, 'after rendering and reading')
    header(g, settings)
    definitions(out, f.primitives)
    again = Rs274xContext(settings)
    again.condensed_flash, again.explicit_region_move_end = ctx.condensed_flash, ctx.explicit_region_move_end
    for o in f.primitives:
        again.render(o)
    if again.dump().getvalue() != out:
        raise Violation('rendering again gives another text')


# --- built objects ----------------------------------------------------------------
class Builder(object):
    def __init__(self, d):
        self.d = d
        self.dec = d.choice([2, 3, 4, 5, 6])
        self.units = d.choice(['inch', 'metric'])
        self.grid = d.boolean(0.6)
        self.aps = [self.aperture() for _ in range(d.integer(1, 4))]
        self.last = (0.0, 0.0)

    def round(self, v):
        return round(v, self.dec)

    def pt(self):
        d = self.d
        if d.boolean(0.2):
            return self.last
        p = prims.g_pt(d)
        if self.grid:
            p = (self.round(p[0]), self.round(p[1]))
        if d.boolean(0.15):
            p = (self.last[0], p[1])
        return p

    def aperture(self, kinds=('Circle', 'Rectangle', 'Obround', 'Polygon')):
        d = self.d
        s = prims.g_aperture(d, self.units, kinds)
        for k in ('diameter', 'width', 'height', 'radius', 'hole_diameter', 'hole_width', 'hole_height'):
            if s.get(k):
                s[k] = round(s[k], 4) or 0.0001
        if s.get('hole_diameter'):
            s['hole_width'] = s['hole_height'] = 0
        elif not (s.get('hole_width') and s.get('hole_height')):
            s['hole_width'] = s['hole_height'] = 0
        if s['kind'] == 'Polygon' and (s.get('hole_width') or s.get('hole_diameter') is None):
            pass
        s['level_polarity'] = 'dark'
        return s

    def pick(self, line=False):
        d = self.d
        if d.boolean(0.75):
            return d.choice(self.aps)
        s = dict(d.choice(self.aps)) if d.boolean(0.5) else self.aperture()
        for k in ('diameter', 'width', 'height', 'radius', 'hole_diameter', 'hole_width', 'hole_height', 'rotation', 'sides'):
            if s.get(k) and d.boolean(0.3):       # one that differs a little
                s[k] = s[k] + 1 if k == 'sides' and s[k] < 12 else s[k] if k == 'sides' else s[k] + 5 if k == 'rotation' and s['kind'] == 'Polygon' \
                    else s[k] if k == 'rotation' else round(s[k] + d.choice([1e-4, 1e-4, 1e-5]), 6)
        if d.boolean(0.15) and (s.get('hole_diameter') or s.get('hole_width')):
            s.update(hole_diameter=d.choice([None, 0]), hole_width=0, hole_height=0)
            d.label('aperture without the hole of another')
        self.aps.append(s)
        return s

    def arc(self, start=None):
        """an arc whose ends are at the same distance from the centre, also after rounding"""
        d = self.d
        start = self.pt() if start is None else start
        single = self.grid and d.boolean(0.3)
        direction = d.choice(['counterclockwise', 'clockwise'])
        a0 = d.choice([0, 90, 180, 270])
        if self.grid or single:
            r = self.round(d.pos(0.1, 20)) or 1.0
            c = (start[0] - r * {0: 1, 180: -1}.get(a0, 0), start[1] - r * {90: 1, 270: -1}.get(a0, 0))
            c = (self.round(c[0]), self.round(c[1])) if self.grid else c
            sweep = 90 if single else d.choice([0, 90, 180, 270])
        else:
            r = d.pos(0.1, 20)
            a0 = d.integer(0, 359)
            c = (start[0] - r * math.cos(math.radians(a0)), start[1] - r * math.sin(math.radians(a0)))
            sweep = d.choice([0, 90, 180, 270, d.integer(10, 350)])
        a1 = a0 + (sweep if direction == 'counterclockwise' else -sweep)
        end = prims.at(c, r, a1)
        if self.grid:
            end = (self.round(end[0]), self.round(end[1]))
        if sweep == 0:
            end = start
        return {'start': start, 'end': end, 'center': c, 'direction': direction,
                'quadrant_mode': 'single-quadrant' if single else 'multi-quadrant'}

    def obj(self):
        d = self.d
        kind = d.weighted([(4, 'Line'), (3, 'Arc'), (2, 'Region'), (5, 'flash'), (3, 'AMGroup')])
        s = {'kind': kind, 'units': self.units, 'level_polarity': d.weighted([(4, 'dark'), (2, 'clear')])}
        if kind == 'Line':
            s.update(start=self.pt(), end=self.pt(), aperture=self.pick())
            self.last = s['end']
        elif kind == 'Arc':
            s.update(self.arc(), aperture=self.pick())
            self.last = s['end']
        elif kind == 'flash':
            s = dict(self.pick(), position=self.pt(), level_polarity=s['level_polarity'])
            self.last = s['position']
        elif kind == 'AMGroup':
            s.update(position=self.pt(), words=self.words())
            self.last = s['position']
        else:
            cur = first = self.pt()
            ap = dict(self.aps[0]) if d.boolean(0.5) else {
                'kind': 'Circle', 'units': self.units, 'level_polarity': 'dark', 'position': None, 'diameter': 0.0,
                'hole_diameter': None, 'hole_width': 0, 'hole_height': 0}
            mem = []
            for i in range(d.integer(2, 5)):
                if d.boolean(0.35):
                    m = dict(self.arc(cur), kind='Arc')
                else:
                    self.last = cur
                    m = {'kind': 'Line', 'start': cur, 'end': self.pt()}
                m.update(units=self.units, level_polarity=s['level_polarity'], aperture=ap)
                cur = m['end']
                mem.append(m)
            if cur != first:
                mem.append({'kind': 'Line', 'start': cur, 'end': first, 'units': self.units,
                            'level_polarity': s['level_polarity'], 'aperture': ap})
            s['primitives'] = mem
            self.last = first
        return s

    made = None

    def words(self):
        d = self.d
        if self.made and d.boolean(0.6):
            w = [list(x) for x in d.choice(self.made)]
            if d.boolean(0.5):       # one number that differs
                x = d.choice(w)
                i = d.choice([i for i in range(1, len(x)) if not (x[0][0] == 4 and (i in (2, 3, 4) or i >= len(x) - 3))
                              and not (x[0][0] == 7 and i in (4, 5))])
                v, length = x[i]
                if i == 1 and x[0][0] != 7:
                    v = 1 - v
                elif x[0][0] == 5 and i == 2:
                    v = 3 if v > 3 else 4
                else:
                    v = round(v + (0.0001 if length else 1), 4)
                x[i] = (v, length)
        else:
            w = prims.g_words(d)
            for x in w:
                if x[0][0] != 7 and d.boolean(0.2):
                    x[1] = (0, False)
        self.made = (self.made or []) + [w]
        return w


def as_written(t):
    """a rectangle of a macro group is written as a centre line, which is read as an outline"""
    if t[0] != 'flashAM':
        return t
    parts = []
    for q in t[2]:
        if q[0] == 'flashR':
            (x, y), w, h, a, hole, pol = q[1:7]
            c, n = math.cos(math.radians(a)), math.sin(math.radians(a))
            pts = [(x + c * u - n * v, y + n * u + c * v)
                   for u, v in ((w / 2, h / 2), (-w / 2, h / 2), (-w / 2, -h / 2), (w / 2, -h / 2))]
            q = ('outline', tuple(('line', pts[i], pts[(i + 1) % 4]) for i in range(4)), pol) + q[7:]
        parts.append(q)
    return t[:2] + (tuple(parts),) + t[3:]


def prop_built(d):
    b = Builder(d)
    specs = [b.obj() for _ in range(d.size(1, 9))]
    d.show(specs=specs, decimals=b.dec)
    share = {} if d.boolean(0.5) else None
    objs = [prims.build(s, share) for s in specs]
    for s, o in zip(specs, objs):
        if s['kind'] == 'AMGroup':
            o.level_polarity = s['level_polarity']
            if d.boolean(0.25):
                o.stmt = None
                d.label('macro group without its statement')
                for _ in range(d.integer(0, 2)):
                    r = prims.g_pt(d)
                    r = (round(r[0] / 10, 3), round(r[1] / 10, 3))
                    o.primitives.append(Rectangle((s['position'][0] + r[0], s['position'][1] + r[1]), d.integer(1, 900) / 1000.0,
                                                  d.integer(1, 900) / 1000.0, rotation=d.choice([0, 0, 30, 45, 90, 200, 12.5]),
                                                  level_polarity=d.choice(['dark', 'dark', 'clear']), units=b.units))
                    d.label('macro group with a rectangle')
    before = [describe_am(o) for o in objs]
    if len(objs) >= 3:
        d.nontrivial(before)
    settings = FileSettings(units=b.units, format=(6, b.dec), zero_suppression=d.choice(['leading', 'trailing']))
    ctx = Rs274xContext(settings)
    configure(d, ctx, objs)
    comments = []
    for i, o in enumerate(objs):
        if d.boolean(0.1):
            o.comment = 'object %d' % i
            comments.append(o.comment)
        ctx.render(o)
    out = ctx.dump().getvalue()
    d.show(specs=specs, rendered=out)
    same_image([describe_am(o) for o in objs], before, 0, 'rendering changed the objects')
    g = rs274x.loads(out)
    res = 10.0 ** -b.dec
    tol = 2e-6 if b.grid else 1.01 * res + 2e-6
    same_image(image(g), [as_written(t) for t in before], tol, 'after rendering and reading')
    header(g, settings)
    definitions(out, objs)
    if sorted(s.comment.strip() for s in g.statements if type(s).__name__ == 'CommentStmt') != sorted(comments):
        raise Violation('comments %r' % [s.comment for s in g.statements if type(s).__name__ == 'CommentStmt'])


UNITS = [
    {'name': 'files', 'prop': prop_files, 'n': {'quick': 8000, 'thorough': 250000}},
    {'name': 'built', 'prop': prop_built, 'n': {'quick': 8000, 'thorough': 250000}},
]
