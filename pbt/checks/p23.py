"""P23: regenerating a drill file from its holes."""
import re
from fractions import Fraction
from engine import Violation, Discard
from dmodel import DGen, Model, operate, load, holes_of, show_hole, label
from checks.p13 import compare_holes
from gerber import excellon
from gerber.cam import FileSettings
from gerber.render.excellon_backend import ExcellonContext

TECHNIQUE = 'holes and slots of generated Excellon programs, and built ones, rendered to Excellon text and read back, against a model of the holes; independent scan of the tool definitions'
NOTE = 'No counterexample among the generated hole lists counted in the evidence.'
RULE = ('a case is the list of holes and slots of one generated Excellon program, in their order or shuffled, rendered '
        'through the Excellon back end under generated settings; non-trivial = at least 3 holes or slots')
ASSUMPTIONS = ['the settings are in the units of the holes, with absolute notation, and the values fit the format',
               'different tools have different numbers']


def render(objs, settings, k=None):
    ctx = ExcellonContext(settings)

    def text():
        return '\n'.join(s.to_excellon(settings) for s in ctx.statements) + '\n'
    for i, o in enumerate(objs):
        if i == k:
            taken = text()
        ctx.render(o)
    if k is None:
        return ctx, text()
    if k == len(objs):
        taken = text()
    return ctx, text(), taken


def key(o):
    n = type(o).__name__
    if n == 'Drill':
        return ('drill', o.hit.tool.number, tuple(o.position))
    return ('slot', o.hit.tool.number, tuple(o.start), tuple(o.end))


def near(a, b, tol):
    return a[:2] == b[:2] and all(abs(x - y) <= tol for p, q in zip(a[2:], b[2:]) for x, y in zip(p, q))


def prop_program(d):
    p = DGen(d, limit=d.choice([1, Fraction(1, 3), Fraction(1, 30)])).run()
    text = p.text
    f = load(p)
    label(d, p)
    objs = list(f.primitives)
    if d.boolean(0.4):
        objs = d.shuffled(objs)
    if d.boolean(0.2) and objs:
        objs.insert(d.integer(0, len(objs)), d.choice(objs))
    want = [key(o) for o in objs]
    if len(objs) >= 3:
        d.nontrivial(want)
    settings = FileSettings(units=f.units, format=d.choice([tuple(f.format), (4, 6), (5, 5), (6, 4)]),
                            zeros=d.choice(['leading', 'trailing']))
    top = 10.0 ** settings.format[0] - 1
    unit = 10.0 ** -settings.format[1]
    tools = dict((o.hit.tool.number, o.hit.tool) for o in objs)
    if any(abs(x) >= top for w in want for q in w[2:] for x in q):
        raise Discard()
    ctx, out = render(objs, settings)
    d.show(text=text, objects=want, rendered=out)
    if [key(o) for o in objs] != want:
        raise Violation('rendering changed the objects')
    try:
        g = excellon.loads(out)
    except Exception as e:
        raise Violation('the rendered text cannot be read: %s: %s' % (type(e).__name__, e))
    if g.units != settings.units or tuple(g.format) != tuple(settings.format):
        raise Violation('units %r, format %r instead of %r, %r' % (g.units, g.format, settings.units, settings.format))
    got = [key(o) for o in g.primitives]
    if len(got) != len(want):
        raise Violation('%d holes and slots instead of %d:\n%r\n%r' % (len(got), len(want), got, want))
    for a, b in zip(got, want):
        if not near(a, b, unit * 0.51 + 1e-9):
            raise Violation('%r instead of %r' % (a, b))
    lines = out.splitlines()
    body = lines.index('%')
    defined = [int(m.group(1)) for m in (re.match(r'T0*(\d+)[A-Z]', l) for l in lines[:body]) if m]
    if sorted(defined) != sorted(tools):
        raise Violation('tools defined: %r, used: %r' % (defined, sorted(tools)))
    for n, t in tools.items():
        h = g.tools[n]
        for a in ('diameter', 'feed_rate', 'retract_rate', 'rpm', 'max_hit_count', 'depth_offset'):
            x, v = getattr(h, a), getattr(t, a)
            tol = unit * (1000 if a == 'rpm' else 1) * 1.01
            if (x is None) != (v is None) or v is not None and abs(x - float(v)) > tol + 1e-9 * abs(float(v)):
                raise Violation('tool %d: %s is %r instead of %r' % (n, a, x, v))
    down = False
    for l in lines[body:]:
        if l == 'M15':
            down = True
        elif l in ('M16', 'M17'):
            down = False
        elif down and (re.match(r'T\d', l) or l.startswith('G00') or l in ('G05', 'M30', 'M00') or l.startswith('X')):
            raise Violation('%s while the tool is down' % l)
    k = d.below(len(objs) + 1)
    part, last, taken = render(objs, settings, k)
    got = [key(o) for o in excellon.loads(taken).primitives]
    if len(got) != k or any(not near(a, b, unit * 0.51 + 1e-9) for a, b in zip(got, want)):
        raise Violation('the text taken after %d objects gives %r' % (k, got))
    if last != out:
        raise Violation('the text is another one if it was taken before, after %d objects' % k)
    if render(objs, settings)[1] != out:
        raise Violation('rendering again gives another text')


UNITS = [
    {'name': 'program', 'prop': prop_program, 'n': {'quick': 10000, 'thorough': 250000}},
]
