"""P02: RS-274X interpretation against the generator's own execution of the rules."""
from engine import Violation
import gmodel
from gmodel import Gen, to_text, describe, check_same, label
from gerber import rs274x

TECHNIQUE = "generated RS-274X programs, against the generator's own execution of the RS-274X rules"
NOTE = 'No counterexample among the generated cases counted in the evidence.'
RULE = ('a case is one generated RS-274X program (format, zero mode, units, notation, apertures incl. macros, '
        'draws, arcs in both quadrant modes, flashes, regions, polarity, modal omissions); '
        'non-trivial = at least 3 expected objects')
ASSUMPTIONS = ['inside a region every block that draws a line or arc after an arc states its interpolation mode',
               'draws use circle, rectangle, obround or polygon apertures']


def prop_program(d):
    p = Gen(d, notation='any', line_apertures=('C', 'R', 'O', 'P')).run()
    text = to_text(p)
    d.show(text=text)
    label(d, p)
    if len(p.objects) >= 3:
        d.nontrivial(text)
    f = rs274x.loads(text)
    check_same([describe(q) for q in f.primitives], p.objects, 'image')
    if f.units != p.units or tuple(f.format) != p.fmt or f.notation != p.notation:
        raise Violation('settings %s %s %s, declared %s %s %s' % (f.units, f.format, f.notation, p.units, p.fmt, p.notation))
    if p.zs != 'none' and (f.zero_suppression != p.zs or f.zeros == p.zs or f.settings.zero_suppression != p.zs):
        raise Violation('zero suppression %s, declared %s' % (f.zero_suppression, p.zs))
    if any(s.units != p.units for s in f.statements):
        raise Violation('a statement is not in the file units')


UNITS = [
    {'name': 'program', 'prop': prop_program, 'n': {'quick': 20000, 'thorough': 400000}},
]
