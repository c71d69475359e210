"""P15: number format detection of drill files."""
import os
from engine import Violation
from dmodel import DGen, UNIT_FMT, label
from checks.p13 import scratch
from gerber import excellon
from gerber.cam import FileSettings
from gerber.excellon import detect_excellon_format

TECHNIQUE = 'generated Excellon programs, detection compared with what the program states and with an independent ranking of the candidates'
NOTE = 'No counterexample among the generated programs counted in the evidence.'
RULE = ('a case is one generated Excellon program that states all, some or none of its units, zero mode and format; '
        'non-trivial = something had to be inferred and the program has at least two holes')
ASSUMPTIONS = ['the ranking of candidates is (hole area share - 1/4)^2 * (board area - 8)^2, lower is better, 0 for an '
               'empty area, with the hole area summed as the reader does; candidates within 1e-6 are ties']

FORMATS = ((2, 4), (2, 5), (3, 3))


def score(text, fmt, zeros):
    """the rank of one candidate from an independent evaluation of the file under it; None if it does not parse"""
    try:
        f = excellon.loads(text, settings=FileSettings(format=fmt, zeros=zeros))
        xs, ys, area = [], [], 0.0
        for h in f.hits:
            r = h.tool.diameter / 2.0
            for pt in ((h.position,) if hasattr(h, 'position') else (h.start, h.end)):
                xs += [pt[0] - r, pt[0] + r]
                ys += [pt[1] - r, pt[1] + r]
            area += (3.141592653589793 * r) ** 2
    except Exception:
        return None
    if not xs:
        return 'empty'
    board = (max(xs) - min(xs)) * (max(ys) - min(ys))
    if board == 0:
        return 0.0
    return (area / board - 0.25) ** 2 * (board - 8) ** 2


def prop_detect(d):
    g = DGen(d, ext=False, stated=d.choice([True, False, None]), undeclared=d.boolean(0.2), limit=d.choice([1, 1, None]))
    p = g.run()
    lines = list(p.lines)
    zeros = fmt = None
    # what the program states
    for l in lines:
        if l.startswith(('INCH', 'METRIC')):
            zeros = p.zeros
            for k, v in UNIT_FMT.items():
                if v == l.split(',')[-1]:
                    fmt = k
        if 'FILE_FORMAT' in l or l.startswith('FMAT'):
            fmt = p.fmt
    if not p.stated and d.boolean(0.3):
        # states a part: the format by comment only, or the zero mode only
        i = next((i for i, l in enumerate(lines) if l.startswith('T')), 0)
        if d.boolean(0.5):
            if i and fmt is None:
                lines.insert(i, ';FILE_FORMAT=%d:%d' % p.fmt)
                fmt = p.fmt
        elif i and zeros is None and not any(l.startswith(('M71', 'M72')) for l in lines):
            lines.insert(i, '%s,%s' % ('INCH' if p.units == 'inch' else 'METRIC', 'LZ' if p.zeros == 'leading' else 'TZ'))
            zeros = p.zeros
    text = '\n'.join(lines) + '\n'
    d.show(text=text, states=repr((fmt, zeros)))
    d.label('format stated' if fmt else 'format not stated')
    d.label('zeros stated' if zeros else 'zeros not stated')
    if (fmt is None or zeros is None) and len(p.holes) >= 2:
        d.nontrivial(text)
    r = detect_excellon_format(text)
    got = (tuple(r['format']), r['zeros'])
    if fmt is not None and got[0] != fmt:
        raise Violation('format %r detected, the file states %r' % (got[0], fmt))
    if zeros is not None and got[1] != zeros:
        raise Violation('zero mode %s detected, the file states %s' % (got[1], zeros))
    if got[1] not in ('leading', 'trailing') or fmt is None and got[0] not in FORMATS:
        raise Violation('detected %r' % (got,))
    if set(r) != set(('format', 'zeros')):
        raise Violation('detected %r' % r)
    # independent of how the file is given, and the same every time
    path = scratch('p15')
    try:
        with open(path, 'w') as h:
            h.write(text)
        for what, r2 in (('from a path', detect_excellon_format(filename=path)), ('again', detect_excellon_format(text)),
                         ('from both', detect_excellon_format(text, filename=path))):
            if r2 != r:
                raise Violation('detected %r %s, %r from the text' % (r2, what, r))
        if score(text, *got) is not None:
            f = excellon.read(path)
            f1 = excellon.loads(text)
            for what, x in (('read', f), ('loaded', f1)):
                if x.zeros != got[1] or tuple(x.format) != got[0]:
                    raise Violation('%s with %r, detected %r' % (what, (x.format, x.zeros), got))
                if p.stated and x.units != p.units:
                    raise Violation('%s in %s, the file states %s' % (what, x.units, p.units))
    finally:
        if os.path.exists(path):
            os.remove(path)
    if fmt is None or zeros is None:
        cands = dict(((a, z), score(text, a, z)) for a in ([fmt] if fmt else FORMATS)
                     for z in ([zeros] if zeros else ('leading', 'trailing')))
        ok = dict((k, v) for k, v in cands.items() if v is not None)
        if ok and got not in ok:
            raise Violation('detected %r, under which the file cannot be read; it can be under %r' % (got, sorted(ok)))
        if ok and all(v != 'empty' for v in ok.values()) and len(set(k[0] for k in ok)) > 1 - 1:
            best = min(ok.values())
            if ok[got] > best * (1 + 1e-6) + 1e-12:
                raise Violation('detected %r with score %r, others have %r' % (got, ok[got], ok))
            d.label('ranked')


UNITS = [
    {'name': 'detect', 'prop': prop_detect, 'n': {'quick': 8000, 'thorough': 200000}},
]
