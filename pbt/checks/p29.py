"""P29: tools and settings supplied apart from a drill program's own definitions apply as supplied."""
from fractions import Fraction
from engine import Violation
from dmodel import DTool, near, holes_of, show_hole
from checks.p12 import check_tools, check_holes
from gerber import excellon, excellon_tool, excellon_settings
from gerber.cam import FileSettings
from gerber.excellon_statements import ExcellonTool

TECHNIQUE = 'generated tool lists, reports, settings files and drill programs against a table of what each says'
NOTE = 'No counterexample among the generated sources of tools and settings counted in the evidence.'
RULE = ('a case is one tool list, drill report, settings file, or a drill program with tools from several of these sources; '
        'non-trivial = at least 2 tools listed, a settings file, or a program using tools from at least 2 kinds of source')
ASSUMPTIONS = ['tool numbers in lists and Holesize comments have at most two digits',
               'supplied tools are in the units of the program, and lists are read with settings in those units',
               'a comment that describes a tool of the program follows its definition',
               'rows of a drill report have six columns, other lines of it do not']


class Tools(object):
    def __init__(self, tools):
        self.tools = tools


def sig(f):
    return sorted((n, t.number, t.diameter, t.plated, t.feed_rate, t.rpm, t.hit_count, str(t.settings))
                  for n, t in f.items())


def prop_tooldef(d):
    """tool definition files (Allegro) and tool reports (PADS)"""
    units = d.choice(['inch', 'metric'])
    settings = FileSettings(units=units)
    want = {}
    lines = []
    report = d.boolean(0.3)
    if report:
        if d.boolean(0.3):
            lines.append('1 2 x 3 4 5')        # nothing counts before the header
        lines += ['Some report', '', 'Tool Size Plated Feed Speed Qty',
                  '====  ====   ====  ====  =====   ===']
    else:
        lines.append(d.choice(['', 'TOOL DEFINITIONS', '; SIZE P/N TOOL']))
    numbers = [d.choice([d.integer(1, 12), d.integer(1, 99)]) for _ in range(d.integer(1, 6))]
    for n in numbers if d.boolean(0.3) else sorted(set(numbers)):   # the last line of a tool counts
        t = DTool(n)
        if report:
            size = Fraction(d.integer(1, 9999), 1000)
            mark = d.choice(['x', '-', '?'])
            t.plated = {'x': 'plated', '-': 'nonplated', '?': None}[mark]
            t.diameter, t.feed_rate, t.rpm = size, d.integer(0, 300), d.integer(0, 99)
            lines.append('%3d  %.3f  %s  %d  %d  %d' % (n, float(size), mark, t.feed_rate, t.rpm, d.integer(0, 99)))
        else:
            style = d.integer(0, 4)
            mm = style >= 3
            size = Fraction(d.integer(1, 9999), 1000 if mm else 100)
            if style == 0:
                mark = d.choice(['P', 'N'])
                t.plated = {'P': 'plated', 'N': 'nonplated'}[mark]
                lines.append('%.2f   %s   T%02d   0.000   0.000' % (float(size), mark, n))
            else:
                mark = d.choice(['PLATED', 'NON_PLATED', 'OPTIONAL'])
                t.plated = {'PLATED': 'plated', 'NON_PLATED': 'nonplated', 'OPTIONAL': 'optional'}[mark]
                lines.append('%sHolesize %d. = %.3f Tolerance = +%.1f/-%.1f %s %s Quantity = %d' % (
                    'T%02d ' % n if style in (2, 4) else '', n, float(size), d.integer(0, 9) / 10., d.integer(0, 9) / 10.,
                    mark, 'MM' if mm else 'MILS', d.integer(0, 99)))
            inch = size / Fraction(254, 10) if mm else size / 1000
            t.diameter = inch if units == 'inch' else inch * Fraction(254, 10)
        want[n] = t
        if d.boolean(0.2):
            lines.append(d.choice(['', 'something else', '-----', 'T01', 'Holesize', '0.01 P T1', 'Tools: 3 of 4 PLATED']
                                  if not report else ['', '=====', 'a b c', '==== ==== ==== ==== ===== ===']))
        if d.boolean(0.2):
            lines[-1] = d.choice([' ', '\t', '    ']) + lines[-1] + d.choice(['', ' '])
    if report:
        lines.append('=' * 30)
    text = d.choice(['\n', '\r\n']).join(lines) + '\n'
    d.show(text=text, units=units, report=report)
    d.label('report' if report else 'definition')
    if len(want) >= 2:
        d.nontrivial(text)
    before = str(settings)
    got = (excellon_tool.loads_rep if report else excellon_tool.loads)(text, settings)
    check_tools(Tools(got), want)
    if str(settings) != before:
        raise Violation('reading a list changed the settings')


def settings_text(d, fmt, notation, units):
    lines = ['INTEGER-PLACES   %d' % fmt[0], 'DECIMAL-PLACES   %d' % fmt[1],
             'COORDINATES      %s' % ('ABSOLUTE' if notation == 'absolute' else 'INCREMENTAL'),
             'OUTPUT-UNITS     %s' % ('ENGLISH' if units == 'inch' else 'METRIC')]
    for _ in range(d.integer(0, 4)):
        lines.append(d.choice(['DEVICE-TYPE      EXCELLON', 'TOOL-ORDER       INCREASING', 'REPEAT-CODES     YES', '',
                               'HEADER none', 'SUPPRESS-LEAD-ZEROES  YES', 'a b c', 'DECIMAL-PLACES', 'UNITS METRIC',
                               'OUTPUT-UNITS not stated', 'NOT-INTEGER-PLACES 9']))
    lines = [d.choice(['', '', ' ', '\t']) + (l.replace('   ', d.choice([' ', '\t'])) if d.boolean(0.2) else l)
             for l in d.shuffled(lines)]
    return d.choice(['\n', '\r\n']).join(lines) + '\n'


def prop_settings(d):
    fmt = (d.integer(1, 6), d.integer(1, 7))
    notation = d.choice(['absolute', 'incremental'])
    units = d.choice(['inch', 'metric'])
    text = settings_text(d, fmt, notation, units)
    d.show(text=text)
    d.nontrivial(text)
    s = excellon_settings.loads(text)
    if tuple(s.format) != fmt or s.notation != notation or s.units != units:
        raise Violation('read %s' % s)


def prop_sources(d):
    """a program whose tools and settings come from several sources"""
    units = d.choice(['inch', 'metric'])
    fmt = d.choice([(2, 4), (3, 3), (2, 5), (4, 2), (1, 5), (4, 4), (2, 3), (5, 3)])
    notation = d.choice(['absolute', 'absolute', 'incremental'])
    inch = units == 'inch'
    zeros = 'leading'          # a settings file says nothing about zeros
    how = d.choice(['file', 'object'])
    if how == 'file':
        stext = settings_text(d, fmt, notation, units)
        settings = excellon_settings.loads(stext)
        zeros = settings.zeros
    else:
        zeros = d.choice(['leading', 'trailing'])
        stext = None
        settings = FileSettings(notation=notation, units=units, format=fmt, zeros=zeros)
    # supplied tools
    kinds = {}
    ext, etext = {}, None
    src = d.choice(['list', 'report', 'objects', 'none'])
    supplied = {}
    numbers = sorted(set(d.integer(1, 7) for _ in range(d.integer(1, 4)))) if src != 'none' else []
    lines = []
    for n in numbers:
        t = DTool(n)
        if src == 'list':
            mils = Fraction(d.integer(1, 20000), 100)
            t.diameter = mils / 1000 if inch else mils * Fraction(254, 10000)
            t.plated = d.choice(['plated', 'nonplated'])
            lines.append('%.2f   %s   T%02d   0.000   0.000' % (float(mils), 'P' if t.plated == 'plated' else 'N', n))
        elif src == 'report':
            t.diameter = Fraction(d.integer(1, 999), 1000)
            t.plated = d.choice(['plated', 'nonplated', None])
            t.feed_rate, t.rpm = d.integer(1, 300), d.integer(1, 99)
            lines.append('%3d  %.3f  %s  %d  %d  %d' % (n, float(t.diameter), {'plated': 'x', 'nonplated': '-', None: '?'}[t.plated],
                                                        t.feed_rate, t.rpm, d.integer(0, 99)))
        else:
            t.diameter = Fraction(d.integer(1, 2000), 10000)
            t.plated = d.choice([None, 'plated', 'nonplated', 'optional'])
        supplied[n] = t
    if src == 'list':
        etext = '\n'.join(lines) + '\n'
        ext = excellon_tool.loads(etext, settings)
    elif src == 'report':
        etext = '\n'.join(['====  ====   ====  ====  =====   ==='] + lines) + '\n'
        ext = excellon_tool.loads_rep(etext, settings)
    else:
        ext = dict((n, ExcellonTool(d.choice([None, settings]), number=n, diameter=float(t.diameter), plated=t.plated))
                   for n, t in supplied.items())
    # the program
    out = []
    tools, comments = {}, {}
    plated = None
    style = d.choice(['M48', 'M48', '%', 'comment'])
    if style == 'M48':
        out.append('M48')
    elif style == '%':
        out.append('%')
    else:
        out.append(';HEADER:')
    if d.boolean(0.3):
        out.append('M72' if inch else 'M71')
    body_notation = notation
    if d.boolean(0.2):
        body_notation = d.choice(['absolute', 'incremental'])
        out.append('ICI,ON' if body_notation == 'incremental' else d.choice(['ICI,OFF', 'G90']))
    if d.boolean(0.15):
        zeros = d.choice(['leading', 'trailing'])
        out.append(('INCH' if inch else 'METRIC') + (',LZ' if zeros == 'leading' else ',TZ'))
    if d.boolean(0.1):
        fmt = d.choice([(2, 4), (3, 3), (2, 5)])
        out.append(';FILE_FORMAT=%d:%d' % fmt)
    for n in range(1, 7):
        kind = d.choice(['program', 'comment', 'both', '', ''])
        if d.boolean(0.15):
            plated = d.choice(['plated', 'nonplated'])
            out.append(d.choice([';TYPE=%s', ';  TYPE=%s', '; #@! TYPE=%s']) % ('PLATED' if plated == 'plated' else 'NON_PLATED'))
        if kind in ('program', 'both'):
            t = DTool(n)
            t.diameter = Fraction(d.integer(1, 2000), 10000)
            t.plated = plated
            out.append('T%02dC%.4f' % (n, float(t.diameter)))
            if d.boolean(0.3):
                t.feed_rate = d.integer(1, 300)
                out[-1] += 'F%d.0' % t.feed_rate
            if t.plated is None and n in supplied:
                t.plated = supplied[n].plated
            tools[n] = t
            kinds[n] = 'program'
        if kind in ('comment', 'both'):
            c = DTool(n)
            mm = d.boolean(0.4)
            size = Fraction(d.integer(1, 9999), 1000 if mm else 100)
            i = size / Fraction(254, 10) if mm else size / 1000
            c.diameter = i if inch else i * Fraction(254, 10)
            mark = d.choice(['PLATED', 'NON_PLATED', 'OPTIONAL'])
            c.plated = {'PLATED': 'plated', 'NON_PLATED': 'nonplated', 'OPTIONAL': 'optional'}[mark]
            out.append(';%s Holesize %d. = %.3f Tolerance = +%.1f/-%.1f %s %s Quantity = %d' % (
                'T%02d' % n if d.boolean(0.5) else ' ', n, float(size), d.integer(0, 30) / 10., d.integer(0, 30) / 10., mark,
                'MM' if mm else 'MILS', d.integer(0, 99)))
            if n in tools:
                if tools[n].plated is None:
                    tools[n].plated = c.plated
            else:
                comments[n] = c
                kinds[n] = 'comment'
    out.append('%')
    for n in supplied:
        kinds.setdefault(n, 'supplied')
    holes, used, pos = [], set(), [0, 0]
    top = 10 ** (fmt[0] + fmt[1]) - 1

    def use(n):
        if n in tools:
            pass
        elif n in comments:
            tools[n] = comments[n]
        elif n in supplied:
            tools[n] = supplied[n]
        else:
            t = DTool(n)
            t.diameter = Fraction(16 + 8 * n, 1000) * (1 if inch else Fraction(254, 10))
            tools[n] = t
            kinds[n] = 'default'
        used.add(kinds[n])
        return n
    active = None
    for _ in range(d.integer(1, 8)):
        if active is None and (1 in kinds) and d.boolean(0.2):
            active = use(1)        # the first tool is taken when none is selected
        elif active is not None and active + 1 in kinds and d.boolean(0.15):
            out.append('M00')
            active = use(active + 1)
        elif active is None or d.boolean(0.7):
            active = d.integer(1, 7)
            out.append(d.choice(['T%02d', 'T%d']) % active)
            use(active)
        text = ''
        for i, c in enumerate('XY'):
            v = d.signed(min(top, 99999))
            if body_notation == 'incremental':
                if abs(pos[i] + v) > top:
                    v = -v
                if abs(pos[i] + v) > top:
                    v = 0
                pos[i] += v
            else:
                pos[i] = v
            digits = '%0*d' % (fmt[0] + fmt[1], abs(v))
            digits = (digits.rstrip('0') if zeros == 'leading' else digits.lstrip('0')) or '0'
            text += c + ('-' if v < 0 else '') + digits
        out.append(text)
        holes.append(('hit', active, tuple(Fraction(x, 10 ** fmt[1]) for x in pos)))
    out.append('M30')
    text = '\n'.join(out) + '\n'
    d.show(program=text, settings=stext or str(settings), tools=etext or repr(supplied and sorted(supplied)), source=src)
    for k in used:
        d.label(k + ' tool')
    if len(used) >= 2:
        d.nontrivial(text)
    before = sig(ext), str(settings)
    for again in range(2):         # what is supplied serves any number of files
        f = excellon.loads(text, settings=settings, tools=ext)
        if f.units != units or tuple(f.settings.format) != fmt or f.settings.zeros != zeros or f.settings.notation != body_notation:
            raise Violation('settings %s, expected %s %s %s %s' % (f.settings, units, fmt, zeros, body_notation))
        check_holes(f, holes)
        check_tools(f, tools)
        if (sig(ext), str(settings)) != before:
            raise Violation('reading a program changed the tools or settings supplied')
        if again == 0 and d.boolean(0.5):
            (f.to_metric if inch else f.to_inch)()
            if f.hits and d.boolean(0.5):
                f.update_tool(f.hits[0].tool.number, diameter=1.0)
            if (sig(ext), str(settings)) != before:
                raise Violation('changing the file read changed the tools or settings supplied')


UNITS = [
    {'name': 'tooldef', 'prop': prop_tooldef, 'n': {'quick': 8000, 'thorough': 200000}},
    {'name': 'settings', 'prop': prop_settings, 'n': {'quick': 2000, 'thorough': 20000}},
    {'name': 'sources', 'prop': prop_sources, 'n': {'quick': 12000, 'thorough': 300000}},
]
