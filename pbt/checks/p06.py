"""P06: layout, comments and unsupported commands do not change the image."""
import os
import re
from engine import Violation
import gmodel
from gmodel import Gen, to_text, describe, check_same, label, cmd_text
import gerber
from gerber import rs274x

TECHNIQUE = "metamorphic rewriting of generated RS-274X programs (layout, comments, unsupported commands), image compared with the original's"
NOTE = 'No counterexample among the generated cases counted in the evidence.'
RULE = ('a case is one generated program plus a random rewrite of its text (line breaks, line ends, '
        'command grouping, function-code spelling, explicit repetition of modal words, inserted comments '
        'and unsupported commands, include files, way of reading); non-trivial = at least 2 expected '
        'objects and a text different from the plain layout')
ASSUMPTIONS = ['attribute and unsupported commands stand in a block of their own',
               'line breaks are inserted between words, never inside one']

NOISE = ['%TF.FileFunction,Copper,L1,Top*%', '%TA.AperFunction,Conductor*%', '%TO.N,GND*%', '%TD*%', '%INboard*%',
         '%LNlayer*%', '%IPPOS*%', '%IR0*%', '%ASAXBY*%', '%MIA0B0*%', '%OFA0B0*%', '%SFA1.0B1.0*%', '%OFA0*%', '%MIB0*%',
         'G04 note*', 'G04 X100Y100D03*', 'G4 short*', '*', 'M00*', 'M01*', 'G99*', '%TF.Part,Single*%', '%INa b/c*%', 'G04*']


def respell(d, t):
    """G01 <-> G1, D02 <-> D2"""
    def sub(m):
        k, n = m.group(1), m.group(2)
        return k + (n.lstrip('0') if d.boolean() else n.lstrip('0').rjust(2, '0'))
    return re.sub(r'([GD])(0?[123])(?!\d)', sub, t)


def respell_number(d, n):
    k = d.below(4)
    if '.' in n and k == 1:
        return n + '0' * d.integer(1, 3)
    if n.startswith('0.') and k == 2:
        return n[1:]
    if '.' not in n and k == 3:
        return n + '.' + '0' * d.below(3)
    return n


def layout(d, p, feats):
    """-> list of pieces (text without line ends, is_block)"""
    out = []
    explicit = d.boolean(0.5)
    spell = d.boolean(0.5)
    noise = d.boolean(0.7)
    merge = d.boolean(0.5)
    wrap = d.boolean(0.4)
    seen_fs = False
    cmds = list(p.cmds) + [('word', d.choice(['M02', 'M2']))]
    for c in cmds:
        t = cmd_text(c, p)
        if c[0] == 'coord':
            if explicit and d.boolean(0.7):
                o = dict(c[1])
                x, y, op = o['full']
                o['x'], o['y'], o['d'] = x, y, op
                if d.boolean(0.3) and ('i' in o or 'j' in o):
                    o['i'], o['j'] = o.get('i', 0), o.get('j', 0)
                t = cmd_text(('coord', o), p)
                feats['explicit'] = 1
            if spell:
                t = respell(d, t)
                feats['respelled'] = 1
            if wrap and d.boolean(0.3):
                words = re.findall(r'[A-Z][+-]?\d+|\*', t)
                k = d.integer(1, max(1, len(words) - 1))
                t = ''.join(words[:k]) + '\n' + ''.join(words[k:])
                feats['wrapped'] = 1
        elif c[0] == 'word' and spell:
            t = respell(d, t)
        elif c[0] == 'param':
            if c[1].startswith('ADD') and ',' in t and d.boolean(0.3):
                head, nums = t[1:-2].split(',')
                nums = [respell_number(d, n) for n in nums.split('X')]
                t = '%' + head + ',' + 'X'.join(nums) + '*%'
                feats['respelled numbers'] = 1
            if c[1].startswith('AM') and d.boolean():
                t = t.replace('*', '*\n')
                if d.boolean():
                    t = t.replace('*\n%', '*%')
                feats['macro lines'] = 1
            elif d.boolean(0.1):
                fs = c[1].startswith('FS')      # '%FS' is what the generic reader looks for
                t = t[0] + ('' if fs else '\n' * d.below(2)) + t[1:-1] + '\n' + t[-1]
                feats['block lines'] = 1
            if (merge and out and out[-1][1] == 'param' and d.boolean() and not t.startswith('%AM') and
                    not t.startswith('%FS') and '%AM' not in out[-1][0] and '\n' not in t and '\n' not in out[-1][0]):
                # two commands in one extended block
                prev = out.pop()
                t = prev[0][:-1] + t[1:]
                feats['merged block'] = 1
        out.append((t, 'param' if c[0] == 'param' else c[0]))
        if c[0] == 'param' and c[1].startswith('FS'):
            seen_fs = True
        if noise and c is not cmds[-1] and d.boolean(0.25):
            for _ in range(d.integer(1, 2)):
                n = d.choice(NOISE)
                if n == '*' and d.boolean(0.3):
                    n = 'G90*' if p.notation == 'absolute' else 'G91*'      # says again what holds anyway
                out.append((n, 'param' if n[:3] in ('%IN', '%LN', '%IP', '%OF', '%SF', '%MI', '%AS', '%IR') else 'noise'))
                feats['noise'] = 1
    return out


def assemble(d, pieces, feats):
    eol = d.choice(['\n', '\r\n', '\r', 'mix'])
    feats['eol ' + repr(eol)] = 1
    joinp = d.choice([0.0, 0.3, 0.8, 1.0])

    def e():
        return d.choice(['\n', '\r\n', '\r']) if eol == 'mix' else eol
    s = ''
    for i, (t, kind) in enumerate(pieces):
        s += ''.join(e() if ch == '\n' else ch for ch in t)
        if not d.boolean(joinp):
            s += ('  ' if d.boolean(0.05) else '') + e()
            if d.boolean(0.05):
                s += e()
        else:
            feats['joined'] = 1
    if d.boolean(0.9) and not s.endswith(('\n', '\r')):
        s += e()
    return s


def prop_layout(d):
    p = Gen(d, max_cmds=15, notation='any').run()
    plain = to_text(p)
    feats = {}
    text = assemble(d, layout(d, p, feats), feats)
    d.show(plain=plain, text=text)
    for k in sorted(feats):
        d.label(k)
    if len(p.objects) >= 2 and text != plain:
        d.nontrivial(text)
    how = d.below(5)
    d.label('read via %d' % how)
    if how in (0, 1):
        f = (rs274x.loads if how == 0 else gerber.loads)(text)
    else:
        path = os.path.join(os.environ['PBT_SCRATCH'], 'in.gbr')
        with open(path, 'w', newline='') as fh:
            fh.write(text)
        if how == 4:
            f = gerber.loads(text, path)
        else:
            f = (rs274x.read if how == 2 else gerber.read)(path)
        if f.filename != path:
            raise Violation('file name %r not kept' % (f.filename,))
    if type(f).__name__ != 'GerberFile':
        raise Violation('read as %r' % type(f))
    check_same([describe(q) for q in f.primitives], p.objects, 'image')
    if f.units != p.units or tuple(f.format) != p.fmt:
        raise Violation('settings %s %s' % (f.units, f.format))


def prop_include(d):
    """moving runs of commands to include files, nested or not, changes nothing"""
    p = Gen(d, max_cmds=d.choice([12, 12, 40]), notation='any').run()
    d.show(plain=to_text(p))
    lines = [cmd_text(c, p) for c in p.cmds]
    base = os.environ['PBT_SCRATCH']
    files = {}
    most = d.choice([1, 2, 5, 30])          # commands in a run
    share = d.choice([0.1, 0.5, 1.0])       # runs that are moved

    def spread(lines, depth):
        out = []
        i = 0
        while i < len(lines):
            run = lines[i:i + d.integer(1, most)]
            i += len(run)
            if d.boolean(share) and len(files) < 60:
                if d.boolean(0.05):
                    i -= len(run)           # an empty file changes nothing either
                    run = []
                nested = depth < 9 and d.boolean(0.3)
                same = [n for n in sorted(files) if files[n] == run]
                if same and d.boolean(0.7):
                    out.append('%IF' + same[0] + '*%')
                    again[0] += 1
                    continue
                # (the names are relative to the main file)
                name = ('' if nested else d.choice(['', '', 'sub/', 'a b/c/'])) + 'inc%d.gbr' % len(files)
                files[name] = None
                files[name] = spread(run, depth + 1) if nested else run
                deepest[0] = max(deepest[0], depth)
                run = ['%IF' + name + '*%']
            out += run
        return out

    deepest, again = [0], [0]
    body = spread(lines, 1)
    if again[0]:
        d.label('file included again', again[0])
    for name, content in files.items():
        if not os.path.isdir(os.path.dirname(os.path.join(base, name))):
            os.makedirs(os.path.dirname(os.path.join(base, name)))
        with open(os.path.join(base, name), 'w') as fh:
            fh.write('\n'.join(content) + '\n')
    main = os.path.join(base, 'main.gbr')
    with open(main, 'w') as fh:
        fh.write('\n'.join(body + ['M02*']) + '\n')
    d.show(plain=to_text(p), main=body, included=files)
    if deepest[0] > 1:
        d.label('nested include files')
    if len(files) > 10:
        d.label('more than ten include files')
    if len(p.objects) >= 2 and any(files.values()):
        d.nontrivial((to_text(p), sorted(files.items())))
    f = rs274x.read(main)
    check_same([describe(q) for q in f.primitives], p.objects, 'image')


UNITS = [
    {'name': 'layout', 'prop': prop_layout, 'n': {'quick': 30000, 'thorough': 500000}, 'weight': 4},
    {'name': 'include', 'prop': prop_include, 'n': {'quick': 4000, 'thorough': 50000}},
]
