"""P24: the gerber-render command draws the views of a board."""
import math
import os
import shutil
import sys
from engine import Violation, Discard
from checks.p13 import scratch
from checks.p20 import Board, Picture, DEFAULT, RED, WHITE, SPECTRUM, fitted, judge, plain, settings_of

TECHNIQUE = 'generated board directories and file lists given to the command line entry point, its pictures compared pixel by pixel with independent plane geometry'
NOTE = 'No counterexample among the generated command lines counted in the evidence.'
BUDGET = {'quick': 120, 'thorough': 600}
RULE = ('a case is one command line: a generated directory (Gerber layers of generated classes in mixed units, several drill '
        'files, files of other kinds) or a generated list of files, with generated output name, theme and picture size; '
        'non-trivial = at least two layers, and 10 decided painted pixels in a picture')
ASSUMPTIONS = ['pixels within 0.8 pixels of an edge of any object are not judged',
               'a side of the board that has a mask or silk screen has copper as well, and at most one layer of each class but '
               'internal and drill']

PURPLE, ENIG, BLUE = (0.2, 0.0, 0.334), (0.694, 0.533, 0.514), (0.059, 0.478, 0.651)
THEMES = {
    'default': DEFAULT,
    'OSH Park': dict(DEFAULT, background=plain(PURPLE), top=plain(ENIG), bottom=plain(ENIG, mirror=True),
                     topmask=plain(PURPLE, 0.85, True), bottommask=plain(PURPLE, 0.85, True, True),
                     topsilk=plain(WHITE, 0.8), bottomsilk=plain(WHITE, 0.8, mirror=True)),
    'Blue': dict(DEFAULT, topmask=plain(BLUE, 0.8, True), bottommask=plain(BLUE, 0.8, True, True)),
    'Transparent Multilayer': dict(DEFAULT, background=plain((0.0, 0.0, 0.0)), top=plain(SPECTRUM[0], 0.8),
                                   bottom=plain(SPECTRUM[-1], 0.8), drill=plain((0.3, 0.3, 0.3)),
                                   internal=[plain(c, 0.5) for c in SPECTRUM[1:-1]]),
    'Transparent Copper': dict(DEFAULT, top=plain(RED, 0.5), drill=plain((0.3, 0.3, 0.3))),
}


def run(argv):
    from gerber.__main__ import main
    from gerber.render.theme import THEMES as shipped
    for t in shipped.values():
        if hasattr(t, 'reset'):
            t.reset()        # each command is a process of its own
    old = sys.argv
    sys.argv = ['gerber-render'] + argv
    try:
        main()
    except SystemExit as e:
        raise Violation('the command ended with status %r' % (e.code,))
    finally:
        sys.argv = old


def load(path):
    with open(path, 'rb') as fh:
        return Picture(fh.read())


def gen_layers(d, b):
    layers = []
    if d.boolean(0.6):
        layers.append(b.gerber('outline'))
    for side in ('top', 'bottom'):
        if d.boolean(0.8):
            layers.append(b.gerber(side))
            for c in ('mask', 'silk'):
                if d.boolean(0.4):
                    layers.append(b.gerber(side + c, corners=d.boolean(0.7)))
    many = d.boolean(0.12)
    if many:
        d.label('many internal layers')
    for _ in range(d.integer(5, 12) if many else d.size(0, 2)):
        layers.append(b.gerber('internal'))
    if d.boolean(0.3):
        layers.append(b.gerber(d.choice(['unknown', 'toppaste'])))
    for i in range(d.size(0, 2)):
        layers.append(b.drill(i))
    return layers


def pick(layers, *classes):
    return [l for c in classes for l in layers if l['cls'] == c]


def prop_board(d):
    b = Board(d)
    layers = gen_layers(d, b)
    top = pick(layers, 'top') + pick(layers, 'drill') + pick(layers, 'topmask', 'topsilk')
    bottom = pick(layers, 'bottom') + pick(layers, 'drill') + pick(layers, 'bottommask', 'bottomsilk')
    internal = sorted(pick(layers, 'internal'), key=lambda l: -l['number'])
    copper = pick(layers, 'bottom') + internal + pick(layers, 'top')
    outline = pick(layers, 'outline')
    if outline:
        top, bottom, copper = outline + top, outline + bottom, outline + copper + pick(layers, 'drill')
    base = scratch('p24')
    folder = os.path.join(base, 'board')
    os.makedirs(folder)
    name = d.choice(['default', 'OSH Park', 'Blue'])
    mw, mh = d.integer(30, 80), d.integer(30, 80)
    out = os.path.join(base, d.choice(['out', 'a board', 'x.y']))
    argv = [folder, '-o', out] + d.choice([['--width', str(mw), '--height', str(mh)], ['--height=%d' % mh, '--width=%d' % mw]])
    if name != 'default' or d.boolean():
        argv = ['--theme', name] + argv
    d.show(files=[(l['name'], l['text']) for l in layers], argv=argv)
    try:
        for l in layers:
            with open(os.path.join(folder, l['name']), 'w') as fh:
                fh.write(l['text'])
        if d.boolean(0.3):
            with open(os.path.join(folder, 'readme.txt'), 'w') as fh:
                fh.write('nothing to draw here\n')
        for view, theme in ((top, THEMES[name]), (bottom, THEMES[name]), (copper, THEMES['Transparent Multilayer'])):
            if view:
                fitted(view, mw, mh)       # discards sizes on the edge of rounding
        run(argv)
        done = 0
        for view, want, theme in (('top', top, THEMES[name]), ('bottom', bottom, THEMES[name]),
                                  ('copper', copper, THEMES['Transparent Multilayer'])):
            path = '%s.%s.png' % (out, view)
            if not want:
                continue
            d.label(view)
            if not os.path.exists(path):
                raise Violation('no picture of the %s' % view)
            scale, bounds = fitted(want, mw, mh)
            if min(bounds[0][1] - bounds[0][0], bounds[1][1] - bounds[1][0]) * scale < 6:
                continue
            painted, blank = judge(d, load(path), scale, bounds, settings_of(theme, want), theme['background'][0],
                                   'picture of the ' + view)
            done += painted >= 10
        extra = set(os.listdir(base)) - set(['board'] + [os.path.basename(out) + '.%s.png' % v for v in ('top', 'bottom', 'copper')])
        if extra:
            raise Violation('unexpected files %s' % sorted(extra))
        if done and len(layers) > 1:
            d.nontrivial(repr([l['text'] for l in layers]))
    finally:
        shutil.rmtree(base)


def prop_files(d):
    """files in the order given, at 300 pixels per unit of the first"""
    b = Board(d)
    b.w = d.integer(10, 25) / 100.0
    b.h = d.integer(10, 25) / 100.0
    b.units = 'inch'
    layers = []
    classes = d.shuffled(['top', 'topmask', 'topsilk', 'internal', 'unknown', 'outline'])[:d.integer(1, 3)]
    if d.boolean(0.1):
        classes += ['internal'] * d.integer(4, 11)
        d.label('many internal layers')
    for c in classes:
        layers.append(b.gerber(c, corners=not layers or d.boolean()))
    if d.boolean(0.5):
        layers.insert(d.integer(0, len(layers)), b.drill(0))
    if layers[0]['units'] == 'metric':
        raise Discard()      # a picture 25 times as large
    base = scratch('p24f')
    os.makedirs(base)
    name = d.choice(['default', 'OSH Park', 'Blue', 'Transparent Copper'])
    out = os.path.join(base, 'out')
    try:
        paths = []
        for l in layers:
            paths.append(os.path.join(base, l['name']))
            with open(paths[-1], 'w') as fh:
                fh.write(l['text'])
        argv = paths + ['-o', out, '-t', name]
        d.show(files=[(l['name'], l['text']) for l in layers], argv=argv)
        run(argv)
        theme = THEMES[name]
        bg = DEFAULT['background'][0]       # the theme's own is only used for whole boards
        if not os.path.exists(out + '.png'):
            raise Violation('no picture')
        painted, blank = judge(d, load(out + '.png'), 300.0, layers[0]['bounds'], settings_of(theme, layers), bg, 'picture')
        if painted >= 10 and len(layers) > 1:
            d.nontrivial(repr([l['text'] for l in layers]))
    finally:
        shutil.rmtree(base)


UNITS = [
    {'name': 'board', 'prop': prop_board, 'n': {'quick': 1200, 'thorough': 20000}},
    {'name': 'files', 'prop': prop_files, 'n': {'quick': 800, 'thorough': 15000}},
]
