"""P30: objects compare as equal, and as the same thing moved, exactly when they are."""
import copy
from engine import Violation
from prims import gen, build, step, snap, brief, transform, KINDS, SCHEMA
from gmodel import Gen, to_text, label
from checks.p25 import StmtGen, expected, describe
from gerber import rs274x
from gerber.cam import FileSettings
from gerber.excellon_statements import ExcellonTool
from gerber.layers import InternalLayer

TECHNIQUE = 'generated pairs of objects that agree or differ in a known way, and histories of reads and changes, against the parameters they were given'
NOTE = 'No counterexample among the generated pairs counted in the evidence.'
RULE = ('a case is one or more pairs of objects, tools, settings, statements or layers; non-trivial = a pair of one kind '
        'that differs in exactly one respect, or the same one after reads or changes in between')
ASSUMPTIONS = ['a hole given as None and one of diameter 0 are not compared with each other',
               'shapes compared apart from their position have the same polarity and units, and no coordinate differs by '
               'less than 0.00001']

FOREIGN = [None, 0, 1.5, '', 'Circle', (), [], {}, object()]


def is_equal(a, b, exp, what):
    for x, y, t in ((a, b, ''), (b, a, ' (the other way round)')):
        r = x == y
        if bool(r) != exp:
            raise Violation('%s%s: %s, expected %s' % (what, t, 'equal' if r else 'different', 'equal' if exp else 'different'))
    if (a != b) == exp:
        raise Violation('%s: == and != agree' % what)


def attr_change(d, s, o):
    """-> (new spec, text) or None: one attribute that every object has"""
    n = dict(s)
    name = d.choice(['level_polarity', 'units', 'net_name'])
    if name == 'level_polarity':
        n[name] = v = 'clear' if o.level_polarity == 'dark' else 'dark'
    elif name == 'units':
        n[name] = v = 'inch' if s['units'] == 'metric' else 'metric'
    else:
        if s['kind'] == 'TestRecord':
            return None
        n['net'] = v = 'N%d' % d.below(3)
    setattr(o, name, v)
    return n, '%s=%r' % (name, v)


def prop_equal(d):
    s = gen(d)
    if s['kind'] in ('Drill', 'Slot'):
        s['level_polarity'] = 'dark'
    a, b = build(s), build(s)
    hist = []
    d.show(spec=brief(s), history=hist)
    d.label(s['kind'])
    is_equal(a, a, True, 'an object and itself')
    is_equal(a, b, True, 'two objects built alike')
    for _ in range(d.below(3)):
        w = d.below(4)
        o = d.choice([a, b])
        if w == 0:
            snap(o)
            hist.append('read all of one')
        elif w == 1:
            t, what = step(d, s, o, ['read'])
            hist.append(what)
        elif w == 2:
            if s['units'] in ('inch', 'metric'):
                getattr(o, 'to_' + ('inch' if s['units'] == 'inch' else 'metric'))()      # already is
                hist.append('same units')
        else:
            b = copy.deepcopy(a)
            hist.append('copied')
        is_equal(a, b, True, 'built alike, then %r' % (hist,))
    if hist:
        d.label('equal after reads')
    # one change
    if d.boolean(0.25):
        r = attr_change(d, s, b)
    else:
        r = step(d, s, b, ['set'])
    if r is not None:
        n, what = r
        hist.append(what)
        same = key(n) == key(s)
        is_equal(a, b, same, repr(hist))
        if not same:
            d.nontrivial(repr((brief(s), hist)))
        # the same change again gives equal objects again
        if 'net' not in n and s['kind'] not in ('AMGroup',):
            is_equal(b, build_any(n), True, repr(hist) + ' and built that way')
        if d.boolean(0.3):
            l = [a, b]
            if l.index(b) != (0 if same else 1) or l.count(b) != (2 if same else 1):
                raise Violation('%r: found at %d, %d times' % (hist, l.index(b), l.count(b)))
    # another kind, and what is no object
    other = gen(d)
    if d.boolean(0.5):
        # as alike as possible
        other['units'], other['level_polarity'] = s['units'], s['level_polarity']
        for name, t in SCHEMA[other['kind']]:
            if name in s and dict(SCHEMA[s['kind']]).get(name) == t and t in ('pt', 'len', 'hole', 'ap'):
                other[name] = s[name]
        if 'rotation' in other and 'rotation' in s:
            other['rotation'] = s['rotation']
        if other['kind'] == 'AMGroup' and other['units'] is None:
            other['units'] = 'inch'
    if other['kind'] != s['kind']:
        is_equal(a, build(other), False, 'a %s and a %s' % (s['kind'], other['kind']))
        d.nontrivial(repr((brief(s), brief(other))))
    f = d.choice(FOREIGN)
    is_equal(a, f, False, '%s and %r' % (s['kind'], f))


def build_any(s):
    o = build(s)
    if s.get('level_polarity'):
        o.level_polarity = s['level_polarity']
    return o


def key(v):
    if isinstance(v, dict):
        return tuple((k, key(v[k])) for k in sorted(v))
    if isinstance(v, (list, tuple)):
        return tuple(key(x) for x in v)
    return v


# --- the same apart from where it is ------------------------------------------------------
EQUIV = ['Line', 'Circle', 'Rectangle', 'Polygon', 'Outline', 'AMGroup']


def far(d, v):
    """another value, noticeably"""
    return v + d.choice([0.001, 0.01, 0.5, 1.0, 3.0])


def alter(d, s):
    """-> (spec that differs from s in one respect other than position, text)"""
    n = dict(s)
    k = s['kind']
    if k == 'AMGroup':
        words = [list(w) for w in s['words']]
        i = d.below(len(words))
        opts = [j for j in range(1, len(words[i])) if words[i][j][1]]
        if words[i][0][0] == 4:
            opts = [j for j in opts if 5 <= j < len(words[i]) - 3]       # the ends stay together
        if d.boolean(0.2) and words[i][0][0] not in (7,):
            words[i][1] = (0, False)
            n['words'] = words
            return n, 'exposure of primitive %d' % i
        if d.boolean(0.2) and len(words) > 1:
            del words[i]
            n['words'] = words
            return n, 'without primitive %d' % i
        j = d.choice(opts)
        words[i][j] = (round(far(d, words[i][j][0]), 4), True)
        if words[i][0][0] == 5:
            j = 5
            words[i] = list(s['words'][i])
            words[i][j] = (round(far(d, words[i][j][0]), 4), True)
        if words[i][0][0] == 7:
            words[i] = list(s['words'][i])
            words[i][3] = (round(far(d, words[i][3][0]), 4), True)
            j = 3
        n['words'] = words
        return n, 'word %d of primitive %d' % (j, i)
    if k == 'Outline':
        mem = [dict(m) for m in s['primitives']]
        i = d.below(len(mem))
        if d.boolean(0.2) and len(mem) > 2:
            j = (i + 1) % len(mem)
            if j:
                mem[i]['end'] = mem[j]['end']
                del mem[j]
                n['primitives'] = mem
                return n, 'without a corner'
        j = (i + 1) % len(mem)
        p = mem[i]['end']
        p = (far(d, p[0]), p[1]) if d.boolean() else (p[0], far(d, p[1]))
        mem[i]['end'] = mem[j]['start'] = p
        n['primitives'] = mem
        return n, 'corner %d' % j
    if k == 'Line':
        w = d.below(3)
        if w == 2:
            n['aperture'], t = alter(d, s['aperture'])
            return n, 'aperture: ' + t
        name = ['start', 'end'][w]
        p = s[name]
        n[name] = (far(d, p[0]), p[1]) if d.boolean() else (p[0], far(d, p[1]))
        return n, name
    names = [(m, t) for m, t in SCHEMA[k] if t != 'pt']
    if k != 'Circle':
        names.append(('rotation', 'ang'))
    name, t = d.choice(names)
    v = s.get(name)
    if k == 'Obround' and name == 'rotation':
        name = 'width'
        v = s[name]
    if name == 'sides':
        n[name] = v + d.choice([1, 2, 5])
    elif t == 'ang':
        n[name] = (v or 0) + d.choice([1, 10, 45])
    else:
        n[name] = far(d, v or 0)
    return n, '%s %r' % (name, n[name])


def prop_equivalent(d):
    s = gen(d, d.choice(EQUIV))
    v = d.choice([(0, 0), (0.0, d.mm(100)), (d.mm(100), 0.0), (d.mm(100), d.mm(100)), (d.mm(100), d.mm(100))])
    d.label(s['kind'])
    if d.boolean(0.2):
        d.label('other kind')
        other = gen(d, d.choice(EQUIV), units=s['units'])
        if other['kind'] != s['kind']:
            for name, t in SCHEMA[other['kind']]:
                if name in s and dict(SCHEMA[s['kind']]).get(name) == t and t in ('pt', 'len', 'hole', 'ap'):
                    other[name] = s[name]
            d.show(one=brief(s), other=brief(other))
            for x, y in ((s, other), (other, s)):
                if build(x).equivalent(build(y), (0, 0)):
                    raise Violation('a %s is a moved %s' % (x['kind'], y['kind']))
        return
    how = d.below(4)
    n, t = s, 'moved'
    exp = True
    if how >= 2:
        n, t = alter(d, s)
        exp = False
    n = transform(n, 1, v[0], v[1])
    off = v
    if how == 1:
        w = (far(d, v[0]), v[1]) if d.boolean() else (v[0], -far(d, v[1]))
        exp = abs(w[0] - v[0]) < 1e-9 and abs(w[1] - v[1]) < 1e-9
        off, t = w, 'moved elsewhere'
    a, b = build(s), build(n)
    d.show(one=brief(s), other=brief(n), moved=v, offset=off, how=t)
    if d.boolean(0.3):
        # what was read, or where it came from, does not count
        snap(a)
    if d.boolean(0.3) and how <= 1:
        b = build(s)
        snap(b)
        b.offset(*v)
        t += ' by offset'
    d.label(t.split()[0])
    d.nontrivial(repr((brief(s), t, off)))
    neg = (-off[0], -off[1])
    for x, y, o, side in ((b, a, off, ''), (a, b, neg, ' (the other way round)')):
        r = bool(x.equivalent(y, o))
        if r != exp:
            raise Violation('%s%s: %sthe same %s moved by %r' % (t, side, '' if r else 'not ', s['kind'], o))
    if not exp and how >= 2:
        if b.equivalent(a, v) or a.equivalent(b, (-v[0], -v[1])):
            raise Violation('%s: the same %s' % (t, s['kind']))


# --- tools, settings, layers -----------------------------------------------------------------
TOOL = [('diameter', [0.5, 0.6, 0.05]), ('feed_rate', [None, 50, 60]), ('retract_rate', [None, 50, 60]), ('rpm', [None, 50, 300]),
        ('depth_offset', [None, 0.5, 1.0]), ('max_hit_count', [None, 50, 100]),
        ('plated', [ExcellonTool.PLATED_UNKNOWN, ExcellonTool.PLATED_YES, ExcellonTool.PLATED_NO, ExcellonTool.PLATED_OPTIONAL])]
SETTINGS = [('notation', ['absolute', 'incremental']), ('units', ['inch', 'metric']), ('zeros', ['leading', 'trailing']),
            ('format', [(2, 4), (2, 5), (3, 4), (4, 2)]), ('angle_units', ['degrees', 'radians'])]


def pick(d, table):
    return dict((k, d.choice(v)) for k, v in table)


def vary(d, table, x):
    """-> (copy with one or no key changed, key or None)"""
    y = dict(x)
    if d.boolean(0.3):
        return y, None
    k, vs = d.choice(table)
    y[k] = d.choice([v for v in vs if v != x[k]])
    return y, k


def prop_tools(d):
    st = pick(d, SETTINGS)
    x = pick(d, TOOL)
    y, k = vary(d, TOOL, x)
    n, m = d.integer(1, 5), d.integer(1, 5)
    su, sv = FileSettings(**st), FileSettings(**st)
    if d.boolean(0.2):
        sv.units = 'inch' if st['units'] == 'metric' else 'metric'
        k = 'units'
    a, b = ExcellonTool(su, number=n, **x), ExcellonTool(sv, number=m, **y)
    for t in (a, b):
        if d.boolean(0.3):
            t._hit()
    d.show(one=(n, x, st['units']), other=(m, y, sv.units), differ=k)
    d.nontrivial(repr((n, m, k, sorted(x.items()))))
    d.label('tool: %s' % k)
    for p, q in ((a, b), (b, a)):
        r = p.equivalent(q)
        if bool(r) != (k is None):
            raise Violation('tools that differ in %s are %sthe same' % (k, '' if r else 'not '))
    if a.equivalent(d.choice(FOREIGN)):
        raise Violation('a tool is the same as something else')
    # settings
    z, k = vary(d, SETTINGS, st)
    e, f = FileSettings(**st), FileSettings(**z)
    if d.boolean(0.3):
        # the other way to set the zeros
        f = FileSettings()
        for name, v in z.items():
            f[name] = v
        if d.boolean():
            f.zero_suppression = 'leading' if z['zeros'] == 'trailing' else 'trailing'
    is_equal(e, f, k is None, 'settings that differ in %s' % k)
    if k is None and d.boolean(0.5):
        is_equal(e, copy.deepcopy(f), True, 'settings and a copy')
    is_equal(e, d.choice(FOREIGN), False, 'settings and something else')


def prop_layers(d):
    orders = [d.choice([d.integer(1, 3), d.integer(1, 30)]) for _ in range(d.integer(2, 6))]
    ls = [InternalLayer('f%d' % i, None, order=o) for i, o in enumerate(orders)]
    d.show(orders=orders)
    if len(set(orders)) < len(orders):
        d.nontrivial(tuple(orders))
    for i, a in enumerate(ls):
        for j, b in enumerate(ls):
            x, y = orders[i], orders[j]
            got = (a == b, a != b, a < b, a <= b, a > b, a >= b)
            exp = (x == y, x != y, x < y, x <= y, x > y, x >= y)
            if tuple(map(bool, got)) != exp:
                raise Violation('layers %d and %d compare as (==, !=, <, <=, >, >=) %r' % (x, y, got))
    got = [int(l.filename[1:]) for l in sorted(ls)]
    if got != sorted(range(len(ls)), key=lambda i: orders[i]):
        raise Violation('sorted as %r' % (got,))


# --- what is read ------------------------------------------------------------------------
def prop_read(d):
    p = StmtGen(d, notation='any', single_quadrant=False, max_cmds=d.choice([4, 10])).run()
    text = to_text(p)
    d.show(text=text)
    label(d, p)
    exp = expected(p)
    d.nontrivial(text)
    f, g = rs274x.loads(text), rs274x.loads(text)
    if d.boolean(0.5):
        for q in f.primitives:
            snap(q)
    for i, (a, b) in enumerate(zip(f.primitives, g.primitives)):
        is_equal(a, b, True, 'object %d of two readings' % i)
    for i, (a, b) in enumerate(zip(f.statements, g.statements)):
        is_equal(a, b, True, 'statement %d (%s) of two readings' % (i, describe(a)[0]))
    if list(f.primitives) != list(g.primitives) or list(f.statements) != list(g.statements):
        raise Violation('two readings are different')
    is_equal(f.settings, g.settings, True, 'settings of two readings')
    seen = [describe(s) for s in f.statements]
    if len(seen) == len(exp):
        k = d.below(len(seen))
        for i in range(len(seen)):
            if seen[i] != seen[k]:
                is_equal(f.statements[i], f.statements[k], False, 'statements %d and %d, %r and %r' % (i, k, seen[i], seen[k]))
        is_equal(f.statements[k], d.choice(FOREIGN), False, 'a statement and something else')
    if f.primitives:
        k = d.below(len(f.primitives))
        v = (d.signed(1000) / 100.0 or 1.0, d.signed(1000) / 100.0)
        g.primitives[k].offset(*v)
        is_equal(f.primitives[k], g.primitives[k], False, 'object %d and one moved by %r' % (k, v))


UNITS = [
    {'name': 'equal', 'prop': prop_equal, 'n': {'quick': 30000, 'thorough': 1000000}},
    {'name': 'equivalent', 'prop': prop_equivalent, 'n': {'quick': 30000, 'thorough': 1000000}},
    {'name': 'tools', 'prop': prop_tools, 'n': {'quick': 20000, 'thorough': 300000}},
    {'name': 'layers', 'prop': prop_layers, 'n': {'quick': 3000, 'thorough': 100000}},
    {'name': 'read', 'prop': prop_read, 'n': {'quick': 3000, 'thorough': 200000}},
]
