"""P04: aperture macro expressions against exact rational arithmetic."""
from fractions import Fraction
from engine import Violation, Discard
from gerber import rs274x
from gerber.am_read import read_macro
from gerber.am_eval import eval_macro

TECHNIQUE = 'generated macro expressions and bodies, against an independent evaluator working in exact arithmetic'
NOTE = 'No counterexample among the generated cases counted in the evidence.'
RULE = ('a case is a macro body of assignments, primitives and comments whose modifiers are generated '
        'expression trees (numbers, $n, + - x X /, signs, parentheses), evaluated for one or more parameter '
        'lists; non-trivial = at least two operators or one assignment that a later expression uses')
ASSUMPTIONS = ['division by zero and magnitudes above 1e6 are not generated',
               'a sign is written at the start of an expression, after "(" or after an operator']


# --- expression trees ---------------------------------------------------------
def gen_num(d):
    k = d.below(5)
    if k == 0:
        return Fraction(d.integer(0, 9)), None
    if k == 1:
        v = d.integer(0, 99999)
        return Fraction(v, 1000), None
    if k == 2:
        v = d.integer(0, 999)
        return Fraction(v, 1000), '.%03d' % v
    if k == 3:
        v = d.integer(0, 50)
        return Fraction(v), '%02d' % v
    v = d.integer(0, 500)
    return Fraction(v, 100), '0%d.%02d' % (v // 100, v % 100)


def plain(v):
    """decimal text of a non-negative fraction with a short decimal expansion"""
    s = '%.6f' % float(v)
    s = s.rstrip('0').rstrip('.')
    return s or '0'


def gen_tree(d, depth, nvars):
    k = d.below(8) if depth > 0 else d.below(3)
    if k in (0, 1):
        v, t = gen_num(d)
        return ('num', v, t or plain(v))
    if k == 2:
        return ('var', d.integer(1, nvars))
    if k == 3:
        return ('neg', gen_tree(d, depth - 1, nvars))
    if k == 4:
        return ('pos', gen_tree(d, depth - 1, nvars)) if d.boolean(0.2) else ('par', gen_tree(d, depth - 1, nvars))
    op = d.choice('+-x/')
    return (op, gen_tree(d, depth - 1, nvars), gen_tree(d, depth - 1, nvars))


PREC = {'+': 1, '-': 1, 'x': 2, '/': 2, 'neg': 3, 'pos': 3, 'num': 4, 'var': 4, 'par': 4}


def render(t, d):
    k = t[0]
    if k == 'num':
        return t[2]
    if k == 'var':
        return '$%d' % t[1]
    if k == 'par':
        return '(' + render(t[1], d) + ')'
    if k in ('neg', 'pos'):
        s = render(t[1], d)
        # a sign binds to the single operand that follows
        if PREC[t[1][0]] < 4:
            s = '(' + s + ')'
        return ('-' if k == 'neg' else '+') + s
    l, r = render(t[1], d), render(t[2], d)
    if PREC[t[1][0]] < PREC[k]:
        l = '(' + l + ')'
    # subtraction and division are left-associative
    if PREC[t[2][0]] < PREC[k] or (PREC[t[2][0]] == PREC[k] and k in '-/'):
        r = '(' + r + ')'
    elif PREC[t[2][0]] == PREC[k]:
        r = '(' + r + ')' if d.boolean() else r
    op = k if k != 'x' else ('X' if d.boolean(0.3) else 'x')
    return l + op + r


class BadValue(Exception):
    pass


def value(t, env):
    """(exact value, bound on the magnitude of every intermediate)"""
    k = t[0]
    if k == 'num':
        return t[1], abs(t[1])
    if k == 'var':
        v = env.get(t[1], Fraction(0))
        return v, abs(v)
    if k in ('par', 'pos'):
        return value(t[1], env)
    if k == 'neg':
        v, m = value(t[1], env)
        return -v, m
    a, ma = value(t[1], env)
    b, mb = value(t[2], env)
    if k == '+':
        r, m = a + b, ma + mb
    elif k == '-':
        r, m = a - b, ma + mb
    elif k == 'x':
        r, m = a * b, max(ma * mb, ma, mb)
    else:
        if abs(b) < Fraction(1, 100) or mb > 1000 * abs(b):
            raise BadValue()
        r, m = a / b, max(ma / abs(b), ma, mb)
    if m > 10 ** 6:
        raise BadValue()
    return r, m


def ops(t):
    return (1 if t[0] in '+-x/' or t[0] in ('neg', 'pos') else 0) + sum(ops(c) for c in t[1:] if isinstance(c, tuple))


def uses(t, n):
    return t == ('var', n) or any(uses(c, n) for c in t[1:] if isinstance(c, tuple))


def gen_expr(d, envs, nvars, depth):
    """an expression defined under every environment; falls back to a number"""
    t = gen_tree(d, depth, nvars)
    try:
        for e in envs:
            value(t, e)
    except BadValue:
        t = ('num', Fraction(1), '1')
    return t


COMMENTS = ['0 a comment', '0 $1=5', '0 w=5, h=3', '0', '0 1,1,2,0,0', '0 rect (a x b)', '0,c', '0 -']


def gen_params(d, n):
    out = []
    for _ in range(n):
        if d.boolean(0.2):
            out.append(Fraction(d.signed(5)))
        else:
            out.append(Fraction(d.signed(20000), 1000))
    return out


def near(got, exp, mag):
    return abs(got - float(exp)) <= 1e-9 * max(1.0, float(mag))


# --- unit: the compiler and the evaluator ----------------------------------------
def prop_expr(d):
    nvars = d.choice([d.integer(1, 6), d.integer(1, 6), d.integer(9, 25)])
    params = [gen_params(d, d.integer(0, nvars)) for _ in range(d.integer(1, 3))]
    envs = [dict((i + 1, v) for i, v in enumerate(p)) for p in params]
    blocks, prims = [], []      # prims[e] = expected primitives of evaluation e
    exp = [[] for _ in envs]
    nops, assigned, used = 0, set(), False
    for _ in range(d.size(1, 6)):
        k = d.below(6)
        if k == 0:
            blocks.append(d.choice(COMMENTS))
        elif k in (1, 2):
            t = gen_expr(d, envs, nvars, 3)
            n = d.integer(1, nvars)
            blocks.append('$%d=%s' % (n, render(t, d)))
            vals = [value(t, e)[0] for e in envs]
            for e, v in zip(envs, vals):
                e[n] = v
            nops += ops(t)
            used = used or any(uses(t, a) for a in assigned)
            assigned.add(n)
        else:
            code = d.choice([1, 4, 5, 6, 7, 20, 21, 22, 2])
            ts = [gen_expr(d, envs, nvars, d.integer(0, 3)) for _ in range(d.integer(1, 5))]
            blocks.append('%d,%s' % (code, ','.join(render(t, d) for t in ts)))
            nops += sum(ops(t) for t in ts)
            used = used or any(uses(t, a) for a in assigned for t in ts)
            for e, x in zip(envs, exp):
                x.append((code, [value(t, e) for t in ts]))
    text = '*'.join(blocks) + ('*' if d.boolean() else '')
    d.show(macro=text, parameters=[[str(v) for v in p] for p in params])
    if nops >= 2 or used:
        d.nontrivial((text, tuple(map(tuple, params))))
    d.label('operators', nops)
    prog = read_macro(text)
    for rnd in range(2):        # a second round must not see the first one's assignments
        for p, x in zip(params, exp):
            form = d.below(3) if rnd == 0 else 0
            arg = [float(v) for v in p]
            if form == 1:
                arg = dict((i + 1, v) for i, v in enumerate(arg))
            keep = arg.copy() if isinstance(arg, dict) else list(arg)
            if form == 2 and not p:
                got = list(eval_macro(prog))
            else:
                got = list(eval_macro(prog, arg))
            if arg != keep:
                raise Violation('evaluation changed the parameters passed in: %r -> %r' % (keep, arg))
            got = [g for g in got if g[:2] != '0,']
            if len(got) != len(x):
                raise Violation('%d primitives, expected %d: %r' % (len(got), len(x), got))
            for g, (code, vals) in zip(got, x):
                w = g.split(',')
                if w[0] != str(code) or len(w) != len(vals) + 1:
                    raise Violation('primitive %r, expected code %d with %d modifiers' % (g, code, len(vals)))
                for a, (v, m) in zip(w[1:], vals):
                    if not near(float(a), v, m):
                        raise Violation('with parameters %s modifier is %s, expected %s (%r)' % (
                            [str(q) for q in p], a, float(v), g))


# --- unit: through a whole file ---------------------------------------------------
def prop_file(d):
    lines = ['%FSLAX34Y34*%', d.choice(['%MOMM*%', '%MOIN*%'])]
    macros = []
    for mi in range(d.integer(1, 2)):
        nvars = d.integer(9, 12) if d.boolean(0.15) else d.integer(1, 4)
        body = []
        for _ in range(d.size(1, 4)):
            k = d.below(6)
            if k == 0:
                body.append(('c', d.choice(COMMENTS)))
            elif k == 1:
                body.append(('=', d.integer(1, nvars), gen_tree(d, 2, nvars)))
            else:
                body.append(('1' if k < 5 else '5', d.weighted([(5, '1'), (1, '0'), (1, '2-1'), (1, '$%d' % nvars)]),
                             [gen_tree(d, 2, nvars) for _ in range(3)], d.integer(3, 12)))
        macros.append(('M%d' % mi, nvars, body))
    steps = [('m', i) for i in range(len(macros))]
    adefs = []
    for _ in range(d.integer(1, 4)):
        m = d.below(len(macros))
        adefs.append((m, gen_params(d, d.integer(0, macros[m][1]))))
    # expected images; a body that is undefined for some aperture is dropped
    expect, seen, nontriv = [], set(), 0
    texts = {}
    for m, (name, nvars, body) in enumerate(macros):
        t = []
        for b in body:
            if b[0] == 'c':
                t.append(b[1])
            elif b[0] == '=':
                t.append('$%d=%s' % (b[1], render(b[2], d)))
                nontriv += 1
            elif b[0] == '1':
                t.append('1,%s,%s' % (b[1], ','.join(render(x, d) for x in b[2])))
            else:
                t.append('5,%s,%d,%s,0' % (b[1], b[3], ','.join(render(x, d) for x in (b[2][1], b[2][2], b[2][0]))))
            if b[0] not in 'c':
                nontriv += ops(b[2]) if b[0] == '=' else sum(ops(x) for x in b[2])
        texts[m] = '*'.join(t)
    for m, ps in adefs:
        env = dict((i + 1, v) for i, v in enumerate(ps))
        out = []
        try:
            for b in macros[m][2]:
                if b[0] == '=':
                    env[b[1]] = value(b[2], env)[0]
                elif b[0] in '15':
                    on = {'1': 1, '0': 0, '2-1': 1}.get(b[1])
                    if on is None:
                        on = 1 if env.get(int(b[1][1:]), 0) == 1 else 0
                    vals = [value(x, env) for x in b[2]]
                    out.append((b[0], on, vals, b[3]))
        except BadValue:
            raise Discard()
        expect.append(out)
    order = []
    for i, (m, ps) in enumerate(adefs):
        if m not in seen:
            seen.add(m)
            order.append('%%AM%s*%s*%%' % (macros[m][0], texts[m]))
        ad = '%%ADD%d%s' % (10 + i, macros[m][0])
        if ps:
            ad += ',' + 'X'.join(('-' if v < 0 else '') + plain(abs(v)) for v in ps)
        order.append(ad + '*%')
        if d.boolean(0.3):
            order.append('D%d*' % (10 + i))
    lines += order
    hits = []
    for _ in range(d.integer(1, 5)):
        i = d.below(len(adefs))
        x, y = d.signed(50000), d.signed(50000)
        hits.append((i, x, y))
        lines.append('D%d*' % (10 + i))
        lines.append('X%dY%dD03*' % (x, y))
    lines.append('M02*')
    text = '\n'.join(lines) + '\n'
    d.show(text=text)
    if nontriv >= 2:
        d.nontrivial(text)
    f = rs274x.loads(text)
    prims = list(f.primitives)
    if len(prims) != len(hits):
        raise Violation('%d objects, expected %d flashes' % (len(prims), len(hits)))
    for p, (i, x, y) in zip(prims, hits):
        x, y = x / 1e4, y / 1e4
        got, exp = list(p.primitives), expect[i]
        if len(got) != len(exp):
            raise Violation('flash of D%d has %d members, expected %d' % (10 + i, len(got), len(exp)))
        for g, (kind, on, vals, n) in zip(got, exp):
            (dia, md), (cx, mx), (cy, my) = vals
            if type(g).__name__ != {'1': 'Circle', '5': 'Polygon'}[kind]:
                raise Violation('member is a %s, expected code %s' % (type(g).__name__, kind))
            size = g.diameter if kind == '1' else 2 * g.radius
            if g.level_polarity != ('dark' if on else 'clear'):
                raise Violation('member of D%d is %s, exposure is %d' % (10 + i, g.level_polarity, on))
            if kind == '5' and g.sides != n:
                raise Violation('polygon has %r sides, expected %d' % (g.sides, n))
            if not (near(size, dia, md) and near(g.position[0], cx + Fraction(x), mx + 10)
                    and near(g.position[1], cy + Fraction(y), my + 10)):
                raise Violation('member of D%d: size %r at %r, expected %r at %r' % (
                    10 + i, size, g.position, float(dia), (float(cx) + x, float(cy) + y)))


UNITS = [
    {'name': 'expr', 'prop': prop_expr, 'n': {'quick': 60000, 'thorough': 2000000}, 'weight': 2},
    {'name': 'file', 'prop': prop_file, 'n': {'quick': 20000, 'thorough': 400000}},
]
