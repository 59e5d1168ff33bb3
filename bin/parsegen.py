"""Parser grammars: hand-written ones that cover every construct, and random ones.  Token types 1..k."""
from atn import *


def T(n): return ('t', n)
def seq(*x): return ('seq', list(x))
def alt(*x): return ('alt', list(x))
def opt(x, g=True): return ('opt', x, g)
def star(x, g=True): return ('star', x, g)
def plus(x, g=True): return ('plus', x, g)
def r(n, p=0): return ('rule', n, p)
def pred(i, cd=0): return ('pred', i, cd)
def act(i=0xFFFF): return ('act', i)
EOFT = ('eof',)
EPSN = ('seq', [])


def parser(name, rules, ntok):
    """rules: (name, body) or (name, {'lr': [...]})"""
    rs = []
    for nm, b in rules:
        rs.append(dict(name=nm, lr=b['lr']) if isinstance(b, dict) else dict(name=nm, body=b))
    return G(rs, lexer=False, maxtok=ntok, name=name)


def lr(*a): return dict(lr=list(a))


def handmade():
    A, B, C, D, E = T(1), T(2), T(3), T(4), T(5)
    L = []
    def add(name, ntok, *rules): L.append(parser(name, list(rules), ntok))
    # plain constructs
    add('seq', 3, ('s', seq(A, B, opt(C), EOFT)))
    add('alts', 4, ('s', seq(alt(seq(A, B), seq(A, C), D), EOFT)))
    add('loops', 4, ('s', seq(star(A), plus(B), opt(C), star(alt(seq(A, D), C)), EOFT)))
    add('sets', 5, ('s', seq(('s', [(1, 2)]), ('n', [(1, 3)]), ('any',), ('r', 2, 4), EOFT)))
    add('nested', 4, ('s', seq(r('a'), EOFT)), ('a', alt(seq(A, r('a'), B), seq(A, B), C)))
    add('calls', 4, ('s', seq(r('x'), r('y'), EOFT)), ('x', seq(A, opt(r('y')))), ('y', alt(B, seq(C, r('x')))))
    add('empty', 3, ('s', seq(r('e'), star(seq(A, r('e'))), EOFT)), ('e', alt(B, EPSN)))
    # k > 1 lookahead, non-LL(k)
    add('ll3', 4, ('s', seq(alt(seq(A, A, A, B), seq(A, A, A, C), seq(A, A, D)), EOFT)))
    add('nonllk', 4, ('s', seq(alt(seq(star(A), B), seq(star(A), C)), EOFT)))
    add('nonllk2', 4, ('s', seq(alt(seq(r('a'), B), seq(r('a'), C)), EOFT)), ('a', alt(seq(A, r('a')), D)))
    # context sensitivity: SLL conflict resolved by full context
    add('ctx', 4, ('s', seq(alt(seq(A, r('a'), C), seq(B, r('a'), D, C)), EOFT)), ('a', opt(D)))
    add('ctx2', 5, ('s', seq(alt(seq(A, r('e'), B), seq(C, r('e'), B, B)), EOFT)), ('e', alt(seq(D, B), D)))
    add('ctx3', 5, ('s', seq(star(alt(seq(A, r('x'), B), seq(C, r('x'), D))), EOFT)), ('x', seq(r('y'), opt(B))), ('y', seq(E, opt(D))))
    add('ctx4', 4, ('s', seq(r('b'), EOFT)), ('b', alt(seq(A, r('d'), C), seq(B, r('d'), A, C), seq(C, r('d')))), ('d', alt(seq(A, opt(r('d'))), D, EPSN)))
    # ambiguity
    add('amb', 3, ('s', seq(alt(seq(A, B), seq(A, B), seq(A, C)), EOFT)))
    add('ambopt', 3, ('s', seq(opt(A), opt(A), opt(B), EOFT)))
    add('dangling', 4, ('s', seq(r('st'), EOFT)), ('st', alt(seq(A, r('st'), opt(seq(B, r('st')))), C)))
    add('ambcall', 4, ('s', seq(star(r('i')), EOFT)), ('i', alt(r('x'), r('y'))), ('x', seq(A, opt(B))), ('y', seq(A, opt(C), opt(B))))
    add('ambstar', 3, ('s', seq(star(alt(A, seq(A, A))), EOFT)))
    add('ambthree', 4, ('s', seq(alt(seq(A, star(B)), seq(opt(A), star(B), opt(C)), seq(A, B, ('any',))), EOFT)))
    # non-greedy
    add('ng', 3, ('s', seq(A, star(('any',), False), B, EOFT)))
    add('ng2', 3, ('s', seq(opt(A, False), star(A), opt(B), EOFT)))
    add('ng3', 3, ('s', seq(plus(r('x'), False), B, EOFT)), ('x', alt(A, B, C)))
    add('ng4', 4, ('s', seq(star(r('x')), EOFT)), ('x', seq(A, star(('any',), False), opt(B), C)))
    # left recursion
    add('expr', 5, ('s', seq(r('e'), EOFT)), ('e', lr(('bin', A, 'left'), ('bin', B, 'left'), ('prim', C))))
    add('exprr', 5, ('s', seq(r('e'), EOFT)), ('e', lr(('bin', A, 'right'), ('bin', B, 'left'), ('prim', seq(D, r('e'), E)), ('prim', C))))
    add('expr3', 6, ('s', seq(r('e'), EOFT)), ('e', lr(('suf', seq(E)), ('pre', A), ('bin', B, 'left'), ('tern', C, D, 'right'), ('prim', T(6)))))
    add('expr4', 5, ('s', seq(r('e'), EOFT)), ('e', lr(('bin', B, 'left'), ('pre', A), ('bin', A, 'left'), ('prim', seq(D, r('e'), E)), ('prim', C))))
    add('expr5', 4, ('s', seq(r('e'), star(seq(D, r('e'))), EOFT)), ('e', lr(('prim', C), ('bin', opt(A), 'left'), ('suf', B))))
    add('expr6', 5, ('s', seq(r('e'), opt(B), EOFT)), ('e', lr(('bin', ('s', [(1, 2)]), 'left'), ('tern', D, E, 'left'), ('pre', B), ('prim', C))))
    add('exprdeep', 4, ('s', seq(r('st'), EOFT)), ('st', star(seq(r('e'), D))), ('e', lr(('bin', A, 'left'), ('pre', B), ('prim', C), ('prim', seq(A, r('st'), B)))))
    add('exprc', 6, ('s', seq(r('e'), EOFT)), ('e', lr(('suf', seq(A, r('e'), B)), ('bin', C, 'right'), ('pre', D), ('prim', E), ('prim', seq(T(6), r('t'))))), ('t', seq(r('e'), opt(A))))
    # statements
    add('json', 6, ('s', seq(r('v'), EOFT)), ('v', alt(r('o'), r('l'), E)), ('o', seq(A, opt(seq(r('p'), star(seq(C, r('p'))))), B)), ('p', seq(E, T(6), r('v'))), ('l', seq(D, opt(seq(r('v'), star(seq(C, r('v'))))), D)))
    add('eofmid', 3, ('s', seq(star(r('x')), EOFT)), ('x', alt(A, seq(B, ('s', [(-1, -1), (3, 3)])))))
    add('eofin', 4, ('s', seq(r('a'), opt(B), C)), ('a', seq(r('b'), EOFT)), ('b', seq(A, D, opt(A))))
    add('eofin2', 4, ('s', seq(r('a'), B)), ('a', seq(star(A), opt(C), EOFT)))
    add('eofin3', 4, ('s', seq(r('a'), opt(B), EOFT)), ('a', seq(star(r('b')), EOFT)), ('b', seq(A, C, opt(EOFT))))
    add('stmts', 6, ('s', seq(star(r('st')), EOFT)), ('st', alt(seq(A, r('ex'), B), seq(C, star(r('st')), D), seq(r('ex'), B))), ('ex', lr(('bin', T(6), 'left'), ('prim', E))))
    add('plusblk', 4, ('s', seq(plus(alt(seq(A, B), seq(A, C), D)), EOFT)))
    add('optalt', 4, ('s', seq(opt(alt(seq(A, B), seq(A, C))), opt(alt(A, D)), EOFT)))
    add('deepopt', 4, ('s', seq(r('a'), r('b'), EOFT)), ('a', opt(r('c'))), ('b', opt(r('d'))), ('c', seq(A, opt(B))), ('d', alt(seq(B, C), seq(A, D))))
    add('indirect', 4, ('s', seq(r('a'), star(seq(D, r('a'))), EOFT)), ('a', seq(r('b'), opt(A))), ('b', seq(r('c'), star(B))), ('c', alt(C, seq(A, r('a'), B))))
    add('acts', 3, ('s', seq(act(), star(seq(A, act(), opt(B))), act(), C, EOFT)))
    add('longpfx', 4, ('s', seq(alt(r('x'), r('y'), r('z')), EOFT)), ('x', seq(plus(A), B)), ('y', seq(plus(A), opt(B), C)), ('z', seq(star(A), D)))
    return L


def special():
    """grammars at which prediction has gone wrong before"""
    A, B, C, D, E, F = [T(i) for i in range(1, 7)]
    top = ('s', seq(r('e'), EOFT))
    return [
        parser('hist', [('s', seq(r('z'), EOFT)), ('z', seq(r('r'), ('s', [(1, 2)]), C, F)),
                        ('r', alt(alt(seq(A, r('r'), C, D), B), seq(('s', [(1, 2)]), C, E), seq(act())))], 6),
        parser('psup', [top, ('e', lr(('suf', seq(A, r('x'))), ('prim', C))), ('x', seq(r('e'), r('n'))), ('n', opt(B))], 3),
        parser('psup2', [top, ('e', lr(('suf', seq(A, r('e'))), ('prim', C)))], 3),
        parser('psup3', [top, ('e', lr(('bin', B, 'left'), ('suf', seq(A, r('x'))), ('prim', C))), ('x', r('e'))], 3),
        parser('psup4', [top, ('e', lr(('bin', B, 'left'), ('pre', A), ('suf', seq(A, r('x'))), ('prim', C))), ('x', seq(r('e'), opt(B), opt(r('e'))))], 3),
        parser('psup5', [('s', seq(star(r('e')), EOFT)), ('e', lr(('suf', seq(A, opt(r('e')))), ('bin', B, 'right'), ('prim', C), ('prim', r('y')))), ('y', seq(A, r('e'), opt(A)))], 3)]


def opens(R, name, nt=3):
    """the alternatives of a start rule without end of file are pieces of each other"""
    w = [R.randint(1, nt) for _ in range(R.randint(2, 5))]
    ks = []
    for _ in range(R.randint(3, 5)):
        v = w[:R.randint(1, len(w))]
        if R.random() < .3: v[-1] = R.randint(1, nt)
        es = [T(x) for x in v]
        if R.random() < .3: es[-1] = opt(es[-1]) if len(es) > 1 else es[-1]
        if R.random() < .25: es = es[:1] + [r('x')]
        ks.append(seq(*es))
    return parser(name, [('s', seq(alt(*ks), opt(r('s'))) if R.random() < .2 else alt(*ks)), ('x', alt(*[seq(*[T(x) for x in w[1:k]]) for k in R.sample(range(2, len(w) + 2), 2)]))], nt + 1)


def opened(R, n):
    A, B, C, D, E, F = [T(i) for i in range(1, 7)]
    return [        # start rules that may end before the input does, with alternatives that tie and one that ends earlier
        parser('open1', [('s', alt(A, seq(A, B, C), seq(A, B, C)))], 4),
        parser('open2', [('s', alt(seq(A, opt(r('x'))), seq(A, B, C), seq(A, r('x')))), ('x', alt(seq(B, C), seq(B, C, A)))], 4),
        parser('open3', [('s', seq(r('x'), opt(r('s')))), ('x', alt(A, seq(A, B, C), seq(A, B, C), seq(A, star(B), C, C)))], 3)] + [opens(R, 'open_%d' % i) for i in range(n)]


def predamb(R, name):
    """decisions with several alternatives for the same input, and predicates before, inside and behind them"""
    A, B, C = T(1), T(2), T(3)
    cd = lambda: int(R.random() < .5)
    pr = lambda p: [pred(R.randint(0, 3), cd())] if R.random() < p else []
    w = [T(R.randint(1, 2)) for _ in range(R.randint(1, 3))]

    def way():
        k = R.randint(0, len(w) - 1) if R.random() < .6 else None
        es = pr(.5)
        for i, x in enumerate(w):
            if i == k:
                es.append(r(R.choice(['y%d' % i, 'z%d' % i])))
            else:
                es += pr(.12 if i else 0) + [x]
        if R.random() < .3: es.append(opt(C))
        return seq(*es)
    rules = [('s', seq(*([r('o')] if R.random() < .6 else [r('o'), r('o')]), EOFT)),
             ('o', alt(seq(r('x'), opt(r('v'))), seq(C, r('x'), r('v')), seq(C, r('x'), w[-1])) if R.random() < .7 else seq(r('x'), r('v')))]
    if R.random() < .4:
        # an alternative that may be empty: what follows is looked at from inside
        e = R.random()
        es = [way() for _ in range(R.randint(1, 2))]
        es.insert(R.randint(0, len(es)), seq(act()) if e < .5 else seq(*pr(1)))
        rules.append(('x', alt(*es)))
    else:
        rules.append(('x', alt(*[way() for _ in range(R.randint(2, 4))])))
    rules.append(('v', alt(*[seq(*(pr(.6) + [R.choice(w + [B])] + pr(.2) + ([C] if R.random() < .3 else []))) for _ in range(R.randint(1, 2))])))
    for i, x in enumerate(w):
        rules.append(('y%d' % i, seq(*(pr(.8) + [x]))))
        rules.append(('z%d' % i, alt(seq(*(pr(.7) + [x])), seq(*(pr(.7) + [x])))))
    try:
        return parser(name, rules, 3)
    except Exception:
        return predamb(R, name)


def wide():
    """many tokens, rules and alternatives: more than fit in one machine word of a bit set"""
    L = []
    def add(name, ntok, *rules): L.append(parser(name, list(rules), ntok))
    a = [seq(T(k), T(k + 1)) for k in range(1, 42)]
    a[6] = seq(T(3), T(4), opt(T(5)))                # ambiguous with alternative 3, and alternatives 34 and 40 with each other
    a[33] = seq(('s', [(35, 40)]), T(36))
    a[39] = seq(('n', [(1, 34), (36, 70)]), T(36))
    add('wide', 70, ('s', seq(star(r('x')), EOFT)), ('x', ('alt', a)))
    n = 70
    add('manyrules', n, *([('s', seq(star(alt(r('q1'), r('q35'), r('q66'))), EOFT))] +
                          [('q%d' % i, alt(seq(T(i), opt(r('q%d' % (i + 1)))), seq(T(i), T(i))) if i % 3 == 0 else seq(T(i), opt(r('q%d' % (i + 1))))) for i in range(1, n)] + [('q%d' % n, T(n))]))
    add('wideops', 68, ('s', seq(r('e'), EOFT)), ('e', lr(*([('bin', T(k), 'right' if k % 5 == 0 else 'left') for k in range(1, 36)] + [('pre', T(66)), ('prim', T(67)), ('prim', seq(T(40), r('e'), T(68)))]))))
    add('wideset', 130, ('s', seq(star(alt(seq(('s', [(1, 30), (33, 33), (64, 65), (127, 130)]), T(64)), seq(('n', [(2, 63), (66, 129)]), T(65)), seq(T(128), ('any',), T(128)))), EOFT)))
    return L


def deepwords():
    """[(grammar, words that are sentences, words that are not)]: deep nesting and long loops"""
    A, B, C, D, E, F = [T(i) for i in range(1, 7)]
    top = ('s', seq(r('e'), EOFT))
    out = []
    g = parser('dnest', [('s', seq(r('a'), EOFT)), ('a', alt(seq(A, r('a'), B), seq(A, B), C))], 3)
    out.append((g, [[1] * n + [3] + [2] * n for n in (9, 17, 33, 70)] + [[1] * 40 + [2] * 40], [[1] * 20 + [3] + [2] * 19, [1] * 35 + [3] + [2] * 36, [1] * 12]))
    g = parser('dexpr', [top, ('e', lr(('bin', A, 'right'), ('bin', B, 'left'), ('pre', C), ('tern', D, E, 'right'), ('prim', seq(F, r('e'), T(7))), ('prim', T(8))))], 8)
    par = lambda n, w: [6] * n + w + [7] * n
    dp = [8]
    for i in range(14):
        dp = [3] * (i % 3) + [6] + dp + [7] + [1 + i % 2, 8]
    out.append((g, [par(n, [8, 1, 8, 2, 8]) for n in (8, 12, 33)] + [[8] + [1, 8] * 40, [8] + [2, 8] * 40, [3] * 40 + [8], [8] + [4, 8, 5, 8] * 12, [8] + [4, 8] * 10 + [5, 8] * 10, dp, par(11, dp)],
                [par(12, [8, 1]), [6] * 13 + [8] + [7] * 12, [8] + [1, 8] * 20 + [1]]))
    g = parser('dloop', [('s', seq(star(seq(A, opt(B))), plus(alt(C, seq(D, star(A), B))), EOFT))], 4)
    out.append((g, [[1] * 150 + [3], [1, 2] * 60 + [3] * 60, [4] + [1] * 130 + [2], [3, 4, 2] * 40], [[1] * 120, [4] + [1] * 100 + [4]]))
    g = parser('dlook', [('s', seq(star(alt(seq(star(A), B), seq(star(A), C))), EOFT))], 3)
    out.append((g, [[1] * n + [2 + n % 2] for n in (20, 40, 65)] + [([1] * 9 + [3]) * 6], [[1] * 40]))
    g = parser('dmut', [('s', seq(r('x'), EOFT)), ('x', alt(seq(A, r('y'), A), B)), ('y', alt(seq(C, r('z')), r('z'))), ('z', alt(seq(D, r('x'), D), seq(E, r('y'), opt(E))))], 5)
    w = [2]
    for i in range(12):
        w = [1] + ([3] if i % 2 else []) + [5] * (i % 3) + [4] + w + [4] + [1]
    out.append((g, [w, [1] + [5] * 20 + [4, 2, 4] + [5] * 9 + [1]], [w[:-1], w + [1]]))
    return out


def predhand():
    """predicates in the places where they matter"""
    A, B, C, D, E = [T(i) for i in range(1, 6)]
    L = []
    def add(name, ntok, *rules): L.append(parser(name, list(rules), ntok))
    add('pr1', 3, ('s', seq(alt(seq(pred(0), A, B), seq(pred(1), A, B), seq(A, B)), EOFT)))
    add('pr2', 3, ('s', seq(star(seq(alt(seq(pred(0), A), seq(pred(1), act(), A), seq(act(), A)), opt(B))), EOFT)))
    add('pr3', 4, ('s', seq(star(r('x')), EOFT)), ('x', alt(seq(pred(0), r('y')), seq(pred(1), r('y'), C), r('z'))), ('y', seq(A, opt(B))), ('z', seq(A, opt(B), opt(C))))
    add('pr4', 3, ('s', seq(r('a'), r('a'), EOFT)), ('a', alt(seq(r('p'), A), seq(r('q'), A), B)), ('p', seq(pred(0, 1))), ('q', seq(pred(1))))
    add('pr5', 3, ('s', seq(opt(seq(pred(0), A)), star(seq(pred(1), A)), opt(A), opt(B), EOFT)))
    add('pr6', 3, ('s', seq(alt(seq(pred(0), pred(1), A, opt(B)), seq(alt(seq(pred(2), A), seq(pred(3), A)), opt(B))), EOFT)))
    add('pr7', 4, ('s', seq(r('e'), EOFT)), ('e', lr(('suf', seq(pred(0), A)), ('bin', B, 'left'), ('pre', seq(pred(1), D)), ('prim', C), ('prim', seq(pred(2), D)))))
    add('pr8', 3, ('s', seq(A, pred(0), B, act(), pred(1), opt(C), EOFT)))
    add('pr9', 4, ('s', seq(star(r('d')), EOFT)), ('d', alt(seq(pred(0, 1), A, B), seq(pred(1, 1), A, C), seq(A, ('s', [(2, 3)])), seq(act(), D))))
    add('pr10', 3, ('s', seq(star(alt(seq(pred(0), A, act()), seq(pred(1), A), B)), EOFT)))
    return L


def nullable(n, env):
    k = n[0]
    if k == 'seq': return all(nullable(x, env) for x in n[1])
    if k == 'alt': return any(nullable(x, env) for x in n[1])
    if k in ('opt', 'star'): return True
    if k == 'plus': return nullable(n[1], env)
    if k in ('pred', 'act', 'prec'): return True
    if k == 'rule': return env[n[1]]
    return False


def rnd_node(R, d, rules, env, o, first):
    """random element; rules = names callable here; first = rules that may be called without consuming a token before"""
    q = R.random()
    if d <= 0 or q < .38:
        z = R.random()
        if z < .58 or not rules: return T(R.randint(1, o['nt']))
        if z < .92:
            c = rules if first is None else [x for x in rules if x in first]
            return r(R.choice(c)) if c else T(R.randint(1, o['nt']))
        if z < .96: return ('s', [(1, 2)]) if R.random() < .5 else ('n', [(R.randint(1, o['nt']),) * 2])
        return ('any',)
    if q < .62:
        out, cons = [], False
        for _ in range(R.randint(2, 3)):
            x = rnd_node(R, d - 1, rules, env, o, None if cons else first)
            out.append(x)
            cons = cons or not nullable(x, env)
        if cons and R.random() < .04:
            out.append(EOFT)
        return ('seq', out)
    if q < .8:
        return ('alt', [rnd_node(R, d - 1, rules, env, o, first) for _ in range(R.randint(2, 3))])
    x = rnd_node(R, d - 1, rules, env, o, first)
    if nullable(x, env):
        return x
    g = R.random() >= o.get('ng', 0)
    return (R.choice(['opt', 'star', 'plus', 'opt']), x, g)


def productive(rules):
    """every rule derives some finite token sequence"""
    ok = set()

    def can(n):
        k = n[0]
        if k == 'rule': return n[1] in ok
        if k == 'seq': return all(can(x) for x in n[1])
        if k == 'alt': return any(can(x) for x in n[1])
        if k == 'plus': return can(n[1])
        return True
    while True:
        new = {nm for nm, b in rules.items() if isinstance(b, dict) and any(a[0] == 'prim' and can(a[1]) for a in b['lr']) or not isinstance(b, dict) and can(b)}
        if new == ok:
            return len(ok) == len(rules)
        ok = new


def rnd_parser(R, name, lrp=.4, ng=.1, nt=None, preds=0.0, cd=0.0, edit=None):
    """rules r1..rn; rule i may call any rule after consuming a token, and later rules anywhere (no hidden left recursion)"""
    nt = nt or R.randint(2, 4)
    o = dict(nt=nt, ng=ng)
    n = R.randint(1, 3)
    names = ['r%d' % i for i in range(1, n + 1)]
    env = {nm: True for nm in names}      # not yet known: assume it may be empty
    rules = {}
    for i in range(n - 1, -1, -1):
        later = [x for x in names[i + 1:]]
        if R.random() < lrp:
            alts = []
            env[names[i]] = False
            for _ in range(R.randint(1, 3)):
                k = R.random()
                op = T(R.randint(1, nt)) if R.random() < .8 else ('s', [(1, 2)])
                if k < .5: alts.append(('bin', op, R.choice(['left', 'left', 'right'])))
                elif k < .7: alts.append(('pre', op))
                elif k < .9: alts.append(('suf', op if R.random() < .7 else seq(op, r(names[i]), T(R.randint(1, nt)))))
                else: alts.append(('tern', op, T(R.randint(1, nt)), R.choice(['left', 'right'])))
            prim = [('prim', T(R.randint(1, nt)))]
            if R.random() < .6: prim.append(('prim', seq(T(R.randint(1, nt)), r(names[i]), T(R.randint(1, nt)))))
            if R.random() < .3 and later and not env[later[0]]: prim.append(('prim', r(later[0])))
            if R.random() < .06: prim.append(('prim', seq(T(R.randint(1, nt)), EOFT)))
            if R.random() < .06: alts.append(('suf', seq(op, EOFT)))
            for p in prim: alts.insert(R.randint(0, len(alts)), p)
            if not any(a[0] in ('bin', 'suf', 'tern') for a in alts):
                alts.append(('bin', T(1), 'left'))
            rules[names[i]] = dict(lr=alts)
        else:
            b = rnd_node(R, R.randint(2, 3), names, env, o, set(later))
            if preds:
                b = add_preds(R, b, preds, cd)
            if edit:
                b = edit(b)
            rules[names[i]] = b
            env[names[i]] = nullable(b, env)
    if not productive(rules):
        return rnd_parser(R, name, lrp, ng, nt, preds, cd, edit)
    top = seq(r(names[0]), EOFT) if R.random() < .5 or env[names[0]] else seq(star(r(names[0])), EOFT)
    return parser(name, [('s', top)] + [(nm, rules[nm]) for nm in names], nt)


def rnd_calls(R, name, lrp=.2, ng=.05, preds=0.0, cd=0.0):
    """many small rules, several of them possibly empty, that call each other a lot"""
    nt = R.randint(2, 4)
    n = R.randint(3, 6)
    names = ['r%d' % i for i in range(1, n + 1)]
    env, rules = {}, {}

    def elem(i, cons):
        """(node, may be empty)"""
        q = R.random()
        later = names[i + 1:]
        if q < .5 and (later or cons):
            x = R.choice(names if cons and R.random() < .3 else later or names)
            return r(x), env.get(x, True)
        if q < .8: return T(R.randint(1, nt)), False
        x, e = elem(i, cons)
        if e: return x, e
        k = R.choice(['opt', 'opt', 'star', 'plus'])
        return (k, x, R.random() >= ng), k != 'plus'

    def body(i):
        alts, empty = [], R.random() < .25
        for _ in range(R.choice([1, 2, 2, 3])):
            out, cons = [], False
            for _ in range(R.choice([1, 2, 2, 3])):
                x, e = elem(i, cons)
                if preds and R.random() < preds and not e: x = seq(pred(R.randint(0, 3), int(R.random() < cd)), x)
                out.append(x)
                cons = cons or not e
            if cons and R.random() < .05: out.append(EOFT)
            alts.append(seq(*out) if len(out) > 1 else out[0])
        if empty: alts.append(EPSN)
        return ('alt', alts) if len(alts) > 1 else alts[0]
    for i in range(n - 1, -1, -1):
        if R.random() < lrp:
            rules[names[i]] = lr(*R.sample([('bin', T(R.randint(1, nt)), R.choice(['left', 'right'])), ('suf', T(R.randint(1, nt))), ('bin', T(R.randint(1, nt)), 'left')], R.randint(1, 2)),
                                 ('prim', T(R.randint(1, nt))), ('prim', seq(T(R.randint(1, nt)), EOFT if R.random() < .15 else r(R.choice(names)))))
            env[names[i]] = False
        else:
            rules[names[i]] = body(i)
            env[names[i]] = nullable(rules[names[i]], {**{x: True for x in names}, **env})
    if not productive(rules):
        return rnd_calls(R, name, lrp, ng, preds, cd)
    # rules that come to nothing from the top would never be reached: the start rule calls several
    tops = R.sample(names, min(2, n))
    top = seq(r(names[0]), EOFT) if R.random() < .5 else seq(*([r(x) for x in tops] + [EOFT])) if R.random() < .7 or env[names[0]] else seq(star(r(names[0])), EOFT)
    return parser(name, [('s', top)] + [(nm, rules[nm]) for nm in names], nt)


def add_preds(R, n, p, cd=0.0):
    """guard alternatives of decisions with predicates"""
    k = n[0]
    pr = lambda: pred(R.randint(0, 3), int(R.random() < cd) if cd else 0)
    if k == 'alt':
        return ('alt', [('seq', [pr(), add_preds(R, x, p, cd)]) if R.random() < p else add_preds(R, x, p, cd) for x in n[1]])
    if k == 'seq':
        return ('seq', [add_preds(R, x, p, cd) for x in n[1]])
    if k in ('opt', 'star', 'plus'):
        y = add_preds(R, n[1], p, cd)
        if R.random() < p * .6:
            y = ('seq', [pr(), y])
        return (k, y) + tuple(n[2:])
    return n


def lrmix(R, name):
    """an expression rule whose operators share few tokens, so that the same tokens can be read in several ways; operands in between through other rules"""
    nt = R.choice([2, 2, 3])
    rop = R.random() < .35       # operators that are rules themselves, used by callers of the expression as well
    tk = lambda: T(R.randint(1, nt))
    t = lambda: r('o') if rop and R.random() < .6 else tk()
    alts = [('prim', tk())]
    if R.random() < .4: alts.append(('prim', seq(tk(), r('e'), t())))
    for _ in range(R.randint(2, 4)):
        k = R.choice(['bin', 'bin', 'pre', 'suf', 'tern', 'sufr', 'binr'])
        a = R.choice(['left', 'left', 'right'])
        if k == 'bin': alts.append(('bin', t(), a))
        elif k == 'binr': alts.append(('bin', seq(t(), opt(r('q'))), a))
        elif k == 'pre': alts.append(('pre', tk()))
        elif k == 'suf': alts.append(('suf', t()))
        elif k == 'tern': alts.append(('tern', t(), t(), a))
        else: alts.append(('suf', seq(t(), r(R.choice(['q', 'e', 's2'])), opt(t()))))
    if not any(a[0] in ('bin', 'suf', 'tern') for a in alts): return lrmix(R, name)
    R.shuffle(alts)
    rs = [('s', seq(r('e'), EOFT)), ('e', dict(lr=alts)), ('q', R.choice([r('e'), seq(t(), r('e')), alt(t(), r('e')), seq(r('e'), t())])), ('s2', seq(r('e'), opt(t())))]
    if rop:
        rs[0] = ('s', seq(r('e'), R.choice([opt(seq(r('o'), tk())), opt(r('o')), star(seq(r('o'), r('o')))]), EOFT))
        rs.append(('o', R.choice([tk(), alt(tk(), seq(tk(), tk())), seq(tk(), opt(tk()))])))
    return parser(name, rs, nt)
