"""Lexer grammars: hand-written ones that cover every feature, and random ones."""
from atn import *

NL = 10
def t(c): return ('t', ord(c))
def s(x): return ('seq', [t(c) for c in x]) if len(x) != 1 else t(x)
def seq(*x): return ('seq', list(x))
def alt(*x): return ('alt', list(x))
def opt(x, g=True): return ('opt', x, g)
def star(x, g=True): return ('star', x, g)
def plus(x, g=True): return ('plus', x, g)
def prs(p): return [(ord(x), ord(y)) for x, y in ([p] if isinstance(p[0], str) else p)]
def cs(*p): return ('s', prs(p))
def ncs(*p): return ('n', prs(p))
def cmd(*a): return ('cmd', tuple(a) + (0,) * (3 - len(a)))
def act(k): return ('act', k)
def pred(i): return ('pred', i)
def fr(n): return ('rule', n)


def lexer(name, rules, nmodes=1):
    """rules: (name, body[, mode]) ; names starting with 'f' are fragments; token types 1.."""
    rs, k = [], 0
    for r in rules:
        frag = r[0].startswith('f')
        if not frag:
            k += 1
        rs.append(dict(name=r[0], body=r[1], frag=frag, mode=r[2] if len(r) > 2 else 0, tok=0 if frag else k))
    return G(rs, lexer=True, maxtok=max(k, 1), nmodes=nmodes, name=name)


def handmade():
    L = []
    # maximal munch, priority by order
    L.append((lexer('kw', [('IF', s('ab')), ('ID', plus(cs('a', 'c'))), ('WS', seq(plus(cs(' ', ' '), ), cmd(SKIP)))]), 'abc '))
    L.append((lexer('prio2', [('A', plus(t('a'))), ('AB', seq(plus(t('a')), t('b'))), ('B', t('b')), ('ABB', s('abb'))]), 'abc'))
    L.append((lexer('back', [('A', t('a')), ('LONG', seq(t('a'), star(t('b')), t('c'))), ('B', t('b'))]), 'abc'))
    # non greedy
    L.append((lexer('comment', [('C', seq(t('a'), star(('any',), False), t('b'))), ('X', ('any',))]), 'abc'))
    L.append((lexer('comment2', [('C', seq(t('a'), t('b'), star(alt(fr('fC'), ('any',)), False), t('b'), t('a'))), ('X', ('any',)),
                                 ('fC', seq(t('a'), t('b')))]), 'ab'))
    L.append((lexer('ngplus', [('C', seq(t('a'), plus(cs('a', 'c'), False), opt(t('b')))), ('D', s('abc')), ('X', ('any',))]), 'abc'))
    L.append((lexer('ngopt', [('C', seq(t('a'), opt(t('b'), False), opt(t('c')))), ('X', ('any',))]), 'abc'))
    L.append((lexer('ngopt2', [('C', seq(t('a'), opt(t('b'), False))), ('D', seq(t('a'), t('b'), t('c'))), ('X', ('any',))]), 'abc'))
    L.append((lexer('ngalt', [('S', seq(t('a'), star(alt(seq(t('b'), ('any',)), ncs(('a', 'a'))), False), t('a'))), ('X', t('b'))]), 'abc'))
    # fragments, recursion
    L.append((lexer('frag', [('N', seq(fr('fD'), opt(seq(t('b'), fr('fD'))))), ('B', t('b')), ('fD', plus(cs('a', 'a')))]), 'abc'))
    L.append((lexer('nest', [('P', seq(t('a'), star(alt(fr('P'), t('c'))), t('b'))), ('X', ('any',))]), 'abc'))
    # sets, negated sets, ranges, wildcard edges of the alphabet
    L.append((lexer('sets', [('A', ncs(('a', 'b'))), ('B', ('r', 0x61, 0x62)), ]), 'abc\n\u00e9\u306f\U0001F600'))
    L.append((lexer('uni', [('E', ('r', 0x80, 0x7FF)), ('H', plus(('s', [(0x3040, 0x309F), (0x1F600, 0x1F64F)]))), ('Z', ('any',))]),
              'a\u00e9\u306f\U0001F600'))
    L.append((lexer('edge', [('W', seq(t('a'), ('any',))), ('T', ('r', 0xFFF0, 0xFFFF)), ('Z', ('t', 0)), ('N', ('n', [(0x62, 0x62)]))]),
              'ab\x00\uffff\U0010ffff'))
    L.append((lexer('edge2', [('W', seq(t('a'), plus(('any',)))), ('T', ('t', 0xFFFF)), ('M', ('s', [(0x10FFFF, 0x10FFFF), (0, 0)]))]),
              'ab\x00\uffff\U0010ffff'))
    # lines
    L.append((lexer('lines', [('ID', plus(cs('a', 'b'))), ('NL', seq(('t', NL), cmd(CHANNEL, 1))), ('ML', seq(t('c'), star(ncs(('c', 'c'))), t('c')))]), 'ac\n\r'))
    # commands
    L.append((lexer('cmds', [('A', seq(t('a'), cmd(TYPE, 7))), ('B', seq(t('b'), cmd(CHANNEL, 3))), ('C', seq(t('c'), cmd(SKIP))),
                             ('D', seq(t('d'), cmd(MORE))), ('DE', seq(t('d'), t('e'), cmd(TYPE, 9), cmd(CHANNEL, 2)))]), 'abcde'))
    L.append((lexer('more', [('S', seq(t('a'), cmd(MORE), cmd(PUSH, 1))), ('X', t('b')),
                             ('E', seq(t('a'), cmd(POP)), 1), ('M', seq(ncs(('a', 'a')), cmd(MORE)), 1)], 2), 'ab\n'))
    L.append((lexer('modes', [('P', seq(t('a'), cmd(PUSH, 1))), ('Q', t('c')), ('B0', seq(t('b'), cmd(MODE, 2))),
                              ('P1', seq(t('a'), cmd(PUSH, 2)), 1), ('O1', seq(t('b'), cmd(POP)), 1), ('C1', t('c'), 1),
                              ('O2', seq(t('b'), cmd(POP)), 2), ('A2', seq(t('a'), cmd(MODE, 0)), 2), ('CC', seq(t('c'), t('c')), 2)], 3), 'abc'))
    L.append((lexer('popempty', [('O', seq(t('a'), cmd(POP))), ('P', seq(t('b'), cmd(PUSH, 1))), ('Q', seq(t('a'), cmd(POP), cmd(POP)), 1)], 2), 'ab'))
    # custom actions at different positions, alternatives that differ only in their actions
    L.append((lexer('acts', [('A', seq(alt(seq(t('a'), act(0)), seq(t('b'), act(7))), t('c'))), ('X', t('c'))]), 'abc'))
    L.append((lexer('acts2', [('A', seq(t('a'), act(0), star(t('b')), act(8), t('c'), act(2))), ('X', seq(t('b'), act(0)))]), 'abc'))
    L.append((lexer('acts3', [('A', seq(plus(alt(t('a'), seq(t('b'), act(0)))), t('c'))), ('X', ('any',))]), 'abc'))
    L.append((lexer('acts4', [('A', seq(fr('fI'), act(0), t('c'))), ('B', seq(t('a'), act(10))), ('C', seq(t('b'), cmd(TYPE, 12), act(8))), ('fI', seq(t('a'), act(1), t('b')))]), 'abc'))
    L.append((lexer('acts5', [('A', seq(('r', 0x80, 0x10FFF0 & 0xFFFF), act(0), t('a'))), ('B', seq(('s', [(0x10000, 0x1FFFF)]), act(0), t('a'))), ('X', t('a'))]),
              'a\u00e9\u306f\U0001F600'))
    L.append((lexer('acts6', [('S', seq(t('a'), act(3))), ('M', seq(t('b'), act(4))), ('C', seq(t('c'), act(5))), ('P', seq(t('c'), act(6)), 1), ('D', seq(t('a'), act(9)), 1), ('E', seq(t('b'), act(8)), 1)], 2), 'abc'))
    L.append((lexer('acts7', [('A', seq(star(seq(t('a'), act(0))), t('b'))), ('B', seq(t('a'), act(7)))]), 'ab'))
    L.append((lexer('acts8', [('A', alt(seq(t('a'), act(0)), seq(t('b'), act(2)))), ('B', seq(alt(seq(t('c'), act(0)), seq(t('d'), act(1))), alt(t('c'), t('d'))))]), 'abcd'))
    L.append((lexer('acts9', [('A', seq(alt(seq(t('a'), act(0), t('b')), seq(t('a'), t('b'), act(0))), t('c'))), ('B', seq(t('b'), alt(seq(act(0), t('a')), seq(act(1), t('b')))))]), 'abc'))
    L.append((lexer('acttext', [('A', seq(t('a'), act(11))), ('B', seq(t('b'), act(12), t('a'))), ('C', seq(t('c'), act(12), cmd(MORE))), ('D', seq(t('b'), act(11), cmd(MORE), act(12))), ('E', seq(t('\u00e9'), act(12), act(12)))]), 'abc\u00e9'))
    # predicates
    L.append((lexer('pred', [('A', seq(pred(2), t('a'))), ('B', t('a')), ('C', seq(t('b'), pred(2), t('b'))), ('D', t('b'))]), 'ab\n'))
    L.append((lexer('pred2', [('A', seq(t('a'), pred(3), act(1))), ('B', seq(t('a'), act(1))), ('C', seq(t('b'), pred(4))), ('D', seq(t('b'), act(1)))]), 'ab'))
    L.append((lexer('pred3', [('A', seq(plus(t('a')), pred(5))), ('B', plus(t('a'))), ('N', ('t', NL)), ('P', seq(t('b'), pred(6), cmd(PUSH, 1))),
                              ('Q', seq(t('b'), cmd(POP)), 1), ('R', seq(t('a'), pred(6)), 1), ('T', t('a'), 1)], 2), 'ab\n'))
    L.append((lexer('pred4', [('K', seq(s('ab'), pred(1))), ('ID', plus(cs('a', 'b')))]), 'ab'))
    # EOF in a lexer rule
    L.append((lexer('eof', [('A', seq(t('a'), alt(t('b'), ('eof',)))), ('B', t('b')), ('C', seq(t('a'), t('a')))]), 'ab'))
    L.append((lexer('eof2', [('L', seq(star(ncs(('b', 'b'))), alt(t('b'), ('eof',)))), ]), 'ab\n') if False else
             (lexer('eof3', [('L', seq(plus(ncs(('b', 'b'))), alt(t('b'), ('eof',)))), ('B', t('b'))]), 'ab\n'))
    L.append((lexer('eofp', [('A', seq(t('a'), ('eof',), pred(2))), ('B', seq(t('a'), ('eof',), pred(5), act(1))), ('C', t('a')), ('N', ('t', NL)), ('D', seq(plus(t('b')), ('eof',), pred(4), act(0)))
                              , ('E', seq(t('b'), act(1)))]), 'ab\n'))
    L.append((lexer('eofonly', [('A', t('a')), ('B', seq(t('b'), cmd(PUSH, 1))), ('E', ('eof',)), ('C', seq(t('b'), cmd(MORE)), 1), ('F', seq(('eof',), cmd(CHANNEL, 2)), 1)], 2), 'ab'))
    L.append((lexer('eofeof', [('A', seq(t('a'), ('eof',), ('eof',), act(0))), ('B', seq(t('a'), t('b'), plus(('eof',)) if False else ('eof',), cmd(SKIP))), ('C', seq(plus(alt(t('b'), t('c'))), opt(('eof',)), cmd(TYPE, 9)))]), 'abc'))
    # nothing matches some characters
    L.append((lexer('err', [('A', s('aab')), ('C', s('ac'))]), 'abc\n'))
    L.append((lexer('err2', [('A', seq(t('a'), plus(t('\u306f')), t('b')))]), 'ab\u306f\n'))
    # characters around the limit of the DFA edge table and of single bytes
    L.append((lexer('e127', [('A', ('t', 126)), ('B', ('t', 127)), ('C', ('t', 128)), ('D', seq(('r', 125, 130), ('r', 126, 129))), ('E', ('t', 255)), ('F', seq(('t', 127), plus(('t', 127)))),
                             ('H', seq(('t', 128), ('t', 255)))]), '\x7d~\x7f\x80\xff'))
    L.append((lexer('wide', [('A', seq(('s', [(0x1F600, 0x1F600), (97, 97), (0x306F, 0x306F), (200, 300)]), opt(('n', [(97, 97), (0x1F600, 0x1F610)])))), ('B', ('any',))]), 'a\xc8\u012c\u306f\U0001F600\U0001F611'))
    L.append((lexer('rangeovl', [('A', plus(('r', 97, 98))), ('B', plus(('r', 98, 99))), ('C', seq(('r', 97, 99), ('r', 97, 99), t('d')))]), 'abcd'))
    L.append((lexer('ngtwo', [('A', seq(t('a'), star(('any',), False), t('b'))), ('B', seq(t('a'), star(('any',), False), t('b'), t('c'))), ('C', plus(t('c'), False)), ('D', t('b'))]), 'abc'))
    L.append((lexer('tie', [('A', alt(s('ab'), s('ac'))), ('B', seq(t('a'), cs('b', 'c'))), ('C', seq(plus(cs('a', 'c')), t('d'))), ('D', plus(('any',)))]) if False else
              lexer('tie', [('B', seq(t('a'), cs('b', 'b'))), ('A', alt(s('ab'), s('ac'))), ('C', seq(cs('a', 'c'), cs('a', 'c'), t('d'))), ('D', t('d'))]), 'abcd'))
    # errors while the lexer is in another mode, or inside a token being continued
    L.append((lexer('errmode', [('P', seq(t('a'), cmd(PUSH, 1))), ('B', s('bb')), ('Q', seq(t('b'), cmd(POP)), 1), ('A', s('aa'), 1)], 2), 'abc'))
    L.append((lexer('errmore', [('M', seq(t('a'), cmd(MORE))), ('B', seq(t('b'), ('t', NL))), ('C', seq(t('c'), cmd(CHANNEL, 2), cmd(MORE), cmd(PUSH, 1))), ('D', seq(t('a'), t('b'), cmd(POP), cmd(SKIP)), 1),
                                ('E', seq(t('b'), cmd(POP)), 1)], 2), 'abc\n'))
    L.append((lexer('crlf', [('N', seq(opt(('t', 13)), ('t', NL), star(cs(' ', ' ')))), ('W', plus(cs('a', 'b'))), ('S', seq(t(' '), cmd(SKIP)))]), 'a \r\n'))
    L.append((lexer('modes2', [('A', seq(t('a'), cmd(PUSH, 1), cmd(PUSH, 2), cmd(TYPE, 11))), ('B', t('b')), ('C', seq(t('c'), cmd(MODE, 1))),
                               ('A1', seq(t('a'), cmd(POP), cmd(PUSH, 2)), 1), ('B1', seq(t('b'), cmd(POP)), 1), ('C1', seq(t('c'), cmd(MORE), cmd(PUSH, 2)), 1),
                               ('A2', seq(t('a'), cmd(CHANNEL, 5), cmd(MODE, 1)), 2), ('B2', seq(t('b'), cmd(POP), cmd(SKIP)), 2), ('C2', seq(t('c'), cmd(POP), cmd(POP)), 2)], 3), 'abc'))
    L.append((lexer('actmode', [('A', seq(t('a'), act(5), cmd(TYPE, 9))), ('B', seq(t('b'), cmd(CHANNEL, 4), act(2), act(0))), ('C', seq(t('c'), cmd(TYPE, 13), act(2))),
                                ('P', seq(t('a'), act(7), cmd(POP)), 1), ('D', seq(t('b'), act(8), cmd(MORE)), 1), ('E', seq(t('c'), act(0), act(6), act(1)), 1)], 2), 'abc'))
    return L


def cmdpairs(R=None, n=None):
    """every ordered pair (and some triples) of commands on one rule, used in a pushed mode and in the default one"""
    C = [cmd(SKIP), cmd(MORE), cmd(TYPE, 20), cmd(CHANNEL, 2), cmd(PUSH, 1), cmd(POP), cmd(MODE, 2), act(0), act(2), act(8)]
    seqs = [[x, y] for x in C for y in C]
    if R:
        seqs += [[R.choice(C) for _ in range(R.randint(3, 4))] for _ in range(n)]
    L = []
    for k in range(0, len(seqs), 2):
        q = seqs[k:k + 2]
        rs = [('A', seq(t('a'), cmd(PUSH, 1))), ('X', t('x')), ('C', seq(t('c'), *q[-1])),
              ('B1', seq(t('b'), *q[0]), 1), ('C1', seq(t('c'), *q[-1]), 1), ('X1', t('x'), 1), ('A1', seq(t('a'), cmd(PUSH, 2)), 1),
              ('B2', seq(t('b'), cmd(POP)), 2), ('X2', t('x'), 2)]
        L.append((lexer('cmd%d' % k, rs, 3), 'abcx'))
    return L


def nullable(n, env):
    k = n[0]
    if k == 'seq': return all(nullable(x, env) for x in n[1])
    if k == 'alt': return any(nullable(x, env) for x in n[1])
    if k in ('opt', 'star'): return True
    if k == 'plus': return nullable(n[1], env)
    if k in ('pred', 'act', 'cmd', 'prec'): return True
    if k == 'rule': return env.get(n[1], False)
    return False


ALPH = [97, 98, 99, 10]


def rnd_node(R, d, frags, env, opts):
    """random non-empty element"""
    r = R.random()
    if d <= 0 or r < 0.35:
        q = R.random()
        if q < 0.62: return ('t', R.choice(opts['alpha']))
        if q < 0.72: return ('r', 97, R.choice([98, 99]))
        if q < 0.78: return ('s', R.choice([[(97, 97), (99, 99)], [(98, 99)], [(97, 98)], [(98, 98), (0x80, 0x10FFFF)]]))
        if q < 0.85: return ('n', R.choice([[(97, 97)], [(98, 98)], [(97, 98)], [(10, 10), (99, 99)]]))
        if q < 0.92: return ('any',)
        if frags: return ('rule', R.choice(frags))
        return ('t', R.choice(opts['alpha']))
    if r < 0.6:
        n = R.randint(2, 3)
        return ('seq', [rnd_node(R, d - 1, frags, env, opts) for _ in range(n)])
    if r < 0.75:
        return ('alt', [rnd_node(R, d - 1, frags, env, opts) for _ in range(R.randint(2, 3))])
    x = rnd_node(R, d - 1, frags, env, opts)
    g = R.random() > opts['ng']
    if nullable(x, env):
        return x
    if r < 0.83: return ('opt', x, g)
    if r < 0.92: return ('star', x, g)
    return ('plus', x, g)


def sprinkle(R, n, p, kinds):
    """insert actions / predicates between the elements of sequences"""
    k = n[0]
    if k == 'seq':
        out = []
        for x in n[1]:
            if R.random() < p: out.append(R.choice(kinds))
            out.append(sprinkle(R, x, p, kinds))
        if R.random() < p: out.append(R.choice(kinds))
        return ('seq', out)
    if k == 'alt':
        return ('alt', [sprinkle(R, x if x[0] == 'seq' else ('seq', [x]), p, kinds) for x in n[1]])
    return n


def rnd_lexer(R, name, feat):
    """feat: set of {'ng','modes','acts','preds','cmds'}"""
    opts = dict(alpha=ALPH if R.random() < .8 else ALPH + [0xE9, 0x306F, 0x1F600], ng=0.35 if 'ng' in feat else 0.0)
    env = {}
    frags, rules = [], []
    for i in range(R.randint(0, 2)):
        b = rnd_node(R, 1, frags, env, opts)
        nm = 'f%d' % i
        env[nm] = nullable(b, env)
        frags.append(nm)
        rules.append((nm, b))
    nm = 2 if 'modes' in feat else 1
    for m in range(nm):
        for i in range(R.randint(2, 4)):
            while True:
                b = rnd_node(R, R.randint(1, 3), frags, env, opts)
                if not nullable(b, env):
                    break
            if b[0] != 'seq':
                b = ('seq', [b])
            if 'acts' in feat and R.random() < .8:
                b = sprinkle(R, b, .35, [act(0), act(0), act(1), act(2), act(7), act(8), act(3), act(4), act(11), act(12)])
            if 'preds' in feat and R.random() < .7:
                b = sprinkle(R, b, .3, [pred(0), pred(1), pred(2), pred(3), pred(4), pred(5)])
            tail = []
            if 'cmds' in feat and R.random() < .5:
                tail.append(R.choice([cmd(SKIP), cmd(MORE), cmd(TYPE, 20), cmd(CHANNEL, 2), cmd(CHANNEL, 1)]))
            if nm > 1 and R.random() < .6:
                tail.append(R.choice([cmd(PUSH, 1), cmd(PUSH, 0), cmd(POP), cmd(MODE, 0), cmd(MODE, 1)]))
            rules.append(('R%d_%d' % (m, i), ('seq', b[1] + tail), m))
    return lexer(name, rules, nm), ''.join(chr(c) for c in opts['alpha'])
