"""C10: the real ATN deserializer against spec/AtnFormat.tla."""
import copy
from lib import *
from c_lex import scale
import lexgen, parsegen
from atn import *

REV = [UUID_BASE, UUID_PREC, UUID_OLD, UUID_SMP]


def uuid_words(u):
    b = bytes.fromhex(u.replace('-', ''))
    return [int.from_bytes(b[i:i + 2], 'big') for i in range(0, 16, 2)][::-1]


def probes(g):
    p = {-1, 0, 1, 2, 96, 97, 98, 99, 100, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF}
    for s in g.st:
        for t in s['tr']:
            for lo, hi in t.get('set', []):
                p |= {lo, hi, lo - 1, hi + 1, (lo + hi) // 2}
    return sorted(x for x in p if -1 <= x <= 0x10FFFF)


def extra():
    """symbols that are special in the encoding"""
    L = []
    syms = [0, 1, 0xD7FD, 0xD7FE, 0xD7FF, 0xD800, 0xDFFD, 0xDFFE, 0xDFFF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF]
    rs = [('R%d' % i, ('t', s)) for i, s in enumerate(syms)]
    rs += [('S', ('s', [(0xD7F0, 0xE001), (0xFFFE, 0xFFFF)])), ('N', ('n', [(0, 5), (0xFFFF, 0x10000), (0x1F600, 0x10FFFF)])), ('Q', ('r', 0xFFFE, 0xFFFF)), ('Q2', ('r', 0, 0xFFFF)),
           ('E', ('s', [(-1, -1), (97, 98)])), ('E2', ('s', [(-1, -1)])), ('W', ('s', [(0xFFFF, 0x10000), (0x10FFFF, 0x10FFFF)])), ('X', ('n', [(-1, -1), (0x10000, 0x1FFFF)])),
           ('EO', ('seq', [('t', 97), ('eof',)]))]
    g = lexgen.lexer('syms', rs)
    for r in g.rules[-2:]:
        r['tok'] = 0xFFFF
    L.append(g)
    L.append(lexgen.lexer('manyacts', [('A', lexgen.seq(lexgen.t('a'), lexgen.cmd(TYPE, 0xFFFE), lexgen.cmd(CHANNEL, 300))), ('B', lexgen.seq(lexgen.t('b'), lexgen.act(5), lexgen.act(0), lexgen.cmd(MORE)))]))
    big = parsegen.parser('manyrules', [('s', parsegen.seq(*[parsegen.r('q%d' % i) for i in range(40)], parsegen.EOFT))] + [('q%d' % i, parsegen.alt(parsegen.T(i + 1), parsegen.T(300 + i))) for i in range(40)], 400)
    L.append(big)
    L.append(parsegen.parser('predp', [('s', parsegen.seq(parsegen.alt(parsegen.seq(parsegen.pred(3, 1), parsegen.T(1)), parsegen.seq(parsegen.pred(0), parsegen.act(), parsegen.T(2))), parsegen.act(7), parsegen.EOFT))], 3))
    L += large()
    return L


def large():
    """numbers that need more than one byte: states, rules, decisions, modes, token types, sets, actions"""
    P, X = parsegen, lexgen
    NP, NL, NM = scale((84, 48, 40), (290, 290, 280))
    rs = [('s', P.seq(*[P.r('r%d' % i) for i in range(NP)], P.EOFT))]
    for i in range(NP):
        a, b = P.T(i + 1), P.T(600 + i)
        k = i % 6
        if k == 0:
            rs.append(('r%d' % i, P.seq(P.star(P.alt(a, b), i % 4 == 0), P.T(300))))
        elif k == 1:
            rs.append(('r%d' % i, P.seq(P.plus(a, i % 4 == 1), P.opt(b, i % 3 == 0))))
        elif k == 2:
            rs.append(('r%d' % i, P.alt(a, P.seq(P.r('r%d' % i), b, P.r('r%d' % i)))))
        elif k == 3:
            rs.append(('r%d' % i, P.seq(P.pred(i, i % 2), a, P.act(i))))
        elif k == 4:
            rs.append(('r%d' % i, P.seq(('s', [(-1, -1)] * (i % 3 == 0) + [(j * 3 + 1, j * 3 + 1 + j % 2) for j in range(i % 40 + 4)]), ('n', [(1, 1), (4, 9), (300, 400), (500, 501)]))))
        else:
            rs.append(('r%d' % i, P.seq(P.opt(P.r('r%d' % ((i + 1) % NP))), a)))
    L = [P.parser('largep', rs, 1000)]
    ls = []
    for i in range(NL):
        c = X.seq(('t', 0x4E00 + i), X.star(('any',), i % 2 == 0), ('t', 0x5E00 + i))
        k = i % 5
        if k == 0:
            c = X.seq(c, X.act(i), X.cmd(X.PUSH, i % NM))
        elif k == 1:
            c = X.seq(c, X.cmd(X.TYPE, 700 + i), X.cmd(X.CHANNEL, 256 + i))
        elif k == 2:
            c = X.seq(c, X.pred(i), ('s', [(-1, -1)] * (i % 2) + [(0x10000 * (j + 1) + i, 0x10000 * (j + 1) + i + j) for j in range(6)]))
        elif k == 3:
            c = X.seq(c, X.cmd(X.MODE, i % NM), ('n', [(97 + 5 * j, 98 + 5 * j) for j in range(i % 30 + 1)]))
        ls.append(('L%d' % i, c, i % NM))
    L.append(X.lexer('largel', ls, NM))
    return L


def permuted(R, g, holes):
    """the same automaton with its states numbered differently, and placeholders for removed states in between"""
    n = len(g.st) + holes
    order = list(range(n))
    R.shuffle(order)
    m = {i: order[i] for i in range(len(g.st))}
    h = copy.deepcopy(g)
    st = [dict(t=0, r=-1, tr=[], end=-1, lb=-1, ng=0, prec=0) for _ in range(n)]
    for i, s in enumerate(h.st):
        s = dict(s)
        for k in ('end', 'lb'):
            if s[k] >= 0:
                s[k] = m[s[k]]
        for t in s['tr']:
            t['to'] = m[t['to']]
            if 'fol' in t:
                t['fol'] = m[t['fol']]
        st[m[i]] = s
    h.st = st
    h.rstart = [m[x] for x in h.rstart]
    h.rstop = [m[x] for x in h.rstop]
    h.modes = [m[x] for x in h.modes]
    h.decisions = [m[x] for x in h.decisions]
    return h


def c10(ck):
    R = random.Random(SEED * 31337 + 10)
    gs = [g for g, _ in lexgen.handmade()] + parsegen.handmade() + extra()
    for i in range(scale(60, 600)):
        gs.append(parsegen.rnd_parser(R, 'p%d' % i, preds=.3))
        gs.append(lexgen.rnd_lexer(R, 'l%d' % i, {'cmds', 'acts', 'modes', 'preds', 'ng'})[0])
    cases = []

    def case(g, ser, good, what):
        cases.append(dict(name=g.name, what=what, serial=ser, probes=probes(g), good=good))
    for g in gs:
        case(g, g.serial(), 1, 'current revision')
        if g.name in ('largep', 'largel') and not THOROUGH:
            continue
        p = permuted(R, g, R.choice([0, 0, 1, 3]))
        case(g, p.serial(), 1, 'renumbered states')
        wide = any(h > 0xFFFF for s in g.st for t in s['tr'] if t['k'] in ('set', 'nset') and t['x'] in ('set', 'nset') for _, h in t['set'])
        if not wide:
            case(g, g.serial(UUID_OLD), 1, 'revision 3')
            if not any(t['k'] == 'prec' for s in g.st for t in s['tr']):
                case(g, g.serial(UUID_BASE), 1, 'revision 1')
            case(g, g.serial(UUID_PREC), 1, 'revision 2')
    # refusals
    small = [g for g in gs if len(g.st) < 30][:scale(6, 20)]
    for g in small:
        s = g.serial()
        for v in (0, 1, 2, 4, 5, 0x33):
            case(g, [v] + s[1:], 0, 'version %d' % v)
        for k in range(1, 9):
            x = list(s)
            x[k] ^= 1 << R.randint(0, 7)
            case(g, x, 0, 'identifier')
        x = list(s)
        x[9] = 2 + 2
        case(g, x, 0, 'grammar kind')
        x = list(s)
        x[12] = 13 + 2
        case(g, x, 0, 'state kind')
        for k in range(0, len(s), 1 if THOROUGH else 3):
            case(g, s[:k], 0, 'truncated at %d' % k)
    ck.notes.append('serialized forms of hand-written and random lexer and parser automata, in every revision, with renumbered and removed states, special symbols; corrupted headers and truncations')
    n = NCPU
    parts = [list(range(i, len(cases), n)) for i in range(n)]
    outs = run_harness_par('atn', [dict(cases=[cases[i] for i in p]) for p in parts], 'c10')
    recs = []
    for p, (res, crash) in zip(parts, outs):
        if crash:
            c = cases[p[crash[0] or 0]]
            ck.violation('deserializer %s on %s (%s)' % (crash[1], c['name'], c['what']), c)
            continue
        for i, r in zip(p, res):
            recs.append(dict(cases[i], **r))
            ck.cov['evaluations'] += 1
    ck.cov['distinct_nontrivial'] = len(set(tuple(r['serial']) for r in recs if r['good']))
    ck.sample(dict(name=recs[0]['name'], what=recs[0]['what'], words=len(recs[0]['serial'])))
    ck.sample(dict(name=recs[-1]['name'], what=recs[-1]['what'], words=len(recs[-1]['serial'])))
    cp = write_nd('c10.c.ndjson', recs)
    up = write_json('c10.u.json', [uuid_words(u) for u in REV])
    t = tlc('AtnTrace', envv=dict(CASES=cp, UUIDS=up), tag='c10', timeout=800)
    ck.add_tlc(t)
    if t.ok:
        ck.cov['traces_validated_against_impl'] += len(recs)
        return
    c = recs[int(t.var('ci')) - 1]
    if 'Conforms' not in t.violated:
        raise ToolError('specification and generator disagree on %s (%s)' % (c['name'], c['what']))
    ck.violation('serialized automaton %s (%s) is decoded differently from the format (%s)' % (c['name'], c['what'], 'refused' if c['refused'] else 'decoded'), dict(case=c))
