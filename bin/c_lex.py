"""Lexer properties: real lexer sessions over generated grammars and inputs, validated against spec/Lexer.tla."""
import itertools
from lib import *
from lexgen import *

NAME = {'A': {'kw', 'prio2', 'back', 'comment', 'comment2', 'ngplus', 'ngopt', 'ngopt2', 'ngalt', 'frag', 'nest', 'sets', 'uni', 'edge', 'edge2', 'e127', 'eof', 'eof3', 'eofp', 'eofonly', 'eofeof',
              'wide', 'rangeovl', 'ngtwo', 'tie'},
        'B': {'err', 'err2', 'back', 'comment', 'eof', 'eof3', 'eofp', 'eofonly', 'eofeof', 'cmds', 'more', 'lines', 'errmode', 'popempty', 'kw', 'uni', 'acts6', 'errmore', 'prio2'},
        'C': {'lines', 'more', 'err', 'err2', 'comment', 'pred3', 'eof3', 'crlf', 'errmore', 'cmds', 'acts2'},
        'D': {'cmds', 'more', 'modes', 'popempty', 'acts', 'acts2', 'acts3', 'acts4', 'acts5', 'acts6', 'acts7', 'acts8', 'acts9', 'acttext', 'eofp', 'eofeof', 'pred', 'pred2', 'pred3', 'pred4', 'errmode',
              'errmore', 'modes2', 'actmode'}}


def off_of(enc, w):
    o = [0]
    for c in w:
        o.append(o[-1] + (len(chr(c).encode()) if enc in ('str', 'box') else 1))
    return o


FACS = {'str': ['common', 'owning', 'arenac', 'arenao'], 'box': ['common', 'owning'], 'u8': ['common', 'owning'], 'u16': ['common', 'arenao'],
        'u32': ['common', 'owning', 'arenac']}


def encs(w):
    m = max(w) if w else 0
    return ['str', 'box', 'u32'] + (['u16'] if m < 65536 else []) + (['u8'] if m < 256 else [])


def words(al, n):
    for k in range(n + 1):
        yield from (list(p) for p in itertools.product(al, repeat=k))


def word_depth(al, budget):
    k, tot = 0, 1
    while tot + len(al) ** (k + 1) <= budget:
        k += 1
        tot += len(al) ** k
    return k


def gen_cases(R, gs, exh, rnd, lens, fac=None, enc=None):
    """exh = budget of exhaustively enumerated words per grammar; rnd = number of random words"""
    cases = []
    for gi, (g, al) in enumerate(gs):
        al = [ord(c) for c in al]
        ws = list(words(al, word_depth(al, exh))) if exh else []
        for _ in range(rnd):
            ws.append([R.choice(al) for _ in range(R.randint(*lens))])
        for i, w in enumerate(ws):
            e = enc or R.choice(encs(w))
            if isinstance(e, (list, tuple)):
                e = R.choice([x for x in encs(w) if x in e])
            f = fac or R.choice(FACS[e])
            cases.append(dict(g=gi, w=w, enc=e, fac=f))
    R.shuffle(cases)
    return cases


def validate(ck, gs, cases, tag, runs=('cold', 'warm', 'again'), props=('Progress',)):
    """run the real lexer on the cases and check every recorded session against Lexer.tla"""
    n = NCPU
    # a grammar's cases stay together so that its caches are shared by all of them
    by = {}
    for i, c in enumerate(cases):
        by.setdefault(c['g'], []).append(i)
    parts = [[] for _ in range(n)]
    for g, ix in sorted(by.items(), key=lambda kv: -len(kv[1])):
        min(parts, key=len).extend(ix)
    parts = [p for p in parts if p]
    jobs = [dict(gs=[dict(serial=g.serial()) for g, _ in gs],
                 cases=[{'g': cases[i]['g'], 'in': cases[i]['w'], 'enc': cases[i]['enc'], 'fac': cases[i]['fac']} for i in p]) for p in parts]
    outs = run_harness_par('lex', jobs, tag)
    recs = []
    for p, (res, crash) in zip(parts, outs):
        if crash:
            c = cases[p[crash[0] or 0]]
            ck.violation('lexer %s on grammar %s, input %r (%s)' % (crash[1], gs[c['g']][0].name, ''.join(map(chr, c['w'])), c['enc']), dict(case=c, grammar=gs[c['g']][0].json()))
            continue
        for i, r in zip(p, res):
            c = cases[i]
            seen = []
            for k in runs:
                ck.cov['evaluations'] += 1
                if r[k] not in seen:
                    seen.append(r[k])
                    recs.append(dict(g=c['g'], w=c['w'], off=off_of(c['enc'], c['w']), ev=r[k], id=i, run=k, cls=gclass(gs[c['g']][0])))
            if len(c['w']) > 2 and len(r['cold']) > 2:
                ck.sample(dict(grammar=gs[c['g']][0].name, input=''.join(map(chr, c['w'])), enc=c['enc'], events=r['cold'][:4]))
    ck.cov['distinct_nontrivial'] += len(set((r['g'], tuple(r['w'])) for r in recs if r['w']))
    if not recs:
        return
    gp = write_json(tag + '.g.json', [g.json() for g, _ in gs])
    # a long case is a long chain of states: chunk so that a violation does not hide others
    cp = write_nd(tag + '.c.ndjson', recs)
    t = tlc('LexTrace', envv=dict(GRAMMARS=gp, CASES=cp), tag=tag, timeout=800)
    ck.add_tlc(t)
    if t.ok:
        ck.cov['traces_validated_against_impl'] += len(recs)
        return
    ci = int(t.var('ci'))
    c = recs[ci - 1]
    ck.violation('session of grammar %s on input %r (%s caches) is not a behaviour of Lexer.tla (%s): recorded %s' % (
        gs[c['g']][0].name, ''.join(map(chr, c['w'])), c['run'], ','.join(t.violated[:2]), json.dumps(c['ev'])[:300]),
        dict(case=c, source=cases[c['id']], grammar=gs[c['g']][0].json(), tlc=t.last_state()[:3000]))


def gclass(g):
    """1 if the declarative longest-match semantics applies: no non-greedy loops, predicates"""
    return 0 if any(s['ng'] for s in g.st) or any(t['k'] == 'pred' for s in g.st for t in s['tr']) else 1


def pick(key):
    hs = handmade()
    missing = NAME[key] - {g.name for g, _ in hs}
    assert not missing, missing
    return [(g, a) for g, a in hs if g.name in NAME[key]]


def rnds(R, n, feats):
    return [rnd_lexer(R, 'r%d' % i, feats[i % len(feats)]) for i in range(n)]


def scale(q, t):
    return t if THOROUGH else q


def c01(ck):
    R = random.Random(SEED * 7919 + 1)
    gs = pick('A') + rnds(R, scale(90, 900), [set(), {'ng'}, set(), {'ng'}])
    cases = gen_cases(R, gs, scale(60, 400), scale(12, 40), (3, 9))
    cases += [dict(g=gi, w=[R.choice([ord(x) for x in al]) for _ in range(60)], enc='str', fac='common') for gi, (g, al) in enumerate(gs)]
    ck.notes.append('hand-written grammars for every match feature plus random grammars; all words up to a bounded length and random longer ones; each with cold caches, shared caches and again')
    validate(ck, gs, cases, 'c01')


def c02(ck):
    R = random.Random(SEED * 7919 + 2)
    gs = pick('B') + rnds(R, scale(60, 700), [set(), {'cmds'}, {'ng', 'cmds'}, {'modes', 'cmds'}, {'acts', 'cmds'}])
    cases = gen_cases(R, gs, scale(80, 400), scale(15, 60), (2, 12))
    cases += [dict(g=gi, w=[R.choice([ord(x) for x in al]) for _ in range(120)], enc='str', fac='common') for gi, (g, al) in enumerate(gs)]
    ck.notes.append('grammars that leave some characters unmatched, skip, or extend tokens; every word up to a bounded length; non-trivial: input not empty')
    validate(ck, gs, cases, 'c02')


def c03(ck):
    R = random.Random(SEED * 7919 + 3)
    gs = pick('C') + rnds(R, scale(70, 700), [set(), {'cmds'}, {'ng'}, {'modes', 'cmds', 'acts'}])
    gs = [(g, al if '\n' in al else al + '\n') for g, al in gs]
    cases = gen_cases(R, gs, scale(90, 500), scale(20, 60), (3, 14))
    cases += [dict(g=gi, w=[R.choice([ord(x) for x in al] + [10]) for _ in range(90)], enc='str', fac='common') for gi, (g, al) in enumerate(gs)]
    ck.notes.append('inputs with newlines inside, between and after tokens, in errors and in continued tokens')
    validate(ck, gs, cases, 'c03')


def c04(ck):
    R = random.Random(SEED * 7919 + 4)
    gs = pick('D') + rnds(R, scale(100, 1000), [{'cmds'}, {'acts'}, {'preds', 'acts'}, {'modes', 'cmds'}, {'ng', 'modes', 'cmds', 'acts'}, {'modes', 'preds', 'acts', 'cmds'}])
    cases = gen_cases(R, gs, scale(80, 400), scale(15, 60), (3, 12))
    cases += [dict(g=gi, w=[R.choice([ord(x) for x in al]) for _ in range(60)], enc='str', fac='common') for gi, (g, al) in enumerate(gs)]
    n0 = len(gs)
    cp = cmdpairs(R, scale(20, 400))
    gs = gs + cp
    for c in gen_cases(R, cp, 0, scale(14, 40), (3, 9)):
        cases.append(dict(c, g=c['g'] + n0))
    ck.notes.append('grammars with commands, modes, custom actions (at several positions, conflicting, in fragments) and predicates over lexer-visible state')
    validate(ck, gs, cases, 'c04')


def c05(ck):
    R = random.Random(SEED * 7919 + 5)
    gs = handmade() + rnds(R, scale(60, 600), [set(), {'ng'}, {'cmds'}, {'acts'}, {'preds', 'acts'}, {'modes', 'cmds'}, {'ng', 'modes', 'cmds', 'acts', 'preds'}])
    cases = gen_cases(R, gs, scale(50, 300), scale(30, 80), (1, 10))
    ck.notes.append('many inputs, in random order and mixed encodings, through one set of shared caches per grammar; every session (cold, shared, repeated) compared with the cache-free specification')
    validate(ck, gs, cases, 'c05')
    vast(ck, R)


def vast(ck, R):
    """a mode with very many cached states, filled by many words; every word also alone on an empty cache"""
    k = scale(16, 17)
    ab = ('s', [(97, 98)])
    pre = [('P%d' % i, seq(t('d'), ('t', 100 + i % 20))) for i in range(R.randint(0, 60))]
    g = lexer('vast', pre + [('A', ('seq', [star(ab), t('a')] + [ab] * k + [t('c')])), ('B', seq(plus(ab), t('c')))])
    ws = [[R.choice([97, 98]) for _ in range(R.randint(k + 1, 40))] + [99] for _ in range(scale(12000, 40000))]
    res, crash = run_harness('lex', dict(gs=[dict(serial=g.serial())], cases=[{'g': 0, 'in': w, 'enc': 'str', 'fac': 'common'} for w in ws]), 'c05v', timeout=scale(200, 900), stall=30)
    if crash:
        ck.violation('lexer with a large cache: %s' % crash[1], dict(grammar=g.json(), word=ws[crash[0] or 0]))
        return
    toks = lambda evs: [e[:5] if e[0] == 'tok' else e for e in evs if e[0] != 'emit']
    cs = [dict(kind='same', g=0, w=w, runs=[dict(mode=0, bail=0, tree=1, err=0, ev=toks(r[p]), t=[]) for p in ('cold', 'warm', 'again')]) for w, r in zip(ws, res)]
    x = tlc('ParserRel', envv=dict(CASES=write_nd('c05v.c.ndjson', cs)), tag='c05v')
    ck.add_tlc(x)
    if not x.ok:
        c = cs[int(x.var('ci')) - 1]
        ck.violation('with a large cache the input %r gives %s, with an empty one %s' % (''.join(map(chr, c['w'])), c['runs'][1]['ev'], c['runs'][0]['ev']), dict(case=c, words=ws, grammar=g.json()))
        return
    ck.cov['traces_validated_against_impl'] += len(cs)
    ck.cov['evaluations'] += 3 * len(cs)
    ck.notes.append('one mode with tens of thousands of cached states filled by %d words, each compared with an empty cache' % len(ws))


def c25(ck):
    R = random.Random(SEED * 7919 + 25)
    hs = handmade()
    gs = hs + rnds(R, scale(30, 300), [set(), {'cmds'}, {'acts'}, {'modes', 'cmds'}])
    cases = []
    for gi, (g, al) in enumerate(gs):
        al = [ord(c) for c in al]
        ws = [[R.choice(al) for _ in range(R.randint(1, 8))] for _ in range(scale(14, 60))] + [[]]
        for w in ws:
            for e in encs(w):
                for f in FACS[e]:
                    cases.append(dict(g=gi, w=w, enc=e, fac=f))
    ck.notes.append('the same input through every input representation and token factory the runtime offers, each against the same specification behaviour')
    validate(ck, gs, cases, 'c25', runs=('cold', 'warm'))
