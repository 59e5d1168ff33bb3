"""C29: how recognizers use their input streams."""
from lib import *
import c_lex, c_parse
from c_parse import *


def lexers(ck, R):
    gs = c_lex.handmade() + c_lex.rnds(R, scale(60, 500), [set(), {'ng'}, {'cmds'}, {'acts'}, {'preds', 'acts'}, {'modes', 'cmds'}, {'ng', 'modes', 'cmds', 'acts', 'preds'}])
    cases = c_lex.gen_cases(R, gs, scale(12, 60), scale(12, 40), (1, 9), fac='common', enc='mon')
    by = {}
    for i, c in enumerate(cases):
        by.setdefault(c['g'], []).append(i)
    parts = [[] for _ in range(NCPU)]
    for g, ix in sorted(by.items(), key=lambda kv: -len(kv[1])):
        min(parts, key=len).extend(ix)
    parts = [p for p in parts if p]
    jobs = [dict(gs=[dict(serial=g.serial()) for g, _ in gs], cases=[{'g': cases[i]['g'], 'in': cases[i]['w'], 'enc': 'mon', 'fac': 'common'} for i in p]) for p in parts]
    uses, aheads = [], []
    for p, (res, crash) in zip(parts, run_harness_par('lex', jobs, 'c29l')):
        if crash:
            c = cases[p[crash[0] or 0]]
            ck.violation('lexer %s on grammar %s, input %r' % (crash[1], gs[c['g']][0].name, ''.join(map(chr, c['w']))), dict(case=c, grammar=gs[c['g']][0].json()))
            continue
        for i, r in zip(p, res):
            c = cases[i]
            seen = []
            for k in ('cold', 'warm', 'again'):
                ck.cov['evaluations'] += 1
                ev = r[k]
                if ev and ev[0][0] == 'panic':
                    ck.violation('lexer of grammar %s panicked on input %r: %s' % (gs[c['g']][0].name, ''.join(map(chr, c['w'])), ev[0][1][:200]), dict(case=c, grammar=gs[c['g']][0].json()))
                    continue
                if ev in seen:
                    continue
                seen.append(ev)
                # offsets are positions: the stream is over code points
                base = dict(g=c['g'], w=c['w'], off=list(range(len(c['w']) + 1)), id=i, run=k, cls=0)
                uses.append(dict(base, kind='lexer', valid=1, first=0, use=[e for e in ev if e[0] == 'use'][0][1]))
                aheads.append(dict(base, far=[e[1] for e in ev if e[0] == 'far']))
    gp = write_json('c29l.g.json', [g.json() for g, _ in gs])
    for mod, cs in (('StreamUse', uses), ('LexAhead', aheads)):
        t = tlc(mod, envv=dict(GRAMMARS=gp, CASES=write_nd('c29l%s.c.ndjson' % mod, cs)), tag='c29l' + mod, timeout=800)
        ck.add_tlc(t)
        if t.ok:
            ck.cov['traces_validated_against_impl'] += len(cs)
            continue
        c = cs[int(t.var('ci')) - 1]
        ck.violation('%s: lexer of grammar %s on input %r: %s' % (','.join(t.violated), gs[c['g']][0].name, ''.join(map(chr, c['w'])),
                     json.dumps(c['use'][:int(t.var('at')) - 1][-8:] if mod == 'StreamUse' else c['far'])), dict(case=c, grammar=gs[c['g']][0].json(), state=t.last_state()[-2000:]))
    ck.notes.append('%d lexer grammars, %d sessions' % (len(gs), len(uses)))
    return len(uses)


def c29(ck):
    R = random.Random(SEED * 7919 + 29)
    n = lexers(ck, R)
    gs = grammars(R, scale(80, 600), lrp=.35, ng=.15, preds=.15) + special() + opened(R, scale(25, 150)) + [lrmix(R, 'mix%d' % i) for i in range(scale(12, 80))]
    cases = mixed(R, gs, scale(10, 40), ('start', 'hid', 'lis', 'tree', 'bail'), damaged=.6, preds=True)
    for c in cases:
        c['stream'] = 3
    recs = nopanic_report(ck, gs, run(ck, gs, cases, 'c29'))
    cs = []
    for r in recs:
        vis = [i for i, t in enumerate(r['toks']) if t[1] == 0] + [len(r['toks'])]
        cs.append(dict(g=r['g'], w=toks_of(r), kind='parser', valid=int(not errs(r) and r['ev'][-1][1] == 'ok'), first=vis[0], use=r['use']))
    judge(ck, gs, 'StreamUse', cs, 'c29u', describe=lambda c: 'grammar %s, tokens %s: calls %s' % (gs[c['g']].name, c['w'], json.dumps(c['use'])[:900]))
    keep = pick(R, [r for r in recs if cost(gs[r['g']], toks_of(r), 50) <= 50], scale(12, 60))
    validate(ck, gs, keep, 'c29s', kinds=('far', 'p'), tree=False, what='lookahead of a parse')
    # a window that keeps only what is marked is enough for a parse (messages that quote the input apart)
    win = []
    for i, c in enumerate(pick(R, cases, 10 ** 6) if False else cases):
        if any(t[1] for t in c['toks']) or c['lis']:
            continue
        win += [dict(c, stream=1, grp=i), dict(c, stream=2, grp=i)]
    wr = run(ck, gs, win, 'c29w')
    grp = [g for g in groups_of(wr) if len(g) == 2 and not any(e[1] == 'noalt' for e in errs(g[0]))]
    nopanic_report(ck, gs, [x for g in grp for x in g], 'parse from a bounded window')
    relate(ck, gs, 'same', [g for g in grp if len(nopanic(g)) == 2], 'c29w')
    ck.cov['distinct_nontrivial'] = n + len(cs) + len(grp)
    ck.sample(dict(grammar=gs[cs[0]['g']].name, tokens=cs[0]['w'], calls=cs[0]['use'][:12]))
    ck.notes.append('%d parser grammars, %d parses with every stream call recorded, the lookahead of %d compared with the specification, %d parses from a window that keeps only what is marked' % (len(gs), len(cs), len(keep), len(grp)))
