"""C16: recognizers on shared caches, many threads at once; the protocol itself in spec/DfaCache.tla."""
from lib import *
import lexgen
from parsegen import *
from c_parse import case, cheap, gjson, hjson, mutate, relate, rnd_pv, scale, sentence, with_acts, words, depth_for, toks_of, validate, cost, pick

MC = """SPECIFICATION Spec
CONSTANTS Threads = {%s}
 Jobs <- McJobs
 Protocol = "%s"
 %s
%s
INVARIANTS CacheIsRight NoTwins AsIfAlone Exclusive
PROPERTIES Grows %s
"""


def protocol(ck):
    """the locking protocol, exhaustively"""
    def cfg(n, proto, sym, live):
        ts = ['t%d' % i for i in range(1, n + 1)]
        return MC % (', '.join(ts), proto, ' '.join('%s = %s' % (t, t) for t in ts), 'SYMMETRY McSym' if sym else '', 'Ends' if live else '')
    runs = [(2, False, True), (3, True, False)] + ([(3, False, True), (4, True, False)] if THOROUGH else [])
    for n, sym, live in runs:
        t = tlc('DfaCacheMC', tag='c16mc%d' % n, cfgtext=cfg(n, 'upgrade', sym, live), timeout=3000)
        ck.add_tlc(t)
        if not t.ok:
            ck.violation('the locking protocol, %d threads: %s' % (n, t.violated), dict(state=t.last_state()[-3000:]))
            return
    # the invariants tell a broken protocol from a right one
    t = tlc('DfaCacheMC', tag='c16neg', cfgtext=cfg(2, 'stale', False, False))
    if t.ok:
        raise ToolError('the model of the caches does not see places chosen before the lock is held')


def rounds(R, lg, gs, nr, nthr, nitem):
    out = []
    for _ in range(nr):
        lx = R.sample(range(len(lg)), R.choice([1, 1, 2]))
        ps = R.sample(range(len(gs)), R.choice([1, 1, 2]))
        pool = []
        pipes = {}
        for k in range(nitem * 3):
            kind = R.random()
            if kind < .3:
                i = R.randrange(len(lx))
                w = [ord(R.choice(lg[lx[i]][1])) for _ in range(R.randint(1, 14))]
                enc = R.choice(['str', 'box', 'u32'])
                pool.append({'k': 'l', 'lg': i, 'in': w, 'enc': enc, 'fac': R.choice(['common', 'owning'])})
                continue
            i = R.randrange(len(ps))
            g = gs[ps[i]]
            w = sentence(R, g, 0, fuel=R.choice([6, 15, 30]))
            if w is None:
                continue
            w = cheap(g, w[:24], 300)
            if R.random() < .4:
                w = cheap(g, mutate(R, w, g.maxtok), 300)
            kw = dict(mode=R.choice([0, 0, 0, 1, 2]), tree=R.choice([1, 1, 0]), x=R.choice([0, 0, 1]), bail=R.choice([0, 0, 0, 1]), lis=R.choice([0, 1]), pv=rnd_pv(R))
            if kind < .85:
                if R.random() < .2: kw['start'] = R.randrange(len(g.json()['rules']))
                pool.append(dict(case(i, w, stream=R.choice([0, 0, 1]), **kw), k='p'))
            else:
                # tokens from a lexer, so that the parser's predictions run the lexer
                pool.append(dict(case(i, [], **kw), **{'k': 'q', 'lg': len(lx), 'in': [96 + x for x in w]}))
        if not pool:
            continue
        pool = R.sample(pool, min(len(pool), nitem))
        same = R.random() < .5
        thr = []
        for t in range(nthr):
            q = list(pool)
            if not same:
                R.shuffle(q)
                q = q[:max(1, len(q) * 2 // 3)]
            thr.append(q)
        out.append(dict(lx=lx + [len(lg)], ps=ps, thr=thr, seed=R.getrandbits(40)))
    return out


def letters(n):
    """a lexer whose k-th rule is the k-th letter"""
    return lexgen.lexer('letters', [('T%d' % k, ('seq', [('t', 96 + k), ('star', ('t', 122))] if k % 2 else [('t', 96 + k)])) for k in range(1, n + 1)])


def c16(ck):
    R = random.Random(SEED * 7919 + 16)
    protocol(ck)
    lg = lexgen.handmade() + [lexgen.rnd_lexer(R, 'rl%d' % i, set(R.sample(['ng', 'modes', 'acts', 'preds', 'cmds'], 2))) for i in range(scale(10, 40))]
    gs = special() + handmade() + predhand() + [rnd_parser(R, 'rnd%d' % i, lrp=.4, ng=.1, preds=R.choice([0, 0, .4])) for i in range(scale(40, 300))]
    lx = [g.serial() for g, _ in lg] + [letters(8).serial()]
    nproc = scale(4, 6)
    rs = rounds(R, lg, gs, scale(260, 4000), 8, 7)
    jobs = [dict(lx=lx, grammars=[hjson(g) for g in gs], rounds=rs[i::nproc]) for i in range(nproc)]
    outs = run_harness_par('threads', jobs, 'c16', timeout=scale(300, 3000), stall=40)
    groups, caches, where = [], [], []
    for j, (res, crash) in zip(jobs, outs):
        if crash:
            r = j['rounds'][crash[0] or 0]
            ck.violation('recognizers on shared caches (grammars %s, lexers %s): %s' % ([gs[i].name for i in r['ps']], r['lx'], crash[1]), dict(round=r))
            continue
        for r, o in zip(j['rounds'], res):
            for t, items in enumerate(r['thr']):
                for k, c in enumerate(items):
                    runs = [dict(o[ph][t][k]) for ph in ('solo', 'con', 'after')]
                    for x in runs:
                        if any(e[0] == 'panic' for e in x['ev']):
                            ck.violation('a recognizer on shared caches panicked: %s' % x['ev'], dict(round=r, thread=t, item=c))
                            return
                    ck.cov['evaluations'] += 3
                    groups.append(dict(kind='same', g=0, round=len(caches), item=c, what='%s %s' % (c['k'], gs[r['ps'][c['g']]].name if 'g' in c else lg[r['lx'][c['lg']]][0].name),
                                       runs=[dict(mode=0, bail=0, tree=1, err=0, ev=x['ev'], t=x['tree']) for x in runs]))
            for gi, (a, b) in enumerate(zip(o['dcon'], o['dseq'])):
                for d, (x, y) in enumerate(zip(a, b)):
                    if x['st'] and (len(x['st']) > 2 or len(y['st']) > 2):
                        caches.append(dict(a=x, b=y, gram=gi, d=d, lx=r['lx'], ps=r['ps']))
    # runs that are textually the same need not be read by TLC more than once
    seen, slim = set(), []
    for c in groups:
        h = json.dumps(c['runs'], sort_keys=True)
        if h not in seen:
            seen.add(h)
            slim.append({k: v for k, v in c.items() if k not in ('item',)})
    t = tlc('ParserRel', envv=dict(CASES=write_nd('c16.c.ndjson', slim)), tag='c16')
    ck.add_tlc(t)
    if not t.ok:
        c = slim[int(t.var('ci')) - 1]
        ck.violation('%s gives another result on shared caches: alone %s, with others %s, afterwards %s' % ((c['what'],) + tuple(json.dumps(r['ev'])[:300] for r in c['runs'])), dict(case=c))
    t = tlc('CacheSame', envv=dict(CASES=write_nd('c16d.c.ndjson', caches)), tag='c16d')
    ck.add_tlc(t)
    if not t.ok:
        c = caches[int(t.var('ci')) - 1]
        ck.violation('cache of decision %d differs from the one filled in sequence' % c['d'], dict(case=c))
    ck.cov['traces_validated_against_impl'] += len(groups) + len(caches)
    ck.cov['distinct_nontrivial'] = len(slim)
    ck.sample(dict(round=dict(lexers=rs[0]['lx'], parsers=rs[0]['ps'], first_thread=[c.get('in') or toks_of(c) for c in rs[0]['thr'][0]])))
    ck.notes.append('locking protocol of the caches, every interleaving of 2 and 3 threads; %d rounds of 8 threads on freshly decoded automata (lexers, parsers, parsers reading from lexers), %d runs compared alone, concurrent and afterwards, %d caches compared with the ones filled in sequence' % (len(rs), len(groups), len(caches)))
