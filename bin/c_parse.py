"""Parser properties: real parses of generated grammars and inputs, validated against spec/ParserRun.tla."""
import itertools
from lib import *
from parsegen import *


def scale(q, t):
    return t if THOROUGH else q


def vocab(g):
    """literal and symbolic names of the tokens: some have both, some one, some none"""
    lit, sym = [None], [None]
    for t in range(1, g.maxtok + 1):
        lit.append("'%s'" % (chr(96 + t) if t <= 26 else 'l%d' % t) if t % 3 == 1 or t % 4 == 0 else None)
        sym.append(None if t % 5 == 4 and t % 3 != 1 and t % 4 else 'T%d' % t)
    return lit, sym


def names(g):
    lit, sym = vocab(g)
    return ['0'] + [lit[t] or sym[t] or str(t) for t in range(1, g.maxtok + 1)]


def gjson(g):
    """the grammar as the specification reads it"""
    j = g.json()
    j['names'] = names(g)
    return j


def hjson(g):
    """the grammar as the harness reads it"""
    j = g.json()
    lit, sym = vocab(g)
    return dict(serial=g.serial(), rules=j['rules'], rstart=j['rstart'], code=j['code'], prog=j['prog'], lit=lit, sym=sym)


TXT = ['a', 'bb', 'c\n', 'd', 'e\t', 'f', 'g', 'h']


def tok(ty, ch=0, tx=None):
    tx = tx if tx is not None else (TXT[ty - 1] if 1 <= ty <= len(TXT) else 'x')
    return [ty, ch, tx, tx.replace('\t', '\\t').replace('\n', '\\n').replace('\r', '\\r')]


def case(gi, w, hidden=None, **kw):
    """w: token types; hidden: positions before which a hidden token is put"""
    toks = []
    for i, t in enumerate(list(w) + [None]):
        if hidden and i in hidden:
            toks.append(tok(hidden[i], 1, ' \n' if i % 3 == 1 else ' '))
        if t is not None:
            toks.append(tok(t))
    c = dict(g=gi, toks=toks, mode=0, bail=0, tree=1, lis=0, lops=[], lab=0, x=0, ri=0, start=0, stream=0, pv=[], fresh=0, walk=0)
    c.update(kw)
    return c


def words(nt, n):
    for k in range(n + 1):
        yield from itertools.product(range(1, nt + 1), repeat=k)


def depth_for(nt, budget):
    k, tot = 0, 1
    while tot + nt ** (k + 1) <= budget:
        k += 1
        tot += nt ** k
    return k


# ---------------------------------------------------------------- sampling sentences of a grammar
def sentence(R, g, rule, fuel=40):
    """a random sentence of the rule (None if it got too long)"""
    out = []
    j = g._j = getattr(g, '_j', None) or g.json()
    budget = [fuel]

    class Long(Exception):
        pass

    def go(n, d):
        budget[0] -= 1
        if budget[0] < -200 or len(out) > 30:
            raise Long()
        tired = budget[0] < 0 or d > 12
        c = j['code'][n - 1]
        k = c['k']
        if k == 'tok':
            if c['t'] > 0:
                out.append(c['t'])
        elif k == 'set':
            iv = R.choice(c['iv'])
            t = R.randint(iv[0], iv[1])
            if t > 0:
                out.append(t)
        elif k == 'nset':
            ok = [t for t in range(1, g.maxtok + 1) if not any(a <= t <= b for a, b in c['iv'])]
            if not ok:
                raise Long()
            out.append(R.choice(ok))
        elif k == 'any':
            out.append(R.randint(1, g.maxtok))
        elif k == 'rule':
            rule_(c['r'], d + 1)
        elif k == 'seq':
            for x in c['ks']:
                go(x, d)
        elif k == 'alt':
            if c['o'] and (tired or R.random() < .4):
                return
            go(min(c['ks'], key=lambda x: height(j, x)) if tired else R.choice(c['ks']), d)
        elif k == 'star':
            while not tired and R.random() < .55 and budget[0] > 0:
                go(c['b'], d)
        elif k == 'plus':
            go(c['b'], d)
            while not tired and R.random() < .45 and budget[0] > 0:
                go(c['b'], d)

    def rule_(r, d):
        if d > 40:
            raise Long()
        p = j['prog'][r]
        go(p['n'], d)
        if p['lr']:
            while budget[0] > 0 and d <= 12 and R.random() < .5:
                go(R.choice(p['ks']), d)
    try:
        rule_(rule, 0)
    except (Long, RecursionError):
        return None
    return out


def height(j, n, _d=0):
    """how deep the smallest derivation of a statement goes (cut off)"""
    c = j['code'][n - 1]
    k = c['k']
    if _d > 6:
        return 9
    if k == 'rule':
        p = j['prog'][c['r']]
        return 1 + height(j, p['n'], _d + 1)
    if k == 'seq':
        return max([0] + [height(j, x, _d) for x in c['ks']])
    if k == 'alt':
        return 0 if c['o'] else min(height(j, x, _d) for x in c['ks'])
    if k == 'star':
        return 0
    if k == 'plus':
        return height(j, c['b'], _d)
    return 0


def mutate(R, w, nt):
    w = list(w)
    for _ in range(R.choice([1, 1, 1, 2, 3])):
        k = R.random()
        i = R.randint(0, len(w))
        if k < .35 and w:
            w.pop(min(i, len(w) - 1))
        elif k < .7:
            w.insert(i, R.randint(1, nt))
        elif w:
            w[min(i, len(w) - 1)] = R.randint(1, nt)
    return w


def cost(g, w, cap=400):
    """how many call stacks a simulation of w from anywhere in it may have at once (cap + 1: more than cap)"""
    j = g._j = getattr(g, '_j', None) or g.json()
    st = j['st']
    calls = {}
    for s in st:
        for t in s['tr']:
            if t['k'] == 'rule':
                calls.setdefault(t['r'], set()).add(t['fol'])

    def takes(t, x):
        inn = any(a <= x <= b for a, b in t['set']) if t['k'] in ('set', 'nset') else False
        return inn if t['k'] == 'set' else x > 0 and not inn

    def close(C):
        seen, todo = set(C), list(C)
        while todo:
            s, k = todo.pop()
            if len(seen) > 6 * cap:
                return None
            if st[s]['t'] == 7:
                nx = [(k[0], k[1:])] if k else [(f, ()) for f in calls.get(st[s]['r'], ())]
            else:
                nx = [(t['to'], (t['fol'],) + k) if t['k'] == 'rule' else (t['to'], k) for t in st[s]['tr'] if t['k'] not in ('set', 'nset', 'any')]
            for c in nx:
                if c not in seen:
                    if len(c[1]) > 60:
                        return None
                    seen.add(c)
                    todo.append(c)
        return seen
    top = 0
    for r in j['rstart']:
        for i in range(len(w)):
            C = close({(r, ())})
            for x in w[i:]:
                if C is None:
                    return cap + 1
                C = {(t['to'], k) for s, k in C for t in st[s]['tr'] if t['k'] in ('set', 'nset', 'any') and takes(t, x)}
                top = max(top, len(C))
                if top > cap:
                    return cap + 1
                if not C:
                    break
                C = close(C)
    return top


def cheap(g, w, cap=None):
    """the longest beginning of w that is cheap to simulate"""
    w = list(w)
    while w and cost(g, w, cap or scale(60, 150)) > (cap or scale(60, 150)):
        w.pop()
    return w


def extras(R, base, per, damaged=True, maxlen=200):
    """grammars with many tokens, rules and alternatives, and deep and long inputs: (grammars, [(grammar index, word, it is a sentence)])"""
    gs, ws = [], []
    for g, yes, no in deepwords():
        ws += [(base + len(gs), w, True) for w in yes if len(w) <= maxlen] + [(base + len(gs), w, False) for w in no if len(w) <= maxlen]
        gs.append(g)
    for g in wide():
        gi = base + len(gs)
        gs.append(g)
        j = 0
        while j < per:
            w = sentence(R, g, 0, fuel=R.choice([10, 30]))
            if w is None: continue
            j += 1
            ws.append((gi, w, True))
            if damaged: ws.append((gi, mutate(R, w, g.maxtok), False))
    return gs, ws


def calls_parser(R, name, **kw):
    """a grammar of many rules that call each other, not so ambiguous that a simulation has too many call stacks to follow"""
    while True:
        g = rnd_calls(R, name, **kw)
        if all(cost(g, w, 60) <= 60 for w in list(words(g.maxtok, 3)) + [[t] * 5 for t in range(1, g.maxtok + 1)]):
            return g


# ---------------------------------------------------------------- running and validating
def run(ck, gs, cases, tag, stall=30):
    """real parses; returns the cases with their recorded behaviour, in order (crashed ones dropped after being reported)"""
    by = {}
    for i, c in enumerate(cases):
        by.setdefault(c['g'], []).append(i)
    parts = [[] for _ in range(NCPU)]
    for g, ix in sorted(by.items(), key=lambda kv: -len(kv[1])):
        min(parts, key=len).extend(ix)
    parts = [p for p in parts if p]
    hj = [hjson(g) for g in gs]
    drop = ('note', 'grp')
    outs = run_harness_par('parse', [dict(grammars=hj, cases=[{k: v for k, v in cases[i].items() if k not in drop} for i in p]) for p in parts], tag, stall=stall)
    res = [None] * len(cases)
    for p, (rs, crash) in zip(parts, outs):
        if crash:
            c = cases[p[crash[0] or 0]]
            ck.violation('parser %s on grammar %s, tokens %s' % (crash[1], gs[c['g']].name, [t[0] for t in c['toks']]), dict(case=c, grammar=gjson(gs[c['g']])))
            continue
        for i, r in zip(p, rs):
            res[i] = dict(cases[i], ev=r['ev'], tree0=r['tree'], bad=r['bad'], walk0=r['walk'], q0=r['q'], elog=r['elog'], use=r['use'])
            ck.cov['evaluations'] += 1
    return [r for r in res if r is not None]


ALL = ('p', 'e', 'am', 'fc', 'cs', 'te', 'er', 'en', 'ex', 'm', 'a', 'x', 'rm', 'ri')


def slim(c):
    return {k: v for k, v in c.items() if k not in ('walk', 'fresh', 'note', 'bad', 'walk0', 'grp', 'q', 'lim', 'q0', 'eops', 'elog', 'use')}


def cfg_for(kinds, oracle, tree):
    return """SPECIFICATION Spec
CONSTANT Oracle = "%s"
CONSTANT Kinds = {%s}
CONSTANT CmpTree = %s
INVARIANT Conforms
VIEW View
CHECK_DEADLOCK FALSE
""" % (oracle, ', '.join('"%s"' % k for k in kinds), 'TRUE' if tree else 'FALSE')


def validate(ck, gs, recs, tag, kinds=ALL, oracle='sim', tree=True, timeout=800, what='parse'):
    """recorded behaviours, restricted to the given kinds of events, against ParserTrace.tla"""
    recs = [r for r in recs if r is not None]
    if not recs:
        return True
    panics(ck, gs, recs, what)
    recs = [dict(r, ev=[e for e in r['ev'] if e[0] in kinds or e[0] == 'end']) for r in recs if not any(e[0] == 'panic' for e in r['ev'])]
    gp = write_json(tag + '.g.json', [gjson(g) for g in gs])
    cp = write_nd(tag + '.c.ndjson', [slim(r) for r in recs])
    t = tlc('ParserTrace', envv=dict(GRAMS=gp, CASES=cp), tag=tag, timeout=timeout, cfgtext=cfg_for(kinds, oracle, tree))
    ck.add_tlc(t)
    if t.ok:
        ck.cov['traces_validated_against_impl'] += len(recs)
        return True
    c = recs[int(t.var('ci')) - 1]
    l = int(t.var('l') or 0)
    ck.violation('%s %s of grammar %s, tokens %s differs from the specification near event %d: %s' % (
        what, c.get('note', ''), gs[c['g']].name, [x[0] for x in c['toks']], l, json.dumps(c['ev'][max(0, l - 3):l + 2])),
        dict(case={k: v for k, v in c.items()}, grammar=gjson(gs[c['g']]), state=t.last_state()[-6000:]))
    return False


def panics(ck, gs, recs, what='parse'):
    for r in recs:
        for e in r['ev']:
            if e[0] == 'panic':
                ck.violation('%s of grammar %s, tokens %s panicked: %s' % (what, gs[r['g']].name, [x[0] for x in r['toks']], e[1][:200]),
                             dict(case={k: v for k, v in r.items()}, grammar=gjson(gs[r['g']])))
                return


def judge(ck, gs, module, cases, tag, cfg=None, describe=str, timeout=800):
    """cases (already in the form the module reads) against a module with variable ci"""
    if not cases:
        return True
    gp = write_json(tag + '.g.json', [gjson(g) for g in gs])
    cp = write_nd(tag + '.c.ndjson', cases)
    t = tlc(module, cfg, envv=dict(GRAMS=gp, CASES=cp), tag=tag, timeout=timeout)
    ck.add_tlc(t)
    if t.ok:
        ck.cov['traces_validated_against_impl'] += len(cases)
        return True
    c = cases[int(t.var('ci')) - 1]
    ck.violation('%s: %s' % (','.join(t.violated), describe(c)), dict(case=c, grammar=gjson(gs[c['g']]), state=t.last_state()[-3000:]))
    return False


def errs(r):
    return [e for e in r['ev'] if e[0] == 'e']


def ended(r):
    return bool(r['ev']) and r['ev'][-1][0] == 'end' and r['ev'][-1][1] == 'ok'


# ---------------------------------------------------------------- C11: the language
def grammars(R, nrnd, **kw):
    return handmade() + [calls_parser(R, 'cal%d' % i) if i % 4 == 3 else lrmix(R, 'mix%d' % i) if i % 12 == 5 else rnd_parser(R, 'rnd%d' % i, **kw) for i in range(nrnd)]


def toks_of(c):
    return [t[0] for t in c['toks']]


def lang_cases(R, gs, budget, nlong):
    """every word up to a length, and longer sentences, intact and damaged"""
    cases = []
    for gi, g in enumerate(gs):
        seen = set()
        for w in words(g.maxtok, depth_for(g.maxtok, budget)):
            seen.add(tuple(w))
        for _ in range(nlong):
            w = sentence(R, g, 0)
            if w is not None:
                w = cheap(g, w[:24], 400)
                seen.add(tuple(w))
                seen.add(tuple(cheap(g, mutate(R, w, g.maxtok), 400)))
        cases += [case(gi, w) for w in sorted(seen, key=lambda w: (len(w), w))]
    return cases


def c11(ck):
    R = random.Random(SEED * 7919 + 11)
    gs = grammars(R, scale(110, 700), lrp=.4, ng=.12)
    cases = lang_cases(R, gs, scale(130, 1500), scale(12, 40))
    eg, ew = extras(R, len(gs), scale(50, 400))
    gs = gs + eg
    cases += [case(gi, w) for gi, w, _ in ew] + [case(gi, w) for gi, g in enumerate(gs) if g in eg for w in words(g.maxtok, 1)]
    recs = run(ck, gs, cases, 'c11')
    panics(ck, gs, recs)
    lc = [dict(g=r['g'], w=toks_of(r), start=0, err=len(errs(r)), done=1 if ended(r) else 0, msg=[e[6] for e in errs(r)][:2]) for r in recs]
    judge(ck, gs, 'ParserLang', lc, 'c11', describe=lambda c: 'grammar %s, tokens %s: %s' % (
        gs[c['g']].name, c['w'], 'parsed without an error' if c['err'] == 0 else 'error reported: %s' % c['msg']))
    ck.cov['distinct_nontrivial'] = len(lc)
    ck.sample(dict(grammar=gs[5].name, accepted=[c['w'] for c in lc if c['g'] == 5 and c['err'] == 0][:5], rejected=[c['w'] for c in lc if c['g'] == 5 and c['err']][:5]))
    ck.notes.append('%d grammars (%d random), every word up to %d words per grammar and sampled longer sentences, intact and damaged; %d accepted' % (
        len(gs), len(gs) - len(handmade()), scale(130, 1500), sum(1 for c in lc if c['err'] == 0)))


# ---------------------------------------------------------------- C12: the tree among several
def valid_cases(R, gs, budget, nlong, cap=60, modes=(0, 0, 0, 2), **kw):
    """sentences of the grammars: all short ones (found by parsing), and sampled longer ones"""
    cases = []
    for gi, g in enumerate(gs):
        seen = set(tuple(w) for w in words(g.maxtok, depth_for(g.maxtok, budget)))
        sent = set()
        for _ in range(nlong):
            w = sentence(R, g, 0, fuel=R.choice([8, 16, 30]))
            if w is not None and len(w) <= 16 and cost(g, w, cap) <= cap:
                seen.add(tuple(w))
                sent.add(tuple(w))
        cases += [case(gi, w, note='sentence' if w in sent else '', mode=R.choice(modes), **kw) for w in sorted(seen, key=lambda w: (len(w), w))]
    return cases


def pick(R, recs, n):
    """at most n of each grammar, longer ones first, keeping the recorded order"""
    by = {}
    for i, r in enumerate(recs):
        by.setdefault(r['g'], []).append(i)
    keep = []
    for ix in by.values():
        R.shuffle(ix)
        keep += sorted(ix, key=lambda i: -len(recs[i]['toks']))[:n]
    return [recs[i] for i in sorted(keep)]


def c12(ck):
    R = random.Random(SEED * 7919 + 12)
    gs = handmade() + special() + [rnd_parser(R, 'rnd%d' % i, lrp=.25, ng=.2, nt=R.choice([2, 2, 3])) if i % 4 else calls_parser(R, 'cal%d' % i) for i in range(scale(80, 450))] + [lrmix(R, 'mix%d' % i) for i in range(scale(16, 100))]
    cases = valid_cases(R, gs, scale(130, 600), scale(10, 40))
    eg, ew = extras(R, len(gs), scale(40, 300), damaged=False)
    gs = gs + eg
    cases += [case(gi, w, note='sentence', mode=R.choice([0, 0, 2])) for gi, w, yes in ew if yes]
    recs = run(ck, gs, cases, 'c12')
    keep = pick(R, [r for r in recs if not errs(r) or r.get('note')], scale(26, 150))
    validate(ck, gs, keep, 'c12', kinds=('p', 'm'), oracle='min', what='parse of a sentence')
    ck.cov['distinct_nontrivial'] = len(keep)
    ck.sample(dict(grammar=gs[keep[0]['g']].name, tokens=toks_of(keep[0]), events=keep[0]['ev'][:12]))
    ck.notes.append('%d grammars, sentences of each (all short ones, sampled longer ones); every decision and the tree compared with the lowest viable alternative by the statements of the grammar themselves' % len(gs))


# ---------------------------------------------------------------- mixed inputs for the trace checks
def rnd_pv(R):
    return [[R.choice([0, 0, 1, 2, 3]), R.randint(0, 1) if R.random() < .5 else R.randint(1, 3)] for _ in range(4)]


def mixed(R, gs, per, opts, damaged=.7, maxlen=24, cap=None, modes=(0, 0, 2, 1), preds=False):
    """sentences and damaged sentences with random settings; opts names the settings that vary"""
    cases = []
    for gi, g in enumerate(gs):
        for _ in range(per):
            kw = dict(mode=R.choice(modes))
            start = R.randint(0, len(g.json()['rules']) - 1) if 'start' in opts and R.random() < .4 else 0
            w = sentence(R, g, start, fuel=R.choice([0, 6, 15, 30]))
            if w is None:
                continue
            kw['start'] = start
            if preds: kw['pv'] = rnd_pv(R)
            if 'lab' in opts: kw['lab'] = R.randint(0, 1)
            if 'tree' in opts: kw['tree'] = R.choice([1, 1, 1, 0])
            if 'lis' in opts: kw['lis'] = R.randint(0, 2)
            if 'x' in opts: kw['x'] = 1
            if 'bail' in opts: kw['bail'] = R.randint(0, 1)
            if 'stream' in opts: kw['stream'] = R.randint(0, 1)
            if 'hid' in opts and not kw.get('stream'):
                kw['hidden'] = {R.randint(0, max(1, len(w))): 1 for _ in range(R.randint(0, 2))}
            for _ in range(2 if R.random() < damaged else 1):
                v = cheap(g, w[:maxlen], cap)
                cases.append(case(gi, v, **kw))
                w = mutate(R, w, g.maxtok)
    return cases


# ---------------------------------------------------------------- C13: operators
def optable(R, name):
    """an expression rule whose operators are single tokens; returns (grammar, operator table)"""
    nt = R.randint(4, 7)
    used, alts, tab = [], [], []
    t = lambda: R.randint(1, nt)
    atom = t()
    par = None
    infix, prefix = set(), set()
    for _ in range(R.randint(2, 5)):
        k = R.choice(['bin', 'bin', 'bin', 'pre', 'suf', 'tern', 'sufx'])
        x, y = t(), t()
        if k == 'pre':
            if x == atom or x in prefix: continue
            prefix.add(x)
            alts.append(('pre', T(x))); tab.append(['pre', x, 0, 0])
        else:
            if x in infix: continue
            if k in ('tern', 'sufx') and (y in infix or y == x): continue
            a = R.choice(['left', 'left', 'right'])
            infix.add(x)
            if k == 'bin': alts.append(('bin', T(x), a)); tab.append(['bin', x, 0, int(a == 'right')])
            if k == 'suf': alts.append(('suf', T(x))); tab.append(['suf', x, 0, 0])
            if k == 'sufx': infix.add(y); alts.append(('suf', seq(T(x), r('e'), T(y)))); tab.append(['sufx', x, y, 0])
            if k == 'tern': infix.add(y); alts.append(('tern', T(x), T(y), a)); tab.append(['tern', x, y, int(a == 'right')])
    if not any(a[0] in ('bin', 'suf', 'tern') for a in tab):
        return optable(R, name)
    def put(a, b):
        i = R.randint(0, len(alts))
        alts.insert(i, a); tab.insert(i, b)
    put(('prim', T(atom)), ['atom', atom, 0, 0])
    x, y = t(), t()
    if R.random() < .6 and x != atom and x not in prefix and y not in infix and y != x:
        put(('prim', seq(T(x), r('e'), T(y))), ['par', x, y, 0])
    # a suffix operator that is also the first token of something could be read in two ways
    if {a[1] for a in tab if a[0] == 'suf'} & ({atom} | prefix):
        return optable(R, name)
    return parser(name, [('s', seq(r('e'), EOFT)), ('e', dict(lr=alts))], nt), tab


DEXPR = [['bin', 1, 0, 1], ['bin', 2, 0, 0], ['pre', 3, 0, 0], ['tern', 4, 5, 1], ['par', 6, 7, 0], ['atom', 8, 0, 0]]
WIDEOPS = [['bin', k, 0, int(k % 5 == 0)] for k in range(1, 36)] + [['pre', 66, 0, 0], ['atom', 67, 0, 0], ['par', 40, 68, 0]]


def c13(ck):
    R = random.Random(SEED * 7919 + 13)
    lrg = [g for g in handmade() + special() if 'lr' in g.json() and any(g.json()['lr'])]
    gs = lrg + [rnd_parser(R, 'rnd%d' % i, lrp=.9, ng=.05, nt=R.choice([2, 3, 4])) if i % 5 else calls_parser(R, 'cal%d' % i, lrp=.5) for i in range(scale(60, 350))]
    ops = [optable(R, 'ops%d' % i) for i in range(scale(80, 500))]
    tabs = [None] * len(gs) + [t for _, t in ops]
    gs = gs + [g for g, _ in ops]
    cases = valid_cases(R, gs, scale(60, 400), scale(14, 60))
    eg, ew = extras(R, len(gs), scale(40, 300), damaged=False)
    tabs += [None] * len(eg)
    gs = gs + eg
    tabs[[g.name for g in gs].index('dexpr')] = DEXPR
    tabs[[g.name for g in gs].index('wideops')] = WIDEOPS
    # operators that share tokens: the same tokens can be read in several ways
    mix = [lrmix(R, 'mix%d' % i) for i in range(scale(90, 500))]
    for gi, g in enumerate(mix, len(gs)):
        ws = set()
        for _ in range(scale(40, 100)):
            w = sentence(R, g, 0, fuel=R.choice([8, 16, 30]))
            if w is not None and len(w) <= 14: ws.add(tuple(w))
        cases += [case(gi, w, note='sentence', mode=R.choice([0, 0, 2])) for w in sorted(ws)]
    tabs += [None] * len(mix)
    gs = gs + mix
    lrn = {i for i, g in enumerate(gs) if any(g.json()['lr'])}
    cases += [case(gi, w, note='sentence', lab=R.randint(0, 1), mode=R.choice([0, 0, 2])) for gi, w, yes in ew if yes and gi in lrn]
    recs = run(ck, gs, cases, 'c13')
    panics(ck, gs, recs)
    keep = pick(R, [r for r in recs if not errs(r) or r.get('note')], scale(16, 100))
    validate(ck, gs, keep, 'c13', kinds=('p', 'm'), oracle='min', what='parse of an expression')
    # longer operator sequences, judged by the operator table alone
    long = []
    for gi, g in enumerate(gs):
        if tabs[gi]:
            for _ in range(scale(25, 120)):
                w = sentence(R, g, 0, fuel=R.choice([20, 40, 60]))
                if w and 3 <= len(w) <= 40:
                    long.append(case(gi, w, lab=R.randint(0, 1), mode=R.choice([0, 0, 1, 2]), note='sentence'))
    lrecs = run(ck, gs, long, 'c13l')
    panics(ck, gs, lrecs)
    lt = [dict(g=r['g'], w=toks_of(r), mode=r['mode'], alts=tabs[r['g']], rule=1, tree=r['tree0']) for r in recs + lrecs if tabs[r['g']] and not errs(r) and ended(r)]
    judge(ck, gs, 'LrTree', lt, 'c13t', describe=lambda c: 'operators %s, tokens %s: tree %s' % (c['alts'], c['w'], json.dumps(c['tree'])[:300]))
    ck.cov['distinct_nontrivial'] = len(keep) + len(lt)
    ck.sample(dict(operators=tabs[-1], tokens=[c['w'] for c in lt[-3:]]))
    ck.notes.append('%d grammars with left recursion; %d operator tables; %d expression trees judged by the table (operands, associativity, tightness), %d against the specification of the parser' % (
        len(gs), len(ops), len(lt), len(keep)))


# ---------------------------------------------------------------- relations between runs
def relate(ck, gs, kind, groups, tag):
    """groups of recorded runs of the same input"""
    cs = []
    for rs in groups:
        c = rs[0]
        vis = [i for i, t in enumerate(c['toks']) if c['stream'] == 1 or t[1] == 0]
        eof = len(c['toks'])
        # index of the first token the parser sees from position i on
        nxt = [min([v for v in vis if v >= i] + [eof]) for i in range(eof + 1)]
        cs.append(dict(g=c['g'], kind=kind, w=[t[0] for t in c['toks']], nxt=nxt,
                       runs=[dict(mode=r['mode'], bail=r['bail'], tree=r['tree'], err=len(errs(r)), ev=r['ev'], t=r['tree0']) for r in rs]))
    if not cs:
        return True
    return judge(ck, gs, 'ParserRel', cs, tag, describe=lambda c: 'grammar %s, tokens %s, runs differ (%s): %s' % (
        gs[c['g']].name, c['w'], kind, json.dumps([dict(mode=r['mode'], bail=r['bail'], err=r['err'], ev=r['ev'][:6]) for r in c['runs']])[:700]))


def groups_of(recs, key='grp'):
    by = {}
    for r in recs:
        by.setdefault(r[key], []).append(r)
    return list(by.values())


def nopanic(recs):
    return [r for r in recs if not any(e[0] == 'panic' for e in r['ev'])]


# ---------------------------------------------------------------- C14: caches
def c14(ck):
    R = random.Random(SEED * 7919 + 14)
    gs = special() + opened(R, scale(25, 150)) + handmade() + [rnd_parser(R, 'rnd%d' % i, lrp=.4, ng=.1, preds=R.choice([0, 0, .4])) if i % 4 else calls_parser(R, 'cal%d' % i, preds=R.choice([0, .3])) for i in range(scale(70, 450))] + [lrmix(R, 'mix%d' % i) for i in range(scale(16, 100))]
    eg, ew = extras(R, len(gs), scale(12, 60))
    gs = gs + eg
    more = {}
    for gi, w, _ in ew: more.setdefault(gi, []).append(w)
    cases = []
    grp = 0
    for gi, g in enumerate(gs):
        base = []
        j = g.json()
        has = any(c['k'] == 'pred' for c in j['code'])
        pvs = [rnd_pv(R) for _ in range(2)] if has else [[]]
        ws = [list(w) for w in words(g.maxtok, depth_for(g.maxtok, scale(20, 120)))] + more.get(gi, [])
        for _ in range(0 if gi in more else scale(10, 40)):
            w = sentence(R, g, 0, fuel=R.choice([0, 8, 20]))
            if w is not None:
                w = cheap(g, w[:24], 200)
                ws += [w, cheap(g, mutate(R, w, g.maxtok), 200)]
        for w in ws:
            base.append(dict(w=w, mode=R.choice([0, 0, 2, 1]), pv=R.choice(pvs), start=0 if R.random() < .85 else R.randint(0, len(j['rules']) - 1), grp=grp))
            grp += 1
        # alone on an empty cache, then twice in a long shared history
        for b in base:
            cases.append(case(gi, b['w'], mode=b['mode'], pv=b['pv'], start=b['start'], fresh=1, grp=b['grp']))
        for k in range(2):
            R.shuffle(base)
            for i, b in enumerate(base):
                cases.append(case(gi, b['w'], mode=b['mode'], pv=b['pv'], start=b['start'], fresh=1 if k == 0 and i == 0 else 0, grp=b['grp']))
    recs = nopanic_report(ck, gs, run(ck, gs, cases, 'c14'))
    relate(ck, gs, 'same', groups_of(recs), 'c14')
    # and what is cached is right: the last (warmest) runs against the prediction without caches
    warm = {}
    for r in recs:
        warm[r['grp']] = r
    keep = [r for r in warm.values() if cost(gs[r['g']], toks_of(r), scale(40, 120)) <= scale(40, 120)]
    keep = pick(R, keep, scale(9, 60))
    validate(ck, gs, keep, 'c14s', kinds=('p', 'm', 'e'), what='parse on a warm cache')
    ck.cov['distinct_nontrivial'] = len(recs)
    ck.sample(dict(grammar=gs[0].name, inputs=[toks_of(r) for r in recs[:5]]))
    ck.notes.append('%d grammars; %d inputs each parsed on an empty cache and twice in shuffled shared histories mixing inputs, modes, start rules and predicate values; %d warm runs against the cache-free specification' % (len(gs), grp, len(keep)))


def nopanic_report(ck, gs, recs, what='parse'):
    panics(ck, gs, recs, what)
    return nopanic(recs)


# ---------------------------------------------------------------- C15: modes
def c15(ck):
    R = random.Random(SEED * 7919 + 15)
    gs = grammars(R, scale(110, 700), lrp=.35, ng=.12) + special()
    eg, ew = extras(R, len(gs), scale(20, 100))
    gs = gs + eg
    more = {}
    for gi, w, _ in ew: more.setdefault(gi, []).append(w)
    cases = []
    grp = 0
    for gi, g in enumerate(gs):
        ws = [list(w) for w in words(g.maxtok, depth_for(g.maxtok, scale(60, 500)))] + more.get(gi, [])
        for _ in range(0 if gi in more else scale(12, 50)):
            w = sentence(R, g, 0, fuel=R.choice([0, 8, 20, 35]))
            if w is not None:
                ws += [cheap(g, w[:30], 300), cheap(g, mutate(R, w[:30], g.maxtok), 300)]
        for w in ws:
            hid = {R.randint(0, max(1, len(w))): 1} if R.random() < .2 else None
            for m in (1, 0, 2):
                cases.append(case(gi, w, mode=m, hidden=hid, grp=grp))
            grp += 1
    recs = nopanic_report(ck, gs, run(ck, gs, cases, 'c15'))
    relate(ck, gs, 'modes', groups_of(recs), 'c15')
    model_modes(ck, R)
    sll = sum(1 for r in recs if r['mode'] == 1 and not errs(r))
    ll = sum(1 for r in recs if r['mode'] == 0 and not errs(r))
    ck.cov['distinct_nontrivial'] = grp
    ck.notes.append('%d grammars, %d inputs in all three modes; %d accepted context-insensitively, %d with full context' % (len(gs), grp, sll, ll))
    ck.sample(dict(rejected_by_sll_only=[[gs[a['g']].name, toks_of(a)] for a, b in zip(recs, recs[1:]) if a['mode'] == 1 and b['grp'] == a['grp'] and errs(a) and not errs(b)][:4]))


def model_modes(ck, R):
    pass


# ---------------------------------------------------------------- C17: expected tokens
def c17(ck):
    R = random.Random(SEED * 7919 + 17)
    gs = grammars(R, scale(160, 900), lrp=.35, ng=.15) + special() + wide()
    cs = []
    for gi, g in enumerate(gs):
        j = g.json()
        st = j['st']
        calls = {}
        for i, x in enumerate(st):
            for t in x['tr']:
                if t['k'] == 'rule':
                    calls.setdefault(t['r'], []).append(i)
        q = []
        for _ in range(scale(40, 150)):
            s = R.randint(0, len(st) - 1)
            k, rr = [], st[s]['r']
            while rr in calls and len(k) < 8 and R.random() < .8:
                c = R.choice(calls[rr])
                k.append(c)
                rr = st[c]['r']
            q.append([s, k])
        cs.append(dict(g=gi, states=list(range(len(st))), q=q))
    hj = [hjson(g) for g in gs]
    res, crash = run_harness('nexts', dict(grammars=hj, cases=cs), 'c17n')
    if crash:
        ck.violation('expected tokens: %s' % crash[1], dict(case=cs[crash[0] or 0]))
        return
    for c, o in zip(cs, res):
        if isinstance(o, list):
            ck.violation('expected tokens of grammar %s: %s' % (gs[c['g']].name, o), dict(case=c, grammar=gjson(gs[c['g']])))
            return
        c.update(local=o['local'], a=o['q'])
        ck.cov['evaluations'] += len(c['q']) + len(c['states'])
    judge(ck, gs, 'ExpTok', cs, 'c17', describe=lambda c: 'expected tokens in grammar %s' % gs[c['g']].name)
    # the sets reported during parses, before every match and decision and in every error
    sub = pick_grammars(R, gs, scale(90, 400))
    recs = run(ck, sub, mixed(R, sub, scale(5, 20), ('x', 'start', 'lab', 'stream', 'hid')), 'c17p')
    validate(ck, sub, recs, 'c17p', kinds=('x', 'e', 'm'), tree=False, what='expected tokens in a parse')
    ck.cov['distinct_nontrivial'] = sum(len(c['q']) + len(c['states']) for c in cs)
    ck.sample(dict(grammar=gs[3].name, queries=cs[3]['q'][:4], answers=cs[3]['a'][:4]))
    ck.notes.append('%d grammars, every state and random invocation stacks asked of the automaton, and %d parses with the expected set recorded before every match and decision; the two definitions (automaton, grammar statements) agree on every state' % (len(gs), len(recs)))


def pick_grammars(R, gs, n):
    return gs if len(gs) <= n else R.sample(gs, n)


# ---------------------------------------------------------------- C18, C21: trees
def tree_cases(gs, recs):
    cs = []
    for r in recs:
        toks = r['toks']
        vis = [i for i, t in enumerate(toks) if r['stream'] == 1 or t[1] == 0]
        cs.append(dict(g=r['g'], vis=vis, eof=len(toks), last=vis[-1] if vis else -1, txt=[t[2] for t in toks] + ['<EOF>'], ty=[t[0] for t in toks] + [-1],
                       tree=r['tree0'], ev=[e for e in r['ev'] if e[0] in ('e', 'end')], bad=r['bad'], lr=gs[r['g']].json()['lr'], w=[t[0] for t in toks], opt=[r['lab'], r['stream'], r['start']]))
    return cs


def judge_trees(ck, gs, recs, what, tag):
    cs = tree_cases(gs, [r for r in recs if r['tree'] == 1])
    gp = write_json(tag + '.g.json', [0])
    cp = write_nd(tag + '.c.ndjson', cs)
    t = tlc('TreeOk', envv=dict(GRAMS=gp, CASES=cp), tag=tag, cfgtext='SPECIFICATION Spec\nCONSTANT Judge = "%s"\nINVARIANT TreeIsRight\nCHECK_DEADLOCK FALSE\n' % what)
    ck.add_tlc(t)
    if t.ok:
        ck.cov['traces_validated_against_impl'] += len(cs)
        return
    c = cs[int(t.var('ci')) - 1]
    ck.violation('grammar %s, tokens %s: tree %s, errors %s %s' % (gs[c['g']].name, c['w'], json.dumps(c['tree'])[:400], c['ev'], c['bad']), dict(case=c, grammar=gjson(gs[c['g']])))


def garbage(R, gs, n, opts, **kw):
    """anything at all: random tokens, and badly damaged sentences"""
    cs = []
    for gi, g in enumerate(gs):
        for _ in range(n):
            w = sentence(R, g, 0, fuel=R.choice([0, 10, 30])) if R.random() < .7 else [R.randint(1, g.maxtok + (1 if 'alien' in opts else 0)) for _ in range(R.randint(0, 14))]
            if w is None:
                continue
            for _ in range(R.choice([0, 1, 1, 2, 4])):
                w = mutate(R, w, g.maxtok)
            w = cheap(g, w[:30], 300)
            k = dict(kw, mode=R.choice([0, 0, 1, 2]), lab=R.randint(0, 1), stream=R.randint(0, 1))
            if 'start' in opts and R.random() < .3:
                k['start'] = R.randint(0, len(g.json()['rules']) - 1)
            if 'tree' in opts:
                k['tree'] = R.choice([1, 1, 0])
            if not k['stream'] and R.random() < .4:
                k['hidden'] = {R.randint(0, max(1, len(w))): 1 for _ in range(R.randint(0, 3))}
            cs.append(case(gi, w, **k))
    return cs


def big_garbage(R, base, per, opts, maxlen=200):
    """the same for the grammars of extras, with their deep and long inputs intact and damaged"""
    eg, ew = extras(R, base, per, maxlen=maxlen)
    cs = garbage(R, eg, per, opts)
    for c in cs: c['g'] += base
    for gi, w, _ in ew:
        v = mutate(R, w, eg[gi - base].maxtok)
        cs += [case(gi, x, mode=R.choice([0, 0, 1, 2]), lab=R.randint(0, 1), stream=R.randint(0, 1)) for x in (w, v)]
    return eg, cs


def c18(ck):
    R = random.Random(SEED * 7919 + 18)
    gs = grammars(R, scale(200, 1500), lrp=.35, ng=.12) + special() + opened(R, scale(25, 150))
    eg, ec = big_garbage(R, len(gs), scale(30, 150), ('start', 'tree', 'alien'))
    recs = nopanic_report(ck, gs + eg, run(ck, gs + eg, garbage(R, gs, scale(45, 150), ('start', 'tree', 'alien')) + ec, 'c18'))
    gs = gs + eg
    for r in recs:
        if not ended(r):
            ck.violation('parse of grammar %s, tokens %s did not return a tree: %s' % (gs[r['g']].name, toks_of(r), r['ev'][-1]), dict(case=r, grammar=gjson(gs[r['g']])))
            break
    judge_trees(ck, gs, [r for r in recs if ended(r)], 'tokens', 'c18')
    sub = pick_grammars(R, gs, scale(60, 300))
    some = run(ck, sub, mixed(R, sub, scale(4, 20), ('start', 'lab', 'stream', 'hid'), damaged=1), 'c18s')
    validate(ck, sub, some, 'c18s', kinds=('m', 'e', 'end'), what='recovery')
    ck.cov['distinct_nontrivial'] = len(recs)
    ck.sample(dict(grammar=gs[recs[0]['g']].name, tokens=toks_of(recs[0]), errors=len(errs(recs[0]))))
    ck.notes.append('%d grammars, %d token sequences (random and damaged sentences, both streams, hidden tokens, labelled and recursive start rules); every tree judged leaf by leaf' % (len(gs), len(recs)))


def c21(ck):
    R = random.Random(SEED * 7919 + 21)
    gs = grammars(R, scale(160, 1200), lrp=.5, ng=.12) + special()
    cases = []
    eg, ec = big_garbage(R, len(gs), scale(20, 100), ('start',))
    gs0, gs = gs, gs + eg
    for i, c in enumerate(garbage(R, gs0, scale(25, 100), ('start',)) + ec):
        c = dict(c, lis=R.choice([0, 0, 1, 2]))
        cases.append(dict(c, grp=i))
        if R.random() < .5:
            cases.append(dict(c, tree=0, grp=i))
    recs = nopanic_report(ck, gs, run(ck, gs, cases, 'c21'))
    judge_trees(ck, gs, [r for r in recs if ended(r)], 'shape', 'c21')
    relate(ck, gs, 'notree', [x for x in groups_of(recs) if len(x) == 2], 'c21n')
    sub = pick_grammars(R, gs, scale(70, 300))
    some = run(ck, sub, mixed(R, sub, scale(4, 20), ('start', 'lab', 'stream', 'hid'), damaged=.5), 'c21s')
    validate(ck, sub, some, 'c21s', kinds=('m',), what='tree')
    ck.cov['distinct_nontrivial'] = len(recs)
    ck.sample(dict(grammar=gs[recs[0]['g']].name, tokens=toks_of(recs[0]), tree=recs[0]['tree0']))
    ck.notes.append('%d grammars, %d parses with trees, half of them repeated without; every node judged (children, order, spans, text, parents), %d trees against the specification' % (len(gs), len(recs), len(some)))


# ---------------------------------------------------------------- C19: reporting and repair
def c19(ck):
    R = random.Random(SEED * 7919 + 19)
    gs = grammars(R, scale(110, 800), lrp=.3, ng=.08) + special() + opened(R, scale(25, 150))
    cases = mixed(R, gs, scale(6, 30), ('start', 'lab', 'stream', 'hid', 'lis'), damaged=1, modes=(0, 0, 1))
    for gi, g in enumerate(gs):
        if g.name.startswith('eof'):   # end of file inside rules: where recovery stops differs most
            cases += [case(gi, w, lab=R.randint(0, 1), stream=R.randint(0, 1)) for w in R.sample(list(words(g.maxtok, 4)), scale(60, 120))]
    pg = [rnd_parser(R, 'prd%d' % i, lrp=.2, preds=.4) for i in range(scale(15, 100))]
    cases += [dict(c, g=c['g'] + len(gs)) for c in mixed(R, pg, scale(5, 20), (), damaged=1, preds=True)]
    gs = gs + pg
    eg, ew = extras(R, len(gs), scale(15, 80), maxlen=45)
    gs = gs + eg
    for gi, w, _ in ew:
        cases += [case(gi, v, lab=R.randint(0, 1), stream=R.randint(0, 1)) for v in (w, mutate(R, w, gs[gi].maxtok))]
    recs = run(ck, gs, cases, 'c19')
    validate(ck, gs, recs, 'c19', kinds=('e', 'm', 'er', 'te'), what='error handling')
    n = sum(len(errs(r)) for r in recs)
    kinds = {}
    for r in recs:
        for e in errs(r):
            kinds[e[1]] = kinds.get(e[1], 0) + 1
    ck.cov['distinct_nontrivial'] = n
    ck.sample(dict(grammar=gs[recs[1]['g']].name, tokens=toks_of(recs[1]), errors=errs(recs[1])))
    ck.notes.append('%d grammars, %d inputs, %d reported errors by kind %s; report, repair, resynchronisation and tree compared event by event' % (len(gs), len(recs), n, kinds))


# ---------------------------------------------------------------- C20: bail out
def c20(ck):
    R = random.Random(SEED * 7919 + 20)
    gs = grammars(R, scale(160, 1000), lrp=.35, ng=.12) + special()
    cases = []
    eg, ec = big_garbage(R, len(gs), scale(15, 60), ('start', 'tree'))
    gs0, gs = gs, gs + eg
    for i, c in enumerate(garbage(R, gs0, scale(16, 60), ('start', 'tree')) + ec):
        c = dict(c, lis=1, grp=i)
        cases += [c, dict(c, bail=1)]
    recs = nopanic_report(ck, gs, run(ck, gs, cases, 'c20'))
    relate(ck, gs, 'bail', [x for x in groups_of(recs) if len(x) == 2], 'c20')
    sub = pick_grammars(R, gs, scale(70, 300))
    some = [dict(c, bail=1) for c in mixed(R, sub, scale(5, 20), ('start', 'lab', 'stream', 'hid', 'lis'), damaged=.7)]
    some = run(ck, sub, some, 'c20s')
    validate(ck, sub, some, 'c20s', kinds=('p', 'm', 'e', 'te', 'er'), what='bail-out parse')
    ck.cov['distinct_nontrivial'] = len(recs) // 2
    ck.sample(dict(grammar=gs[recs[0]['g']].name, tokens=toks_of(recs[0])))
    ck.notes.append('%d grammars, %d inputs parsed with both strategies, %d of them stopped by the bail-out strategy; %d bail-out parses against the specification' % (
        len(gs), len(recs) // 2, sum(1 for r in recs if r['bail'] and not ended(r)), len(some)))


# ---------------------------------------------------------------- C22: listeners
def c22(ck):
    R = random.Random(SEED * 7919 + 22)
    gs = grammars(R, scale(110, 800), lrp=.35, ng=.1) + special() + [with_acts(R, 'act%d' % i) for i in range(scale(50, 300))]
    cases = []
    eg, ec = big_garbage(R, len(gs), scale(10, 60), ('start',))
    gs0, gs = gs, gs + eg
    for c in garbage(R, gs0, scale(16, 60), ('start', 'tree')) + ec:
        k = R.randint(1, 3)
        lops = sorted([R.randint(1, 4), R.choice([-1, -1, 0, 1, 2, 3])] for _ in range(R.choice([0, 1, 2, 3])))
        cases.append(dict(c, lis=k, walk=1, lops=lops))
    recs = nopanic_report(ck, gs, run(ck, gs, cases, 'c22'))
    lc = [dict(g=r['g'], tree=r['tree0'], walk=r['walk0'], ev=[e for e in r['ev'] if e[0] in ('en', 'ex', 'te', 'er', 'rm', 'e')], n0=r['lis'], lr=gs[r['g']].json()['lr'], w=toks_of(r), lops=r['lops'])
          for r in recs if ended(r) and r['tree'] == 1]
    judge(ck, gs, 'ListenOk', lc, 'c22', describe=lambda c: 'grammar %s, tokens %s, listener operations %s: events %s' % (gs[c['g']].name, c['w'], c['lops'], json.dumps(c['ev'])[:400]))
    sub = pick(R, [r for r in recs if r['tree'] == 1], scale(4, 16)) + pick(R, [r for r in recs if r['tree'] == 0], scale(3, 12))
    sub = [r for r in sub if cost(gs[r['g']], toks_of(r), 40) <= 40]
    validate(ck, gs, sub, 'c22s', kinds=('en', 'ex', 'te', 'er', 'rm', 'm', 'a'), what='listener events')
    ck.cov['distinct_nontrivial'] = len(lc)
    ck.sample(dict(grammar=gs[-1].name, tokens=lc[-1]['w'], events=lc[-1]['ev'][:8]))
    ck.notes.append('%d grammars, %d parses with 1-3 listeners and listeners added and removed by actions; walks and live events judged against the finished tree, %d also against the specification event by event' % (len(gs), len(lc), len(sub)))


def with_acts(R, name):
    """a random grammar with actions sprinkled in"""
    g = None
    def put(n):
        k = n[0]
        if k == 'seq':
            out = []
            for x in n[1]:
                if R.random() < .4: out.append(act())
                out.append(put(x))
            return ('seq', out)
        if k == 'alt': return ('alt', [put(x) for x in n[1]])
        if k in ('opt', 'star', 'plus'): return (k, put(n[1])) + tuple(n[2:])
        return ('seq', [n, act()]) if k == 't' and R.random() < .4 else n
    return rnd_parser(R, name, lrp=.3, edit=put)


# ---------------------------------------------------------------- C23: predicates
def guard_exprs(R, n):
    def ex(d):
        if d == 0 or R.random() < .25:
            k = R.random()
            return ['n'] if k < .08 else ['p', R.randint(0, 2), R.randint(0, 1), R.choice([0, 0, 0, 1])] if k < .6 else ['q', R.randint(0, 4)]
        return [R.choice(['and', 'or']), ex(d - 1), ex(d - 1)]
    return [ex(R.randint(1, 4)) for _ in range(n)]


def c23(ck):
    R = random.Random(SEED * 7919 + 23)
    es = guard_exprs(R, scale(2500, 20000))
    res, crash = run_harness('guards', dict(cases=[dict(e=e) for e in es]), 'c23g')
    if crash:
        ck.violation('combining guards: %s' % crash[1], dict(case=es[crash[0] or 0]))
    else:
        bad = [(e, o) for e, o in zip(es, res) if isinstance(o, list)]
        if bad:
            ck.violation('combining guards %s: %s' % bad[0], dict(case=bad[0][0]))
        else:
            dummy = handmade()[:1]
            judge(ck, dummy, 'GuardAlg', [dict(g=0, e=e, r=o['r']) for e, o in zip(es, res)], 'c23g', describe=lambda c: 'guard %s became %s' % (json.dumps(c['e']), json.dumps(c['r'])))
    gs = [rnd_parser(R, 'prd%d' % i, lrp=.3, ng=.1, preds=R.choice([.3, .5, .7]), cd=.3) if i % 4 else calls_parser(R, 'cal%d' % i, preds=.4, cd=.3) for i in range(scale(110, 700))] + predhand() + [predamb(R, 'pam%d' % i) for i in range(scale(70, 400))]
    cases = mixed(R, gs, scale(9, 40), ('start', 'lab'), damaged=.3, preds=True)
    recs = run(ck, gs, cases, 'c23')
    validate(ck, gs, recs, 'c23', kinds=('p', 'm', 'e', 'a'), what='parse with predicates')
    ck.cov['distinct_nontrivial'] = len(recs)
    ck.sample(dict(guard=es[0], became=res[0] if not crash else None))
    ck.notes.append('%d guard expressions over 3 predicates and 5 precedence levels, every environment; %d grammars with predicates (constant, lookahead-, state- and context-dependent), %d parses, %d failed-predicate errors' % (
        len(es), len(gs), len(recs), sum(1 for r in recs for e in errs(r) if e[1] == 'pred')))


# ---------------------------------------------------------------- C26, C27: what the tree shows
STRANGE = ['a', 'b b', '\t', 'x\ty', '\n', 'l1\r\nl2', '()', ')', '"q"', '\\n', 'é', '日本', '😀', "'", '{}', ' ', ':1']


def shown(ck, k, part):
    """trees of intact and broken inputs, with odd token texts, asked everything"""
    R = random.Random(SEED * 7919 + k)
    gs = grammars(R, scale(90, 700), lrp=.35, ng=.1) + special()
    cases = []
    for c in garbage(R, gs, scale(10, 40) if part == 'query' else scale(20, 100), ('start',)):
        if R.random() < .5:
            tx = {t: R.choice(STRANGE) for t in range(1, 8)}
            c['toks'] = [tok(t[0], t[1], tx.get(t[0], t[2])) for t in c['toks']]
        ts = sorted({t[0] for t in c['toks'] if t[1] == 0})
        cases.append(dict(c, q=[-1, 0] + ts[:4] + [99], lim=R.choice([0, 1, 2, 3, 5, 9] + list(range(1000, 1007))), ri=1, lis=R.choice([0, 0, 1])))
    return R, gs, nopanic_report(ck, gs, run(ck, gs, cases, 'c%d' % k))


def judge_shown(ck, gs, recs, tag, part):
    cs = [dict(g=r['g'], w=toks_of(r), tree=r['tree0'], rn=gs[r['g']].json()['rules'], chars=[list(t[2]) for t in r['toks']], types=r['q'], lim=r['lim'],
               nodes=r['q0']['nodes'] if part == 'query' else [], visits=r['q0']['visits'] if part == 'visit' else []) for r in recs if r['q0']]
    judge(ck, gs, 'TreeView', cs, tag, cfg='TreeQuery.cfg' if part == 'query' else 'TreeVisit.cfg',
          describe=lambda c: 'grammar %s, tokens %s, tree %s: %s' % (gs[c['g']].name, c['w'], json.dumps(c['tree'])[:300], json.dumps(c['nodes'] or c['visits'])[:700]))
    return cs


def c26(ck):
    R, gs, recs = shown(ck, 26, 'query')
    cs = judge_shown(ck, gs, recs, 'c26', 'query')
    sub = [r for r in pick(R, recs, scale(8, 30)) if cost(gs[r['g']], toks_of(r), 40) <= 40]
    validate(ck, gs, sub, 'c26s', kinds=('ri', 'm'), what='rule invocation stack')
    ck.cov['distinct_nontrivial'] = sum(len(c['nodes']) for c in cs)
    ck.sample(dict(grammar=gs[cs[0]['g']].name, tokens=cs[0]['w'], node=cs[0]['nodes'][0]))
    ck.notes.append('%d grammars, %d trees, %d rule nodes asked for printed forms, tokens and children; %d parses with the invocation stack recorded at every token' % (
        len(gs), len(cs), ck.cov['distinct_nontrivial'], len(sub)))


def c27(ck):
    R, gs, recs = shown(ck, 27, 'visit')
    cs = judge_shown(ck, gs, recs, 'c27', 'visit')
    ck.cov['distinct_nontrivial'] = len(cs)
    ck.sample(dict(grammar=gs[cs[0]['g']].name, tokens=cs[0]['w'], visits=cs[0]['visits']))
    ck.notes.append('%d grammars, %d trees of intact and broken inputs, each visited by five visitors (leaves only, every callback, children of a node, results combined with early stop, default combination)' % (len(gs), len(cs)))


# ---------------------------------------------------------------- C28: error listeners
def lexer_listeners(ck, R):
    import c_lex
    lgs = c_lex.handmade() + c_lex.rnds(R, scale(60, 400), [set(), {'ng'}, {'modes', 'cmds'}, {'preds', 'acts'}])
    cases = []
    for c in c_lex.gen_cases(R, lgs, 0, scale(25, 100), (1, 12), fac='common', enc='str'):
        eops = [[0, 3]] + [[0, 0] for _ in range(R.choice([0, 1, 1, 2, 3]))] + sorted([R.randint(1, 6), R.choice([0, 0, 3])] for _ in range(R.choice([0, 1, 2, 3])))
        cases.append({'g': c['g'], 'in': c['w'], 'eops': eops})
    cs = []
    parts = [cases[i::NCPU] for i in range(NCPU)]
    for p, (res, crash) in zip(parts, run_harness_par('listen', [dict(gs=[dict(serial=g.serial()) for g, _ in lgs], cases=p) for p in parts], 'c28l')):
        if crash:
            c = p[crash[0] or 0]
            ck.violation('lexer with listeners %s on grammar %s, input %s' % (crash[1], lgs[c['g']][0].name, c['in']), dict(case=c, grammar=lgs[c['g']][0].json()))
        for c, r in zip(p, res):
            ck.cov['evaluations'] += 1
            bad = [v for v in (r['ref'], r['elog']) if v and v[0][0] == 'panic']
            if bad:
                ck.violation('lexer with listeners: panic %s on grammar %s, input %s' % (bad[0][0][1][:200], lgs[c['g']][0].name, c['in']), dict(case=c, grammar=lgs[c['g']][0].json()))
            else:
                cs.append(dict(g=0, lg=c['g'], w=c['in'], toks=[], eops=c['eops'], elog=r['elog'], ref=[e[1] for e in r['ref'] if e[1][0] in ('a', 'e')]))
    cs = [c for c in cs if any(e[0] == 'e' for e in c['ref'])]
    t = tlc('ErrListen', envv=dict(GRAMS=write_json('c28l.g.json', []), CASES=write_nd('c28l.c.ndjson', cs)), tag='c28l', timeout=600)
    ck.add_tlc(t)
    if t.ok:
        ck.cov['traces_validated_against_impl'] += len(cs)
    else:
        c = cs[int(t.var('ci')) - 1]
        ck.violation('%s: lexer of grammar %s on input %s, operations %s: the only listener hears %s, these heard %s' % (','.join(t.violated), lgs[c['lg']][0].name, c['w'], c['eops'], json.dumps(c['ref'])[:400], json.dumps(c['elog'])[:600]),
                     dict(case=c, grammar=lgs[c['lg']][0].json()))
    ck.notes.append('%d lexer grammars, %d inputs with recognition errors and listeners added and removed between tokens' % (len(lgs), len(cs)))


def c28(ck):
    R = random.Random(SEED * 7919 + 28)
    gs = grammars(R, scale(60, 400), lrp=.3, ng=.1) + special() + [with_acts(R, 'act%d' % i) for i in range(scale(60, 400))]
    cases = []
    for i, c in enumerate(mixed(R, gs, scale(20, 60), ('start', 'lab', 'stream', 'hid', 'lis'), damaged=.8, modes=(0, 0, 2, 2, 1))):
        eops = [[0, 3]] + [[0, R.choice([0, 0, 1, 2])] for _ in range(R.randint(1, 4))]
        eops += sorted([R.randint(1, 5), R.choice([0, 0, 1, 2, 3])] for _ in range(R.choice([0, 0, 1, 2, 3])))
        cases += [dict(c, grp=i, eops=[[0, 3], [0, 0]]), dict(c, grp=i, eops=eops)]
    recs = nopanic_report(ck, gs, run(ck, gs, cases, 'c28'))
    cs = []
    for ref, r in [x for x in groups_of(recs) if len(x) == 2]:
        cs.append(dict(g=r['g'], w=toks_of(r), toks=r['toks'], eops=r['eops'], elog=r['elog'],
                       ref=[e[1] for e in ref['elog'] if e[0] == 0 or e[1][0] == 'a']))
    cs = [c for c in cs if c['ref']]
    lexer_listeners(ck, R)
    judge(ck, gs, 'ErrListen', cs, 'c28',
          describe=lambda c: 'grammar %s, tokens %s, operations %s: the only listener hears %s, these heard %s' % (gs[c['g']].name, c['w'], c['eops'], json.dumps(c['ref'])[:400], json.dumps(c['elog'])[:600]))
    kinds = {}
    for c in cs:
        for e in c['ref']:
            kinds[e[0]] = kinds.get(e[0], 0) + 1
    ck.cov['distinct_nontrivial'] = sum(v for k, v in kinds.items() if k != 'a')
    x = next((c for c in cs if any(e[0] == 'am' for e in c['ref'])), cs[0])
    ck.sample(dict(grammar=gs[x['g']].name, tokens=x['w'], operations=x['eops'], heard=x['elog'][:8]))
    ck.notes.append('%d grammars, %d parses with listeners added and removed at the start and during the parse; reports by kind %s' % (len(gs), len(cs), kinds))


# ---------------------------------------------------------------- C24: ambiguity reports
def c24(ck):
    R = random.Random(SEED * 7919 + 24)
    gs = [rnd_parser(R, 'rnd%d' % i, lrp=R.choice([0, 0, .4]), ng=.1, nt=R.choice([2, 2, 3])) if i % 5 else calls_parser(R, 'cal%d' % i, lrp=.1) for i in range(scale(120, 750))] + handmade() + special() + [lrmix(R, 'mix%d' % i) for i in range(scale(20, 120))]
    cases = valid_cases(R, gs, scale(60, 300), scale(8, 40), modes=(2, 2, 0)) + mixed(R, gs, scale(2, 10), ('start',), damaged=1, modes=(2, 0, 1))
    eg, ew = extras(R, len(gs), scale(40, 200), damaged=False, maxlen=60)
    gs = gs + eg
    cases += [case(gi, w, mode=R.choice([2, 2, 0])) for gi, w, _ in ew]
    recs = nopanic_report(ck, gs, run(ck, gs, cases, 'c24'))
    rep = lambda r: any(e[0] in ('am', 'fc', 'cs') for e in r['ev'])
    keep = pick(R, [r for r in recs if rep(r) and cost(gs[r['g']], toks_of(r), scale(50, 150)) <= scale(50, 150)], scale(9, 60)) + \
        pick(R, [r for r in recs if not rep(r) and cost(gs[r['g']], toks_of(r), scale(50, 150)) <= scale(50, 150)], scale(3, 30))
    validate(ck, gs, keep, 'c24s', kinds=('p', 'am', 'fc', 'cs'), tree=False, what='reports of a parse')
    # by the grammar alone: which alternatives really complete the input
    plain = [r for r in recs if not errs(r) and r['mode'] == 2 and r['start'] == 0 and not any(gs[r['g']].json()['lr'])]
    plain = pick(R, plain, scale(18, 100))
    # (where a report ends depends on how far the simulation looks, so it is left out here)
    plain = [dict(r, ev=[['am', e[1], e[2], e[4], e[5]] if e[0] == 'am' else e for e in r['ev']]) for r in plain]
    validate(ck, gs, plain, 'c24v', kinds=('p', 'am'), oracle='amb', tree=False, what='ambiguity reports of a sentence')
    ck.cov['distinct_nontrivial'] = sum(1 for r in recs for e in r['ev'] if e[0] in ('am', 'fc', 'cs'))
    amb = [r for r in recs if any(e[0] == 'am' for e in r['ev'])]
    if amb: ck.sample(dict(grammar=gs[amb[0]['g']].name, tokens=toks_of(amb[0]), reports=[e for e in amb[0]['ev'] if e[0] in ('am', 'fc', 'cs')]))
    ck.notes.append('%d grammars; %d parses with reports against the specification of prediction; %d sentences in exact mode where every report is compared with the set of alternatives that complete the input' % (len(gs), len(keep), len(plain)))
