"""Character streams, token streams, interval sets: scripts of operations against CharStream/TokStream/IvSet.tla."""
import itertools
from lib import *
from c_lex import off_of, scale

ENC8 = ['u8', 'u8s', 'u8c', 'bu8']
ENC16 = ['u16', 'u16c']
ENCX = ['str', 'strs', 'box', 'u32', 'u32s', 'bu32']


def run_traces(ck, cmd, module, cases, tag, describe):
    n = max(1, min(NCPU, len(cases) // 50))
    parts = [list(range(i, len(cases), n)) for i in range(n)]
    outs = run_harness_par(cmd, [dict(cases=[cases[i] for i in p]) for p in parts], tag)
    recs = []
    for p, (res, crash) in zip(parts, outs):
        if crash:
            c = cases[p[crash[0] or 0]]
            ck.violation('%s %s' % (crash[1], describe(c)), c)
            continue
        for i, r in zip(p, res):
            recs.append(dict(cases[i], **(r if isinstance(r, dict) else dict(ev=r))))
            if len(cases[i].get('ops', [])) > 3:
                ck.sample(dict(case=describe(cases[i]), recorded=recs[-1]['ev'][:4]))
    ck.cov['evaluations'] += sum(len(r['ev']) for r in recs)
    ck.cov['distinct_nontrivial'] += len(set(json.dumps(cases[i], sort_keys=True) for i in range(len(cases)) if len(cases[i].get('ops', [])) > 2))
    if not recs:
        return
    cp = write_nd(tag + '.c.ndjson', recs)
    t = tlc(module, envv=dict(CASES=cp), tag=tag, timeout=800)
    ck.add_tlc(t)
    if t.ok:
        ck.cov['traces_validated_against_impl'] += len(recs)
        return
    ci, l = int(t.var('ci')), int(t.var('l'))
    c = recs[ci - 1]
    ck.violation('%s: step %d %s answered %s' % (describe(c), l - 1, json.dumps(c['ops'][l - 2]) if l > 1 else 'relations', json.dumps(c['ev'][l - 2] if l > 1 else c.get('rel'))),
                 dict(case=c, tlc=t.last_state()[:2000]))


def free(ck, module, cfg):
    t = tlc(module, cfg=cfg, tag=module + '.free', timeout=300)
    ck.add_tlc(t)
    if not t.ok:
        raise ToolError('the specification %s contradicts its own properties: %s' % (module, t.violated))


# ------------------------------------------------------------------------------------------------ characters
def char_script(R, n, length):
    ops = []
    for _ in range(length):
        r = R.random()
        if r < .3:
            ops.append(['la', R.choice([1, 1, 2, 3, 4, -1, -1, -2, -3, n + 1, -(n + 1), n + 5, -n if n else -1, n if n else 1])])
        elif r < .55:
            ops.append(['consume'])
        elif r < .7:
            ops.append(['seek', R.randint(0, n)])
        elif r < .85 and n:
            a = R.randint(0, n - 1)
            k = R.random()
            if k < .4:
                ops.append(['text', a, R.randint(a, n - 1)])
            elif k < .85:
                ops.append(['texte', a, R.randint(a - 1, n - 1)])
            else:
                ops.append(['texto', a, R.randint(0, 4)])
        elif r < .9:
            ops.append([R.choice(['mark', 'release'])])
        elif r < .94:
            ops.append(['size'])
        elif r < .97:
            ops.append(['iter'])
        else:
            ops.append(['reset'])
    return ops


def char_full(n):
    """visit every position, look everywhere from it, take every span"""
    ops = []
    for j in range(n + 1):
        ops.append(['seek', j])
        for k in list(range(1, n + 3)) + list(range(-1, -n - 3, -1)):
            ops.append(['la', k])
    for a in range(n):
        for b in range(a, n):
            ops += [['text', a, b], ['texte', a, b]]
        ops.append(['texte', a, a - 1])
    ops += [['reset'], ['size']] + [['consume']] * (n + 2) + [['iter'], ['seek', 0], ['iter']]
    return ops


def c06(ck):
    R = random.Random(SEED * 104729 + 6)
    cases = []
    pools = [([0x61, 0x62, 0, 0x7F, 0xFF, 0x80, 10], ENC8 + ENC16 + ENCX), ([0x61, 0x7FF, 0x800, 0xFFFF, 0xD7FF, 0xE000], ENC16 + ENCX),
             ([0x61, 0x306F, 0x1F600, 0x10FFFF, 0x10000, 0xE9], ENCX), ([0x1F600, 0x61], ENCX), ([0xE9], ENCX + ENC8), ([0x306F, 0xE9], ENCX)]
    for al, es in pools:
        for n in range(0, scale(3, 4)):
            ws = list(itertools.product(al, repeat=n))
            R.shuffle(ws)
            for w in ws[:scale(40, 400)]:
                for e in es:
                    cases.append(dict(w=list(w), enc=e, ops=char_full(n)))
        for _ in range(scale(300, 4000)):
            w = [R.choice(al) for _ in range(R.randint(1, 10))]
            cases.append(dict(w=w, enc=R.choice(es), ops=char_script(R, len(w), scale(25, 50))))
    for c in cases:
        c['off'] = off_of('str' if c['enc'] in ('str', 'strs', 'box') else 'u32', c['w'])
    ck.notes.append('every position, lookahead distance and span of all short inputs over code points of every encoded length, and random scripts on longer ones; every supported representation and text type')
    free(ck, 'CharStream', 'CharFree.cfg')
    run_traces(ck, 'chars', 'CharTrace', cases, 'c06', lambda c: 'stream %s over %s' % (c['enc'], c['w']))


# ------------------------------------------------------------------------------------------------ tokens
def tok_script(R, kind, n, length, marks_open=None):
    """random script that stays within what the documentation allows; keeps track of the cursor for unbuffered streams"""
    ops = []
    p, marks, hi, low = 0, [], -1, 0
    unb = kind in ('unbuf', 'buf')

    def see(k):
        nonlocal hi
        hi = max(hi, min(p + k - 1, n))
    for _ in range(length):
        r = R.random()
        if r < .32:
            ks = [1, 1, 2, 3, -1, -1, n + 2] + ([] if unb else [-2, -3, -n - 1])
            k = R.choice(ks)
            if not (unb and k < 0):
                see(k)
            ops.append([R.choice(['lt', 'lt', 'la']), k])
        elif r < .6:
            ops.append(['consume'])
            if p < n:
                p += 1
        elif r < .72:
            if unb:
                lo = 0 if kind == 'buf' else marks[0] if marks else None
                if lo is None:
                    continue
                j = R.randint(lo, n)
                p = j
            else:
                j = R.randint(0, n + 1)
            ops.append(['seek', j])
        elif r < .82:
            if R.random() < .55 or not marks:
                if len(marks) < 3:
                    ops.append(['mark'])
                    marks.append(p)
            else:
                ops.append(['release'])
                marks.pop()
        elif r < .95:
            if unb:
                lo = 0 if kind == 'buf' else marks[0] if marks else p
                if hi < lo:
                    continue
                a = R.randint(lo, hi)
                b = R.randint(a, hi)
            else:
                # make sure the tokens are buffered first
                b = R.randint(0, n)
                ops += [['seek', b], ['lt', 1]]
                a = R.randint(0, b)
            ops.append(R.choice([['get', a], ['text', a, b], ['ttext', a, b]]))
        elif r < .97:
            if kind != 'unbuf' or False:
                ops.append(['alltext'])
        elif r < .985:
            if not unb:
                ops.append(['reset'])
        else:
            ops.append([R.choice(['iter', 'titer'])])
            p, hi = n, n
    return ops


def tok_full(kind, n):
    """everything from every position"""
    ops = []
    unb = kind in ('unbuf', 'buf')
    ops.append(['mark'])
    for j in range(n + 1):
        ops.append(['seek', j])
        for k in [1, 2, 3, n + 2] + ([-1] if unb else [-1, -2, -3, -n - 2]):
            ops += [['lt', k], ['la', k]]
    for a in range(n + 1):
        for b in range(a, n + 1):
            ops += [['text', a, b]]
        ops.append(['get', a])
    ops += [['seek', 0]] + [['consume'], ['lt', -1], ['lt', 1]] * (n + 1) + [['seek', 0], ['iter'], ['release']]
    return ops


def tok_cases(R, kinds, full_n, rnd, rlen):
    cases = []

    def mk(kind, chans):
        toks = [[k % 3 + 1, c, 97 + k] for k, c in enumerate(chans)]
        return dict(kind=kind, toks=toks, chan=[R.choice([0, 0, 1]) if kind == 'common' else 0])
    for kind in kinds:
        for n in range(0, full_n + 1):
            cs = list(itertools.product([0, 1], repeat=n)) if kind in ('common', 'default') else [tuple([0] * n), tuple(k % 2 for k in range(n))]
            for ch in cs:
                for sel in ([0], [1]) if kind == 'common' else ([0],):
                    c = mk(kind, ch)
                    c['chan'] = list(sel)
                    c['ops'] = tok_full(kind, n)
                    cases.append(c)
                    # plain reading, no lookahead at all
                    c = dict(c, ops=[['lt', 1]] + [['consume'], ['lt', 1], ['lt', -1]] * (n + 1))
                    cases.append(c)
        for _ in range(rnd):
            n = R.randint(0, 9)
            c = mk(kind, [R.choice([0, 0, 1, 2]) for _ in range(n)])
            c['ops'] = tok_script(R, kind, n, rlen)
            cases.append(c)
    return cases


def c07(ck):
    R = random.Random(SEED * 104729 + 7)
    free(ck, 'TokStream', 'TokFree.cfg')
    cases = tok_cases(R, ['common', 'default'], scale(4, 6), scale(2500, 20000), scale(25, 50))
    ck.notes.append('all channel patterns of short token sequences, read completely from every position, and random scripts')
    run_traces(ck, 'toks', 'TokTrace', cases, 'c07', lambda c: 'stream %s channel %s over %s' % (c['kind'], c['chan'], c['toks']))


def c08(ck):
    R = random.Random(SEED * 104729 + 8)
    free(ck, 'TokStream', 'TokFree.cfg')
    cases = tok_cases(R, ['unbuf', 'buf'], scale(4, 6), scale(3500, 25000), scale(25, 50))
    ck.notes.append('random legal scripts of lookahead, consume, nested marks, releases and seeks inside marked regions')
    run_traces(ck, 'toks', 'TokTrace', cases, 'c08', lambda c: 'stream %s over %s' % (c['kind'], c['toks']))


# ------------------------------------------------------------------------------------------------ interval sets
def c09(ck):
    R = random.Random(SEED * 104729 + 9)
    cases = []
    U = 8
    ivs = [(a, b) for a in range(0, U) for b in range(a, U)]
    # every set of up to three intervals, then every interval added; with both orders
    seqs = list(itertools.product(ivs, repeat=2))
    for s in seqs[::scale(3, 1)]:
        cases.append(dict(u=[0, U], pairs=[], ops=[['add', 0, a, b] for a, b in s]))
    # sets given by bit patterns: add, subtract, remove on every pair
    for k in range(scale(700, 6000)):
        x, y = R.randrange(512), R.randrange(512)
        ops = [['one', 0, i] for i in R.sample(range(9), 9) if x >> i & 1] + [['one', 1, i] for i in R.sample(range(9), 9) if y >> i & 1]
        ops += [['cp', 2, 0], ['union', 2, 1], ['cp', 2, 0], ['sub', 2, 1], ['compl', 2, 0, 0, 8], ['compl', 2, 1, R.randint(-1, 4), R.randint(4, 9)], ['cp', 2, 0], ['add', 2] + sorted([R.randint(0, 8), R.randint(0, 8)])]
        ops += [['cp', 2, 1], ['rm', 2, R.randint(-1, 9)]]
        cases.append(dict(u=[-2, 10], pairs=[], ops=ops))
    for k in range(scale(1500, 15000)):
        big = R.random() < .3
        lo, hi = (-2, 60) if big else (-2, 12)
        ops = []
        for _ in range(R.randint(4, 14)):
            r, d, s = R.random(), R.randint(0, 2), R.randint(0, 2)
            if r < .45:
                a = R.randint(lo, hi)
                ops.append([R.choice(['add', 'addi']), d, a, min(hi, a + R.choice([0, 0, 1, 2, 5, 20, -1]))])
            elif r < .58:
                ops.append(['one', d, R.randint(lo, hi)])
            elif r < .68:
                ops.append(['rm', d, R.randint(lo, hi)])
            elif r < .8:
                ops.append(['union', d, s])
            elif r < .9:
                ops.append(['sub', d, s])
            elif r < .96:
                a = R.randint(lo, hi)
                ops.append(['compl', d, s, a, R.randint(a, hi)])
            else:
                ops.append([R.choice(['cp', 'cp']), d, s] if R.random() < .7 else ['new', d])
        cases.append(dict(u=[lo, hi], pairs=[], ops=ops))
    ps = [[a, b, c, d] for a in range(5) for b in range(a, 5) for c in range(5) for d in range(c, 5)]
    cases.append(dict(u=[0, 1], pairs=ps, ops=[]))
    ck.notes.append('scripts of set operations over three registers: small universes densely, wide ones at random; observed: membership, minimum, length, printed form, equality')
    run_traces(ck, 'ivs', 'IvTrace', cases, 'c09', lambda c: 'interval set script %s' % json.dumps(c['ops'])[:200])
