"""C30: names of token types, printed token sets, printed tokens."""
from lib import *
import c_parse as cp
import itertools, random

WORDS = ["'a'", "'\n'", 'ID', 'Éa', 'éa', 'Жx', '_x', '9', '', "'", 'x', 'X', '<EOF>', 'EOF', 'a b', "''", '"q"', 'ß', 'こ']
TEXTS = ['', 'a', 'ab c', '\n', '\r\n', '\t', ' ', 'a\nb\tc\r', '\\n', "'", '<EOF>', 'é', '😀\n😀', '\u2028', '\x0b', '·', 'x' * 40, '\n' * 3]


def pts(s):
    return [ord(c) for c in s]


def opt(s):
    return [] if s is None else [pts(s)]


def scale(q, t):
    return t if THOROUGH else q


def c30(ck):
    R = random.Random(SEED * 7919 + 30)
    cases = []

    def voc(how, lit, sym=(), disp=()):
        n = max(len(lit), len(sym), len(disp))
        q = list(range(-3, n + 2)) + [R.randint(n, 70000)]
        sets = [[], [R.choice(q)]] + [R.sample(q, R.randint(1, len(q))) for _ in range(3)] + [list(range(0, n))]
        cases.append(dict(k='voc', how=how, lit=[opt(x) for x in lit], sym=[opt(x) for x in sym], disp=[opt(x) for x in disp], q=q, sets=[[e for e in s if e > -3] for s in sets]))
    # every pattern of present and absent names of three tables up to length 2, and every list of one or two names
    pats = [p for k in range(3) for p in itertools.product([None, 1], repeat=k)]
    for a, b, c in itertools.product(pats, repeat=3):
        fill = lambda p, w: [None if x is None else w + str(i) for i, x in enumerate(p)]
        voc('tables', fill(a, "'l"), fill(b, 'S'), fill(c, 'd'))
        if not c:
            voc('two', fill(a, "'l"), fill(b, 'S'))
    for k in (0, 1, 2):
        for ws in itertools.product([None] + WORDS, repeat=k):
            voc('names', ws)
    for _ in range(scale(400, 4000)):
        w = lambda: [R.choice([None] + WORDS) for _ in range(R.randint(0, 9))]
        voc(R.choice(['tables', 'two', 'names']), w(), w(), w())
    nv = len(cases)
    for t in TEXTS:
        for ty, ch in itertools.product((-1, 0, 1, 300), (0, 1, 12)):
            cases.append(dict(k='tok', f=[ty, ch, R.randint(-1, 30), R.randint(-1, 30), R.randint(-1, 2000), R.randint(0, 70), R.randint(-1, 120)], text=pts(t)))
    for _ in range(scale(600, 6000)):
        t = ''.join(R.choice(TEXTS) for _ in range(R.randint(0, 4)))
        cases.append(dict(k='tok', f=[R.randint(-1, 5), R.choice([0, 0, 1, 2, 10]), R.randint(-1, 10 ** 5), R.randint(-1, 10 ** 5), R.randint(-1, 10 ** 5), R.randint(0, 10 ** 4), R.randint(-1, 10 ** 4)], text=pts(t)))
    parts = [cases[i::NCPU] for i in range(NCPU)]
    done = []
    for p, (res, crash) in zip(parts, run_harness_par('names', [dict(cases=p) for p in parts], 'c30')):
        if crash:
            ck.violation('names: %s on %s' % (crash[1], p[crash[0] or 0]), dict(case=p[crash[0] or 0]))
        for c, r in zip(p, res):
            ck.cov['evaluations'] += 1
            if isinstance(r, list):
                ck.violation('names: panic %s on %s' % (r[0][1][:200], c), dict(case=c))
            else:
                done.append(dict(c, res=r))
    t = tlc('Names', envv=dict(CASES=write_nd('c30.c.ndjson', done)), tag='c30', timeout=800)
    ck.add_tlc(t)
    if t.ok:
        ck.cov['traces_validated_against_impl'] += len(done)
    else:
        c = done[int(t.var('ci')) - 1]
        ck.violation('%s: part %s of %s' % (','.join(t.violated), t.var('part'), json.dumps(c)[:900]), dict(case=c))
    gs = cp.grammars(R, scale(40, 300), lrp=.3, ng=.1, preds=.15) + cp.special()
    recs = cp.nopanic_report(ck, gs, cp.run(ck, gs, cp.mixed(R, gs, scale(12, 40), ('start', 'hid', 'lab'), damaged=1, preds=True), 'c30p'))
    recs = [r for r in recs if cp.errs(r) and cp.cost(gs[r['g']], cp.toks_of(r), 50) <= 50]
    kinds = {}
    for r in recs:
        kinds.setdefault(cp.errs(r)[0][1], []).append(r)
    keep = [r for k in sorted(kinds) for r in cp.pick(R, kinds[k], scale(5, 25))]
    cp.validate(ck, gs, keep, 'c30s', kinds=('e',), tree=False, what='messages of a parse')
    ck.notes.append('messages of %d parses with errors (%s)' % (len(keep), ', '.join('%s %d' % (k, len(v)) for k, v in sorted(kinds.items()))))
    ck.cov['distinct_nontrivial'] = len(done)
    ck.sample(dict(case=done[nv // 2 % len(done)]))
    ck.notes.append('%d vocabularies (all patterns of present and absent names in tables of up to two entries, all pairs from a list of awkward names, random longer ones), every type around the ends of the tables, %d tokens' % (nv, len(cases) - nv))
