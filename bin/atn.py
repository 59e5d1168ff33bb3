"""Grammar AST -> ANTLR-4.8 style ATN, in three forms:
  * the serialized (version 3) word list the runtime deserialises,
  * a plain JSON graph the TLA+ specification reads,
  * the same JSON graph drives the harness' recursive-descent interpreter.
The construction follows the ANTLR tool's ParserATNFactory/LexerATNFactory/LeftRecursiveRuleTransformer.

AST nodes (tuples):
  ('t', n) token/char        ('r', lo, hi) range     ('s', [(lo,hi)..]) set   ('n', [(lo,hi)..]) negated set
  ('any',) wildcard          ('eof',)                ('rule', name[, prec])
  ('seq', [..])              ('alt', [..])
  ('opt', x[, greedy])       ('star', x[, greedy])   ('plus', x[, greedy])
  ('pred', idx[, ctxdep])    ('act', idx)            ('cmd', (type, d1, d2)) lexer command
  ('prec', p)
"""
BASIC, RSTART, BLK, PBLK, SBLK, TSTART, RSTOP, BEND, SBACK, SENTRY, PBACK, LEND = range(1, 13)
EPS, RANGE, RULE, PRED, ATOM, ACT, SET, NSET, WILD, PREC = range(1, 11)
CHANNEL, CUSTOM, MODE, MORE, POP, PUSH, SKIP, TYPE = range(8)
UUID_SMP = "59627784-3BE5-417A-B9EB-8131A7286089"
UUID_OLD = "AADB8D7E-AEEF-4415-AD2B-8204D6CF042E"
UUID_BASE = "33761B2D-78BB-4A43-8B0B-4F5BEE8AACF3"
UUID_PREC = "1DA0C57D-6C06-438A-9B27-10BCB3CE0F61"
EOF = -1
MAXCHAR = 0x10FFFF


class G:
    """rules: list of dict(name, body, frag=False, mode=0, tok=n, lr=[alts])."""

    def __init__(self, rules, lexer=False, maxtok=0, nmodes=1, name=""):
        self.lexer, self.name, self.nmodes = lexer, name, nmodes
        self.rules = rules
        self.maxtok = maxtok
        self.st = []       # dict(t, r, tr, end, lb, ng, prec)
        self.decisions = []
        self.acts = []     # lexer actions
        self.sets = []
        self.idx = {r['name']: i for i, r in enumerate(rules)}
        self.code = []     # flat program: what the code the tool generates for the grammar does
        self.prog = []     # per rule: dict(n=code) or, for left-recursive rules, the parts of the loop
        self.build()

    def c(self, **kw):
        self.code.append(kw)
        return len(self.code)          # 1-based

    def new(self, t, r):
        self.st.append(dict(t=t, r=r, tr=[], end=-1, lb=-1, ng=0, prec=0))
        return len(self.st) - 1

    def e(self, a, b):
        self.st[a]['tr'].append(dict(k='eps', to=b))

    def build(self):
        modes = []
        if self.lexer:
            for _ in range(self.nmodes):
                modes.append(self.new(TSTART, -1))
        self.modes = modes
        self.rstart, self.rstop = [], []
        for i, r in enumerate(self.rules):
            self.rstart.append(self.new(RSTART, i))
            self.rstop.append(self.new(RSTOP, i))
            if 'lr' in r:
                self.st[self.rstart[i]]['prec'] = 1
        for i, r in enumerate(self.rules):
            self.cur = i
            body = self.lrbody(r) if 'lr' in r else r['body']
            a, b, n = self.node(body)
            if 'lr' in r:
                k = self.code[n - 1]['ks']
                lp = self.code[k[1] - 1]
                bd = self.code[lp['b'] - 1]
                many = bd['k'] == 'alt'
                self.prog.append(dict(lr=1, n=k[0], en=lp['s'], lb=lp['lb'], sb=bd['s'] if many else -1, ks=bd['ks'] if many else [lp['b']], loop=k[1]))
            else:
                top = self.code[n - 1]['k'] == 'alt' and not self.code[n - 1]['o']
                self.prog.append(dict(lr=0, n=n, en=-1, lb=-1, sb=-1, ks=self.code[n - 1]['ks'] if top else [n], loop=0, top=1 if top else 0))
            self.e(self.rstart[i], a)
            self.e(b, self.rstop[i])
        if self.lexer:
            for i, r in enumerate(self.rules):
                if not r.get('frag'):
                    self.e(modes[r.get('mode', 0)], self.rstart[i])
            # the tool numbers the mode start states as the first decisions
            self.decisions = modes + self.decisions
        for n, d in enumerate(self.decisions):
            self.st[d]['dec'] = n

    def lrbody(self, r):
        """lr alternatives: ('prim', body) ('pre', opbody) ('bin', opbody, assoc) ('suf', body) ('tern', op1, op2, assoc)"""
        n = len(r['lr'])
        prim, ops = [], []
        for i, a in enumerate(r['lr']):
            p = n - i
            me = r['name']
            if a[0] == 'prim':
                prim.append(a[1])
            elif a[0] == 'pre':
                prim.append(('seq', [a[1], ('rule', me, p)]))
            elif a[0] == 'bin':
                nx = p if a[2] == 'right' else p + 1
                ops.append(('seq', [('prec', p), a[1], ('rule', me, nx)]))
            elif a[0] == 'tern':
                nx = p if a[3] == 'right' else p + 1
                ops.append(('seq', [('prec', p), a[1], ('rule', me, 0), a[2], ('rule', me, nx)]))
            elif a[0] == 'suf':
                ops.append(('seq', [('prec', p), a[1]]))
        return ('seq', [prim[0] if len(prim) == 1 else ('alt', prim), ('star', ('alt', ops), True)])

    def block(self, alts, t):
        """block with start state type t; returns (start, end, code)"""
        s = self.new(t, self.cur)
        en = self.new(BEND, self.cur)
        self.st[s]['end'] = en
        ks = []
        for a in alts:
            x, y, n = self.node(a)
            ks.append(n)
            self.e(s, x)
            self.e(y, en)
        if len(alts) > 1:
            self.decisions.append(s)
            return s, en, self.c(k='alt', s=s, ks=ks, g=1, o=0)
        return s, en, ks[0]

    def node(self, n):
        k, c = n[0], self.cur
        if k == 'seq':
            if not n[1]:
                a = self.new(BASIC, c)
                b = self.new(BASIC, c)
                self.e(a, b)
                return a, b, self.c(k='seq', ks=[])
            parts = [self.node(x) for x in n[1]]
            for (a, b, _), (a2, b2, _) in zip(parts, parts[1:]):
                self.e(b, a2)
            return parts[0][0], parts[-1][1], self.c(k='seq', ks=[x[2] for x in parts])
        if k == 'alt':
            if len(n[1]) == 1:
                return self.node(n[1][0])
            return self.block(n[1], BLK)
        if k == 'opt':
            greedy = n[2] if len(n) > 2 else True
            alts = n[1][1] if n[1][0] == 'alt' else [n[1]]
            s = self.new(BLK, c)
            en = self.new(BEND, c)
            self.st[s]['end'] = en
            self.st[s]['ng'] = 0 if greedy else 1
            if not greedy:
                self.e(s, en)
            ks = []
            for a in alts:
                x, y, m = self.node(a)
                ks.append(m)
                self.e(s, x)
                self.e(y, en)
            if greedy:
                self.e(s, en)
            self.decisions.append(s)
            return s, en, self.c(k='alt', s=s, ks=ks, g=1 if greedy else 0, o=1)
        if k == 'star':
            greedy = n[2] if len(n) > 2 else True
            alts = n[1][1] if n[1][0] == 'alt' else [n[1]]
            entry = self.new(SENTRY, c)
            bs, be, m = self.block(alts, SBLK)
            le = self.new(LEND, c)
            lb = self.new(SBACK, c)
            self.st[le]['lb'] = lb
            self.st[entry]['ng'] = 0 if greedy else 1
            if greedy:
                self.e(entry, bs)
                self.e(entry, le)
            else:
                self.e(entry, le)
                self.e(entry, bs)
            self.e(be, lb)
            self.e(lb, entry)
            self.decisions.append(entry)
            return entry, le, self.c(k='star', s=entry, b=m, lb=lb, g=1 if greedy else 0)
        if k == 'plus':
            greedy = n[2] if len(n) > 2 else True
            alts = n[1][1] if n[1][0] == 'alt' else [n[1]]
            bs, be, m = self.block(alts, PBLK)
            lb = self.new(PBACK, c)
            le = self.new(LEND, c)
            self.st[le]['lb'] = lb
            self.st[lb]['ng'] = 0 if greedy else 1
            self.e(be, lb)
            if greedy:
                self.e(lb, bs)
                self.e(lb, le)
            else:
                self.e(lb, le)
                self.e(lb, bs)
            self.decisions.append(lb)
            return bs, le, self.c(k='plus', s=bs, b=m, lb=lb, g=1 if greedy else 0)
        a = self.new(BASIC, c)
        b = self.new(BASIC, c)
        if k == 't':
            tr = dict(k='set', x='atom' if n[1] <= 0xFFFF else 'set', to=b, set=[[n[1], n[1]]])
        elif k == 'r':
            tr = dict(k='set', x='range' if n[2] <= 0xFFFF else 'set', to=b, set=[[n[1], n[2]]])
        elif k == 's':
            tr = dict(k='set', x='set', to=b, set=[list(p) for p in n[1]])
        elif k == 'n':
            tr = dict(k='nset', x='nset', to=b, set=[list(p) for p in n[1]])
        elif k == 'any':
            tr = dict(k='any', x='wild', to=b)
        elif k == 'eof':
            tr = dict(k='set', x='atom', to=b, set=[[EOF, EOF]])
        elif k == 'rule':
            r = self.idx[n[1]]
            tr = dict(k='rule', to=self.rstart[r], fol=b, r=r, p=n[2] if len(n) > 2 else 0)
        elif k == 'pred':
            tr = dict(k='pred', to=b, r=c, i=n[1], cd=n[2] if len(n) > 2 else 0)
        elif k == 'prec':
            tr = dict(k='prec', to=b, p=n[1])
        elif k == 'act':
            if self.lexer:
                i = self.act((CUSTOM, c, n[1]))
                tr = dict(k='act', to=b, r=c, i=i)
            else:
                tr = dict(k='act', to=b, r=c, i=n[1])
        elif k == 'cmd':
            i = self.act(tuple(n[1]))
            tr = dict(k='act', to=b, r=c, i=i)
        else:
            raise ValueError(n)
        self.st[a]['tr'].append(tr)
        k = tr['k']
        if k == 'set' and tr['x'] == 'atom':
            n = self.c(k='tok', s=a, t=tr['set'][0][0])
        elif k in ('set', 'nset'):
            n = self.c(k=k, s=a, iv=tr['set'])
        else:
            n = self.c(s=a, **{x: tr[x] for x in ('k', 'r', 'p', 'i', 'cd') if x in tr})
        return a, b, n

    def act(self, a):
        if a not in self.acts:
            self.acts.append(a)
        return self.acts.index(a)

    # ------------------------------------------------------------------ serialise
    def words(self, uuid=UUID_SMP):
        w = [0 if self.lexer else 1, self.maxtok]
        st = self.st
        w.append(len(st))
        for s in st:
            w.append(s['t'])
            if s['t'] == 0:
                continue
            w.append(s['r'] & 0xFFFF)
            if s['t'] == LEND:
                w.append(s['lb'])
            elif s['t'] in (BLK, PBLK, SBLK):
                w.append(s['end'])
        ng = [i for i, s in enumerate(st) if s['ng']]
        w += [len(ng)] + ng
        rev = [UUID_BASE, UUID_PREC, UUID_OLD, UUID_SMP].index(uuid) + 1
        pr = [i for i, s in enumerate(st) if s['prec']]
        if rev >= 2:
            w += [len(pr)] + pr
        w.append(len(self.rules))
        for i, r in enumerate(self.rules):
            w.append(self.rstart[i])
            if self.lexer:
                w.append(r.get('tok', 0) & 0xFFFF)
                if rev < 3:
                    w.append(0xFFFF)
        w += [len(self.modes)] + list(self.modes)
        # sets: those that fit 16 bits first, then the others (as the tool does)
        sets16, sets32 = [], []
        key = {}

        def norm(s):
            return tuple(tuple(p) for p in s)
        for s in st:
            for t in s['tr']:
                if t['k'] in ('set', 'nset') and t['x'] in ('set', 'nset'):
                    n = norm(t['set'])
                    (sets16 if max(h for _, h in n) <= 0xFFFF else sets32).append(n)
        sets16 = list(dict.fromkeys(sets16))
        sets32 = list(dict.fromkeys(sets32))
        for i, n in enumerate(sets16 + sets32):
            key[n] = i
        for lst, wide in ((sets16, 0), (sets32, 1)):
            if wide and uuid != UUID_SMP:
                assert not lst
                continue
            w.append(len(lst))
            for n in lst:
                has_eof = n[0][0] == EOF
                iv = list(n)
                if has_eof and iv[0] == (EOF, EOF):
                    w.append(len(iv) - 1)
                else:
                    w.append(len(iv))
                w.append(1 if has_eof else 0)
                for lo, hi in iv:
                    if lo == EOF:
                        if hi == EOF:
                            continue
                        lo = 0
                    if wide:
                        w += [lo & 0xFFFF, lo >> 16, hi & 0xFFFF, hi >> 16]
                    else:
                        w += [lo, hi]
        edges = []
        for i, s in enumerate(st):
            if s['t'] == RSTOP:
                continue
            for t in s['tr']:
                k = t['k']
                if k == 'eps':
                    edges.append([i, t['to'], EPS, 0, 0, 0])
                elif k == 'rule':
                    edges.append([i, t['fol'], RULE, t['to'], t['r'], t['p']])
                elif k == 'pred':
                    edges.append([i, t['to'], PRED, t['r'], t['i'], t['cd']])
                elif k == 'prec':
                    edges.append([i, t['to'], PREC, t['p'], 0, 0])
                elif k == 'act':
                    ai = self.acts[t['i']][2] if self.lexer and rev < 3 else t['i']
                    edges.append([i, t['to'], ACT, t['r'], ai, 0])
                elif k == 'any':
                    edges.append([i, t['to'], WILD, 0, 0, 0])
                elif k == 'nset':
                    edges.append([i, t['to'], NSET, key[norm(t['set'])], 0, 0])
                elif t['x'] == 'set':
                    edges.append([i, t['to'], SET, key[norm(t['set'])], 0, 0])
                elif t['x'] == 'range':
                    lo, hi = t['set'][0]
                    edges.append([i, t['to'], RANGE, 0 if lo == EOF else lo, hi, 1 if lo == EOF else 0])
                else:
                    v = t['set'][0][0]
                    edges.append([i, t['to'], ATOM, 0 if v == EOF else v, 0, 1 if v == EOF else 0])
        # the transitions to rule starts from mode starts are ordinary epsilon edges
        w.append(len(edges))
        for ed in edges:
            w += [x & 0xFFFF for x in ed]
        w.append(len(self.decisions))
        w += self.decisions
        if self.lexer and rev >= 3:
            w.append(len(self.acts))
            for a in self.acts:
                w += [a[0], a[1] & 0xFFFF, (a[2] if len(a) > 2 else 0) & 0xFFFF]
        return w

    def serial(self, uuid=UUID_SMP):
        """code points of the serialized string"""
        h = uuid.replace('-', '')
        b = bytes.fromhex(h)          # big endian 128 bit
        ws = [int.from_bytes(b[i:i + 2], 'big') for i in range(0, 16, 2)][::-1]
        out = [3]
        for v in ws + self.words(uuid):
            assert 0 <= v <= 0xFFFF, v
            v = (v + 2) & 0xFFFF
            if 0xD800 <= v <= 0xDFFF:
                v += 0x3000
            out.append(v)
        return out

    def json(self):
        return dict(name=self.name, lexer=1 if self.lexer else 0, maxtok=self.maxtok,
                    st=[dict(t=s['t'], r=s['r'], ng=s['ng'], pr=s['prec'], d=s.get('dec', -1), end=s['end'], lb=s['lb'],
                             tr=s['tr']) for s in self.st],
                    rstart=self.rstart, rstop=self.rstop, modes=self.modes, dec=self.decisions,
                    tok=[r.get('tok', 0) for r in self.rules], acts=[list(a) + [0] * (3 - len(a)) for a in self.acts],
                    lr=[1 if 'lr' in r else 0 for r in self.rules],
                    code=[dict(c, d=self.st[c['lb'] if c['k'] == 'plus' else c['s']].get('dec', -1)) if c['k'] in ('alt', 'star', 'plus') else c for c in self.code] if not self.lexer else [],
                    prog=[dict(p, d=self.st[p['en']].get('dec', -1) if p['lr'] else -1, sd=self.st[p['sb']].get('dec', -1) if p['sb'] >= 0 else -1) for p in self.prog] if not self.lexer else [],
                    rules=[r['name'] for r in self.rules])
