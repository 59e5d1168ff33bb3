"""Shared driver code: build the harness from /repo's working tree, run it with a watchdog, run TLC, report."""
import hashlib, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
WORK = os.path.join(BUILD, 'work')
SPEC = os.path.join(VERIF, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
NCPU = os.cpu_count() or 4
T0 = time.time()


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME=e.get('HOME', '/root'), RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
             CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_TARGET_DIR=os.path.join(BUILD, 'target'))
    for k in ('RUSTFLAGS', 'CARGO_INCREMENTAL', 'CARGO_PROFILE_DEV_DEBUG', 'CARGO_BUILD_TARGET_DIR'):
        e.pop(k, None)
    return e


def tree_hash(d):
    h = hashlib.sha256()
    for top in ('src', 'Cargo.toml', 'build.rs'):
        p = os.path.join(d, top)
        fs = [p] if os.path.isfile(p) else sorted(os.path.join(r, f) for r, _, ff in os.walk(p) for f in ff)
        for f in fs:
            h.update(f.encode())
            with open(f, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()


def build():
    """(Re)build the harness against /repo's working tree; content hash decides, not timestamps."""
    os.makedirs(WORK, exist_ok=True)
    h = tree_hash(REPO) + tree_hash(os.path.join(VERIF, 'harness'))
    stamp = os.path.join(BUILD, 'stamp')
    exe = os.path.join(BUILD, 'target', 'debug', 'vharness')
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    hd = os.path.join(VERIF, 'harness')
    if os.path.exists(os.path.join(BUILD, 'target')):
        subprocess.run(['cargo', 'clean', '--offline', '-p', 'antlr-rust', '-p', 'vharness'], cwd=hd, env=env(),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(['cargo', 'build', '--offline'], cwd=hd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        errs = re.findall(r'^error.*(?:\n.*){0,8}', r.stdout, re.M)
        raise ToolError('harness does not build:\n' + '\n'.join(errs[:10]) + r.stdout[-2000:])
    with open(stamp, 'w') as f:
        f.write(h)
    return exe


def run_harness(cmd, job, tag, timeout=300, stall=20):
    """Runs one harness job.  Returns (results, crash) where crash is None or (case index, reason)."""
    exe = build()
    os.makedirs(WORK, exist_ok=True)
    jp = os.path.join(WORK, tag + '.job.json')
    op = os.path.join(WORK, tag + '.out.ndjson')
    with open(jp, 'w') as f:
        json.dump(job, f, separators=(',', ':'))
    for p in (op, op + '.prog'):
        if os.path.exists(p):
            os.remove(p)
    p = subprocess.Popen([exe, cmd, jp, op], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    t0 = last = time.time()
    prog = None
    crash = None

    def progress():
        try:
            return int(open(op + '.prog').read().split()[0])
        except Exception:
            return None
    while True:
        try:
            p.wait(0.2)
            break
        except subprocess.TimeoutExpired:
            pass
        q = progress()
        if q != prog:
            prog, last = q, time.time()
        if time.time() - last > stall or time.time() - t0 > timeout:
            slow = time.time() - last <= stall
            p.kill()
            p.wait()
            if slow:
                raise ToolError('harness job %s took longer than %ds' % (tag, timeout))
            crash = (progress(), 'no answer within %d s (hang)' % stall)
            break
    if crash is None and p.returncode != 0:
        err = p.stderr.read().decode(errors='replace')[-400:]
        if p.returncode in (2, 3):
            raise ToolError('harness error %d at case %s: %s' % (p.returncode, progress(), err))
        crash = (progress(), 'process died with status %s %s' % (p.returncode, err))
    res = []
    if crash is None:
        with open(op) as f:
            for line in f:
                res.append(json.loads(line))
    return res, crash


def run_harness_par(cmd, jobs, tag, timeout=300, stall=20):
    from concurrent.futures import ThreadPoolExecutor
    build()
    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(lambda ij: run_harness(cmd, ij[1], '%s.%d' % (tag, ij[0]), timeout, stall), enumerate(jobs)))


class Tlc:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        ms = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        if ms:
            g, d = ms[-1]
            self.generated, self.states = int(g.replace(',', '')), int(d.replace(',', ''))
        else:
            self.generated = self.states = 0
        self.violated = re.findall(r'Invariant (\S+) is violated', out) + re.findall(r'Action property (\S+) is violated', out)
        if 'Temporal properties were violated' in out:
            self.violated.append('temporal')
        if 'Deadlock reached' in out:
            self.violated.append('deadlock')
        self.finished = 'Model checking completed' in out or 'Finished in' in out
        self.ok = rc == 0 and 'No error has been found' in out and not self.violated

    def last_state(self):
        """values of the last printed state"""
        st = re.split(r'^State \d+:.*$', self.out, flags=re.M)
        return st[-1] if len(st) > 1 else self.out[-1500:]

    def var(self, name):
        m = re.findall(r'/\\ %s = (.*?)(?=\n/\\ |\n\n|\Z)' % name, self.last_state(), re.S)
        return m[-1].strip() if m else None

    def prints(self):
        return [l for l in self.out.splitlines()]


def tlc(module, cfg=None, envv=None, workers=None, timeout=600, heap='6g', extra=(), tag=None, cfgtext=None, stack='64m'):
    tag = tag or module
    meta = os.path.join(WORK, 'tlc.' + tag)
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    if cfgtext is not None:
        cfg = os.path.join(meta, 'M.cfg')
        with open(cfg, 'w') as f:
            f.write(cfgtext)
    else:
        cfg = os.path.join(SPEC, cfg or module + '.cfg')
    e = dict(os.environ)
    e.update(envv or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss' + stack, '-cp', CP, 'tlc2.TLC', '-workers', str(workers or NCPU), '-noGenerateSpecTE',
           '-metadir', meta, '-config', cfg] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timed out on ' + tag)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    t = Tlc(r.stdout, r.returncode)
    if not t.ok and not t.violated:
        with open(os.path.join(WORK, 'tlc.%s.out' % tag), 'w') as f:
            f.write(r.stdout)
        raise ToolError('TLC failed on %s (rc %d):\n%s' % (tag, r.returncode, r.stdout[:3000] + "\n...\n" + r.stdout[-3000:]))
    return t


def write_json(name, v):
    p = os.path.join(WORK, name)
    os.makedirs(WORK, exist_ok=True)
    with open(p, 'w') as f:
        json.dump(v, f, separators=(',', ':'))
    return p


def write_nd(name, vs):
    p = os.path.join(WORK, name)
    os.makedirs(WORK, exist_ok=True)
    with open(p, 'w') as f:
        for v in vs:
            f.write(json.dumps(v, separators=(',', ':')) + '\n')
    return p


class Check:
    """Bookkeeping of one check run: coverage counters, violations, evidence."""

    def __init__(self, pid, level='model_checking'):
        self.pid, self.level = pid, level
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, evaluations=0, distinct_nontrivial=0, samples=[])
        self.notes = []
        self.viol = []
        self.assume = []

    def add_tlc(self, t):
        self.cov['states'] += t.states
        self.cov['transitions'] += t.generated

    def sample(self, s, cap=4):
        if len(self.cov['samples']) < cap:
            self.cov['samples'].append(s)

    def violation(self, what, data):
        d = os.path.join(BUILD, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s.%d.json' % (self.pid, len(self.viol)))
        with open(p, 'w') as f:
            json.dump(dict(property=self.pid, what=what, data=data), f, indent=1)
        self.viol.append((what, p))

    def finish(self):
        self.cov['rule'] = '; '.join(self.notes)
        ev = dict(property=self.pid, tier='thorough' if THOROUGH else 'quick', seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assume, wall_s=round(time.time() - T0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for what, p in self.viol[:5]:
            print('  ' + what[:600])
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
        print('%s: %d violations, %d states, %d implementation traces, %.1f s' % (
            self.pid, len(self.viol), self.cov['states'], self.cov['traces_validated_against_impl'], time.time() - T0))
        return 1 if self.viol else 0
