"""Runs the Kani contract harnesses of one property over /repo's working tree and decides each one."""
import os, re, subprocess, signal, time, threading, json
import concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, '.build')
CRATE = os.path.join(VERIF, 'kani')

def env(**kw):
    e = dict(os.environ)
    e.update(HOME='/root', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0', RUSTC_WRAPPER='',
             CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTDOCFLAGS'):
        e.pop(k, None)
    e.update(kw)
    return e

def run(cmd, timeout, cwd=CRATE, **kw):
    """-> (rc, output); rc None on timeout. The whole process group dies with it."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors='replace', start_new_session=True)
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, _ = p.communicate()
        return None, out

class Infra(Exception):
    """The machinery itself failed: no answer."""

def repo_builds(deadline):
    rc, out = run(['cargo', 'check', '--offline', '--lib', '--features', 'std unicode_width'], deadline - time.time(), cwd='/repo',
                  CARGO_TARGET_DIR=os.path.join(BUILD, 'repo'))
    return rc == 0, out

class Result:
    def __init__(self):
        self.ok, self.failed, self.unfinished, self.times, self.checks = [], {}, [], {}, {}
        self.compile_error = None
        self.wall = 0.0

def parse(out, res):
    cur, t = {}, '0'
    h, fails = None, []
    for l in out.splitlines():
        m = re.match(r'(?:Thread (\d+): )?Checking harness (\S+)\.\.\.', l)
        if m:
            cur[m[1] or '0'] = m[2]; continue
        m = re.match(r'Thread (\d+):\s*$', l)
        if m:
            t = m[1]; fails = []; continue
        if 'VERIFICATION RESULT' in l:
            fails = []; h = cur.get(t); continue
        m = re.match(r' \*\* (\d+) of (\d+) failed', l)
        if m and h: res.checks[h] = (int(m[1]), int(m[2]))
        m = re.match(r'Failed Checks: (.*)', l)
        if m: fails.append(m[1])
        if l.startswith('CBMC failed') or 'run out of memory' in l or 'timed out' in l: fails.append('CBMC gave up'); h = cur.get(t)
        m = re.match(r'VERIFICATION:- (\w+)(.*)', l)
        if m:
            h = cur.pop(t, None)
            if not h: continue
            if m[1] == 'SUCCESSFUL': res.ok.append(h)
            else: res.failed[h] = fails + ([m[2].strip()] if m[2].strip() else [])
        m = re.match(r'Verification Time: ([\d.]+)s', l)
        if m and h: res.times[h] = float(m[1])
    res.unfinished += [x for x in cur.values()]

def kani(feats, timeout, harness=None, nda=False, extra=(), jobs=8):
    """Kani over all harnesses of the features (or those whose name contains `harness`)."""
    cmd = ['cargo', 'kani', '-Z', 'stubbing', '--lib', '--features', feats, '-j', str(jobs), '--output-format', 'terse'] + list(extra)
    for x in ([harness] if isinstance(harness, str) else harness or []): cmd += ['--harness', x]
    kw = {'CARGO_TARGET_DIR': os.path.join(BUILD, 'kani-nda' if nda else 'kani')}
    if nda: kw['CARGO_PROFILE_DEV_DEBUG_ASSERTIONS'] = 'false'
    s = time.time()
    rc, out = run(cmd, timeout, **kw)
    res = Result()
    parse(out, res)
    res.wall = time.time() - s
    res.timeout = rc is None
    if rc not in (0, None) and not res.ok and not res.failed:
        if re.search(r'^error', out, re.M): res.compile_error = out
        else: raise Infra('kani ended with %s:\n%s' % (rc, out[-3000:]))
    return res

def playback(feats, harness, timeout, nda=False, extra=()):
    """Kani's counterexample for one harness: list of hex byte strings, or None."""
    cmd = ['cargo', 'kani', '-Z', 'stubbing', '-Z', 'concrete-playback', '--concrete-playback=print', '--lib', '--features', feats,
           '--exact', '--harness', harness] + list(extra)
    kw = {'CARGO_TARGET_DIR': os.path.join(BUILD, 'kani-nda' if nda else 'kani')}
    if nda: kw['CARGO_PROFILE_DEV_DEBUG_ASSERTIONS'] = 'false'
    rc, out = run(cmd, timeout, **kw)
    ces = []
    for m in re.finditer(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', out, re.S):
        vals = []
        for v in re.finditer(r'vec!\[([\d, ]*)\]', m[1]):
            b = [int(x) for x in v[1].replace(' ', '').split(',') if x]
            vals.append(''.join('%02x' % x for x in b) or '-')
        if vals not in ces: ces.append(vals)
    return ces, out

class Native:
    """The same harnesses as ordinary code on the real crate."""
    def __init__(self, feats, nda=False):
        self.dir = os.path.join(BUILD, 'native-nda' if nda else 'native')
        self.feats, self.nda, self.built = feats, nda, None
        self.lock = threading.Lock()
    def build(self, timeout=240):
        with self.lock:
            if self.built is None:
                kw = {'CARGO_TARGET_DIR': self.dir}
                if self.nda: kw['CARGO_PROFILE_DEV_DEBUG_ASSERTIONS'] = 'false'
                rc, self.out = run(['cargo', 'build', '--offline', '--bin', 'replay', '--features', self.feats], timeout, **kw)
                self.built = rc == 0
            return self.built
    def exe(self): return os.path.join(self.dir, 'debug', 'replay')
    def replay(self, harness, vals, timeout=30):
        if not self.build(): return 'unbuilt', self.out
        rc, out = run([self.exe(), harness] + list(vals), timeout)
        return self.classify(rc), out
    @staticmethod
    def classify(rc):
        if rc is None: return 'hangs'
        if rc == 0: return 'holds'
        if rc in (1, 42): return 'fails'
        if rc == 77: return 'unmet'
        if rc == 78: return 'unknown'
        return 'crashes'     # killed by a signal, or abort
    def random(self, harness, seed, runs, secs):
        if not self.build(): return 'unbuilt', None, self.out
        rc, out = run([self.exe(), '--random', harness, str(seed), str(runs), str(secs)], secs + 20)
        k = self.classify(rc)
        m = re.search(r'^VALUES ?(.*)$', out, re.M)
        return k, (m[1].split() if m else None), out
    def sweep(self, seed, secs, runs=400, each=2, jobs=8):
        """Executes every harness on drawn values, round after round, for about `secs` seconds.
        -> (runs made, harnesses run, [(harness, kind, values, output)])"""
        if not self.build(): return 0, 0, [(None, 'unbuilt', None, self.out)]
        rc, out = run([self.exe(), '--list'], 60)
        names = [l for l in out.split() if '::' in l]
        end = time.time() + secs
        bad, total, seen = [], 0, set()
        def one(a):
            h, sd, first = a
            if (time.time() > end and not first) or time.time() > end + 60 or len(bad) >= 3: return h, None, None, ''
            k, v, o = self.random(h, sd, runs, each)
            return (h, k, v, o)
        rnd = 0
        with cf.ThreadPoolExecutor(jobs) as ex:
            while time.time() < end or rnd == 0:
                for h, k, v, o in ex.map(one, [(h, seed + 7919 * rnd, rnd == 0) for h in names]):
                    if k is None: continue
                    seen.add(h)
                    m = re.search(r'RANDOM (\d+) runs, (\d+) met', o)
                    if m: total += int(m[2])
                    if k not in ('holds', 'unmet', 'unknown'): bad.append((h, k, v, o))
                if bad: break
                rnd += 1
        return total, len(seen), bad
    def natives(self, timeout):
        if not self.build(): return None, self.out
        rc, out = run([self.exe(), '--native'], timeout)
        return rc, out

def miri(feats, harness, vals, timeout):
    """Runs one replay under Miri; True if it reports undefined behaviour."""
    rc, out = run(['cargo', '+nightly', 'miri', 'run', '--offline', '--bin', 'replay', '--features', feats, '--', harness] + list(vals), timeout,
                  CARGO_TARGET_DIR=os.path.join(BUILD, 'miri'), MIRIFLAGS='-Zmiri-disable-isolation -Zmiri-ignore-leaks', RUSTUP_TOOLCHAIN='nightly-x86_64-unknown-linux-gnu')
    return 'Undefined Behavior' in out, out
