"""The Verus part of a check: extract the crate mechanically, discharge every contract, map failures to functions."""
import os, re, json, time
import concurrent.futures as cf
import kani as K
import extract as X

HERE = os.path.join(K.VERIF, 'verus')
NIGHTLY = 'nightly-x86_64-unknown-linux-gnu'

def expand(timeout):
    """the crate after macro expansion by rustc, from /repo's working tree"""
    tdir = os.path.join(K.BUILD, 'expand')
    rc, out = K.run(['bash', '-c', 'touch src/lib.rs -r src/lib.rs; cargo rustc --offline --lib --profile check -- -Zunpretty=expanded 2>"$0"', os.path.join(K.BUILD, 'expand.err')],
                    timeout, cwd='/repo', CARGO_TARGET_DIR=tdir, RUSTUP_TOOLCHAIN=NIGHTLY)
    err = open(os.path.join(K.BUILD, 'expand.err')).read() if os.path.exists(os.path.join(K.BUILD, 'expand.err')) else ''
    return (out if rc == 0 and 'impl' in out else None), err

def fn_lines(text):
    """[(first line, last line, key)]"""
    out, cur = [], None
    for i, l in enumerate(text.split('\n'), 1):
        if l.startswith('//@fn '): cur = (i, l[6:])
        elif l.startswith('//@endfn') and cur: out.append((cur[0], i, cur[1])); cur = None
    return out

class Run:
    """one Verus invocation"""
    def __init__(self, text, timeout, tag='m', extra=(), jobs=4):
        d = os.path.join(K.BUILD, 'verus'); os.makedirs(d, exist_ok=True)
        self.path = os.path.join(d, 'rowcol_%s_%d.rs' % (tag, os.getpid()))
        open(self.path, 'w').write(text)
        s = time.time()
        e = os.path.join(d, 'err_%s_%d' % (tag, os.getpid()))
        open(e, 'w').close()
        rc, out = K.run(['bash', '-c', 'exec verus "$1" --crate-type=bin --num-threads %d --output-json --time-expanded --error-format=json --multiple-errors 3 %s 2>"$2"' % (jobs, ' '.join(extra)),
                         'x', self.path, e], timeout, cwd=d)
        self.wall = time.time() - s
        self.timeout = rc is None
        self.diags = []
        for l in open(e, errors='replace'):
            if l.startswith('{'):
                try: j = json.loads(l)
                except ValueError: continue
                if j.get('level') == 'error' and j.get('spans'): self.diags.append(j)
                elif j.get('level') == 'error' and 'aborting' not in j['message']: self.diags.append(j)
        try: self.json = json.loads(out[out.index('{'):])
        except ValueError: self.json = {}
        r = self.json.get('verification-results', {})
        self.verified, self.errors = r.get('verified', 0), r.get('errors', 0)
        self.reached = bool(r) and not r.get('encountered-vir-error') and (self.verified + self.errors) > 0
        smt = self.json.get('times-ms', {}).get('smt', {})
        self.smt_ms = smt.get('smt-run', 0)
        os.unlink(e); os.unlink(self.path)

    def fn_of(self, d, lines, bodies):
        """the function a diagnostic is about"""
        hits = []
        for s in d.get('spans', []):
            if not os.path.basename(s['file_name']).startswith('rowcol_'): continue
            for a, b, k in lines:
                if a <= s['line_start'] <= b:
                    lab = s.get('label') or ''
                    prio = 0 if 'end of the function body' in lab or 'at this exit' in lab or 'this loop' in lab else 1 if s.get('is_primary') else 2
                    hits.append((prio if bodies.get(k) else prio + 10, k))
        return min(hits)[1] if hits else None

class Verifier:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.note = None            # why there is no verdict at all
        self.status = {}            # key -> 'verified' | 'failed' | 'unreached'
        self.messages = {}          # key -> [text]
        self.shape_changed = {}     # key -> why a failed proof says nothing
        self.run = None
        self.smt_ms = 0; self.wall = 0
        self.vacuous = None
        self.src = None

    def run_safe(self, deadline):
        try: self.go(deadline)
        except X.Lost as e: self.note = 'extraction: %s' % e
        except Exception as e: self.note = '%s: %s' % (type(e).__name__, e)

    def load(self):
        self.contracts = open(os.path.join(HERE, 'contracts.vc')).read()
        self.prelude = X.load_prelude(HERE)
        self.con = X.parse_contracts(self.contracts)[0]
        b = os.path.join(HERE, 'baseline.json')
        self.base = json.load(open(b)) if os.path.exists(b) else dict(fns={}, nocontract=[])

    def go(self, deadline):
        self.load()
        src, err = expand(min(300, deadline - time.time()))
        if src is None: self.note = 'expansion failed: ' + err[-300:]; return
        self.src = src
        ext = set()
        for rnd in range(5):
            text, info = X.extract(src, self.contracts, self.prelude, externals=ext)
            self.text, self.info = text, info
            lines = fn_lines(text)
            bodies = {k: not v['external'] for k, v in info['fns'].items()}
            left = deadline - time.time() - 30
            if left < 20: self.note = 'out of time'; return
            r = self.run = Run(text, min(left, 300))
            self.wall += r.wall; self.smt_ms += r.smt_ms
            if r.timeout: self.note = 'Verus did not finish'; return
            if r.reached: break
            bad = set()
            for d in r.diags:
                k = r.fn_of(d, lines, bodies)
                if k and bodies.get(k): bad.add(k); self.messages.setdefault(k, []).append('outside the dialect: ' + d['message'][:300])
            if not bad:
                self.note = 'the extracted text does not compile: ' + '; '.join(d['message'] for d in r.diags[:3])[:400]; return
            ext |= bad
        else:
            self.note = 'the extracted text does not compile'; return
        if not r.reached: self.note = 'Verus gave no result'; return
        failed = self.failures(r, lines, bodies)
        if failed:
            # a failed proof is tried again with more room and another seed before it counts
            left = deadline - time.time() - 30
            if left > 40: failed = self.again(text, failed, lines, bodies, left)
        self.stray = failed.pop(None, None)
        for k, v in info['fns'].items():
            if not v['contract']: continue
            if self.con[k].mode == 'trusted': self.status[k] = 'trusted'
            elif k in ext or v['external']: self.status[k] = 'unreached'
            elif k in failed: self.status[k] = 'failed'; self.messages[k] = failed[k]
            else: self.status[k] = 'verified'
        for k, why in info['lost']:
            if k in self.con and self.status.get(k) != 'verified': self.status[k] = 'unreached'; self.messages.setdefault(k, []).append(why)
        for k, v in info['fns'].items():
            if k.endswith(('::len_ok', '::min_ok')):
                self.con[k] = X.Contract(); self.con[k].props = ['P23']
                self.status[k] = 'failed' if k in failed else 'verified'
                if k in failed: self.messages[k] = failed[k]
        self.structure()
        if self.tier == 'thorough' and deadline - time.time() > 120: self.vacuity(deadline)

    def again(self, text, failed, lines, bodies, left):
        """the failures that remain when only the functions of these names are tried, one process per name"""
        names = sorted({k.rsplit('::', 1)[-1].replace('#', '__') for k in failed if k})
        if None in failed or len(names) > 6: cmds = [['--rlimit', '60', '--smt-option', 'smt.random_seed=7']]
        else: cmds = [['--verify-root', '--verify-function', "'*%s*'" % n, '--rlimit', '60', '--smt-option', 'smt.random_seed=7'] for n in names]
        with cf.ThreadPoolExecutor(4) as ex:
            runs = list(ex.map(lambda x: Run(text, min(left, 240), tag='r%d' % x[0], extra=x[1], jobs=2), enumerate(cmds)))
        if not all(r.reached for r in runs): return failed
        still = set()
        for r in runs:
            self.wall += r.wall; self.smt_ms += r.smt_ms
            still |= set(self.failures(r, lines, bodies))
        return {k: v for k, v in failed.items() if k in still}

    def failures(self, r, lines, bodies):
        out = {}
        for d in r.diags:
            k = r.fn_of(d, lines, bodies)
            out.setdefault(k, []).append(d.get('rendered') or d['message'])
        return out

    def structure(self):
        """functions whose shape the annotations were written for has changed"""
        base = self.base['fns']
        new = [k for k in self.info['nocontract'] if k not in self.base['nocontract']]
        names = {k.rsplit('::', 1)[-1] for k in new}
        for k, v in self.info['fns'].items():
            if self.status.get(k) != 'failed' or k.endswith(('::len_ok', '::min_ok')): continue
            s = v.get('shape')
            if k not in base: self.shape_changed[k] = 'function not known'
            elif s and s[:2] != base[k][:2]: self.shape_changed[k] = 'its loops or closures are not the ones annotated'
            elif s and len(base[k]) > 3 and [list(x) for x in s[3]] != [list(x) for x in base[k][3]]: self.shape_changed[k] = 'the locals its annotations name are not the ones annotated'
            elif s and names & set(s[2]): self.shape_changed[k] = 'calls functions that have no contract: ' + ', '.join(sorted(names & set(s[2])))
            elif all('esource limit' in m for m in self.messages[k]): self.shape_changed[k] = 'the solver gave up'
            elif self.con[k].brittle: self.shape_changed[k] = 'its proof follows the text closely'
        self.newfns = new

    def vacuity(self, deadline):
        """`assert(false)` at the end of every contracted body must fail: no contradictory assumption proves it"""
        text, info = X.extract(self.src, self.contracts, self.prelude, vacuity=True)
        r = Run(text, min(500, deadline - time.time() - 20), tag='v')
        if not r.reached: return
        lines = fn_lines(text); bodies = {k: not v['external'] for k, v in info['fns'].items()}
        failed = self.failures(r, lines, bodies)
        self.vacuous = sorted(k for k, v in info['fns'].items() if v['contract'] and not v['external'] and v.get('vac') and k not in failed)

    def mine(self): return [k for k, c in self.con.items() if self.pid in c.props]

    def conclude(self, check):
        """-> list of (key, message, decisive) for this property's failed obligations"""
        if self.note:
            check.notes.append('verus: no verdict: ' + self.note); return []
        if self.vacuous: check.notes.append('verus: contracts that prove too much: ' + ', '.join(self.vacuous))
        out = []
        for k in self.mine():
            st = self.status.get(k, 'unreached')
            if st == 'failed': out.append((k, '\n'.join(self.messages[k]), k not in self.shape_changed))
            elif st == 'unreached': check.notes.append('verus: %s is out of reach of its contract: %s' % (k, '; '.join(self.messages.get(k, ['gone']))[:200]))
        others = [k for k, s in self.status.items() if s == 'failed' and k not in self.mine()]
        if others: check.notes.append('verus: contracts this property may rest on failed: ' + ', '.join(others[:5]))
        if self.stray: check.notes.append('verus: a lemma failed: ' + self.stray[0][:200])
        return out

    def proved(self):
        """every function of this property verified, and nothing it can rest on failed"""
        return not self.note and not self.stray and self.mine() and all(s in ('verified', 'trusted') for s in self.status.values())

    def summary(self):
        mine = self.mine() if hasattr(self, 'con') else []
        st = {k: self.status.get(k, 'no verdict') for k in mine}
        return dict(cmd='verus <extracted rowcol.rs> --crate-type=bin (Z3 back end)', obligations=sum(s != 'trusted' for s in st.values()),
                    discharged=sum(s == 'verified' for s in st.values()),
                    unit='one obligation is one function with all its verification conditions', functions=st,
                    whole_crate=dict(verified=self.run.verified if self.run else 0, errors=self.run.errors if self.run else 0,
                                     functions_without_contract=self.info['nocontract'] if hasattr(self, 'info') else [],
                                     dropped_impls=self.info['dropped'] if hasattr(self, 'info') else []),
                    solver_s=round(self.smt_ms / 1000, 1), wall_s=round(self.wall, 1), note=self.note, proved=bool(self.proved()) if mine else False,
                    vacuity='not run (thorough only)' if self.vacuous is None else ('every contracted body rejects assert(false)' if not self.vacuous else 'VACUOUS: ' + ', '.join(self.vacuous)),
                    shape_changed=self.shape_changed, extraction_rewrites=X.REWRITES,
                    trusted=(['Verus 0.2026.09.13 and Z3', 'lib/extract.py: the rewrites listed under extraction_rewrites'] +
                             ['contract assumed, not proved: ' + k for k in (self.con if hasattr(self, 'con') else {}) if self.con[k].mode == 'trusted'] +
                             trusted_prelude(getattr(self, 'prelude', '') + getattr(self, 'contracts', ''))))

def trusted_prelude(text):  # the contract file may state axioms too
    out = []
    for m in re.finditer(r'axiom fn (\w+)', text): out.append('axiom ' + m[1])
    n = len(re.findall(r'external_body', text))
    out.append('verus/prelude.rs: %d external_body declarations standing for core/alloc/num/typenum/nodrop items (iterators, slices, ptr, mem, Clone, Ord, Zero, One, Float)' % n)
    return out

def write_baseline():
    v = Verifier('P01', 'quick'); v.load()
    src, err = expand(300)
    text, info = X.extract(src, v.contracts, v.prelude)
    json.dump(dict(fns={k: f['shape'] for k, f in sorted(info['fns'].items()) if f['contract']}, nocontract=sorted(info['nocontract'])),
              open(os.path.join(HERE, 'baseline.json'), 'w'), indent=0)
if __name__ == '__main__':
    import sys
    if sys.argv[1:] == ['baseline']: write_baseline()
    elif sys.argv[1:] == ['vacuity']:
        v = Verifier('P01', 'thorough'); v.go(time.time() + 900)
        print(v.note, v.vacuous, [k for k, s in v.status.items() if s not in ('verified',)])
