#!/usr/bin/env python3
"""check.py <property> : decides one property of /repo's working tree.

Exit 0: nothing found. Exit 1 with a VIOLATION line: the property is broken. Exit 2: no answer.
"""
import os, sys, json, time, threading, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import kani as K
import props as P
try:
    import vverus as V
except ImportError:
    V = None

VERIF = K.VERIF
EVID = os.path.join(VERIF, 'evidence')
UB = ('dereference', 'pointer', 'memory', 'uninit', 'bounds of', 'dangling', 'alignment', 'invalid', 'deallocated', 'free')

class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.start = time.time()
        self.deadline = self.start + (840 if tier == 'thorough' else 780)
        self.conf = P.PROPS[pid]
        self.feats = pid.lower() + (',thorough' if tier == 'thorough' else '')
        self.violations, self.undecided, self.notes = [], [], []
        self.kani, self.verus = [], None
        self.native_ran = {}
        self.sweep_runs = self.sweep_harnesses = 0
        self.failed_contracts = []

    def left(self): return self.deadline - time.time()

    # ------------------------------------------------------------ reporting
    def violation(self, what, body, found=True):
        d = os.path.join(EVID, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.txt' % (self.pid, len(self.violations)))
        with open(path, 'w') as f: f.write('property: %s\nfailed obligation: %s\n\n%s\n' % (self.pid, what, body))
        self.violations.append(dict(what=what, replay=path, input_found=found))

    def replay_text(self, nat, harness, vals, out, ce):
        return ('%s\nharness: %s (source: /verif/kani/src/%s.rs)\ninput: %s\n\nReplay against the real code:\n'
                '  cd /verif/kani && %sCARGO_TARGET_DIR=%s cargo build --offline --bin replay --features %s && %s %s %s\n\noutput of the replay:\n%s'
                % (ce, harness, self.pid.lower(), ' '.join(vals or ['(none)']),
                   'CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false ' if nat.nda else '', nat.dir, nat.feats, nat.exe(), harness, ' '.join(vals or []), out[-3000:]))

    # ------------------------------------------------------------ Kani
    def judge(self, res, nda):
        """Every failed or unfinished harness: find an input that breaks the real code, or call it undecided."""
        nat = K.Native(self.feats, nda)
        order = sorted(res.failed, key=lambda h: (all('unwinding' in f for f in res.failed[h]), res.times.get(h, 1e9)))
        tried = 0
        for h in order + res.unfinished:
            fails = res.failed.get(h, ['did not finish'])
            label = h + (' [release]' if nda else '')
            if len(self.violations) >= 3 or self.left() < 30:
                self.undecided.append((label, fails)); continue
            # 1. the verifier's counterexample, on the real code
            done = False
            solvable = h in res.failed and any('unwinding' not in f and 'gave up' not in f for f in fails)
            if solvable and tried < 4:
                tried += 1
                ces, _ = K.playback(self.feats, h, min(240, self.left() - 20), nda)
                for vals in ces[:4]:
                    k, out = nat.replay(h, vals)
                    if k in ('fails', 'crashes', 'hangs'):
                        self.violation('%s: %s' % (label, '; '.join(sorted(set(fails)))),
                                       self.replay_text(nat, h, vals, out, "Kani's counterexample, replayed natively: contract " + k))
                        done = True; break
                    if k == 'holds' and any(u in f for f in fails for u in UB):
                        bad, out = K.miri(self.feats, h, vals, min(200, self.left() - 10))
                        if bad:
                            self.violation('%s: %s' % (label, '; '.join(sorted(set(fails)))),
                                           self.replay_text(nat, h, vals, out, "Kani's counterexample, replayed under Miri: undefined behaviour"))
                            done = True; break
            if done: continue
            # 2. any input at all
            k, vals, out = nat.random(h, self.seed, 200000, 4)
            if k in ('fails', 'crashes', 'hangs'):
                self.violation('%s: %s' % (label, '; '.join(sorted(set(fails)))),
                               self.replay_text(nat, h, vals, out, 'Kani did not discharge this contract; input found by random search, contract ' + k))
                continue
            # 3. more room for a loop that only got longer
            if h in res.failed and all('unwinding' in f for f in fails) and self.left() > 60:
                r2 = K.kani(self.feats, min(120, self.left() - 30), [h], nda, extra=['--exact', '--unwind', '80'])
                if h in r2.ok: res.ok.append(h); continue
            self.undecided.append((label, fails))
        for h in list(res.failed):
            if h in res.ok: del res.failed[h]

    def kani_part(self):
        budget = min(self.left() - 90, 600)
        res = K.kani(self.feats, budget)
        self.kani.append(('debug', res))
        if res.compile_error:
            builds, out = K.repo_builds(self.deadline)
            if not builds:
                raise K.Infra('/repo does not build:\n' + out[-2000:])
            if 'rowcol-contracts' not in res.compile_error.rsplit('could not compile', 1)[-1][:80]:
                raise K.Infra(res.compile_error[-3000:])
            self.violation('the contract client no longer type-checks against the public API',
                           'The harness crate is an ordinary client of the public API; it compiles against the unchanged crate.\n\n'
                           + res.compile_error[-6000:])
            return
        if not res.ok and not res.failed: raise K.Infra('no harness ran for ' + self.feats)
        self.judge(res, False)
        if self.conf.get('release') and not self.violations and self.left() > 120:
            r = K.kani(self.feats, min(self.left() - 60, 300), self.conf['release'], nda=True)
            if r.compile_error: raise K.Infra(r.compile_error[-2000:])
            self.kani.append(('release', r))
            self.judge(r, True)

    def native_part(self):
        if not self.conf.get('native'): return
        nat = K.Native(self.feats)
        rc, out = nat.natives(120)
        last = None
        for l in out.splitlines():
            w = l.split()
            if l.startswith('RUNNING '): last = w[1]
            if l.startswith('NATIVE '): self.native_ran[w[1]] = w[2]; last = None
        for h, r in self.native_ran.items():
            if r != 'ok' and len(self.violations) < 4:
                k, o = nat.replay(h, [])
                self.violation(h, self.replay_text(nat, h, [], o, 'executed scenario (bounded stand-in), contract ' + k))
        if rc not in (0, 1) or last:
            if last: self.violation(last, self.replay_text(nat, last, [], out[-2000:], 'executed scenario ended the process'))
            elif nat.built: raise K.Infra('native stand-ins: %s' % out[-1500:])

    def sweep_part(self, secs, seed=None):
        """The same contracts executed on drawn values at many more shapes: a bounded stand-in, and the search for a failing input."""
        nat = K.Native(self.feats + ',wide')
        total, names, bad = nat.sweep(self.seed if seed is None else seed, secs)
        if bad and bad[0][1] == 'unbuilt':
            self.notes.append('sweep not built: ' + bad[0][3][-300:]); return []
        self.sweep_runs += total; self.sweep_harnesses = max(self.sweep_harnesses, names)
        out = []
        for h, k, vals, o in bad[:2]:
            k2, o2 = nat.replay(h, vals or [])
            if k == 'hangs' and k2 == 'holds': continue
            out.append((h, self.replay_text(nat, h, vals, o2 if k2 != 'unbuilt' else o, 'input found by executing the contract on drawn values, contract ' + k)))
        return out

    def verus_part(self):
        fails = self.verus.conclude(self)
        if not fails:
            for h, text in self.sweep_part(90 if self.tier == 'thorough' else 12):
                if len(self.violations) < 3: self.violation('executed contract ' + h, text)
            return
        found = [] if self.violations else self.sweep_part(min(60, max(15, self.left() - 60)))
        for k, msg, decisive in fails:
            self.failed_contracts.append(k)
            if self.violations and not found: continue      # an input is already reported
            what = 'contract of %s (Verus): %s' % (k, msg.split('\n')[0])
            if found: self.violation(what, msg + '\n\n' + found[0][1]); break
        if self.violations: return
        for k, msg, decisive in fails:
            if decisive and len(self.violations) < 3:
                self.violation('contract of %s (Verus): %s' % (k, msg.split('\n')[0]),
                               'The verifier no longer accepts this obligation, generated from the current source of the function named above.\n'
                               'No failing input was found by Kani or by executing the contracts (%d runs).\n\n%s' % (self.sweep_runs, msg), found=False)
            elif not decisive:
                self.undecided.append((k, ['proof does not apply: ' + self.verus.shape_changed[k]]))

    # ------------------------------------------------------------ all
    def main(self):
        os.makedirs(EVID, exist_ok=True)
        vt = None
        if V:
            self.verus = V.Verifier(self.pid, self.tier)
            vt = threading.Thread(target=self.verus.run_safe, args=(self.deadline,))
            vt.start()
        self.kani_part()
        if not self.violations: self.native_part()
        if vt:
            vt.join()
            self.verus_part()
        self.evidence()
        for line in self.known(): print(line)
        for h, f in self.undecided: print('UNDECIDED %s: %s' % (h, '; '.join(sorted(set(f)))[:300]))
        for n in self.notes: print('NOTE ' + n)
        for v in self.violations:
            print('failed obligation: ' + v['what'])
            print('VIOLATION property=%s replay=%s%s' % (self.pid, v['replay'], '' if v['input_found'] else ' no-failing-input-found'))
        vb = self.verus.summary() if self.verus else dict(discharged=0, obligations=0)
        print('%s %s: Verus %d/%d functions, Kani %d harnesses, %d runs executed, %d undecided, %d violations, %.0f s' % (
            self.pid, self.tier, vb['discharged'], vb['obligations'], sum(len(r.ok) for _, r in self.kani), self.sweep_runs, len(self.undecided), len(self.violations), time.time() - self.start))
        return 1 if self.violations else 0

    def known(self):
        out = []
        for l in open(os.path.join(VERIF, 'KNOWN_FINDINGS')):
            if l.startswith('KNOWN-FINDING: property=%s ' % self.pid): out.append(l.strip())
        return out

    def evidence(self):
        vb = self.verus.summary() if self.verus else None
        kc = []
        proof = bool(vb and self.conf['level'] == 'proof' and vb['proved'])
        for mode, r in self.kani:
            kc.append(dict(mode=mode, harnesses=len(r.ok) + len(r.failed) + len(r.unfinished), discharged=len(r.ok),
                           cbmc_checks=sum(c[1] for h, c in r.checks.items() if h in r.ok), solver_s=round(sum(r.times.values()), 1), wall_s=round(r.wall, 1),
                           unfinished=r.unfinished, failed={h: f for h, f in r.failed.items()}))
        cov = dict(kani=kc, kani_scope=self.conf['scope'], kani_label=self.conf['label'],
                   checker_cmd='cargo kani -Z stubbing --lib --features %s' % self.feats + ('; ' + vb['cmd'] if vb else ''),
                   obligations=vb['obligations'] if proof else sum(k['harnesses'] for k in kc) + (vb['obligations'] if vb else 0),
                   discharged=vb['discharged'] if proof else sum(k['discharged'] for k in kc) + (vb['discharged'] if vb else 0),
                   trusted_base=P.TRUSTED + (vb['trusted'] if vb else []),
                   explanation=(self.conf.get('verus_note', '') + ' Kani and execution (bounded, not in the proof counts): ' if proof else '') + self.conf['how'])
        if vb: cov['verus'] = vb
        if self.native_ran: cov['executed_stand_ins'] = dict(run=len(self.native_ran), ok=sum(x == 'ok' for x in self.native_ran.values()), label='bounded, not counted as proved')
        cov['executed_sweep'] = dict(harnesses=self.sweep_harnesses, runs=self.sweep_runs, label='drawn values at many shapes; bounded, not counted as proved')
        if self.notes: cov['notes'] = self.notes
        if self.undecided: cov['undecided'] = [h for h, _ in self.undecided]
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='proof' if proof else 'other', coverage=cov,
                  assumptions=self.conf.get('assumptions', []) + P.ASSUMPTIONS, wall_s=round(time.time() - self.start, 1), violations=len(self.violations))
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    if tier not in ('quick', 'thorough'): tier = 'quick'
    c = Check(pid, tier, int(os.environ.get('VERIF_SEED', '1') or 1))
    try:
        return c.main()
    except K.Infra as e:
        print('NO ANSWER: %s' % e)
        return 2
sys.exit(main())
