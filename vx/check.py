#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--repo DIR]

Decides one property: extracts the functions under contract from the repository's current source, has Verus discharge
every obligation of them, and runs the real code against the executable reading of the contracts (replay/) to look for
a failing input and to test what is assumed.  Exit 0: held.  Exit 1 + VIOLATION line: broken.  Exit 2: nothing decided."""
from concurrent.futures import ThreadPoolExecutor
import argparse, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import vbuild as V
import extract as X

VERIF_MSGS = ('not satisfied', 'assertion failed', 'arithmetic underflow/overflow', 'division by zero', 'bit shift', 'unreachable', 'decreases',
              'assert_by', 'invariant', 'termination', 'assertion', 'failed', 'cannot prove', 'overflow')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true')
ENV.setdefault('CARGO_HOME', os.path.expanduser('~/.cargo'))


def log(*a):
    print('[check]', *a, flush=True)


# ------------------------------------------------------------------------------------------------ the proof
class Proof:
    """runs the generator and the verifier until every function is proved, failing, or out of reach"""
    def __init__(self, prop, repo, work, own, cfg):
        self.prop, self.repo, self.work, self.cfg = prop, repo, work, cfg
        self.own_pats, self.own = own, set()
        self.state = {}          # fn id -> 'proved' | 'failing' | 'degraded'
        self.failing = {}        # fn id -> [rendered errors]
        self.degraded = {}       # fn id -> reason
        self.missing, self.external = {}, {}
        self.lemmas = None       # lemmas not accepted
        self.undecided = None    # reason if the whole proof could not be run
        self.rounds = []
        self.under, self.vac_ok, self.vac_bad = [], [], []
        self.obligations = self.discharged = 0
        self.smt_ms = 0
        self.text = ''
        self.verified = 0
        self.cmd = 'verus %s.rs --output-json --time-expanded --rlimit R --multiple-errors 3 --triggers-mode silent --error-format=json' % prop
        self.details = []
        self.retried = 0

    def run(self, vacuity=False, deadline=None):
        try:
            g = V.Gen(self.repo)
        except BaseException as e:
            self.undecided = 'the sources could not be indexed: %s: %s' % (type(e).__name__, e)
            return
        base = {}
        bp = os.path.join(V.CON, 'baseline.json')
        if os.path.exists(bp):
            base = json.load(open(bp))
        changed_tried = False
        for rnd in range(8):
            try:
                r = g.generate(self.cfg['areas'], self.cfg['own'] + self.cfg.get('also', []), degraded=self.degraded, vacuity=vacuity, nshards=8)
            except Exception as e:
                self.undecided = 'generation failed: %s: %s' % (type(e).__name__, e)
                return
            self.degraded = dict(r['degraded'])
            self.own = set(g.resolve(self.own_pats, r['ovs']))
            self.missing, self.external, self.under = r['missing'], r['external'], r['under']
            if r['problems']:
                self.undecided = '; '.join(r['problems'])
                return
            path = os.path.join(self.work, '%s.rs' % self.prop)
            self.text = r['text']

            def verify(extra=()):
                v = V.run_shards(r['shards'], path, rlimit=40, timeout=max(30, min(400, (deadline or time.time() + 400) - time.time())), extra=list(extra))
                self.rounds.append(round(v['wall'], 1))
                return v
            v = verify()
            vir = v['vir']
            self.details = [(n, ok, us) for n, (ok, us) in v['units'].items()]
            per = sum(d[2] for d in self.details) // 1000
            byfn, other, vacfail, rl = {}, [], set(), {}
            for e in v['errors']:
                tags = e['tags'] or ['unknown']
                t = next((t for t in tags if t.startswith(('fn:', 'vac:'))), None) if not vir else None
                if t is None:
                    t = tags[0]
                    if vir and not t.startswith('fn:'):
                        t = next((t2 for t2 in tags if t2.startswith('fn:')), t)
                if vir and not e['vir']:
                    continue
                if t.startswith('vac:'):
                    if not vir:
                        vacfail.add(t[4:])
                    else:
                        other.append((t, e))
                elif t.startswith('fn:'):
                    m = e['msg'].lower()
                    (rl if 'rlimit' in m or 'resource limit' in m else byfn).setdefault(t[3:], []).append(e)
                else:
                    other.append((t, e))
            if vir:
                new = {f: 'not accepted by the verifier: ' + es[0]['msg'][:200] for f, es in list(byfn.items()) + list(rl.items())}
                degtags = {t[4:] for t, _ in other if t.startswith('deg:')}
                if not new and not changed_tried:
                    changed_tried = True
                    new = {f: 'changed, and the verifier stops on the generated file' for f in self.under if f in base and base[f] != fn_hash(g.index.fns[f])}
                if new:
                    self.degraded.update(new)
                    if deadline and time.time() > deadline:
                        self.undecided = 'out of time'
                        return
                    continue
                self.undecided = 'the verifier stops on the generated file: ' + ('; '.join('%s: %s' % (t, e['msg'][:160]) for t, e in other[:3]) or v['raw'][-400:] or 'no output')
                return
            # what fails is verified again by itself, with other solver seeds: what is proved once is proved
            ids = {X.unit_name(g.index.fns[f]): f for f in r['under'] if f in g.index.fns}
            for n in v['units']:
                if n.startswith('impl&%'):
                    ids.update({n: f for f in r['under'] if f in g.index.fns and X.unit_name(g.index.fns[f]) not in v['units'] and X.emit_name(g.index.fns[f]) == n.split('::')[-1]})
            bad = [n for n, (ok, us) in v['units'].items() if not ok and not n.split('::')[-1].startswith('vac_')]
            byfn, rl, lem, softbad = {}, {}, [], 0
            # verified without all of its inner contract text: accepted is proved, not accepted is out of reach
            for n in list(bad):
                if ids.get(n) in g.index.soft:
                    bad.remove(n)
                    self.degraded[ids[n]] = 'not accepted without ' + g.index.soft[ids[n]]
                    softbad += 1
            if bad:
                t1 = time.time()
                with ThreadPoolExecutor(8) as ex:
                    res = list(ex.map(lambda n: V.isolated(v['where'][n], n, 40, max(30, min(120, (deadline or t1 + 400) - time.time()))), bad))
                self.rounds.append(round(time.time() - t1, 1))
                for n, es in zip(bad, res):
                    if not es:
                        self.retried += 1
                        log('proved only by itself: %s' % n)
                    elif n not in ids:
                        lem.append((n, es[0]))
                    else:
                        for e in es:
                            m = e['msg'].lower()
                            (rl if 'rlimit' in m or 'resource limit' in m else byfn).setdefault(ids[n], []).append(e)
            if lem:
                # the functions are judged against their contracts all the same; nothing is claimed as proved that rests on it
                self.lemmas = 'a lemma of the contracts is not accepted: ' + '; '.join('%s: %s' % (t, e['msg'][:160]) for t, e in lem[:3])
            for f in list(rl):
                if f not in byfn:
                    self.degraded[f] = 'the verifier ran out of its resource limit'
                else:
                    byfn[f] += rl[f]
            self.failing = {f: [e['rendered'] for e in es] for f, es in byfn.items()}
            nbad = len(byfn) + len([f for f in rl if f not in byfn])
            self.vac_ok = sorted(vacfail)
            self.vac_bad = [f for f in r['vac'] if f not in vacfail]
            # every function, lemma and recursive definition is one unit; the twins of the vacuity test are not counted
            self.obligations = len([n for n in v['units'] if not n.split('::')[-1].startswith('vac_')])
            self.discharged = self.obligations - nbad - softbad - len(lem)
            self.smt_ms = per
            self.under = [f for f in self.under if f not in self.degraded]
            return
        self.undecided = 'no stable set of translatable functions after %d rounds' % (rnd + 1)

    def trusted(self):
        """what the generated text assumes, read from the text itself"""
        out = []
        src = self.text
        for m in re.finditer(r'#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:(?:open|closed|broadcast|const|unsafe)\s+)*(proof fn|fn|struct|enum|exec fn)\s+(\w+)', src):
            out.append('assumed %s %s' % (m.group(1), m.group(2)))
        for m in re.finditer(r'uninterp spec fn (\w+)', src):
            out.append('uninterpreted %s' % m.group(1))
        for m in re.finditer(r'assume_specification\s*(?:<[^>]*>)?\s*\[([^\]]*)\]', src):
            out.append('assumed specification of %s' % m.group(1).strip())
        for m in re.finditer(r'\b(assume|admit)\s*\(', re.sub(r'//[^\n]*', '', src)):
            out.append('%s(...) in the text' % m.group(1))
        for m in re.finditer(r'#\[verifier::(\w+)\][^\n]*\n', src):
            if m.group(1) in ('assume_termination', 'exec_allows_no_decreases_clause'):
                out.append('%s' % m.group(1))
        r = []
        for x in out:
            if x not in r:
                r.append(x)
        return r


def fn_hash(f):
    return hashlib.sha256(' '.join(t.t for t in f.sig + f.body).encode()).hexdigest()[:16]


# ------------------------------------------------------------------------------------------------ the replay
class Replay:
    def __init__(self, prop, repo, work, seed):
        self.prop, self.repo, self.work, self.seed = prop, repo, work, seed
        self.bin = None
        self.err = None

    def build(self):
        man = os.path.join(VERIF, 'replay', 'Cargo.toml')
        tdir = os.path.join(VERIF, 'replay', 'target')
        if os.path.realpath(self.repo) != '/repo':
            d = os.path.join(self.work, 'replay')
            shutil.copytree(os.path.join(VERIF, 'replay'), d, ignore=shutil.ignore_patterns('target'))
            man = os.path.join(d, 'Cargo.toml')
            s = open(man).read()
            open(man, 'w').write(s.replace('"/repo"', '"%s"' % os.path.realpath(self.repo)))
            tdir = os.path.join(self.work, 'rtarget')
        p = subprocess.run(['cargo', 'build', '--release', '--offline', '--locked', '-q', '--manifest-path', man, '--target-dir', tdir], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            self.err = p.stdout[-3000:]
            return
        self.bin = os.path.join(tdir, 'release', 'netcdf3-replay')

    def search(self, secs, workers=8):
        """runs the workers; returns dict(cases, per, found=None|(kind, text))"""
        sc = tempfile.mkdtemp(prefix='n3r_', dir='/tmp')
        procs = []
        for w in range(workers):
            o = os.path.join(sc, 'out%d' % w)
            procs.append((w, o, subprocess.Popen([self.bin, self.prop, '--seed', str(self.seed), '--secs', str(secs), '--scratch', sc, '--out', o, '--worker', str(w), '--workers', str(workers)],
                                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
        found, cases, per = None, 0, {}
        end = time.time() + secs + 60
        done = {}
        while len(done) < len(procs):
            for w, o, p in procs:
                if w in done or p.poll() is None:
                    continue
                done[w] = p.returncode
                so, se = p.communicate()
                m = re.search(r'DONE (\d+) cases (\{.*\})', so)
                if m:
                    cases += int(m.group(1))
                    for k, n in re.findall(r'"(\w+)": (\d+)', m.group(2)):
                        per[k] = per.get(k, 0) + int(n)
                if p.returncode == 0:
                    continue
                if found is None:
                    if p.returncode == 1 and os.path.exists(o):
                        found = ('mismatch', open(o).read())
                    elif p.returncode == 3:
                        found = ('hang', 'the real code did not return within 30 s\n' + so + se[-1500:])
                    elif p.returncode < 0 or p.returncode in (101, 134, 139):
                        st = ''
                        try:
                            st = open(os.path.join(sc, 'w%d_%d' % (p.pid, w), 'state')).read().split()[0]
                        except (OSError, IndexError):
                            pass
                        if p.returncode == -9:
                            # killed from outside (memory): only meaningful for hostile input, still the code's doing
                            pass
                        found = ('crash', 'the process running the real code ended with status %d on case %s (seed %d)\n%s' % (p.returncode, st, self.seed, se[-1500:]))
                    else:
                        self.err = 'replay worker ended with %d: %s' % (p.returncode, (so + se)[-500:])
            if found:
                for _, _, p in procs:
                    if p.poll() is None:
                        p.kill()
                for w, _, p in procs:
                    if w not in done:
                        p.wait()
                        done[w] = -9
                break
            if time.time() > end:
                for _, _, p in procs:
                    if p.poll() is None:
                        p.kill()
                self.err = 'replay workers overran'
                break
            time.sleep(0.05)
        shutil.rmtree(sc, ignore_errors=True)
        return dict(cases=cases, per=per, found=found)


# ------------------------------------------------------------------------------------------------ the verdict
def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding:\s*property=(\S+)\s+(?:match=(\S+)\s+)?(.*)', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--no-replay', action='store_true')
    ap.add_argument('--keep', default=None)
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, ('thorough' if a.tier == 'thorough' else 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    conf = json.load(open(os.path.join(V.CON, 'props.json')))
    cfg = conf['props'][prop]
    own = cfg['own']
    work = a.keep or tempfile.mkdtemp(prefix='n3c_', dir='/tmp')
    os.makedirs(work, exist_ok=True)
    rp = Replay(prop, a.repo, work, seed)
    pf = Proof(prop, a.repo, work, own, cfg)
    th = threading.Thread(target=rp.build)
    th.start()
    if own:
        pf.run(vacuity=(tier == 'thorough'), deadline=t0 + (1500 if tier == 'thorough' else 420))
    else:
        pf.undecided = 'no function under contract'
    th.join()

    def is_own(f):
        return f in pf.own
    own_fail = {f: e for f, e in pf.failing.items() if is_own(f)}
    oth_fail = {f: e for f, e in pf.failing.items() if not is_own(f)}
    vac_bad = pf.vac_bad if not pf.undecided else []
    weak = bool(pf.undecided) or bool(pf.lemmas) or bool(oth_fail) or bool(pf.failing) or any(k in pf.degraded or k in pf.missing for k in list(pf.degraded) + list(pf.missing))
    secs = cfg.get('secs', 5)
    if tier == 'thorough':
        secs = cfg.get('secs_thorough', 240)
    elif weak:
        secs = 30
    rr = dict(cases=0, per={}, found=None)
    if rp.bin and not a.no_replay:
        rr = rp.search(secs)
    for m, txt in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, txt))
        if rr['found'] and m and m in rr['found'][1]:
            rr['found'] = None
    violations = 0
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, '%s.txt' % prop)
    if os.path.exists(rpath):
        os.remove(rpath)
    lines = []
    status = 0
    if own_fail or oth_fail:
        for f in pf.failing:
            log('obligation of %s not discharged%s' % (f, '' if is_own(f) else ' (not a function of this property)'))
    if rr['found'] or own_fail:
        violations = 1
        status = 1
        with open(rpath, 'w') as fh:
            fh.write('property %s: %s\n' % (prop, cfg.get('title', '')))
            if rr['found']:
                fh.write('\n== failing input on the real code (%s)\n%s\n' % rr['found'])
            else:
                fh.write('\n== no failing input found by %d replayed cases\n' % rr['cases'])
            for f, es in pf.failing.items():
                fh.write('\n== failed obligation: function %s\n' % f)
                for e in es:
                    fh.write(e + '\n')
            if pf.undecided:
                fh.write('\n== proof: undecided, %s\n' % pf.undecided)
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, os.path.relpath(rpath, VERIF), '' if rr['found'] else ' no-failing-input-found'))
    elif rp.bin is None and (pf.undecided or a.no_replay is False and weak):
        status = 2
        log('nothing decided: replay build failed: %s' % (rp.err,))
    elif vac_bad:
        status = 2
        log('vacuous preconditions: %s' % vac_bad)
    if pf.undecided or pf.lemmas:
        log('proof undecided: %s' % (pf.undecided or pf.lemmas))
    for f, w in list(pf.degraded.items()) + list(pf.missing.items()):
        log('out of reach of the verifier: %s: %s' % (f, w))
    bounded = sorted(set(pf.degraded) | set(pf.missing) | set(oth_fail))
    proved = [f for f in pf.under if f not in pf.failing] if not (pf.undecided or pf.lemmas) else []
    cov = dict(obligations=pf.obligations, discharged=pf.discharged, checker_cmd=pf.cmd,
               trusted_base=(pf.trusted() + ['assumed contract of %s: %s' % (k, v) for k, v in pf.external.items()] + conf.get('trusted', [])),
               functions_under_contract=pf.under, functions_proved=len(proved), functions_failing=sorted(pf.failing),
               functions_bounded_only={f: pf.degraded.get(f) or pf.missing.get(f) or 'obligation not discharged; not a function of this property' for f in bounded},
               property_functions=[f for f in pf.under if is_own(f)], proof_undecided=pf.undecided or pf.lemmas,
               back_end='Verus 0.2026.09.13 / Z3', solver_ms=pf.smt_ms, slowest_units=[dict(unit=d[0], ms=round(d[2] / 1000, 1)) for d in sorted(pf.details, key=lambda d: -d[2])[:5]],
                verifier_rounds_s=pf.rounds,
               vacuity=dict(rule='for each function with a precondition a twin with the same precondition and `ensures false` must be refused', refused=len(pf.vac_ok), accepted=vac_bad),
               bounded_conformance=dict(rule='seeded random cases of the named modes run on the real code and compared with an independent executable model; a case is one history, file or scenario',
                                        evaluations=rr['cases'], per_mode=rr['per'], seconds=secs, workers=8, error=rp.err))
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg.get('level', 'proof'), coverage=cov, assumptions=conf.get('assumptions', []) + cfg.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=violations)
    if cfg.get('level') == 'exploration' or cfg.get('level') == 'fault_enumeration':
        cov.update(evaluations=rr['cases'], distinct_nontrivial=rr['cases'], rule=cov['bounded_conformance']['rule'], samples=[{'mode': k, 'cases': n} for k, n in rr['per'].items()])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', '%s.json' % prop), 'w'), indent=1)
    log('%s: %d functions under contract, %d/%d obligations discharged, %d bounded-only, %d replayed cases, %.1f s (verifier %s)' %
        (prop, len(pf.under), pf.discharged, pf.obligations, len(bounded), rr['cases'], time.time() - t0, pf.rounds))
    for l in lines:
        print(l)
    sys.stdout.flush()
    if not a.keep:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(status)


if __name__ == '__main__':
    main()
