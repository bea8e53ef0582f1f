#!/usr/bin/env python3
"""Decide one property on /repo's current working tree.

  check.py P01 [--tier quick|thorough] [--record-hints]

1. every proof unit of the property is extracted from the current source (clang AST -> WhyML), Why3 generates
   the obligations of its contracts, and the solver portfolio discharges them;
2. the bounded harness of the property runs the real code (failing-input search, and labelled bounded stand-in for
   the functions that are outside the verifier's reach);
3. verdict, evidence file, replay file.  Exit status is 0 or 1 (2 if nothing at all could be decided).
"""
import os, sys, json, time, argparse, tempfile, shutil, subprocess, threading, hashlib, traceback, importlib, re, glob

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(VERIF, 'specs'))
sys.setrecursionlimit(100000)
REPO = os.environ.get('VERIF_REPO', '/repo')
CXXFLAGS = ['-std=c++11', '-funsigned-char', '-DCENTAURUS_BUILD_LINUX', '-O1', '-g0', '-w', '-fno-access-control']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS']

def core_sources(repo):
    """the library sources that build.sh builds (read from CMakeLists.txt, as build.sh does)"""
    t = open(os.path.join(repo, 'CMakeLists.txt')).read()
    m = re.search(r'set\(CENTAURUS_LIB_SRC ([^)]*)\)', t)
    return [os.path.join(repo, f) for f in m.group(1).split() if 'CodeGenEM64T' not in f]

class Harness(threading.Thread):
    """compiles and runs one concrete harness against the real code"""
    def __init__(self, cfg, wd, tier, seed):
        super().__init__(daemon=True)
        self.cfg, self.wd, self.tier, self.seed = cfg, wd, tier, seed
        self.state, self.msg, self.cases, self.cmd, self.known, self.notes = 'error', '', 0, '', [], []
        self.wall = 0.0

    def run(self):
        t0 = time.time()
        try: self._run()
        except Exception as e:
            self.state, self.msg = 'error', 'harness: ' + repr(e)
        self.wall = time.time() - t0

    def _run(self):
        src = os.path.join(VERIF, 'harness', self.cfg['src'])
        flags = CXXFLAGS + ([] if self.cfg.get('nosan') else (['-fsanitize=thread'] if self.cfg.get('tsan') else SAN)) + list(self.cfg.get('flags', []))
        inc = ['-I' + os.path.join(REPO, 'src/core'), '-I' + os.path.join(VERIF, 'harness')]
        base = os.path.splitext(self.cfg['src'])[0]
        srcs = [src]
        if self.cfg.get('core', True) is True: srcs += core_sources(REPO)
        elif self.cfg.get('core'): srcs += [s for s in core_sources(REPO) if os.path.basename(s) in self.cfg['core']]
        objs, procs = [], []
        for i, s in enumerate(srcs):
            o = os.path.join(self.wd, '%s_%d.o' % (base, i)); objs.append(o)
            procs.append((s, subprocess.Popen(['g++'] + flags + inc + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for s, p in procs:
            out = p.communicate()[0]
            if p.returncode != 0:
                self.state, self.msg = 'nocompile', 'harness does not compile (%s): %s' % (s, out[:1500]); 
        if self.state == 'nocompile': return
        exe = os.path.join(self.wd, base + '.exe')
        p = subprocess.run(['g++'] + flags + objs + ['-o', exe, '-lpthread', '-lrt'] + list(self.cfg.get('libs', [])), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            self.state, self.msg = 'nocompile', 'harness does not link: ' + p.stdout[:1500]; return
        args = ['--seed=%d' % self.seed] + (['--deep'] if self.tier == 'thorough' else []) + list(self.cfg.get('args', []))
        args.append('--budget=%g' % self.cfg.get('budget', (15, 300))[1 if self.tier == 'thorough' else 0])
        self.cmd = ' '.join([self.cfg['src']] + args)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=0')
        lim = self.cfg.get('limit', (240, 800))[1 if self.tier == 'thorough' else 0]
        run_wd = os.path.join(self.wd, base + '_run'); os.makedirs(run_wd)
        try:
            p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=lim, env=env, cwd=run_wd)
            out = p.stdout.decode('utf-8', 'replace'); rc = p.returncode
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b'').decode('utf-8', 'replace'); rc = 'timeout'
        self.known = re.findall(r'^KNOWN (\S+) (.*)$', out, re.M)
        self.notes = re.findall(r'^NOTE (.*)$', out, re.M)
        m = re.search(r'^FAIL (.*)$', out, re.M)
        if m:
            self.state, self.msg = 'fail', m.group(1) + '\n--- output ---\n' + out[-6000:]; return
        m = re.search(r'^OK cases=(\d+)', out, re.M)
        if m and rc == 0:
            self.state, self.cases = 'ok', int(m.group(1)); return
        if rc == 'timeout':
            self.state, self.msg = 'slow', 'harness stopped after %d s' % lim; return
        self.state, self.msg = 'fail', 'harness ended with status %s\n%s' % (rc, out[-6000:])

def known_entries(prop):
    r = {}
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop: r[m.group(2)] = m.group(3).strip()
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--record-hints', action='store_true'); ap.add_argument('--keep', action='store_true')
    ap.add_argument('--proof-only', action='store_true')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    wd = tempfile.mkdtemp(prefix='vp-%s-' % a.prop)
    try: rc = decide(a, tier, seed, t0, wd)
    finally:
        if not a.keep: shutil.rmtree(wd, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)

def decide(a, tier, seed, t0, wd):
    import prove, extract, cxxast
    props = importlib.import_module('props')
    P = props.PROPS[a.prop]
    budget = 840 if tier == 'thorough' else 420
    deadline = t0 + budget
    hs = []
    if not a.proof_only:
        hs = [Harness(c, wd, tier, seed) for c in P.get('harness', []) if tier == 'thorough' or not c.get('thorough_only')]
        for h in hs: h.start()
    units, failed, undecided = [], [], []
    hints = prove.load_hints()
    known = known_entries(a.prop)
    for u in P.get('units', []):
        if u.get('thorough_only') and tier != 'thorough': continue
        nm = u['name']
        rec = dict(unit=nm, functions=[], obligations=0, discharged=0, by={}, solver_s=0.0)
        units.append(rec)
        try:
            if 'mlw' in u:   # lemmas about the specification functions themselves (no source involved)
                os.makedirs(os.path.join(wd, nm), exist_ok=True)
                path, sp = os.path.join(wd, nm, 'p_' + u['mlw']), {}
                shutil.copy(os.path.join(VERIF, 'specs', u['mlw']), path)
                rec['lemmas_only'] = True
            else:
                mod = importlib.import_module(u['spec'])
                sp = mod.spec(*u.get('args', []))
                path, tr = extract.build(sp, REPO, os.path.join(wd, nm), nm)
                rec['functions'] = tr_functions(tr, sp)
                rec['dropped'] = sorted(set(getattr(tr, 'dropped', [])))
            stages = prove.STAGES_DEEP if tier == 'thorough' else prove.STAGES
            goals, err = prove.prove(path, os.path.join(wd, nm), stages, deadline=deadline, hints=hints, record=a.record_hints, only=None)
            if goals is None:
                undecided.append((nm, 'the contracts no longer fit the extracted source: ' + err[:600])); continue
            if not goals:
                undecided.append((nm, 'no obligations generated')); continue
            lines = open(path).read().split('\n')
            skip = set(sp.get('skip_goals', ()))
            for g in goals:
                rec['obligations'] += 1
                rec['solver_s'] += g.t
                if g.status == 'valid':
                    rec['discharged'] += 1; rec['by'][g.by] = rec['by'].get(g.by, 0) + 1
                elif g.timeout_only_deadline:
                    undecided.append((nm, 'no time left for ' + prove.describe(g, lines)))
                else:
                    failed.append((nm, g, prove.describe(g, lines)))
            nfun = len(rec['functions'])
            if rec['obligations'] < sp.get('min_obligations', 1):
                undecided.append((nm, 'only %d obligations were generated' % rec['obligations']))
        except cxxast.ExtractError as e:
            undecided.append((nm, 'extraction: ' + str(e)[:600]))
        except Exception as e:
            undecided.append((nm, 'extraction error: ' + traceback.format_exc()[-800:]))
    if a.record_hints: prove.save_hints(hints)
    for h in hs: h.join()
    if failed and not any(h.state == 'fail' for h in hs):
        # no failing input: give the solvers a second, longer try before reporting
        prove.run_stages([g for _, g, _ in failed][:24], prove.STAGES_RETRY, min(deadline + 200, t0 + 850))
        for nm, g, d in failed:
            if g.status == 'valid':
                rec = [r for r in units if r['unit'] == nm][0]
                rec['discharged'] += 1; rec['by'][g.by] = rec['by'].get(g.by, 0) + 1
        failed = [x for x in failed if x[1].status != 'valid']
    # --- verdict -------------------------------------------------------------------------------------------------
    rdir = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, a.prop + '-*')): os.unlink(f)
    hfail = [h for h in hs if h.state == 'fail']
    replay, line, rc, nviol = None, None, 0, 0
    for h in hs:
        for key, what in h.known:
            if key not in known:
                h.state, h.msg = 'fail', 'failure %s is not in KNOWN_FINDINGS: %s' % (key, what); hfail.append(h)
    if hfail or failed:
        rc, nviol = 1, len(hfail) + len(failed)
        replay = os.path.join(rdir, '%s-%s.txt' % (a.prop, time.strftime('%H%M%S')))
        with open(replay, 'w') as f:
            f.write('property %s  tier %s  seed %d\n' % (a.prop, tier, seed))
            for h in hfail: f.write('\nFAILING INPUT on the real code (harness/%s):\n%s\nre-run: python3 tools/check.py %s\n' % (h.cmd, h.msg, a.prop))
            for nm, g, d in failed:
                f.write('\nFAILED OBLIGATION %s: %s\nsolver output: %s\n' % (nm, d, ' | '.join(g.log)))
            for nm, w in undecided: f.write('\nUNDECIDED %s: %s\n' % (nm, w))
        line = 'VIOLATION property=%s replay=%s%s' % (a.prop, replay, '' if hfail else ' no-failing-input-found')
    ob = sum(r['obligations'] for r in units); di = sum(r['discharged'] for r in units)
    cases = sum(h.cases for h in hs)
    complete = not undecided and not failed and ob > 0
    level = P.get('level', 'proof') if complete or failed else 'exploration'
    cov = dict(obligations=ob, discharged=di,
               checker_cmd='python3 /verif/tools/check.py %s --tier %s (clang AST -> tools/cxx2why.py -> why3 1.6.0 VC generation -> z3 4.8.12 / z3-new / cvc5 1.1.2)' % (a.prop, tier),
               trusted_base=props.TRUSTED + P.get('trusted', []),
               functions_under_contract=[f for r in units for f in r['functions']],
               units=[dict(r, solver_s=round(r['solver_s'], 1)) for r in units],
               failed=[d for _, _, d in failed][:20], undecided=['%s: %s' % x for x in undecided],
               bounded_stand_ins=[dict(harness=h.cmd or h.cfg['src'], bound=h.cfg.get('bound', ''), state=h.state, cases=h.cases, wall_s=round(h.wall, 1), covers=h.cfg.get('covers', ''), notes=h.notes) for h in hs])
    if level == 'exploration':
        cov.update(evaluations=cases, distinct_nontrivial=cases, rule='bounded harness cases on the real code; each case is a generated input', samples=[h.cmd for h in hs])
    ev = dict(property=a.prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=P.get('assumptions', []) + props.ASSUMPTIONS, wall_s=round(time.time() - t0, 1), violations=nviol)
    with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d/%d obligations discharged in %d unit(s), %d functions; bounded harness: %s; %.1f s' % (
        a.prop, tier, di, ob, len(units), len(cov['functions_under_contract']), ', '.join('%s %s (%d cases, %.0f s)' % (h.cfg['src'], h.state, h.cases, h.wall) for h in hs) or 'none', time.time() - t0))
    for nm, w in undecided: print('  undecided %s: %s' % (nm, w[:400].replace('\n', ' ')))
    for nm, g, d in failed[:10]: print('  failed obligation %s: %s' % (nm, d))
    for h in hs:
        if h.state != 'ok': print('  harness %s: %s' % (h.cfg['src'], h.msg[:600]))
    shown = set()
    for h in hs:
        for key, what in h.known:
            if key in known and key not in shown:
                shown.add(key); print('KNOWN-FINDING: property=%s %s' % (a.prop, known[key]))
    if line: print(line)
    if rc == 0 and not any(h.state == 'ok' for h in hs) and not complete:
        print('NO ANSWER: neither the contracts nor the bounded harness fit the current source'); rc = 2
    return rc

def tr_functions(tr, sp):
    out = []
    for nm, s in sp['functions'].items():
        if s.get('pure_val'): continue
        if '_fn' in s: out.append((s.get('key') or nm) + (' [trusted]' if s.get('trusted') else ''))
    return out

if __name__ == '__main__': main()
