"""Discharge the obligations Why3 generates for a WhyML file with a portfolio of SMT solvers."""
import os, re, json, hashlib, subprocess, time, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPECS = os.path.join(os.path.dirname(HERE), 'specs')
CONF = os.path.join(HERE, 'why3.conf')
NPROC = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4))

def run_solver(kind, path, secs):
    if kind == 'z3': cmd = ['/usr/bin/z3', '-smt2', '-T:%d' % secs, 'sat.random_seed=42', 'smt.random_seed=42', path]
    elif kind == 'z3-new': cmd = ['z3-new', '-smt2', '-T:%d' % secs, path]
    elif kind == 'z3-noauto': cmd = ['/usr/bin/z3', '-smt2', '-T:%d' % secs, 'smt.mbqi=false', 'smt.auto_config=false', path]
    elif kind == 'cvc5': cmd = ['/usr/bin/cvc5', '--tlimit=%d' % (secs * 1000), path]
    elif kind == 'cvc5-fmf': cmd = ['/usr/bin/cvc5', '--enum-inst', '--tlimit=%d' % (secs * 1000), path]
    elif kind == 'eprover': cmd = ['/usr/bin/eprover', '--auto', '--cpu-limit=%d' % secs, path]
    try:
        p = subprocess.run(['bash', '-c', 'ulimit -v 6000000; exec "$@"', 'x'] + cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=secs + 10)
        out = p.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    except FileNotFoundError:
        return 'missing', ''
    w = [l for l in out.split('\n') if l.strip() and not l.startswith('(') and 'set-logic' not in l and '.smt2' not in l]
    first = w[0].strip() if w else ''
    if first == 'unsat': return 'unsat', out
    if first == 'sat': return 'sat', out
    return (first or 'unknown')[:60], out

STAGES = [('z3', 2), ('cvc5', 3), ('z3-new', 4), ('z3-noauto', 4), ('cvc5-fmf', 8), ('z3', 15), ('cvc5', 20)]
STAGES_DEEP = STAGES + [('z3-new', 40), ('cvc5', 60), ('z3', 60), ('cvc5-fmf', 60)]

STAGES_RETRY = [('z3-new', 30), ('z3', 40), ('cvc5', 40), ('cvc5-fmf', 30), ('z3-noauto', 20)]

class Goal:
    def __init__(self, name, fn, line, chars):
        self.name, self.fn, self.line, self.chars = name, fn, line, chars
        self.status, self.by, self.t = None, None, 0.0
        self.log = []
        self.timeout_only_deadline = False

SHARDS = os.path.join(HERE, 'shards.json')   # goal names and split times of large files (only to balance the work; verified on every run)
SHARD_MIN = 45000

def run_why3(common, jobs):
    """jobs: [(prover, outdir or None, extra args)] run concurrently; returns outputs."""
    def one(j):
        p, out, extra, mlw = j
        cmd = common + ['-P', p] + (['-o', out] if out else []) + [mlw] + extra
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, r.stdout
    with ThreadPoolExecutor(NPROC) as ex: return list(ex.map(one, jobs))

GOAL_RE = re.compile(r'(?:Sub-)?[gG]oal\s+(\S+?)\.\n')

def goal_names(mlw):
    cmd = ['why3', '-C', CONF, 'prove', '-L', SPECS, '-L', os.path.dirname(mlw), '-P', 'list', mlw]
    o = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
    return GOAL_RE.findall(o), o

def generate(mlw, workdir, transf='split_vc'):
    base = os.path.splitext(os.path.basename(mlw))[0]
    dz, dc = os.path.join(workdir, base + '_z'), os.path.join(workdir, base + '_c')
    for d in (dz, dc):
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    common = ['why3', '-C', CONF, 'prove', '-L', SPECS, '-L', os.path.dirname(mlw), '-a', transf]
    outs = None
    text = open(mlw).read()
    if len(text) > SHARD_MIN:
        theory = re.findall(r'^module (\w+)', text, re.M)[-1]
        try: cached = json.load(open(SHARDS)).get(base)
        except Exception: cached = None
        with ThreadPoolExecutor(1) as ex:
            nf = ex.submit(goal_names, mlw)
            names = list(cached) if cached else nf.result()[0]
            for attempt in (0, 1):
                if not names: break
                w = cached if cached and set(cached) == set(names) else {n: len(m.group(0)) if m else 100 for n in names for m in [re.search(r'\b%s\b.*?(?=\n\n|\nlet |\Z)' % re.escape(n.replace("'vc", '')), text, re.S)]}
                k = max(2, min(NPROC - 1, 7))
                sh = [[0, []] for _ in range(k)]
                for n in sorted(names, key=lambda n: -w[n]):
                    b = min(sh, key=lambda x: x[0]); b[0] += w[n] + 0.02; b[1].append(n)
                jobs = []
                for p, d in (('z3', dz), ('cvc5', dc), ('list', None)):
                    for _, ns in sh:
                        if ns: jobs.append((p, d, ['-T', theory] + [x for n in ns for x in ('-G', n)], mlw))
                rs = run_why3(common, jobs)
                real = nf.result()[0]
                if sorted(real) == sorted(names) and len(set(real)) == len(real) and all(rc in (0, 2) for rc, _ in rs):
                    outs = ['', '', ''.join(o for (rc, o), j in zip(rs, jobs) if j[0] == 'list')]
                    break
                if len(set(real)) != len(real): break
                names = real; cached = None
                for d in (dz, dc):
                    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        if outs is None:
            for d in (dz, dc):
                shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    if outs is None:
        rs = run_why3(common, [('z3', dz, [], mlw), ('cvc5', dc, [], mlw), ('list', None, [], mlw)])
        outs = [o for _, o in rs]
    if not os.listdir(dz):
        return None, outs[0] + outs[2], dz, dc
    goals = []
    R = re.compile(r'File "([^"]*)", line (\d+), (characters \d+-\d+|character \d+ to line \d+, character \d+):\n(?:Sub-)?[gG]oal\s+(.*?)(?:\s+of\s+goal\s+(\S+?))?\.\n', re.S)
    for m in R.finditer(outs[2]):
        nm = m.group(4).replace('\n', ' ')
        goals.append(Goal(nm, (m.group(5) or nm).replace("'vc", ''), int(m.group(2)), m.group(3)))
    return goals, outs[2], dz, dc

def record_shards(mlw, goals):
    base = os.path.splitext(os.path.basename(mlw))[0]
    if os.path.getsize(mlw) <= SHARD_MIN: return
    names, _ = goal_names(mlw)
    cnt = {}
    for g in goals: cnt[g.fn] = cnt.get(g.fn, 0) + 1
    common = ['why3', '-C', CONF, 'prove', '-L', SPECS, '-L', os.path.dirname(mlw), '-a', 'split_vc']
    theory = re.findall(r'^module (\w+)', open(mlw).read(), re.M)[-1]
    def t(n):
        t0 = time.time()
        subprocess.run(common + ['-P', 'list', mlw, '-T', theory, '-G', n], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return n, time.time() - t0
    with ThreadPoolExecutor(4) as ex: ts = dict(ex.map(t, names))
    m = min(ts.values()) if ts else 0
    try: d = json.load(open(SHARDS))
    except Exception: d = {}
    d[base] = {n: round(ts[n] - m + 0.05, 1) for n in names}
    with open(SHARDS, 'w') as f: json.dump(d, f, indent=0, sort_keys=True)

HINTS = os.path.join(HERE, 'hints.json')

def load_hints():
    try: return json.load(open(HINTS))
    except Exception: return {}

def save_hints(h):
    with open(HINTS, 'w') as f: json.dump(h, f, indent=0, sort_keys=True)

def key_of(path):
    t = open(path, 'rb').read()
    return hashlib.sha1(re.sub(rb'(?m)^;.*$', b'', t)).hexdigest()[:16]

def prove(mlw, workdir, stages=STAGES, transf='split_vc', only=None, deadline=None, hints=None, record=False):
    """Returns (goals, error-text).  hints: goal hash -> solver that discharged it before (an order of attempts only:
    every goal is decided by a solver on every run)."""
    goals, out, dz, dc = generate(mlw, workdir, transf)
    if goals is None: return None, out
    theory = re.findall(r'^module (\w+)', open(mlw).read(), re.M)[-1]
    base = os.path.splitext(os.path.basename(mlw))[0]
    cnt = {}
    for g in goals:
        stem = '%s-%s-%s' % (base, theory, (g.fn + "'vc").replace("'", 'qt'))
        if not glob.glob(os.path.join(dz, glob.escape(stem) + '*')):
            stem = '%s-%s-%s' % (base, theory, g.fn.replace("'", 'qt'))
        k = cnt.get(stem, 0)
        cnt[stem] = k + 1
        g.z = os.path.join(dz, stem + (str(k) if k else '') + '.smt2')
        g.c = os.path.join(dc, stem + (str(k) if k else '') + '.smt2')
        if not os.path.exists(g.z) or not os.path.exists(g.c):
            return None, 'missing task file for goal %s (%s): %s' % (g.fn, g.name, g.z)
    nf = len(os.listdir(dz))
    if nf != len(goals): return None, 'goal listing mismatch: %d files, %d goals' % (nf, len(goals))
    gs = [g for g in goals if not only or only(g)]
    for g in goals:
        if only and not only(g): g.status = 'skipped'
    run_stages(gs, stages, deadline, hints, record)
    if record: record_shards(mlw, goals)
    return goals, ''

def run_stages(gs, stages, deadline=None, hints=None, record=False):
    hints = hints if hints is not None else {}
    def job(g):
        t0 = time.time()
        st = list(stages)
        k = key_of(g.z) if hints or record else None
        if k in hints: st = [(hints[k][0], max(10, int(4 * hints[k][1])))] + st
        ran = False
        for kind, secs in st:
            if deadline and time.time() + secs > deadline:
                g.log.append('%s: no time left' % kind); continue
            ran = True
            t1 = time.time()
            r, o = run_solver(kind, g.c if kind.startswith('cvc5') else g.z, secs)
            g.log.append('%s(%ds): %s' % (kind, secs, r))
            if r == 'unsat':
                g.status, g.by = 'valid', kind
                if record and (kind, secs) != stages[0]: hints[k] = [kind, round(time.time() - t1, 1)]
                break
        else:
            g.status = 'unproved'; g.timeout_only_deadline = not ran
        g.t += time.time() - t0
    order = sorted(gs, key=lambda g: -hints.get(key_of(g.z), ['', 0])[1]) if hints else gs
    with ThreadPoolExecutor(NPROC) as ex: list(ex.map(job, order))

def describe(goal, mlw_lines):
    ln = mlw_lines[goal.line - 1].strip() if goal.line - 1 < len(mlw_lines) else ''
    return '%s: %s [%s]' % (goal.fn, goal.name, ln[:160])

if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('mlw'); ap.add_argument('--deep', action='store_true'); ap.add_argument('--fn'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--quick', action='store_true')
    a = ap.parse_args()
    wd = '/tmp/w/prove'; os.makedirs(wd, exist_ok=True)
    st = STAGES_DEEP if a.deep else STAGES
    if a.quick: st = STAGES[:4]
    t0 = time.time()
    hints = load_hints()
    gs, err = prove(a.mlw, wd, st, hints=hints, only=(lambda g: re.match(a.fn, g.fn)) if a.fn else None)
    if gs is None: print(err[:3000]); sys.exit(2)
    lines = open(a.mlw).read().split('\n')
    by = {}
    slow = sorted(gs, key=lambda g: -g.t)[:3]
    for g in gs:
        by[g.by or g.status] = by.get(g.by or g.status, 0) + 1
        if g.status == 'unproved': print('UNPROVED', describe(g, lines), g.z, ' '.join(g.log))
    print(by, 'total', len(gs), 'wall %.1f' % (time.time() - t0), 'slowest', [(round(g.t, 1), g.fn, g.name) for g in slow])
