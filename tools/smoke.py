"""Vacuity test of contracts (development aid): with the extra postcondition `false` no function may be provable.

  smoke.py file.mlw [fn-regex]    reports every function whose `false` postcondition a solver accepts
"""
import sys, re, os, prove
from concurrent.futures import ThreadPoolExecutor
src = open(sys.argv[1]).read()
pat = sys.argv[2] if len(sys.argv) > 2 else '.*'
sig = re.compile(r'(?m)^((?:let |with )(?:rec )?(?!ghost|function|lemma)(\w+) \(.*\) : [^=\n]*)$')
names = [m.group(2) for m in sig.finditer(src) if re.match(pat + '$', m.group(2))]
def one(n):
    out = sig.sub(lambda m: m.group(1) + ('\n  ensures { [@expl:SMOKE] false }' if m.group(2) == n else ''), src)
    wd = '/tmp/w/smoke/' + n; os.makedirs(wd, exist_ok=True)
    p = os.path.join(wd, 'smoke.mlw'); open(p, 'w').write(out)
    gs, err = prove.prove(p, wd, [('z3', 2), ('cvc5', 4), ('z3-new', 4)], only=lambda g: 'SMOKE' in g.name)
    if gs is None: return n, 'ERROR ' + err[:300]
    st = [g.status for g in gs if g.status != 'skipped']
    return n, 'VACUOUS' if st and all(s == 'valid' for s in st) else 'some paths' if 'valid' in st else 'ok'
with ThreadPoolExecutor(6) as ex:
    for n, r in ex.map(one, names):
        if r != 'ok': print(n, r)
print('checked', len(names))
