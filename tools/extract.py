"""Assemble one WhyML module from a specification and /repo's current source."""
import os, sys, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cxxast, cxx2why
from cxxast import ExtractError

def build(spec, repo, workdir, name, opts=None, ast=None, only=None):
    """returns (mlw path, translator).  Raises ExtractError."""
    os.makedirs(workdir, exist_ok=True)
    if ast is None: ast = cxxast.AST(repo, spec['tu'], workdir, spec.get('flags', ()))
    cxx2why.set_sources([os.path.join(repo, 'src/core', f) for f in spec['files']])
    o = dict(typenames=spec.get('typenames', {}), drop_fields=spec.get('drop_fields', {}), hooks=spec.get('hooks', {}),
             heaps=spec.get('heaps', {}), sorts=spec.get('sorts', {}), containers=spec.get('containers', {}), globals=spec.get('globals', {}), heap_ops=spec.get('heap_ops', {}), tyaliases=spec.get('tyaliases', {}), exact_ints=spec.get('exact_ints', False),
             aliases=spec.get('aliases', {}), iter_fields=spec.get('iter_fields', {}), nosp=spec.get('nosp', False), cstr=spec.get('cstr', False), ctor_hook=spec.get('ctor_hook'), literals=spec.get('literals', {}))
    o.update(opts or {})
    tr = cxx2why.Translator(ast, spec['functions'], o)
    for t in spec.get('types', []): tr.recname(t)
    chunks = []
    tr.fn_status = {}
    group = 0
    for nm, sp in spec['functions'].items():
        if sp.get('pure_val'):
            chunks.append(sp["pure_val"]); continue
        if '_fn' not in sp: continue
        n0 = len(tr.order)
        txt = tr.emit_spec(nm)
        extra = [t for a, t in tr.order[n0:]]
        if sp.get('mutual'):      # continues the group of mutually recursive functions started before
            txt = re.sub(r'^let (rec )?', 'with ', txt, count=1)
            chunks[group:group] = extra; group += len(extra)
        else:
            chunks += extra; group = len(chunks)
        if sp.get('before'): chunks.append(sp['before'])
        chunks.append(txt)
        if sp.get('after'): chunks.append(sp['after'])
    types = []
    for f in tr.typeorder:
        ext = spec.get('extern_types', {}).get(f)
        if ext is None: types.append(tr.types[f])
        elif ' '.join(ext.split()) != ' '.join(tr.types[f].split()): raise ExtractError('layout of %s changed: %s' % (f, tr.types[f]))
    text = 'module M\n  use stl.Stl\n' + ''.join('  use %s\n' % u for u in spec.get('uses', [])) + '\n' + spec.get('pretypes', '') + '\n'.join(types) + '\n' + spec.get('preamble', '') + '\n\n' + '\n\n'.join(chunks) + '\n' + spec.get('postamble', '') + '\nend\n'
    path = os.path.join(workdir, name + '.mlw')
    open(path, 'w').write(text)
    return path, tr

if __name__ == '__main__':
    import importlib
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'specs'))
    mod = importlib.import_module(sys.argv[1])
    sp = mod.spec(*sys.argv[2:])
    p, tr = build(sp, os.environ.get('REPO', '/repo'), '/tmp/w/x', sys.argv[1])
    print(p)
