"""Mechanical translation of C++ function bodies (clang AST) to WhyML.

Every run re-reads /repo's current source through clang, and translates each function a
specification names, statement by statement.  The specification side (contracts, loop
invariants, ghost code) comes from /verif/specs and is keyed by function and loop number.

What the translation keeps and what it drops is listed in DESIGN.md ("Extraction").
"""
import re
from cxxast import *

KEYWORDS = set('''abstract absurd alias any as assert assume at axiom begin break by check clone coinductive
constant continue diverges do done downto else end ensures epsilon exception exists export false for forall fun
function ghost goal if import in inductive invariant label lemma let match meta module mutable not old
partial predicate private pure raise raises reads rec ref requires return returns scope so then theory to try type
use val variant while with writes float range result length get set empty snoc cons create min max mem
add remove union inter diff fst snd add'''.split())

def san(n):
    n = re.sub(r'[^A-Za-z0-9_]', '_', n)
    if not n: n = 'anon'
    if n[0].isupper() or n[0].isdigit(): n = 'v' + n if n[0].isdigit() else n[0].lower() + n[1:]
    if n[0] == '_': n = 'u' + n
    if n in KEYWORDS: n = n + '_'
    return n

OPN = {'|': 'or', '&': 'and', '~': 'not', '==': 'eq', '!=': 'ne', '<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge',
       '|=': 'or_assign', '=': 'assign', '[]': 'index', '()': 'call', '+': 'plus', '+=': 'plus_assign', ' bool': 'bool',
       '<<': 'shl', '-': 'minus', '*': 'deref', '->': 'arrow', '!': 'lnot'}

def fname(qual):
    m = re.match(r'^(.*)operator(.*)$', qual)
    if m:
        op = m.group(2)
        qual = m.group(1) + 'op_' + OPN.get(op, OPN.get(op.strip(), san(op)))
    s = re.sub(r'[^A-Za-z0-9]+', '_', qual).strip('_')
    return s[0].lower() + s[1:]

HEAP_OPS = {}   # heap name -> (checked read, checked write)

class Path:
    """An lvalue: root variable / value / heap cell, then accessors."""
    def __init__(self, root, accs=()):
        self.root, self.accs = root, tuple(accs)
    def ext(self, *a): return Path(self.root, self.accs + a)
    def rootread(self):
        k = self.root[0]
        if k == 'ref': return '!' + self.root[1]
        if k == 'val': return self.root[1]
        if k == 'heap': return '(%s !%s %s)' % (HEAP_OPS.get(self.root[1], ('hget', 'hset'))[0], self.root[1], self.root[2])
        raise ExtractError('path root ' + k)
    def read(self):
        c = self.rootread()
        for a in self.accs: c = acc_read(c, a)
        return c
    def write(self, v):
        k = self.root[0]
        if k == 'ref': return '%s := %s' % (self.root[1], upd('!' + self.root[1], self.accs, v))
        if k == 'heap':
            return '%s := %s !%s %s %s' % (self.root[1], HEAP_OPS.get(self.root[1], ('hget', 'hset'))[1], self.root[1], self.root[2], par(upd(self.rootread(), self.accs, v)))
        raise ExtractError('write to immutable value')
    def is_local(self): return self.root[0] == 'ref' and not self.accs
    def key(self): return (self.root, self.accs)

def acc_read(c, a):
    if a[0] == 'f': return '%s.%s' % (par(c), a[1])
    if a[0] == 'i': return '(vget %s %s)' % (par(c), par(a[1]))
    if a[0] == 'back': return '(vback %s)' % par(c)
    if a[0] == 'front': return '(vfront %s)' % par(c)
    if a[0] == 'map': return '(%smget %s %s)' % (a[2], par(c), par(a[1]))
    if a[0] == 'elems': return '(%s %s)' % (a[1], par(c))
    raise ExtractError('accessor')

def upd(base, accs, v):
    if not accs: return v
    a = accs[0]
    if a[0] == 'f':
        if len(a) > 2 and a[2] == 1:  # single-field record
            return '{ %s = %s }' % (a[1], upd(acc_read(base, a), accs[1:], v))
        return '{ %s with %s = %s }' % (par(base), a[1], upd(acc_read(base, a), accs[1:], v))
    sub = par(upd(acc_read(base, a), accs[1:], v))
    if a[0] == 'i': return '(vset %s %s %s)' % (par(base), par(a[1]), sub)
    if a[0] == 'back': return '(vset_back %s %s)' % (par(base), sub)
    if a[0] == 'front': return '(vset_front %s %s)' % (par(base), sub)
    if a[0] == 'map': return '(%smset %s %s %s)' % (a[2], par(base), par(a[1]), sub)
    raise ExtractError('accessor')

ATOM = re.compile(r'^!?[A-Za-z_][A-Za-z0-9_\'.]*$|^[0-9]+$|^\(\)$')
def par(c):
    c = c.strip()
    if ATOM.match(c): return c
    if c.startswith('(') and matched(c): return c
    if c.startswith('{') and c.endswith('}') : return c
    return '(' + c + ')'
def matched(c):
    d = 0
    for i, ch in enumerate(c):
        if ch == '(': d += 1
        if ch == ')':
            d -= 1
            if d == 0 and i < len(c) - 1: return False
    return d == 0

class V:
    def __init__(self, code, ty, pure=True, path=None, cont=None, find=None, state=False, lam=None):
        self.code, self.ty, self.pure, self.path, self.cont, self.find = code, ty, pure, path, cont, find
        self.state = state   # reads mutable state
        self.lam = lam
        self.rev = False

def strip_ref(t):
    while t.k in ('ref', 'rref'): t = t.args[0]
    return t

class Fn:
    def __init__(self, node): self.node = node

class Translator:
    def __init__(self, ast, specs, opts=None):
        """specs: dict why-name -> spec dict with 'key' (C++ function key)."""
        self.ast, self.specs, self.opts = ast, specs, opts or {}
        HEAP_OPS.clear(); HEAP_OPS.update(self.opts.get('heap_ops', {}))
        self.by_fn = {}
        for nm, sp in specs.items():
            if sp.get('pure_val') : continue
            try:
                f = ast.find(sp['key'])
            except ExtractError:
                if sp.get('optional'): continue
                raise
            self.by_fn[f['_key']] = nm
            sp['_fn'] = f
        self.types = {}         # emitted record types: name -> decl text
        self.typeorder = []
        self.autos = {}         # key -> (name, text) auto-translated pure functions
        self.order = []         # emitted auto order
        self.assumptions = set()
        self.inlined = set()
        self.translated = set()
        self.tmp = 0
        self.stack = []
        self.heaps = {}
        self.usedspecs = []

    def fresh(self, p='t'):
        self.tmp += 1
        return '%s_%d' % (p, self.tmp)

    # ---------------------------------------------------------------- types
    def ty(self, n):
        t = parse_type(qt(n))
        return self.canon(t)
    def canon(self, t):
        if t.k == 'ptr' and self.opts.get('cstr') and t.args[0].k == 'int' and t.args[0].name in ('char', 'wchar_t'):
            return Ty('vec', args=[t.args[0]])   # a NUL-terminated string, by its characters
        if t.k == 'rec' and t.name and '__tuple_element_t<' in t.name:
            m = re.match(r'^(?:std::)?__tuple_element_t<(\d+)(?:UL)?\s*,\s*(.*)>$', t.name)
            if m:
                tt = parse_type(m.group(2))
                if tt.k == 'rec': tt = parse_type('std::' + m.group(2))
                if tt.k == 'tup': return self.canon(tt.args[int(m.group(1))])
        if t.k in ('rec', 'std') and t.name and t.name.split('::')[-1] in self.opts.get('tyaliases', {}):
            return parse_type(self.opts['tyaliases'][t.name.split('::')[-1]])
        if t.k == 'rec' and t.name not in self.ast.recs and t.name not in self.ast.enums:
            # try alias: sugar not desugared
            c = [x for x in list(self.ast.recs) + list(self.ast.enums) if x.split('::')[-1] == t.name.split('::')[-1] and '<' not in t.name]
            if len(c) == 1: return Ty('rec', c[0], const=t.const)
            if 'decltype' in t.name:
                d = self.ast.sugar.get(t.name)
                if d: return self.canon(parse_type(d))
        return t
    def wty(self, t):
        t = self.canon(strip_ref(t))
        if t.k == 'int': return 'int'
        if t.k == 'bool': return 'bool'
        if t.k == 'void': return 'unit'
        if t.k == 'vec' or t.k == 'arr': return '(seq %s)' % self.wty(t.args[0])
        if t.k == 'tup':
            n = len(t.args)
            return '(tup%d %s)' % (n, ' '.join(self.wty(a) for a in t.args))
        if t.k in ('set', 'map'):
            w = '(fset %s)' % self.wty(t.args[0]) if t.k == 'set' else '(fmap %s %s)' % (self.wty(t.args[0]), self.wty(t.args[1]))
            return self.opts.get('containers', {}).get(w, [w])[0]
        if t.k in ('iter', 'riter', 'ptr'): return 'int'
        if t.k == 'atomic': return self.wty(t.args[0])
        if t.k == 'rec':
            if t.name in self.ast.enums: return 'int'
            if t.name in self.ast.recs: return self.recname(t.name)
            return 'opaque'
        if t.k in ('std', 'fn', 'nodeiter'): return 'opaque'
        raise ExtractError('type ' + repr(t))
    def cpre(self, t):
        """Prefix of the operations of this container type (specifications may name their own model)."""
        t = self.canon(strip_ref(t))
        w = '(fset %s)' % self.wty(t.args[0]) if t.k == 'set' else '(fmap %s %s)' % (self.wty(t.args[0]), self.wty(t.args[1]))
        c = self.opts.get('containers', {}).get(w)
        return c[1] if c else ''
    def recname(self, full):
        nm = self.opts.get('typenames', {}).get(full) or san(full.replace('::', '_').replace('<', '_').replace('>', ''))
        if full not in self.types:
            self.types[full] = None
            fs = self.fields(full)
            body = '; '.join('%s : %s' % (f, self.wty(t)) for f, t, _ in fs)
            if not fs: body = '%s_dummy : unit' % nm
            self.types[full] = 'type %s = { %s }' % (nm, body)
            self.typeorder.append(full)
        return nm
    def fields(self, full):
        """[(why field name, Ty, C++ name)], bases first."""
        nm = self.opts.get('typenames', {}).get(full) or san(full.replace('::', '_').replace('<', '_').replace('>', ''))
        n = self.ast.recs[full]
        drop = self.opts.get('drop_fields', {}).get(full, ())
        out = []
        for i, b in enumerate(n.get('bases', [])):
            t = self.canon(parse_type((b['type'].get('desugaredQualType') or b['type']['qualType'])))
            if t.k == 'rec' and t.name not in self.ast.recs: continue
            if t.k == 'std': continue
            if ('base:' + t.name) in drop: continue
            out.append(('%s__base%s' % (nm, '' if i == 0 else str(i)), t, 'base:' + (t.name or repr(t))))
        for c in n.get('inner', []):
            if c['kind'] == 'FieldDecl':
                if c.get('name', '') in drop: continue
                out.append(('%s__%s' % (nm, c.get('name', 'anon')), self.ty(c), c.get('name', 'anon')))
        return out
    def field(self, full, cname):
        fs = self.fields(full)
        self.recname(full)
        for f, t, c in fs:
            if c == cname: return ('f', f, len(fs)), t
        raise ExtractError('field %s of %s' % (cname, full))
    def default(self, t):
        t = self.canon(strip_ref(t))
        if t.k in ('int', 'ptr', 'iter', 'riter'): return '0'
        if t.k == 'bool': return 'false'
        if t.k == 'vec' and t.name != 'array': return 'empty'
        if t.k == 'vec':   # std::array
            d, c = self.default(t.args[0]), 'empty'
            for _ in range(int(t.args[1].name)): c = '(snoc %s %s)' % (c, par(d))
            return c
        if t.k == 'tup': return '{ %s }' % '; '.join('t%d%d = %s' % (len(t.args), i, self.default(a)) for i, a in enumerate(t.args))
        if t.k == 'set': return self.cpre(t) + 'set_empty'
        if t.k == 'map': return self.cpre(t) + 'mempty'
        if t.k == 'atomic': return self.default(t.args[0])
        if t.k == 'rec':
            if t.name in self.ast.enums: return '0'
            if t.name in self.ast.recs:
                # default constructor
                ctor = self.ctor_for(t.name, [])
                if ctor is not None: return self.call_fn(ctor, None, []).code
                fs = self.fields(t.name)
                self.recname(t.name)
                return '{ %s }' % '; '.join('%s = %s' % (f, self.default(ft)) for f, ft, _ in fs)
        return '(any %s)' % self.wty(t)

    def ctor_for(self, full, argtys):
        """A user constructor by argument count / types (used where STL forwards arguments)."""
        base = full.split('<')[0].split('::')[-1]
        c = [f for f in self.ast.funcs.values() if f.get('_rec') == full and f['kind'] == 'CXXConstructorDecl' and has_body(f)
             and not f.get('isImplicit')]
        def hasdef(p): return any(x.get('kind') and not x['kind'].endswith('Attr') for x in p.get('inner', []))
        exact = [f for f in c if len(params(f)) == len(argtys)]
        c = exact or [f for f in c if len(params(f)) > len(argtys) and all(hasdef(p) for p in params(f)[len(argtys):])]
        if len(c) > 1:
            def score(f):
                s = 0
                for p, a in zip(params(f), argtys):
                    pt = strip_ref(self.ty(p))
                    a = strip_ref(a)
                    if pt == a: s += 2
                    elif pt.k == a.k: s += 1
                return s
            c.sort(key=score, reverse=True)
        return c[0] if c else None

    # ------------------------------------------------------------ functions
    def fnode(self, ref):
        """Resolve a referenced function decl to the definition in the dump (or None: external)."""
        f = self.ast.by_id.get(ref)
        if f is None: return None
        if '_key' in f:
            g = self.ast.funcs.get(f['_key'], f)
            return g
        return None

    def is_const_method(self, f): return bool(f.get('_constm')) or f.get('storageClass') == 'static'
    def is_static(self, f): return f.get('storageClass') == 'static' or f.get('_rec') is None

    def ret_ty(self, f):
        q = f['type']['qualType']
        d = 0
        # return type = text before the parameter list's opening paren
        i = None
        for j, ch in enumerate(q):
            if ch == '<': d += 1
            elif ch == '>': d -= 1
            elif ch == '(' and d == 0:
                i = j; break
        t = q[:i].strip()
        dq = f['type'].get('desugaredQualType')
        return self.canon(parse_type(self.resolve_alias(t, f)))

    def resolve_alias(self, t, f):
        al = self.opts.get('aliases', {})
        return al.get(t, t)

    def emit_spec(self, nm):
        """Full WhyML text of a function under contract."""
        sp = self.specs[nm]
        f = sp['_fn']
        if sp.get('trusted'):
            return self.val_text(nm, f, sp)
        self.translated.add(f['_key'])
        ctx = FnCtx(self, f, nm, sp)
        return ctx.definition()

    def params_decl(self, f, sp):
        ps = []
        env_names = []
        if f['kind'] != 'CXXConstructorDecl' and not self.is_static(f):
            rt = self.recname(f['_rec'])
            if self.is_const_method(f): ps.append('(this : %s)' % rt)
            else: ps.append('(this : ref %s)' % rt)
        for p in params(f):
            t = self.ty(p)
            n = san(p.get('name') or 'arg%d' % len(ps))
            mut = t.k in ('ref', 'rref') and not strip_ref(t).const and not self.opaque_param(t)
            if n in sp.get('iter_of', {}): ps.append('(%s : int)' % n)
            elif mut and t.k == 'ref': ps.append('(%s : ref %s)' % (n, self.wty(t)))
            else: ps.append('(%s : %s)' % (n, self.wty(t)))
        for g in sp.get('ghost_params', []): ps.append('(ghost %s)' % g)
        if not ps: ps = ['()']
        return ' '.join(ps)
    def opaque_param(self, t): return self.wty(t) == 'opaque'

    def spec_clauses(self, sp):
        out = []
        for i, r in enumerate(sp.get('requires', [])):
            out.append('  requires { %s }' % lab(r, 'pre'))
        for i, r in enumerate(sp.get('ensures', [])):
            out.append('  ensures { %s }' % lab(r, 'post'))
        if 'writes' in sp: out.append('  writes { %s }' % sp['writes'])
        if 'reads' in sp: out.append('  reads { %s }' % sp['reads'])
        for r in sp.get('raises', []): out.append('  raises { %s }' % r)
        if sp.get('variant'): out.append('  variant { %s }' % ', '.join(sp['variant']))
        if sp.get('diverges'): out.append('  diverges')
        return '\n'.join(out)

    def result_ty(self, f):
        if f['kind'] == 'CXXConstructorDecl': return Ty('rec', f['_rec'])
        rt = self.ret_ty(f)
        if self.returns_self(f): return Ty('void')
        return rt
    def returns_self(self, f):
        if f['kind'] == 'CXXConstructorDecl' or f.get('_rec') is None or self.is_const_method(f): return False
        rt = self.ret_ty(f)
        return rt.k == 'ref' and not rt.args[0].const and rt.args[0].k == 'rec' and rt.args[0].name == f['_rec']

    def val_text(self, nm, f, sp):
        ps = self.params_decl(f, sp)
        # a trusted function may change everything it gets by reference
        w = re.findall(r'\((\w+) : ref ', ps)
        if w and 'writes' not in sp: sp = dict(sp, writes=', '.join(w))
        return 'val %s %s : %s\n%s' % (nm, ps, self.wty(self.result_ty(f)), self.spec_clauses(sp))

    # ---------------------------------------------------------------- calls
    def call_fn(self, f, thisv, args, inctx=None):
        """Call to a repository function.  thisv: V or None."""
        key = f['_key']
        rt = self.result_ty(f)
        if key in self.by_fn:
            nm = self.by_fn[key]
            if inctx is not None and inctx.nm != nm: self.usedspecs.append(nm)
            return self.mk_call(nm, f, thisv, args, rt, inctx, self.specs[nm])
        if f.get('isImplicit') or f.get('explicitlyDefaulted'):
            if f['kind'] == 'CXXConstructorDecl':
                if len(args) == 1: return args[0]
                if not args:
                    fs = self.fields(f['_rec']); self.recname(f['_rec'])
                    code = '{ %s }' % '; '.join('%s = %s' % (x, self.default(t)) for x, t, _ in fs)
                    return V(code, rt)
            if f.get('name') == 'operator=' and thisv is not None and thisv.path:
                return V(thisv.path.write(args[0].code), Ty('void'), pure=False)
        if not has_body(f):
            raise ExtractError('no body and no contract: ' + key)
        if key not in self.autos:
            if key in self.stack: raise ExtractError('recursive function without a contract: ' + key)
            self.stack.append(key)
            try:
                self.autos[key] = self.try_auto(f)
            finally:
                self.stack.pop()
        a = self.autos[key]
        if a is not None:
            return self.mk_call(a, f, thisv, args, rt, inctx, {})
        return self.inline(f, thisv, args, rt, inctx)

    def try_auto(self, f):
        """Emit a simple pure const function as a transparent `let function`."""
        if not self.is_const_method(f) and not self.is_static(f) and f['kind'] != 'CXXConstructorDecl': return None
        for p in params(f):
            t = self.ty(p)
            if t.k == 'ref' and not t.args[0].const: return None
        nm = fname(f['_qual'])
        k = nm; i = 1
        used = set(x[0] for x in self.order) | set(self.specs)
        while k in used:
            i += 1; k = '%s_%d' % (nm, i)
        nm = k
        ctx = FnCtx(self, f, nm, {})
        try:
            code, pure = ctx.pure_body()
        except NotPure:
            return None
        self.translated.add(f['_key'])
        self.order.append((nm, 'let function %s %s : %s =\n  %s' % (nm, self.params_decl(f, {}), self.wty(self.result_ty(f)), code)))
        return nm

    def mk_call(self, nm, f, thisv, args, rt, inctx, sp):
        gsub = dict(inctx.root.sp.get('ghost_env', {})) if inctx is not None else {}
        pre, post, al = [], [], []
        pure = True
        state = False
        if f['kind'] != 'CXXConstructorDecl' and not self.is_static(f):
            if self.is_const_method(f): 
                al.append(self.bindv(thisv, pre)); state |= thisv.state
            else:
                pure = False
                al.append(self.mutarg(thisv, pre, post))
        for p, a in zip(params(f), args):
            t = self.ty(p)
            if t.k == 'ref' and not strip_ref(t).const and not self.opaque_param(t):
                pure = False
                al.append(self.mutarg(a, pre, post))
            else:
                al.append(self.bindv(a, pre)); state |= a.state
        for g in sp.get('ghost_args', []): al.append('(%s)' % gsub.get(g, g))
        if pre: pure = False
        if sp and not sp.get('is_pure'): pure = False if (sp.get('impure')) else pure
        call = '%s %s' % (nm, ' '.join(al) if al else '()')
        if sp and inctx is not None and not inctx.pure_mode: inctx.calls.append(nm)
        gc = inctx.root.sp.get('ghost', {}).get('call:' + nm) if inctx is not None and not inctx.pure_mode else None   # ghost text right before every call of nm
        if gc:
            gc = re.sub(r'@A(\d)', lambda m: al[int(m.group(1))], gc)   # @A0, @A1, …: the arguments of the call
            pre.append(gc if re.search(r'\bin\s*$', gc) else gc.rstrip().rstrip(';') + ';'); pure = False
        eff = pure and not sp
        if sp and inctx is not None and inctx.pure_mode and not sp.get('logic'): raise NotPure()
        if not pre and not post:
            return V('(' + call + ')', rt, pure=eff or bool(sp.get('logic')), state=state)
        if post:
            r = self.fresh('r')
            code = 'let %s = %s in %s; %s' % (r, call, '; '.join(post), r)
        else: code = call
        code = ' '.join(pre) + ' ' + code
        return V('(' + code + ')', rt, pure=False, state=True)

    def bindv(self, v, pre):
        if v.pure or not v.code: return par(v.code)
        n = self.fresh('a')
        pre.append('let %s = %s in' % (n, v.code))
        return n

    def mutarg(self, v, pre, post):
        if v.path is None:
            n = self.fresh('m')
            pre.append('let %s = ref %s in' % (n, par(v.code)))
            return n
        if v.path.is_local(): return v.path.root[1]
        n = self.fresh('m')
        pre.append('let %s = ref %s in' % (n, par(v.path.read())))
        post.append(v.path.write('!' + n))
        return n

    def inline(self, f, thisv, args, rt, inctx):
        key = f['_key']
        if key in self.stack: raise ExtractError('recursive function without a contract: ' + key)
        if inctx is None: raise ExtractError('cannot inline here: ' + key)
        if inctx.pure_mode: raise NotPure()
        self.stack.append(key)
        self.inlined.add(key)
        self.translated.add(key)
        try:
            sub = FnCtx(self, f, inctx.nm, {}, outer=inctx)
            return sub.inline_body(thisv, args, rt)
        finally:
            self.stack.pop()

class NotPure(Exception): pass

def lab(r, kind):
    """'name: formula' -> labelled formula."""
    m = re.match(r'^\s*([A-Za-z0-9_.,\- ]{3,140})::\s(.*)$', r, re.S)
    if m: return '[@expl:%s] %s' % (m.group(1).strip(), m.group(2))
    return r

def jumps(n, inner_loop=False, throws=True, inner_switch=False):
    """Does the statement contain return/throw/break/continue that leaves it?"""
    k = n.get('kind')
    if k in ('ReturnStmt', 'GotoStmt'): return True
    if k == 'CXXThrowExpr': return throws
    if k == 'BreakStmt': return not (inner_loop or inner_switch)
    if k == 'ContinueStmt': return not inner_loop
    if k in ('LambdaExpr',): return False
    il = inner_loop or k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')
    isw = inner_switch or k == 'SwitchStmt'
    return any(jumps(c, il, throws, isw) for c in n.get('inner', []) if isinstance(c, dict) and c.get('kind'))

def always_exits(n):
    k = n.get('kind')
    if k in ('ReturnStmt', 'CXXThrowExpr'): return True
    if k in ('ExprWithCleanups',): return always_exits(n['inner'][0])
    if k == 'CompoundStmt':
        ch = n.get('inner', [])
        return any(always_exits(c) for c in ch)
    if k == 'IfStmt':
        ch = [c for c in n['inner'] if c.get('kind')]
        return n.get('hasElse', False) and always_exits(ch[-1]) and always_exits(ch[-2])
    return False

class FnCtx:
    def __init__(self, tr, f, nm, sp, outer=None):
        self.tr, self.f, self.nm, self.sp = tr, f, nm, sp
        self.env = dict(outer.env) if outer else {}
        self.outer = outer
        self.loopno = 0
        self.names = outer.names if outer else {}
        self.pure_mode = False
        self.calls = outer.calls if outer else []
        self.incs = []        # stack of for-increments for `continue`
        self.brk = []         # stack: 'loop' | 'switch'
        self.retexc = None
        self.this = None
        self.rename = {}
        self.root = outer.root if outer else self
        if not outer:
            self.rloop = 0
            self.loops_seen = []

    # ---- function shells
    def bind_params(self):
        shadows = []
        f, tr = self.f, self.tr
        if f['kind'] == 'CXXConstructorDecl':
            self.this = Path(('ref', 'this'))
        elif not tr.is_static(f):
            self.this = Path(('val', 'this')) if tr.is_const_method(f) else Path(('ref', 'this'))
        for i, p in enumerate(params(f)):
            t = tr.ty(p)
            n = san(p.get('name') or 'arg%d' % i)
            if n in self.sp.get('iter_of', {}):
                a, ft = tr.field(f['_rec'], self.sp['iter_of'][n])
                self.env[p['id']] = ('iterv', n, self.this.ext(a), strip_ref(t))
            elif t.k == 'ref' and not t.args[0].const and not tr.opaque_param(t):
                self.env[p['id']] = ('ref', n, strip_ref(t))
            elif t.k in ('ref', 'rref') or not mutated(self.f, p['id']):
                self.env[p['id']] = ('val', n, strip_ref(t))
            else:
                self.env[p['id']] = ('ref', n, t)
                shadows.append('let %s_0 = %s in let %s = ref %s in' % (n, n, n, n))
        return shadows

    def definition(self):
        f, tr, sp = self.f, self.tr, self.sp
        shadows = self.bind_params()
        rt = tr.result_ty(f)
        body_code = self.full_body()
        n = len(sp.get('loops', []))
        if self.root.rloop != n and not sp.get('loops_flex'):
            raise ExtractError('%s: source has %d loops, specification annotates %d' % (self.nm, self.root.rloop, n))
        rec = 'rec ' if sp.get('rec') else ''
        if sp.get('logic') == 'function': rec = 'function ' + rec
        ent = sp.get('ghost', {}).get('entry', '')
        return 'let %s%s %s : %s\n%s\n= %s\n  %s\n  %s' % (rec, self.nm, tr.params_decl(f, sp), tr.wty(rt), tr.spec_clauses(sp),
                                                  ' '.join(shadows), ent, body_code)

    def full_body(self):
        f = self.f
        if f['kind'] == 'CXXConstructorDecl':
            pre = self.ctor_init()
            b = self.stmts(body(f).get('inner', []), tail=False)
            return pre + '\n' + (b + ';\n' if b else '') + self.exit_ghost() + '!this'
        rt = self.tr.result_ty(f)
        code = self.stmts(body(f).get('inner', []), tail=True, void=(rt.k == 'void'))
        if rt.k == 'void' and self.exit_ghost(): code = code.rstrip() + ';\n' + self.exit_ghost() + '()'   # ghost text at the end of the body, its locals in scope
        return code

    def ctor_init(self):
        tr, f = self.tr, self.f
        full = f['_rec']
        fs = tr.fields(full)
        rn = tr.recname(full)
        inits = {}
        for c in f.get('inner', []):
            if c.get('kind') == 'CXXCtorInitializer':
                if 'anyInit' in c:
                    nm = c['anyInit']['name']
                else:
                    bt = tr.canon(parse_type(c['baseInit'].get('desugaredQualType') or c['baseInit']['qualType']))
                    nm = 'base:' + (bt.name or repr(bt))
                inits[nm] = c['inner'][0]
        binds, vals = [], []
        for w, t, cn in fs:
            if cn in inits:
                v = self.E(inits[cn])
                code = v.code
            else:
                code = tr.default(t)
            if not code: code = tr.default(t)
            n = tr.fresh('f')
            binds.append('let %s = %s in' % (n, code))
            vals.append('%s = %s' % (w, n))
        return ' '.join(binds) + ' let this = ref { %s } in' % '; '.join(vals)

    def pure_body(self):
        f = self.f
        self.pure_mode = True
        self.bind_params()
        for p in params(f):
            e = self.env[p['id']]
            if e[0] == 'ref': raise NotPure()
        if f['kind'] == 'CXXConstructorDecl':
            b = body(f)
            if b.get('inner'): raise NotPure()
            pre = self.ctor_init()
            m = re.match(r'^(.*) let this = ref (\{.*\}) in$', pre, re.S)
            code = m.group(1) + ' ' + m.group(2)
        else:
            rt = self.tr.result_ty(f)
            if rt.k == 'void': raise NotPure()
            code = self.stmts(body(f).get('inner', []), tail=True)
        if re.search(r'\b(vget|vset|vback|vfront|hget|mget|vpop|any|raise|while|absurd|ref|return)\b|:=', code): raise NotPure()
        return code, True

    def inline_body(self, thisv, args, rt):
        f, tr = self.f, self.tr
        pre, post = [], []
        sfx = tr.fresh('i')
        if f['kind'] == 'CXXConstructorDecl':
            pass
        elif not tr.is_static(f):
            if tr.is_const_method(f) and thisv.path is None:
                n = 'this_' + sfx
                pre.append('let %s = %s in' % (n, thisv.code))
                self.this = Path(('val', n))
            elif thisv.path is None:
                n = 'this_' + sfx
                pre.append('let %s = ref %s in' % (n, par(thisv.code)))
                self.this = Path(('ref', n))
            else:
                self.this = self.freeze(thisv.path, pre)
        for i, (p, a) in enumerate(zip(params(f), args)):
            t = tr.ty(p)
            n = san(p.get('name') or 'arg%d' % i) + '_' + sfx
            if t.k in ('ref', 'rref') and a.path is not None and a.cont is None:
                self.env[p['id']] = ('alias', self.freeze(a.path, pre), strip_ref(t))
            elif a.cont is not None and t.k == 'ref' and not t.args[0].const and a.path is not None and a.path.is_local():
                self.env[p['id']] = ('iter', a.path.root[1], a.cont, strip_ref(t))
            elif a.cont is not None:
                pre.append('let %s = ref %s in' % (n, par(a.code)))
                self.env[p['id']] = ('iter', n, a.cont, strip_ref(t))
            elif mutated(f, p['id']):
                pre.append('let %s = ref %s in' % (n, par(a.code)))
                self.env[p['id']] = ('ref', n, strip_ref(t))
            else:
                pre.append('let %s = %s in' % (n, a.code))
                self.env[p['id']] = ('val', n, strip_ref(t))
        self.suffix = sfx
        b = body(f)
        if f['kind'] == 'CXXConstructorDecl':
            self.this = Path(('ref', 'this'))
            c = self.full_body()
            return V('(' + ' '.join(pre) + ' ' + c + ')', rt, pure=False, state=True)
        ch = b.get('inner', [])
        nontail = self.nontail_return(ch)
        if nontail:
            self.retexc = 'Ret' + sfx
            c = self.stmts(ch, tail=False, void=(rt.k == 'void'))
            wt = tr.wty(rt)
            if rt.k == 'void':
                code = 'let exception %s in try %s %s; () with %s -> () end' % (self.retexc, ' '.join(pre), c or '()', self.retexc)
            else:
                code = 'let exception %s (%s) in try %s %s; absurd with %s ex_%s -> ex_%s end' % (self.retexc, wt, ' '.join(pre), c, self.retexc, sfx, sfx)
            return V('(' + code + ')', rt, pure=False, state=True)
        c = self.stmts(ch, tail=True, void=(rt.k == 'void'))
        return V('(' + ' '.join(pre) + ' ' + (c or '()') + ')', rt, pure=False, state=True)

    def freeze(self, path, pre):
        """Bind non-constant index expressions once, at reference-binding time."""
        accs = []
        for a in path.accs:
            if a[0] in ('i', 'map') and not re.match(r'^[0-9]+$', a[1]):
                n = self.tr.fresh('ix')
                pre.append('let %s = %s in' % (n, a[1]))
                accs.append((a[0], n) + tuple(a[2:]))
            else: accs.append(a)
        root = path.root
        if root[0] == 'heap':
            n = self.tr.fresh('hp')
            pre.append('let %s = %s in' % (n, root[2]))
            root = ('heap', root[1], n)
        return Path(root, accs)

    def nontail_return(self, ch):
        def ret(n):
            k = n.get('kind')
            if k == 'ReturnStmt': return True
            if k == 'LambdaExpr': return False
            return any(ret(c) for c in n.get('inner', []) if isinstance(c, dict))
        def bad(ch):
            for i, s in enumerate(ch):
                last = i == len(ch) - 1
                k = s.get('kind')
                if k == 'ReturnStmt': return False
                if k == 'IfStmt' and ret(s):
                    x = [c for c in s['inner'] if c.get('kind')]
                    br = x[1:] if not s.get('hasElse') else x[-2:]
                    if s.get('hasVar') or s.get('hasInit'): return True
                    for b in br:
                        bc = b.get('inner', []) if b['kind'] == 'CompoundStmt' else [b]
                        if ret(b) and not (always_exits(b) or last): return True
                        if bad(bc): return True
                elif ret(s): return True
            return False
        return bad(ch)

    # ---- statements
    def stmts(self, ch, tail=False, void=False):
        ch = [c for c in ch if c.get('kind')]
        if not ch:
            return ('()' if void else 'absurd') if tail else ''    # falling off the end of a value-returning function
        s, rest = ch[0], ch[1:]
        k = s['kind']
        if k == 'NullStmt': return self.stmts(rest, tail, void)
        if k == 'DeclStmt':
            return self.declstmt(s, rest, tail, void)
        if k == 'CompoundStmt':
            if tail and not rest: return self.stmts(s.get('inner', []), tail, void)
            if tail and always_exits(s): return self.stmts(s.get('inner', []), tail, void)
            c = self.block(s)
            return self.seq(c, rest, tail, void)
        if k == 'IfStmt': return self.ifstmt(s, rest, tail, void)
        if k == 'ReturnStmt':
            return self.ret(s, tail)
        if k == 'SwitchStmt':
            return self.switch(s, rest, tail, void)
        if k in ('CXXThrowExpr',) or (k == 'ExprWithCleanups' and s['inner'][0]['kind'] == 'CXXThrowExpr'):
            if self.pure_mode: raise NotPure()
            return '(raise CppThrow)'
        c = self.stmt(s)
        return self.seq(c, rest, tail, void)

    def seq(self, c, rest, tail, void):
        r = self.stmts(rest, tail, void)
        if not c: return r
        if not r: return c
        if tail and r == '()' : return c + '; ()' if not c.rstrip().endswith('()') else c
        return c + ';\n' + r

    def block(self, s, last=None):
        if last:
            s = dict(kind='CompoundStmt', inner=(s.get('inner', []) if s.get('kind') == 'CompoundStmt' else [s]) + [dict(kind='GhostStmt', text=last)])
        if s.get('kind') == 'CompoundStmt':
            c = self.stmts(s.get('inner', []))
        elif s.get('kind'):
            c = self.stmts([s])
        else: c = ''
        return 'begin %s end' % (c or '()')

    def ret(self, s, tail):
        inner = [c for c in s.get('inner', []) if c.get('kind')]
        if not inner:
            v = '()'
        else:
            if self.tr.returns_self(self.f):
                e = self.E(inner[0])
                if e.path is not None and self.this is not None and e.path.key() == self.this.key():
                    v = e.code if (e.code and not e.pure and ':=' in e.code) else '()'
                    if e.pure: v = '()'
                else: raise ExtractError('return of a foreign reference in ' + self.f['_key'])
            else:
                e = self.E(inner[0])
                v = self.coerce(e, self.tr.result_ty(self.f)).code
        if tail: return v
        if self.retexc:
            return '(raise %s)' % (self.retexc + ('' if v == '()' and self.tr.result_ty(self.f).k == 'void' else ' ' + par(v)))
        if self.pure_mode: raise NotPure()
        return 'return %s' % par(v)

    def coerce(self, v, t):
        return v

    def ifstmt(self, s, rest, tail, void):
        ch = [c for c in s['inner'] if c.get('kind')]
        pre = ''
        if s.get('hasInit'): raise ExtractError('if-init')
        if s.get('hasVar'):
            raise ExtractError('if-condition variable')
        cond = self.E(ch[0])
        then = ch[1]
        els = ch[2] if s.get('hasElse') else None
        cc = self.boolc(cond)
        if tail:
            if els is None and always_exits(then):
                t = self.scoped(then, True, void)
                return 'if %s then %s\nelse begin %s end' % (cc, t, self.stmts(rest, True, void))
            if els is not None and (always_exits(then) or always_exits(els) or not rest):
                if not rest:
                    return 'if %s then %s\nelse %s' % (cc, self.scoped(then, True, void), self.scoped(els, True, void))
                if always_exits(then) and always_exits(els):
                    return 'if %s then %s\nelse %s' % (cc, self.scoped(then, True, void), self.scoped(els, True, void))
                if always_exits(then):
                    e2 = [els] + rest
                    return 'if %s then %s\nelse begin %s end' % (cc, self.scoped(then, True, void), self.stmts(e2, True, void))
                e2 = [then] + rest
                return 'if %s then begin %s end\nelse %s' % (cc, self.stmts(e2, True, void), self.scoped(els, True, void))
            if els is None and not rest and void:
                return 'if %s then %s\nelse ()' % (cc, self.scoped(then, True, void))
        sp = '[@vc:sp] ' if not jumps(s, False, not self.root.sp.get('spthrow')) and not self.pure_mode and not self.sp_off() else ''
        c = '%sif %s then %s' % (sp, cc, self.block(then))
        if els is not None: c += ' else %s' % self.block(els)
        if sp: c = '(' + c + ')'
        return self.seq(c, rest, tail, void)

    def sp_off(self): return self.root.sp.get('nosp', False) or self.tr.opts.get('nosp', False)

    def scoped(self, s, tail, void):
        saved = dict(self.env)
        if s['kind'] == 'CompoundStmt': c = self.stmts(s.get('inner', []), tail, void)
        else: c = self.stmts([s], tail, void)
        self.env = saved
        return 'begin %s end' % (c or '()')

    def declstmt(self, s, rest, tail, void):
        pre = []
        for d in s.get('inner', []):
            if d['kind'] == 'VarDecl': pre.append(self.vardecl(d))
            elif d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'EnumDecl', 'UsingDecl', 'StaticAssertDecl', 'CXXRecordDecl'):
                if d['kind'] == 'EnumDecl': self.tr.ast._walk(d, [], None)
            else: raise ExtractError('local declaration ' + d['kind'])
        r = self.stmts(rest, tail, void)
        return '\n'.join(p for p in pre if p) + '\n' + (r or '()')

    def vname(self, d):
        n = san(d.get('name') or 'anon')
        if getattr(self, 'suffix', None): n += '_' + self.suffix
        rn = self.root.sp.get('_rename', {})
        n = rn.get(n, n)
        return n

    def vardecl(self, d):
        tr = self.tr
        t = tr.ty(d)
        n = self.vname(d)
        init = [c for c in d.get('inner', []) if c.get('kind') and not c['kind'].endswith('Attr') and c['kind'] != 'FullComment']
        self.root.locals_seen = getattr(self.root, 'locals_seen', [])
        self.root.locals_seen.append((n, repr(t)))
        bt = strip_ref(t)
        if d.get('storageClass') == 'static': raise ExtractError('static local')
        if init:
            v = self.E(init[0])
            if v.find is not None:
                pre = []
                p = self.freeze(v.find[0], pre)
                kn = tr.fresh('k')
                pre.append('let %s = %s in' % (kn, v.find[1]))
                self.env[d['id']] = ('find', p, kn, t, v.find[2])
                return ' '.join(pre)
            if v.lam is not None:
                self.env[d['id']] = ('lam', v)
                return ''
            if v.cont is not None and (bt.k in ('iter', 'riter', 'ptr') or bt.k == 'nodeiter' and v.ty.k == 'iter'):
                if bt.k == 'nodeiter': bt = v.ty
                pre = []
                cont = v.cont
                if not isinstance(cont, Path): raise ExtractError('iterator container')
                self.env[d['id']] = ('iter', n, cont, bt)
                e = self.env[d['id']]
                return 'let %s = ref %s in' % (n, par(v.code))
            if t.k in ('ref', 'rref') and v.path is not None and v.pure:
                pre = []
                p = self.freeze(v.path, pre)
                self.env[d['id']] = ('alias', p, bt)
                return ' '.join(pre)
            code = v.code
        else:
            code = tr.default(t) if bt.k not in ('int', 'bool') else '(any %s)' % tr.wty(t)
            if bt.k in ('iter',): raise ExtractError('uninitialised iterator')
            if bt.k == 'rec' and bt.name in tr.ast.enums: code = '(any int)'
        if self.pure_mode:
            if mutated(self.f, d['id']): raise NotPure()
            self.env[d['id']] = ('val', n, bt)
            return 'let %s = %s in' % (n, code)
        if t.const and bt.k in ('int', 'bool') or t.k in ('ref', 'rref') and bt.const:
            self.env[d['id']] = ('val', n, bt)
            return 'let %s = %s in' % (n, code)
        self.env[d['id']] = ('ref', n, bt)
        if tr.wty(t) == 'opaque': 
            self.env[d['id']] = ('val', n, bt)
            return 'let %s = (any opaque) in' % n
        return 'let %s = ref (%s : %s) in' % (n, code, tr.wty(t))

    def exit_ghost(self):      # not in a function that is inlined into the one under contract
        return self.ghost('exit') if self.root is self else ''

    def ghost(self, key, ix=None):
        g = self.root.sp.get('ghost', {}).get(key) if self.outer is None or True else None
        if g and ix: g = re.sub(r'@ix\b', ix, g)
        if g and re.search(r'\bin\s*$', g): return g + '\n'
        return (g.rstrip().rstrip(';') + ';\n') if g else ''

    def loop_head(self, auto_inv=(), ix=None):
        i = self.root.rloop
        self.root.rloop += 1
        ls = self.root.sp.get('loops', [])
        if i < len(ls): sp = ls[i]
        elif self.root.sp.get('loops_flex'): sp = {}
        else: sp = {}
        out = []
        for v in list(auto_inv) + list(sp.get('inv', [])):
            out.append('invariant { %s }' % lab(v, 'inv'))
        if sp.get('var'): out.append('variant { %s }' % ', '.join(sp['var']))
        out = '\n  '.join(out)
        if ix: out = re.sub(r'@ix\b', ix, out)
        return i, out

    def stmt(self, s):
        k = s['kind']
        if k == 'GhostStmt': return s['text'].rstrip().rstrip(';')
        if k == 'WhileStmt':
            ch = [c for c in s['inner'] if c.get('kind')]
            if s.get('hasVar'): raise ExtractError('while variable')
            if self.pure_mode: raise NotPure()
            cond = self.boolc(self.E(ch[0]))
            i, inv = self.loop_head()
            self.incs.append(None); self.brk.append('loop')
            b = self.block(ch[1], self.ghost('last%d' % i))
            self.incs.pop(); self.brk.pop()
            return '%swhile %s do\n  %s\n%s%s%s done%s' % (self.ghost('before%d' % i), cond, inv, self.ghost('begin%d' % i), b, gend(self.ghost('end%d' % i)), gend(self.ghost('after%d' % i)))
        if k == 'ForStmt':
            if self.pure_mode: raise NotPure()
            init, cv, cond, inc, bd = s['inner']
            saved = dict(self.env)
            pre = ''
            if init.get('kind') == 'DeclStmt':
                pre = '\n'.join(self.vardecl(d) for d in init['inner'] if d['kind'] == 'VarDecl')
            elif init.get('kind'):
                pre = self.exprstmt(init) + ';'
            ixn = None
            if init.get('kind') == 'DeclStmt':
                e0 = self.env.get(init['inner'][0]['id'])
                if e0 and e0[0] == 'ref': ixn = '!' + e0[1]
            cc = self.boolc(self.E(cond)) if cond.get('kind') else 'true'
            i, inv = self.loop_head(ix=ixn)
            ic = self.exprstmt(inc) if inc.get('kind') else ''
            self.incs.append(ic); self.brk.append('loop')
            b = self.block(bd, self.ghost('last%d' % i, ixn))
            self.incs.pop(); self.brk.pop()
            self.env = saved
            return '(%s %swhile %s do\n  %s\n%s%s%s%s done%s)' % (pre, self.ghost('before%d' % i, ixn), cc, inv, self.ghost('begin%d' % i, ixn), b, (';\n' + ic if ic else ''), gend(self.ghost('end%d' % i, ixn)), gend(self.ghost('after%d' % i, ixn)))
        if k == 'DoStmt':
            if self.pure_mode: raise NotPure()
            bd, cond = s['inner'][0], s['inner'][1]
            cc = self.boolc(self.E(cond))
            i, inv = self.loop_head()
            fl = self.tr.fresh('first')
            self.incs.append(None); self.brk.append('loop')
            b = self.block(bd)
            self.incs.pop(); self.brk.pop()
            return '(let %s = ref true in while !%s || (%s) do\n %s\n %s := false; %s done)' % (fl, fl, cc, inv, fl, b)
        if k == 'CXXForRangeStmt': return self.rangefor(s)
        if k == 'BreakStmt':
            if self.pure_mode: raise NotPure()
            if not self.brk: raise ExtractError('break')
            if self.brk[-1] != 'loop': raise ExtractError('break nested in switch')
            return 'break'
        if k == 'ContinueStmt':
            if self.pure_mode: raise NotPure()
            ic = self.incs[-1]
            return '(%s; continue)' % ic if ic else 'continue'
        if k in ('IfStmt', 'SwitchStmt', 'ReturnStmt', 'DeclStmt', 'CompoundStmt'): return self.stmts([s])
        if k in ('AttributedStmt',): return self.stmt(s['inner'][-1])
        return self.exprstmt(s)

    def rangefor(self, s):
        if self.pure_mode: raise NotPure()
        tr = self.tr
        ch = s['inner']
        rdecl = None; lvar = None
        for c in ch:
            if c.get('kind') == 'DeclStmt':
                d = c['inner'][0]
                nm = d.get('name', '')
                if nm.startswith('__range'): rdecl = d
                elif nm.startswith('__begin') or nm.startswith('__end'): pass
                else: lvar = d
        bd = ch[-1]
        rng = self.E(rdecl['inner'][0])
        saved = dict(self.env)
        ix = 'ix_' + self.vname(lvar)
        pre = []
        bt = strip_ref(rng.ty)
        base = None
        if rng.path is not None:
            p = self.freeze(rng.path, pre)
        else:
            n = tr.fresh('rng')
            pre.append('let %s = %s in' % (n, rng.code))
            p = Path(('val', n))
        p, bt = self.container_path(p, bt)
        if bt.k == 'set':
            n = tr.fresh('els')
            pre.append('let %s = %sset_elements %s in' % (n, tr.cpre(bt), par(p.read())))
            p = Path(('val', n)); 
            bt = Ty('vec', args=[bt.args[0]])
        elif bt.k == 'map':
            n = tr.fresh('els')
            pre.append('let %s = %smap_elements %s in' % (n, tr.cpre(bt), par(p.read())))
            p = Path(('val', n))
            bt = Ty('vec', args=[Ty('tup', args=bt.args)])
        if bt.k not in ('vec', 'arr'): raise ExtractError('range-for over ' + repr(bt))
        ix0 = self.root.sp.get('_ixnames', {}).get(ix, ix)
        elt = tr.ty(lvar)
        n = self.vname(lvar)
        i, inv = self.loop_head(['0 <= !%s <= length %s' % (ix, par(p.read().replace('vget', '([])')))], ix='!' + ix)
        inv = inv.replace('@els', p.read())
        bind = ''
        epath = p.ext(('i', '!' + ix))
        if elt.k in ('ref', 'rref'):
            bind0 = []
            et_ = strip_ref(elt)
            if et_.k == 'rec' and et_.name not in tr.ast.recs and et_.name not in tr.ast.enums and strip_ref(bt.args[0]).k != 'rec': et_ = strip_ref(bt.args[0])   # value_type of the container
            self.env[lvar['id']] = ('alias', epath, et_)
        else:
            self.env[lvar['id']] = ('ref', n, elt)
            bind = 'let %s = ref %s in' % (n, par(epath.read()))
        ic = '%s := !%s + 1' % (ix, ix)
        self.incs.append(ic); self.brk.append('loop')
        b = self.block(bd, self.ghost('last%d' % i, '!' + ix))
        self.incs.pop(); self.brk.pop()
        self.env = saved
        gh = lambda nm: self.ghost(nm + str(i), '!' + ix).replace('@els', p.read())
        return '(%s let %s = ref 0 in %swhile !%s < length %s do\n  %s\n  variant { length %s - !%s }\n%s\n%s %s;\n%s%s done%s)' % (
            ' '.join(pre), ix, gh('before'), ix, par(p.read()), inv, par(p.read().replace('vget', '([])')), ix, bind, gh('begin'), b, ic, gend(gh('end')), gend(gh('after')))

    def container_path(self, p, t):
        """Follow base classes down to the STL container a repo class derives from."""
        tr = self.tr
        t = tr.canon(strip_ref(t))
        # user class with begin()/end() over a member vector
        while t.k == 'rec' and t.name in tr.ast.recs:
            fs = tr.fields(t.name)
            b = [x for x in fs if x[2].startswith('base:')]
            got = False
            for w, bt, cn in b:
                if strip_ref(bt).k in ('vec', 'set', 'map') or strip_ref(bt).k == 'rec':
                    tr.recname(t.name)
                    p = p.ext(('f', w, len(fs))); t = strip_ref(bt); got = True
                    break
            if not got:
                bf = [f for f in tr.ast.funcs.values() if f.get('_rec') == t.name and f.get('name') in ('begin', 'cbegin') and has_body(f)]
                if not bf: return p, t
                # begin() { return m_x.cbegin(); }
                sub = FnCtx(tr, bf[0], self.nm, {}, outer=self)
                sub.this = p
                st = body(bf[0])['inner'][0]
                v = sub.E(st['inner'][0])
                if v.cont is None: return p, t
                tt = strip_ref(v.ty)
                p = v.cont
                t = tt.args[0] if tt.k in ('iter', 'riter') and tt.args else t
                return p, strip_ref(t)
        return p, t

    def switch(self, s, rest, tail, void):
        ch = [c for c in s['inner'] if c.get('kind')]
        cond = self.E(ch[0])
        cn = self.tr.fresh('sw')
        bodyc = ch[1].get('inner', [])
        cases = []      # (labels, stmts)
        cur = None
        def open_case(n):
            labels = []
            while n.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if n['kind'] == 'CaseStmt':
                    labels.append(self.E(n['inner'][0]).code)
                    n = n['inner'][-1]
                else:
                    labels.append(None)
                    n = n['inner'][-1]
            return labels, n
        for c in bodyc:
            if c['kind'] in ('CaseStmt', 'DefaultStmt'):
                l, st = open_case(c)
                cases.append([l, [st]])
            else:
                cases[-1][1].append(c)
        flat = []
        for l, st in cases:
            st2 = []
            for x in st:
                if x['kind'] == 'CompoundStmt' and any(y.get('kind') == 'BreakStmt' for y in x.get('inner', [])):
                    st2 += x['inner']
                else: st2.append(x)
            st = st2
            if st and st[-1]['kind'] == 'BreakStmt': flat.append((l, st[:-1]))
            elif st and always_exits(st[-1]) or st and st[-1]['kind'] == 'ContinueStmt': flat.append((l, st))
            elif (l, st) == (cases[-1][0], st) or l is cases[-1][0]: flat.append((l, st))
            else: raise ExtractError('switch fall-through')
        self.brk.append('switch')
        default = '()'
        code = ''
        dflt = None
        arms = []
        usetail = tail and all(st and always_exits({'kind': 'CompoundStmt', 'inner': st}) for l, st in flat) and any(None in l for l, st in flat)
        for l, st in flat:
            saved = dict(self.env)
            c = self.stmts(st, usetail, void)
            self.env = saved
            if None in l: dflt = c
            else: arms.append((' || '.join('%s = %s' % (cn, x) for x in l), c))
        self.brk.pop()
        j = any(jumps(x, False, not self.root.sp.get('spthrow')) for l, st in flat for x in st)
        sp = '' if (j or self.pure_mode or self.sp_off()) else '[@vc:sp] '
        code = 'let %s = %s in ' % (cn, cond.code)
        for c, a in arms: code += '%sif %s then begin %s end else ' % (sp, c, a or '()')
        code += 'begin %s end' % (dflt or '()')
        if usetail: return '(' + code + ')'
        return self.seq('(' + code + ')', rest, tail, void)

    def exprstmt(self, s):
        k = s['kind']
        if k in ('ExprWithCleanups', 'ParenExpr', 'ConstantExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr'):
            return self.exprstmt(s['inner'][0])
        if k == 'CXXThrowExpr':
            if self.pure_mode: raise NotPure()
            return '(raise CppThrow)'
        if k in ('UnaryOperator', ) and s['opcode'] in ('++', '--'):
            return self.incdec(s, False)
        if k == 'CXXOperatorCallExpr':
            op = callee_name(s)
            if op in ('operator++', 'operator--') and self.hook(s, op, s['inner'][1:], s['inner'][0]) is None:
                v = self.E(s['inner'][1])
                if v.cont is not None or strip_ref(v.ty).k == 'ptr':
                    return v.path.write(v.path.read() + (' + 1' if op.endswith('++') else ' - 1'))
        if k in ('CStyleCastExpr', 'CXXStaticCastExpr', 'ImplicitCastExpr') and s.get('castKind') == 'ToVoid':
            return self.exprstmt(s['inner'][0])
        if k == 'ConditionalOperator':
            a = assert_cond(s)
            if a is not None:
                if self.pure_mode: raise NotPure()
                v = self.E(a)
                return '(if not (%s) then cpp_assert_fail ())' % self.boolc(v)
        v = self.E(s)
        if v.pure: return ''
        t = strip_ref(v.ty)
        if t.k == 'void': return v.code
        return '(let _ = %s in ())' % v.code

    # ---- expressions
    def boolc(self, v):
        t = strip_ref(v.ty)
        if t.k == 'bool': return v.code
        if t.k == 'int' or t.k == 'rec' and t.name in self.tr.ast.enums: return '(%s <> 0)' % par(v.code)
        if t.k == 'ptr': return '(%s <> 0)' % par(v.code)
        raise ExtractError('condition of type %r' % t)

    def incdec(self, s, value):
        if self.pure_mode: raise NotPure()
        v = self.E(s['inner'][0])
        if v.path is None: raise ExtractError('++ on rvalue')
        d = ' + 1' if s['opcode'] == '++' else ' - 1'
        t = strip_ref(v.ty)
        new = v.path.read() + d
        if t.k == 'int' and INTS[t.name][0] < 32: new = self.wrap(new, t)
        w = v.path.write(new)
        if not value: return w
        if s.get('isPostfix'):
            n = self.tr.fresh('o')
            return '(let %s = %s in %s; %s)' % (n, v.path.read(), w, n)
        return '(%s; %s)' % (w, v.path.read())

    def wrap(self, code, t):
        w, sg = INTS[t.name]
        return '(to_%s%d %s)' % ('i' if sg else 'u', w, par(code))

    def cast_int(self, v, t):
        s = strip_ref(v.ty)
        if s.k == 'bool': return V('(if %s then 1 else 0)' % v.code, t, v.pure, state=v.state)
        if s.k == 'rec' : s = Ty('int', 'int')
        if s.k != 'int' or t.k != 'int': return V(v.code, t, v.pure, state=v.state)
        sw, ss = INTS[s.name]; dw, ds = INTS[t.name]
        fits = (ss == ds and dw >= sw) or (not ss and ds and dw > sw)
        if fits or re.match(r'^[0-9]+$', v.code) and int(v.code) < 2 ** (dw - (1 if ds else 0)): return V(v.code, t, v.pure, state=v.state)
        if dw < 32 or self.root.sp.get('exact_ints') or self.tr.opts.get('exact_ints'):
            return V(self.wrap(v.code, t), t, v.pure, state=v.state)
        if sw < 32 : return V(self.wrap(v.code, t), t, v.pure, state=v.state)
        self.tr.assumptions.add('conversions between 32/64-bit integer types keep the value (sizes, indices, code points below 2^31)')
        return V(v.code, t, v.pure, state=v.state)

    def E(self, n):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None: raise ExtractError('expression kind %s (line %s)' % (k, n.get('range', {}).get('begin', {}).get('line')))
        return m(n)

    def sub(self, n): return self.E(n['inner'][0])
    e_ParenExpr = sub
    e_ExprWithCleanups = sub
    e_MaterializeTemporaryExpr = sub
    e_CXXBindTemporaryExpr = sub
    e_ConstantExpr = sub
    e_SubstNonTypeTemplateParmExpr = lambda self, n: self.E(n['inner'][-1])
    def e_IntegerLiteral(self, n):
        v = V(str(n['value']), self.tr.ty(n)); v.const = int(n['value'])
        return v
    def e_CharacterLiteral(self, n): return V(str(n['value']), self.tr.ty(n))
    def e_CXXBoolLiteralExpr(self, n): return V('true' if n['value'] else 'false', Ty('bool'))
    def e_CXXNullPtrLiteralExpr(self, n): return V('0', Ty('ptr', args=[Ty('void')]))
    def e_GNUNullExpr(self, n): return V('0', Ty('int', 'long'))
    def e_CXXDefaultArgExpr(self, n):
        if n.get('inner'): return self.E(n['inner'][0])
        return V('<default>', self.tr.ty(n))
    def e_CXXDefaultInitExpr(self, n):
        if n.get('inner'): return self.E(n['inner'][0])
        return V(self.tr.default(self.tr.ty(n)), self.tr.ty(n))
    def e_ImplicitValueInitExpr(self, n):
        return V(self.tr.default(self.tr.ty(n)), self.tr.ty(n))
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr
    def e_StringLiteral(self, n):
        s = n['value']
        m = re.match(r'^(L|u|U|u8)?"(.*)"$', s, re.S)
        txt = m.group(2)
        cs = unescape(txt)
        if txt in self.tr.opts.get('literals', {}): return V(self.tr.opts['literals'][txt], Ty('vec', args=[Ty('int', 'wchar_t')]))
        code = 'empty'
        for c in cs: code = '(snoc %s %d)' % (code, c)
        return V(code, Ty('vec', args=[Ty('int', 'wchar_t')]))
    def e_CXXThisExpr(self, n):
        p = self.this
        if p is None: raise ExtractError('this outside a method')
        t = self.tr.ty(n)
        v = V('<this>', t)
        v.path = p; v.isthis = True
        return v
    def e_DeclRefExpr(self, n):
        d = n['referencedDecl']
        t = self.tr.ty(n)
        if d['kind'] == 'EnumConstantDecl':
            c = self.tr.ast.by_id.get(d['id'])
            if c is None or '_value' not in c: raise ExtractError('enum constant ' + d.get('name', ''))
            v = c['_value']
            return V(str(v) if v >= 0 else '(%d)' % v, t)
        if d['id'] in self.env:
            e = self.env[d['id']]
            if e[0] == 'ref': return V('!' + e[1], e[2], path=Path(('ref', e[1])), state=True)
            if e[0] == 'val': return V(e[1], e[2], path=Path(('val', e[1])))
            if e[0] == 'alias':
                pv = e[1].read()
                return V(pv, e[2], path=e[1], state=True)
            if e[0] == 'iter': return V('!' + e[1], e[3], path=Path(('ref', e[1])), cont=e[2], state=True)
            if e[0] == 'iterv': return V(e[1], strip_ref(t), path=Path(('val', e[1])), cont=e[2], state=True)
            if e[0] == 'find': return V('<find>', e[3], find=(e[1], e[2], e[4]), state=True)
            if e[0] == 'lam': return e[1]
        if d['kind'] in ('VarDecl',):
            g = self.tr.opts.get('globals', {}).get(d.get('name'))
            if g is not None: return V(g, t)
            # static const member / constexpr with initialiser
            c = self.tr.ast.by_id.get(d['id'])
            if c is not None and c.get('inner'):
                return self.E(c['inner'][0])
        raise ExtractError('reference to %s %s' % (d['kind'], d.get('name')))
    def e_MemberExpr(self, n):
        b = self.E(n['inner'][0])
        name = n['name']
        bt = strip_ref(b.ty)
        if n.get('isArrow'):
            b = self.deref(b)
            bt = strip_ref(b.ty)
        bt = self.tr.canon(bt)
        t = self.tr.ty(n)
        if b.find is not None and getattr(b, 'deref', False):
            p, key, cpre = b.find
            if name == 'second':
                return V('(%smget %s %s)' % (cpre, par(p.read()), key), t, path=p.ext(('map', key, cpre)), state=True)
            if name == 'first': return V(key, t)
        if bt.k == 'tup':
            i = {'first': 0, 'second': 1}[name]
            a = ('f', 't%d%d' % (len(bt.args), i), len(bt.args))
            if b.path is not None: return V(acc_read(b.code, a) if not hasattr(b, 'isthis') else b.path.ext(a).read(), bt.args[i], b.pure, path=b.path.ext(a), state=b.state)
            return V(acc_read(b.code, a), bt.args[i], b.pure, state=b.state)
        if bt.k != 'rec' or bt.name not in self.tr.ast.recs: raise ExtractError('member %s of %r' % (name, bt))
        a, ft = self.tr.field(bt.name, name)
        if b.path is not None:
            p = b.path.ext(a)
            r = V(p.read(), ft, True, path=p, state=True)
            sib = self.tr.opts.get('iter_fields', {}).get((bt.name, name))
            if sib is not None:
                r.cont = b.path.ext(self.tr.field(bt.name, sib)[0])
            return r
        return V(acc_read(b.code, a), ft, b.pure, state=b.state)

    def deref(self, b):
        t = strip_ref(b.ty)
        if getattr(b, 'isthis', False):
            v = V(b.path.read(), t.args[0] if t.k == 'ptr' else t, path=b.path, state=True)
            return v
        if b.find is not None:
            v = V('<deref>', b.ty, find=b.find); v.deref = True
            return v
        if getattr(b, 'addr', None) is not None:
            a = b.addr
            return V(a.read(), t.args[0], path=a, state=True)
        if b.cont is not None:
            idx = b.code
            et = None
            tt = t
            if tt.k in ('iter', 'riter'):
                c = self.tr.canon(strip_ref(tt.args[0]))
                et = c.args[0] if c.k in ('vec', 'arr') else None
                if c.k == 'ptr': et = c.args[0]
            elif tt.k == 'ptr': et = tt.args[0]
            if tt.k == 'riter': idx = '(length %s - 1 - %s)' % (par(b.cont.read()), par(b.code))
            if not b.pure:
                n = self.tr.fresh('d')
                p = b.cont.ext(('i', n))
                v = V('(let %s = %s in %s)' % (n, idx, p.read()), et or Ty('int', 'int'), pure=False)
                return v
            p = b.cont.ext(('i', idx))
            return V(p.read(), et, path=p, state=True)
        if t.k == 'ptr':
            h = self.heap(t.args[0])
            p = Path(('heap', h, par(b.code)))
            if not b.pure: raise ExtractError('dereference of an effectful pointer expression')
            return V(p.read(), t.args[0], path=p, state=True)
        raise ExtractError('dereference of %r' % t)

    def heap(self, t):
        t = self.tr.canon(strip_ref(t))
        hs = self.tr.opts.get('heaps', {})
        w = self.tr.wty(t)
        for pat, nm in hs.items():
            if pat == w: return nm
        raise ExtractError('raw pointer to ' + repr(t))

    def e_UnaryOperator(self, n):
        op = n['opcode']
        if op in ('++', '--'):
            v = self.E(n['inner'][0])
            return V(self.incdec(n, True), v.ty, pure=False, state=True, cont=v.cont)
        v = self.E(n['inner'][0])
        t = self.tr.ty(n)
        if op == '!': return V('(not %s)' % par(self.boolc(v)), Ty('bool'), v.pure, state=v.state)
        if op == '-': return V('(- %s)' % par(v.code), t, v.pure, state=v.state)
        if op == '+': return V(v.code, t, v.pure, state=v.state)
        if op == '*': return self.deref(v)
        if op == '&':
            if v.path is None: raise ExtractError('address of rvalue')
            r = V('<addr>', t, state=True); r.addr = v.path
            return r
        if op == '~' : raise ExtractError('bitwise not')
        raise ExtractError('unary ' + op)

    def bind2(self, a, b, f, ty):
        """Combine two operand values left to right."""
        if a.pure and b.pure: return V(f(par(a.code), par(b.code)), ty, True, state=a.state or b.state)
        pre = []
        ac = par(a.code)
        if not a.pure or (a.state and not b.pure):
            n = self.tr.fresh('l'); pre.append('let %s = %s in' % (n, a.code)); ac = n
        bc = par(b.code)
        if not b.pure:
            n = self.tr.fresh('r'); pre.append('let %s = %s in' % (n, b.code)); bc = n
        return V('(%s %s)' % (' '.join(pre), f(ac, bc)), ty, False, state=True)

    def e_BinaryOperator(self, n):
        op = n['opcode']
        if op == '=': return self.assign(self.E(n['inner'][0]), self.E(n['inner'][1]))
        if op == ',':
            a = self.exprstmt(n['inner'][0]); b = self.E(n['inner'][1])
            if not a: return b
            return V('(%s; %s)' % (a, b.code), b.ty, False, cont=b.cont)
        a = self.E(n['inner'][0]); b = self.E(n['inner'][1])
        t = self.tr.ty(n)
        if op in ('&&', '||'):
            return V('(%s %s %s)' % (par(self.boolc(a)), op, par(self.boolc(b))), Ty('bool'), a.pure and b.pure, state=True)
        ca, cb = getattr(a, 'const', None), getattr(b, 'const', None)
        if ca is not None and cb is not None and t.k == 'int' and op in ('+', '-', '*', '<<', '>>', '&', '|'):
            c = {'+': lambda: ca + cb, '-': lambda: ca - cb, '*': lambda: ca * cb, '<<': lambda: ca << cb, '>>': lambda: ca >> cb, '&': lambda: ca & cb, '|': lambda: ca | cb}[op]()
            w, sg = INTS[t.name]
            if (-(1 << (w - 1)) <= c < (1 << (w - 1))) if sg else (0 <= c < (1 << w)):
                r = V(str(c) if c >= 0 else '(%d)' % c, t); r.const = c
                return r
        if op == '&' and (ca is None) != (cb is None):
            x, c = (a, cb) if cb is not None else (b, ca)
            if c > 0 and c & (c + 1) == 0: return V('(ED.mod %s %d)' % (par(x.code), c + 1), t, x.pure, state=True)
            if c > 0 and c & (c - 1) == 0: return V('(if ED.mod (ED.div %s %d) 2 = 1 then %d else 0)' % (par(x.code), c, c), t, x.pure, state=True)
        if op == '>>' and cb is not None: return V('(ED.div %s %d)' % (par(a.code), 1 << cb), t, a.pure, state=True)
        if op == '<<' and cb is not None: return V(self.wrap('%s * %d' % (par(a.code), 1 << cb), t), t, a.pure, state=True)
        return self.binop(op, a, b, t)

    def binop(self, op, a, b, t):
        ta = strip_ref(a.ty)
        tb = strip_ref(b.ty)
        if a.cont is not None and op in ('+', '-') and tb.k == 'int':
            r = self.bind2(a, b, lambda x, y: '(%s %s %s)' % (x, op, y), a.ty)
            r.cont = a.cont
            return r
        if op in ('==', '!='):
            if ta.k in ('bool',) and tb.k == 'bool':
                return self.bind2(a, b, lambda x, y: ('(eqb %s %s)' if op == '==' else '(not (eqb %s %s))') % (x, y), Ty('bool'))
            w = '=' if op == '==' else '<>'
            return self.bind2(a, b, lambda x, y: '(%s %s %s)' % (x, w, y), Ty('bool'))
        if op in ('<', '>', '<=', '>='):
            return self.bind2(a, b, lambda x, y: '(%s %s %s)' % (x, op, y), Ty('bool'))
        if op in ('+', '-', '*'):
            r = self.bind2(a, b, lambda x, y: '(%s %s %s)' % (x, op, y), t)
            if t.k == 'int' and (self.root.sp.get('exact_ints') or self.tr.opts.get('exact_ints')):
                r = V(self.wrap(r.code, t), t, r.pure, state=r.state)
            elif op == '-' and t.k == 'int' and not INTS[t.name][1] and not (ta.k in ('iter', 'ptr')):
                r = V('(usub %s %s)' % (par(a.code), par(b.code)), t, False if not (a.pure and b.pure) else True, state=True) if a.pure and b.pure else r
                if not (a.pure and b.pure): raise ExtractError('unsigned subtraction with effects')
                if self.pure_mode: raise NotPure()
            return r
        if op == '/':
            return self.bind2(a, b, lambda x, y: '(cdiv %s %s)' % (x, y), t)
        if op == '%': return self.bind2(a, b, lambda x, y: '(cmod %s %s)' % (x, y), t)
        if op in ('|', '&', '^', '<<', '>>'):
            f = {'|': 'bw_or', '&': 'bw_and', '^': 'bw_xor', '<<': 'bw_shl', '>>': 'bw_shr'}[op]
            r = self.bind2(a, b, lambda x, y: '(%s %s %s)' % (f, x, y), t)
            if op == '<<' and t.k == 'int': r = V(self.wrap(r.code, t), t, r.pure, state=r.state)
            return r
        raise ExtractError('binary ' + op)

    def e_CompoundAssignOperator(self, n):
        a = self.E(n['inner'][0]); b = self.E(n['inner'][1])
        op = n['opcode'][:-1]
        t = strip_ref(a.ty)
        if t.k == 'bool' and op in ('|', '&'):
            x = self.tr.fresh('rhs')
            return self.assign(a, V('(let %s = %s in (%s %s %s))' % (x, self.boolc(b), a.code, '||' if op == '|' else '&&', x), t, a.pure and b.pure))
        r = self.binop(op, a, b, t)
        if t.k == 'int' and INTS[t.name][0] < 32: r = V(self.wrap(r.code, t), t, r.pure)
        return self.assign(a, r)

    def assign(self, a, b):
        if self.pure_mode: raise NotPure()
        if a.path is None: raise ExtractError('assignment to rvalue')
        if a.cont is not None:
            if b.cont is None or b.cont.key() != a.cont.key(): raise ExtractError('iterator re-targeted to another container')
        if b.pure or a.path.is_local(): r = V('(' + a.path.write(b.code) + ')', Ty('void'), pure=False)
        else:     # the value is computed first: it may change the object assigned to
            x = self.tr.fresh('asg')
            r = V('(let %s = %s in %s)' % (x, b.code, a.path.write(x)), Ty('void'), pure=False)
        r.path = a.path
        r.aty = a.ty
        return r

    def e_ConditionalOperator(self, n):
        ac = assert_cond(n)
        if ac is not None:
            if self.pure_mode: raise NotPure()
            return V('(if not (%s) then cpp_assert_fail ())' % self.boolc(self.E(ac)), Ty('void'), pure=False)
        c, a, b = [self.E(x) for x in n['inner']]
        t = self.tr.ty(n)
        r = V('(if %s then %s else %s)' % (self.boolc(c), a.code, b.code), t, c.pure and a.pure and b.pure, state=True)
        return r

    def e_ArraySubscriptExpr(self, n):
        b = self.E(n['inner'][0]); i = self.E(n['inner'][1])
        return self.index(b, i)
    def index(self, b, i):
        t = self.tr.canon(strip_ref(b.ty))
        if t.k == 'ptr' and b.cont is None:
            h = self.heap(t.args[0])
            p = Path(('heap', h, '(%s + %s)' % (par(b.code), par(i.code))))
            return V(p.read(), t.args[0], path=p, state=True)
        if b.cont is not None:
            p = b.cont.ext(('i', '(%s + %s)' % (par(b.code), par(i.code))))
            return V(p.read(), t.args[0], path=p, state=True)
        if t.k == 'map':
            key = i.code
            cp = self.tr.cpre(t)
            return V('(%smget_default %s %s)' % (cp, par(b.code), par(key)), t.args[1], path=b.path.ext(('map', key, cp)) if b.path else None, state=True)
        if not i.pure:
            nme = self.tr.fresh('ix')
            pc = '(let %s = %s in (vget %s %s))' % (nme, i.code, par(b.code), nme)
            return V(pc, t.args[0], pure=False)
        if b.path is not None:
            p = b.path.ext(('i', i.code))
            return V(p.read(), t.args[0], path=p, state=True)
        return V('(vget %s %s)' % (par(b.code), par(i.code)), t.args[0], b.pure, state=b.state)

    # casts
    def e_ImplicitCastExpr(self, n): return self.cast(n)
    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr
    def cast(self, n):
        ck = n.get('castKind')
        t = self.tr.ty(n)
        v = self.E(n['inner'][0])
        if ck == 'IntegralCast' and getattr(v, 'const', None) is not None and t.k == 'int':
            w, sg = INTS[t.name]
            if (-(1 << (w - 1)) <= v.const < (1 << (w - 1))) if sg else (0 <= v.const < (1 << w)):
                r = V(v.code, t); r.const = v.const
                return r
        if ck == 'LValueToRValue' and getattr(v, 'aty', None) is not None and v.ty.k == 'void':   # value of an assignment
            return V('(%s; %s)' % (v.code, v.path.read()), v.aty, pure=False, state=True)
        if ck in ('LValueToRValue', 'NoOp', 'FunctionToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion', 'ArrayToPointerDecay'):
            return v
        if ck in ('IntegralCast',): return self.cast_int(v, self.tr.canon(t))
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            return V(self.boolc(v), Ty('bool'), v.pure, state=v.state)
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase'):
            isptr = t.k == 'ptr'
            bt = strip_ref(t).args[0] if isptr else strip_ref(t)
            path = v.path
            st = strip_ref(v.ty)
            if st.k == 'ptr': st = st.args[0]
            bt = self.tr.canon(bt)
            if v.find is not None or v.cont is not None and st.k in ('iter', 'riter', 'nodeiter') or st.k == 'nodeiter': return v
            accs = self.base_path(self.tr.canon(st), bt)
            if path is not None:
                p = path.ext(*accs)
                r = V(p.read(), t if isptr else bt, path=p, state=True)
                if isptr or getattr(v, 'isthis', False): r.isthis = isptr
                if not r.isthis if hasattr(r, 'isthis') else False: del r.isthis
                return r
            c = v.code
            for a in accs: c = acc_read(c, a)
            return V(c, bt, v.pure, state=v.state)
        if ck in ('NullToPointer',): return V('0', t)
        if ck in ('BitCast', 'IntegralToPointer', 'PointerToIntegral', 'LValueBitCast'):
            r = V(v.code, t, v.pure, path=None, state=v.state)
            if getattr(v, 'isthis', False): return v
            return r
        if ck == 'ToVoid': return v
        if ck == 'Dependent': raise ExtractError('dependent cast')
        raise ExtractError('cast ' + str(ck))
    def base_path(self, st, bt):
        """accessors from derived record type to base type."""
        if st == bt or repr(st) == repr(bt): return []
        if st.k == 'rec' and st.name in self.tr.ast.recs:
            fs = self.tr.fields(st.name)
            for w, t, cn in fs:
                if cn.startswith('base:'):
                    t2 = self.tr.canon(strip_ref(t))
                    try: sub = self.base_path(t2, bt)
                    except ExtractError: continue
                    self.tr.recname(st.name)
                    return [('f', w, len(fs))] + sub
        raise ExtractError('no base %r of %r' % (bt, st))

    # construction
    def e_CXXConstructExpr(self, n):
        t = self.tr.canon(strip_ref(self.tr.ty(n)))
        args = [a for a in n.get('inner', []) if a.get('kind')]
        ct = n.get('ctorType', {}).get('qualType', '')
        if self.tr.opts.get('ctor_hook'):
            r = self.tr.opts['ctor_hook'](self, n, parse_type(qt(n)), args)
            if r is not None: return r
        if t.k == 'rec' and t.name in self.tr.ast.recs:
            f = self.find_ctor(t.name, ct, len(args))
            vs = [self.E(a) for a in args]
            fs = self.tr.fields(t.name)
            if len(vs) == 2 and len(fs) == 1 and fs[0][1].k == 'vec' and all(v.cont is not None for v in vs):
                # a container class without fields of its own, constructed from a pair of iterators
                self.tr.recname(t.name)
                return V('{ %s = (vslice %s %s %s) }' % (fs[0][0], par(vs[0].cont.read()), par(vs[0].code), par(vs[1].code)), t, False, state=True)
            if f is None or f.get('isImplicit') or f.get('explicitlyDefaulted'):
                if len(vs) == 1 and strip_ref(vs[0].ty) == t: return self.rv(vs[0])
                if len(vs) == 1 and not ct.startswith('void ()'): return self.rv(vs[0])
                if not vs:
                    fs = self.tr.fields(t.name); self.tr.recname(t.name)
                    return V('{ %s }' % '; '.join('%s = %s' % (x, self.tr.default(ft)) for x, ft, _ in fs), t)
                raise ExtractError('implicit constructor of ' + t.name)
            ps = params(f)
            vs = [self.defarg(p, v, a) for p, v, a in zip(ps, vs, args)]
            if len(ps) == 1 and strip_ref(self.tr.ty(ps[0])) == t and self.is_plain_copy(f): return self.rv(vs[0])
            return self.tr.call_fn(f, None, vs, self)
        vs = [self.E(a) for a in args]
        vs = [v for v in vs if v.code != '<default>' and (v.lam is not None or v.find is not None or v.cont is not None or self.tr.wty(v.ty) != 'opaque')]
        if t.k == 'vec':
            if not vs: return V(self.tr.default(t) or '(any %s)' % self.tr.wty(t), t)
            if len(vs) == 1:
                if strip_ref(vs[0].ty).k == 'vec': return self.rv(vs[0])
                if strip_ref(vs[0].ty).k == 'int':
                    return V('(vmake %s %s)' % (par(vs[0].code), par(self.tr.default(t.args[0]))), t, vs[0].pure)
            if len(vs) == 2 and vs[0].cont is not None and vs[1].cont is not None:
                return V('(vslice %s %s %s)' % (par(vs[0].cont.read()), par(vs[0].code), par(vs[1].code)), t, False, state=True)
            if len(vs) == 2: return V('(vmake %s %s)' % (par(vs[0].code), par(vs[1].code)), t, vs[0].pure and vs[1].pure)
        if t.k == 'tup':
            if not vs: return V(self.tr.default(t), t)
            if len(vs) == len(t.args):
                pre = []
                cs = [self.tr.bindv(v, pre) for v in vs]
                code = '{ %s }' % '; '.join('t%d%d = %s' % (len(vs), i, c) for i, c in enumerate(cs))
                if pre: return V('(%s %s)' % (' '.join(pre), code), t, False)
                return V(code, t, all(v.pure for v in vs), state=True)
            if len(vs) == 1: return self.rv(vs[0])
        if t.k in ('set', 'map'):
            if not vs: return V(self.tr.default(t), t)
            if len(vs) == 1 and strip_ref(vs[0].ty).k == t.k: return self.rv(vs[0])
        if t.k in ('iter', 'riter') and not vs: return V('0', t)
        if t.k in ('iter', 'riter', 'nodeiter') and len(vs) == 1:
            v = vs[0]
            if v.cont is not None or v.find is not None: return v
        if t.k == 'atomic' and len(vs) == 1: return vs[0]
        if len(vs) == 1 and vs[0].lam is not None: return vs[0]
        if self.tr.wty(t) == 'opaque': return V('(any opaque)', t, pure=True)
        raise ExtractError('construction of %r from %s' % (t, [(v.code, v.ty, v.cont is not None) for v in vs]))
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    def rv(self, v):
        r = V(v.code if not hasattr(v, 'isthis') else v.path.read(), v.ty, v.pure, path=None, state=v.state)
        if v.path is not None: r.path = v.path
        return r
    def is_plain_copy(self, f):
        """user-written copy/move constructor that copies every field it can see."""
        b = body(f)
        if b is None or b.get('inner'): return False
        fs = [cn for _, _, cn in self.tr.fields(f['_rec'])]
        pid = params(f)[0]['id']
        inits = set()
        for c in f.get('inner', []):
            if c.get('kind') == 'CXXCtorInitializer':
                nm = c['anyInit']['name'] if 'anyInit' in c else 'base:' + (lambda bt: bt.name or repr(bt))(self.tr.canon(parse_type(c['baseInit'].get('desugaredQualType') or c['baseInit']['qualType'])))
                if not refers_copy(c['inner'][0], pid, nm): return False
                inits.add(nm)
        return inits == set(fs)
    def find_ctor(self, full, cttype, n):
        for f in self.tr.ast.funcs.values():
            if f.get('_rec') == full and f['kind'] == 'CXXConstructorDecl':
                if norm_type(f['type']['qualType'].replace(' noexcept', '').replace('(false)','')) == norm_type(cttype.replace(' noexcept', '').replace('(false)','')): return f
        c = [f for f in self.tr.ast.funcs.values() if f.get('_rec') == full and f['kind'] == 'CXXConstructorDecl' and len(params(f)) == n]
        if len(c) == 1: return c[0]
        return None
    def e_InitListExpr(self, n):
        t = self.tr.canon(strip_ref(self.tr.ty(n)))
        vs = [self.E(a) for a in n.get('inner', []) if a.get('kind')]
        if t.k == 'vec' or t.k == 'arr':
            code = 'empty'
            for v in vs: code = '(snoc %s %s)' % (code, par(v.code))
            return V(code, t, all(v.pure for v in vs))
        if t.k == 'rec' and t.name in self.tr.ast.recs:
            fs = self.tr.fields(t.name); self.tr.recname(t.name)
            return V('{ %s }' % '; '.join('%s = %s' % (f[0], v.code) for f, v in zip(fs, vs)), t, all(v.pure for v in vs))
        if t.k in ('int', 'bool') and len(vs) == 1: return vs[0]
        raise ExtractError('init list of %r' % t)
    def e_CXXStdInitializerListExpr(self, n): return self.sub(n)
    def e_LambdaExpr(self, n):
        # find operator() inside the lambda class
        op = None
        for c in n.get('inner', []):
            if c.get('kind') == 'CXXRecordDecl':
                for d in c.get('inner', []):
                    if d.get('kind') == 'CXXMethodDecl' and d.get('name') == 'operator()': op = d
        if op is None: raise ExtractError('lambda')
        sub = FnCtx(self.tr, self.f, self.nm, {}, outer=self)
        sub.this = self.this
        sub.pure_mode = True
        ps = []
        for p in params(op):
            t = self.tr.ty(p)
            nm = san(p['name'])
            sub.env[p['id']] = ('val', nm, strip_ref(t))
            ps.append('(%s : %s)' % (nm, self.tr.wty(t)))
        sub.f = dict(self.f)
        st = body(op)['inner']
        if len(st) != 1 or st[0]['kind'] != 'ReturnStmt': raise ExtractError('lambda body')
        v = sub.E(st[0]['inner'][0])
        r = V('(fun %s -> %s)' % (' '.join(ps), v.code), Ty('fn'), True)
        r.lam = v
        return r
    def e_CXXNewExpr(self, n):
        if self.pure_mode: raise NotPure()
        t = self.tr.ty(n)
        hk = self.hook(n, 'new[]' if n.get('isArray') else 'new', n.get('inner', []), n)
        if hk is not None: return hk
        h = self.heap(t.args[0])
        init = self.tr.default(t.args[0])
        return V('(%s_alloc %s)' % (h, par(init)), t, pure=False)
    def e_CXXDeleteExpr(self, n):
        return V('()', Ty('void'), pure=True)
    def e_CXXThrowExpr(self, n):
        if self.pure_mode: raise NotPure()
        return V('(raise CppThrow)', Ty('void'), pure=False)
    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') == 'sizeof':
            t = self.tr.canon(parse_type(n.get('argType', {}).get('qualType', '')))
            if t.k == 'int': return V(str(INTS[t.name][0] // 8), self.tr.ty(n))
            return V('(sizeof_%s)' % san(t.name or t.k), self.tr.ty(n))
        raise ExtractError('sizeof')

    # calls
    def e_CXXMemberCallExpr(self, n):
        me = n['inner'][0]
        while me['kind'] in ('ParenExpr', 'ImplicitCastExpr'): me = me['inner'][0]
        if me['kind'] != 'MemberExpr': raise ExtractError('member pointer call')
        args = n['inner'][1:]
        f = self.tr.fnode(me.get('referencedMemberDecl'))
        hk = self.hook(n, me.get('name'), args, me)
        if hk is not None: return hk
        obj = self.E(me['inner'][0])
        if me.get('isArrow'): obj = self.deref(obj)
        if f is not None and f['_key'] not in self.tr.by_fn and not has_body(f) and f.get('virtual'): raise ExtractError('virtual call ' + f['_key'])
        if f is not None:
            # virtual or derived override not considered: static type resolution
            obj = self.to_owner(obj, f)
            vs = [self.E(a) for a in args]
            vs = [self.defarg(p, v, a) for p, v, a in zip(params(f), vs, args)]
            ac = self.accessor(f, obj, vs)
            if ac is not None: return ac
            r = self.tr.call_fn(f, obj, vs, self)
            if not r.pure and self.pure_mode: raise NotPure()
            if self.tr.returns_self(f): r.path = obj.path
            r = self.wrap_cont(r, f, obj)
            return r
        return self.stl_method(me['name'], obj, args, n)
    def accessor(self, f, obj, vs):
        """non-const method returning a reference into its object (`return member...;`): the call denotes that place."""
        if self.pure_mode or self.tr.is_const_method(f) or f['_key'] in self.tr.by_fn or not has_body(f) or self.tr.returns_self(f): return None
        rt = self.tr.result_ty(f) if False else parse_type(f['type']['qualType'].split('(')[0])
        if rt.k != 'ref' or rt.args[0].const or obj.path is None: return None
        b = body(f).get('inner', [])
        if len(b) != 1 or b[0].get('kind') != 'ReturnStmt': return None
        sub = FnCtx(self.tr, f, self.nm, {}, outer=self)
        sub.this = obj.path
        for p, v in zip(params(f), vs):
            if not v.pure or v.cont is not None or v.find is not None: return None
            sub.env[p['id']] = ('val', v.code, strip_ref(self.tr.ty(p)))
        v = sub.E(b[0]['inner'][0])
        if v.path is None: return None
        self.tr.inlined.add(f['_key']); self.tr.translated.add(f['_key'])
        return v
    def wrap_cont(self, r, f, obj):
        """repo method returning an iterator into a member: re-evaluate inline to keep the container."""
        if strip_ref(r.ty).k in ('iter', 'riter') and r.cont is None:
            sub = FnCtx(self.tr, f, self.nm, {}, outer=self)
            sub.this = obj.path
            if obj.path is None:
                raise ExtractError('iterator of a temporary')
            v = sub.E(body(f)['inner'][0]['inner'][0])
            return v
        return r
    def defarg(self, p, v, a):
        if a.get('kind') == 'CXXDefaultArgExpr':
            for c in p.get('inner', []):
                if c.get('kind'): return self.E(c)
        return v
    def to_owner(self, obj, f):
        ow = f.get('_rec')
        st = self.tr.canon(strip_ref(obj.ty))
        if ow and st.k == 'rec' and st.name != ow and st.name in self.tr.ast.recs:
            accs = self.base_path(st, Ty('rec', ow))
            if obj.path is not None:
                p = obj.path.ext(*accs)
                return V(p.read(), Ty('rec', ow), path=p, state=True)
        if hasattr(obj, 'isthis'):
            return V(obj.path.read(), Ty('rec', ow), path=obj.path, state=True)
        return obj
    def hook(self, n, name, args, me):
        """Specification-declared replacement of an environment call by a named contract."""
        hs = self.tr.opts.get('hooks', {})
        hk = hs.get(name)
        if hk is None and name and name.startswith('operator ') and args == []: hk = hs.get('operator conversion')
        if hk is None: return None
        return hk(self, n, args, me)

    def e_CallExpr(self, n):
        cal = n['inner'][0]
        while cal['kind'] in ('ImplicitCastExpr', 'ParenExpr'): cal = cal['inner'][0]
        args = n['inner'][1:]
        if cal['kind'] == 'MemberExpr':
            hk = self.hook(n, cal.get('name'), args, cal)
            if hk is not None: return hk
            f = self.tr.fnode(cal.get('referencedMemberDecl'))
            if f is not None:
                vs = [self.E(a) for a in args]
                return self.tr.call_fn(f, None, vs, self)
            raise ExtractError('call through member ' + str(cal.get('name')))
        if cal['kind'] == 'DeclRefExpr':
            d = cal['referencedDecl']
            hk = self.hook(n, d.get('name'), args, cal)
            if hk is not None: return hk
            if d['id'] in self.env and self.env[d['id']][0] == 'lam':
                raise ExtractError('lambda call')
            f = self.tr.fnode(d['id'])
            if f is not None:
                vs = [self.E(a) for a in args]
                vs = [self.defarg(p, v, a) for p, v, a in zip(params(f), vs, args)]
                r = self.tr.call_fn(f, None, vs, self)
                if not r.pure and self.pure_mode: raise NotPure()
                return r
            return self.std_call(d.get('name'), args, n)
        raise ExtractError('call of ' + cal['kind'])

    def e_CXXOperatorCallExpr(self, n):
        cal = n['inner'][0]
        while cal['kind'] in ('ImplicitCastExpr', 'ParenExpr'): cal = cal['inner'][0]
        args = n['inner'][1:]
        d = cal['referencedDecl']
        op = d['name'][len('operator'):]
        f = self.tr.fnode(d['id'])
        hk = self.hook(n, d['name'], args, cal)
        if hk is not None: return hk
        if f is not None and op in ('()',) and f.get('_rec') is None and f['_key'] not in self.tr.by_fn: raise ExtractError('operator() of a lambda')
        if f is not None:
            vs = [self.E(a) for a in args]
            if f['kind'] == 'CXXMethodDecl':
                obj = self.to_owner(vs[0], f)
                if (f.get('isImplicit') or f.get('explicitlyDefaulted')) and op == '=': return self.assign(obj, vs[1])
                if op == '=' and self.plain_assign(f): return self.assign(obj, vs[1])
                r = self.tr.call_fn(f, obj, vs[1:], self)
                if self.tr.returns_self(f): r.path = obj.path
                if not r.pure and self.pure_mode: raise NotPure()
                return r
            r = self.tr.call_fn(f, None, vs, self)
            if not r.pure and self.pure_mode: raise NotPure()
            return r
        vs = [self.E(a) for a in args]
        a = vs[0]
        t = self.tr.canon(strip_ref(a.ty))
        if a.find is not None and op in ('==', '!='):
            c = self.find_cond(a)
            return V(c if op == '!=' else '(not %s)' % c, Ty('bool'), state=True)
        if op == '*' and len(vs) == 1: return self.deref(a)
        if op == '->': return a
        if op == '++' or op == '--':
            post = len(vs) == 2
            w = a.path.write(a.path.read() + (' + 1' if op == '++' else ' - 1'))
            if self.pure_mode: raise NotPure()
            if post:
                o = self.tr.fresh('o')
                return V('(let %s = %s in %s; %s)' % (o, a.path.read(), w, o), a.ty, False, cont=a.cont)
            return V('(%s; %s)' % (w, a.path.read()), a.ty, False, cont=a.cont)
        if op == '[]':
            if t.k == 'rec': 
                p, t2 = self.container_path(a.path, t)
                a = V(p.read(), t2, path=p, state=True)
            return self.index(a, vs[1])
        if op == '=':
            return self.assign(a, vs[1])
        if t.k in ('iter', 'riter', 'ptr') or a.cont is not None: return self.binop(op, a, vs[1], self.tr.ty(n))
        if op in ('==', '!='):
            b = vs[1]
            c = self.eq_code(a, b, t)
            return V(c if op == '==' else '(not %s)' % c, Ty('bool'), a.pure and b.pure, state=True)
        if op == '+=' and t.k == 'vec':
            b = vs[1]
            if strip_ref(b.ty).k == 'int': return self.assign(a, V('(snoc %s %s)' % (par(a.code), par(b.code)), t))
            return self.assign(a, V('(%s ++ %s)' % (par(a.code), par(b.code)), t))
        if op == '+' and t.k == 'vec':
            b = vs[1]
            if strip_ref(b.ty).k == 'int': return V('(snoc %s %s)' % (par(a.code), par(b.code)), t, a.pure and b.pure)
            return V('(%s ++ %s)' % (par(a.code), par(b.code)), t, a.pure and b.pure)
        if op == '<' and t.k == 'vec': 
            return V('(lex_lt %s %s)' % (par(a.code), par(vs[1].code)), Ty('bool'), True, state=True)
        raise ExtractError('operator%s on %r' % (op, t))
    def is_map(self, p, a): return False
    def find_cond(self, a):
        p, key, pre = a.find
        return '(%scont_mem %s %s)' % (pre, par(key), par(p.read()))
    def eq_code(self, a, b, t):
        t = self.tr.canon(strip_ref(t))
        if t.k in ('int', 'ptr'): return '(%s = %s)' % (par(a.code), par(b.code))
        if t.k == 'bool': return '(eqb %s %s)' % (par(a.code), par(b.code))
        if t.k == 'vec' and self.tr.canon(strip_ref(t.args[0])).k == 'int': return '(seq_int_eq %s %s)' % (par(a.code), par(b.code))
        if t.k == 'vec': return '(veq %s %s %s)' % (self.eqfun(t.args[0]), par(a.code), par(b.code))
        if t.k in ('set',): return '(%sset_eq %s %s)' % (self.tr.cpre(t), par(a.code), par(b.code))
        if t.k == 'tup':
            parts = []
            for i, x in enumerate(t.args):
                ac = ('f', 't%d%d' % (len(t.args), i), len(t.args))
                parts.append(self.eq_code(V(acc_read(a.code, ac), x), V(acc_read(b.code, ac), x), x))
            return '(' + ' && '.join(parts) + ')'
        if t.k == 'rec' and t.name in self.tr.ast.enums: return '(%s = %s)' % (par(a.code), par(b.code))
        if t.k == 'rec':
            c = [f for f in self.tr.ast.funcs.values() if f.get('_rec') == t.name and f.get('name') == 'operator==' and has_body(f)
                 and len(params(f)) == 1 and strip_ref(self.tr.ty(params(f)[0])) == t]
            if len(c) == 1: return self.tr.call_fn(c[0], a, [b], self).code
        raise ExtractError('equality on %r' % t)
    def eqfun(self, t):
        w = self.tr.wty(t)
        x, y = self.tr.fresh('x'), self.tr.fresh('y')
        return '(fun (%s : %s) (%s : %s) -> %s)' % (x, w, y, w, self.eq_code(V(x, t), V(y, t), t))
    def plain_assign(self, f):
        b = body(f)
        if b is None: return False
        # operator= whose body is field-wise assignment of every field
        st = [s for s in b.get('inner', []) if s['kind'] not in ('ReturnStmt', 'NullStmt')]
        fs = set(cn for _, _, cn in self.tr.fields(f['_rec']))
        pid = params(f)[0]['id']
        seen = set()
        for s in st:
            while s['kind'] in ('ExprWithCleanups',): s = s['inner'][0]
            if s['kind'] not in ('BinaryOperator', 'CXXOperatorCallExpr'): return False
            ins = s['inner'][-2:]
            l = ins[0]
            while l['kind'] in ('ImplicitCastExpr', 'ParenExpr'): l = l['inner'][0]
            if l['kind'] != 'MemberExpr': return False
            if not refers_copy(ins[1], pid, l['name']): return False
            seen.add(l['name'])
        return seen == fs

    # ---- STL models
    def stl_method(self, name, obj, args, n):
        tr = self.tr
        t = tr.canon(strip_ref(obj.ty))
        if t.k == 'ptr': t = t.args[0]
        if t.k == 'bool' and name == 'operator bool': return V(obj.code, t, obj.pure, state=True)
        p = obj.path
        if t.k == 'rec' and p is not None:
            p, t = self.container_path(p, t)
            obj = V(p.read(), t, path=p, state=True)
        code = obj.code if not hasattr(obj, 'isthis') else p.read()
        rt = tr.ty(n)
        if p is None and t.k == 'rec' and name in ('begin', 'cbegin', 'end', 'cend') and not re.search(r':=|\blet\b', code):
            # container returned by reference from an accessor: the expression denotes it
            p, t = self.container_path(Path(('val', par(code))), t)
            obj = V(p.read(), t, state=True); code = obj.code
        if p is None and t.k in ('vec', 'set', 'map') and name in ('begin', 'cbegin', 'end', 'cend') and not re.search(r':=|\blet\b', code):
            p = Path(('val', par(code)))
        def mut():
            if self.pure_mode: raise NotPure()
            if p is None: raise ExtractError('mutation of a temporary container')
        if t.k == 'vec':
            et = t.args[0]
            if name in ('size', 'length'): return V('(length %s)' % par(code), rt, obj.pure, state=obj.state)
            if name == 'empty': return V('(length %s = 0)' % par(code), Ty('bool'), obj.pure, state=obj.state)
            if name in ('begin', 'cbegin', 'data', 'rbegin', 'crbegin'):
                r = V('0', Ty('riter' if name in ('rbegin', 'crbegin') else 'iter', args=[t]), cont=p, state=True)
                if p is None:
                    raise ExtractError('iterator of a temporary')
                return r
            if name in ('end', 'cend', 'rend', 'crend'):
                return V('(length %s)' % par(code), Ty('riter' if name in ('rend', 'crend') else 'iter', args=[t]), cont=p, state=True)
            if name in ('back', 'front'):
                c = '(v%s %s)' % (name, par(code))
                return V(c, et, obj.pure, path=p.ext((name,)) if p is not None else None, state=True)
            if name in ('at', 'operator[]'): return self.index(obj, self.E(args[0]))
            if name in ('reserve', 'shrink_to_fit'): return V('()', Ty('void'))
            if name == 'capacity': raise ExtractError('capacity')
            vs = None
            if name in ('push_back', 'emplace_back'):
                mut()
                vs = [self.E(a) for a in args]
                e = self.build_elem(et, vs, name)
                if e.pure: return V('(' + p.write('snoc %s %s' % (par(p.read()), par(e.code))) + ')', Ty('void'), False)
                x = tr.fresh('e')
                return V('(let %s = %s in %s)' % (x, e.code, p.write('snoc %s %s' % (par(p.read()), x))), Ty('void'), False)
            if name == 'pop_back':
                mut(); return V('(' + p.write('vpop %s' % par(p.read())) + ')', Ty('void'), False)
            if name == 'clear':
                mut(); return V('(' + p.write('empty') + ')', Ty('void'), False)
            if name == 'resize':
                mut(); vs = [self.E(a) for a in args]
                d = tr.default(et) if len(vs) == 1 else vs[1].code
                return V('(' + p.write('vresize %s %s %s' % (par(p.read()), par(vs[0].code), par(d))) + ')', Ty('void'), False)
            if name == 'insert':
                mut(); vs = [self.E(a) for a in args]
                if len(vs) == 3 and vs[1].cont is not None:
                    sl = '(vslice %s %s %s)' % (par(vs[1].cont.read()), par(vs[1].code), par(vs[2].code))
                    pos = par(vs[0].code)
                    return V('(' + p.write('vinsert %s %s %s' % (par(p.read()), pos, sl)) + ')', Ty('void'), False)
                if len(vs) == 2:
                    return V('(' + p.write('vinsert %s %s (snoc empty %s)' % (par(p.read()), par(vs[0].code), par(vs[1].code))) + ')', Ty('void'), False)
            if name == 'erase':
                mut(); vs = [self.E(a) for a in args]
                if len(vs) == 1: return V('(' + p.write('verase %s %s (%s + 1)' % (par(p.read()), par(vs[0].code), vs[0].code)) + ')', Ty('void'), False)
                return V('(' + p.write('verase %s %s %s' % (par(p.read()), par(vs[0].code), par(vs[1].code))) + ')', Ty('void'), False)
            if name == 'assign':
                mut(); vs = [self.E(a) for a in args]
                if len(vs) == 2 and vs[0].cont is not None: return V('(' + p.write('vslice %s %s %s' % (par(vs[0].cont.read()), par(vs[0].code), par(vs[1].code))) + ')', Ty('void'), False)
                return V('(' + p.write('vmake %s %s' % (par(vs[0].code), par(vs[1].code))) + ')', Ty('void'), False)
            if name == 'fill':
                mut(); vs = [self.E(a) for a in args]
                return V('(' + p.write('vmake (length %s) %s' % (par(p.read()), par(vs[0].code))) + ')', Ty('void'), False)
            if name == 'compare' :
                vs = [self.E(a) for a in args]
                return V('(str_compare %s %s)' % (par(code), par(vs[0].code)), Ty('int', 'int'), obj.pure and vs[0].pure, state=True)
            if name == 'find' and len(args) >= 1:
                raise ExtractError('string find')
            if name == 'c_str' and tr.opts.get('cstr'): return V(code, t, obj.pure, state=True)
        if t.k == 'set':
            cp = tr.cpre(t)
            if name in ('size',): return V('(%sset_size %s)' % (cp, par(code)), rt, state=True)
            if name == 'empty': return V('(%sset_size %s = 0)' % (cp, par(code)), Ty('bool'), state=True)
            if name == 'count':
                v = self.E(args[0])
                return V('(if %scont_mem %s %s then 1 else 0)' % (cp, par(v.code), par(code)), rt, v.pure, state=True)
            if name == 'find':
                v = self.E(args[0])
                r = V('<find>', rt, find=(p, v.code, cp), state=True); return r
            if name in ('begin', 'cbegin', 'end', 'cend'):
                if p is None: raise ExtractError('iterator of a temporary')
                q = p.ext(('elems', cp + 'set_elements'))
                st = Ty('vec', args=[t.args[0]])
                return V('0' if name in ('begin', 'cbegin') else '(length %s)' % par(q.read()), Ty('iter', args=[st]), cont=q, state=True)
            if name in ('insert', 'emplace'):
                mut(); vs = [self.E(a) for a in args]
                if len(vs) == 2 and vs[0].cont is not None and vs[1].cont is not None:
                    return V('(' + p.write('%sset_add_all (vslice %s %s %s) %s' % (cp, par(vs[0].cont.read()), par(vs[0].code), par(vs[1].code), par(p.read()))) + ')', Ty('void'), False)
                v = self.build_elem(t.args[0], vs, name)
                kx, b = tr.fresh('k'), tr.fresh('nw')
                r = V('(let %s = %s in let %s = not (%scont_mem %s %s) in %s; %s)' % (kx, v.code, b, cp, kx, par(p.read()), p.write('%sset_add %s %s' % (cp, kx, par(p.read()))), b), Ty('insres'), False)
                return InsRes(r)
            if name == 'erase':
                mut(); v = self.E(args[0])
                if v.cont is not None:
                    x = tr.fresh('at')
                    return V('(let %s = %s in %s; %s)' % (x, v.code, p.write('%sset_erase_at %s %s' % (cp, x, par(p.read()))), x), v.ty, False, cont=v.cont)
                return V('(' + p.write('%sset_remove %s %s' % (cp, par(v.code), par(p.read()))) + ')', Ty('void'), False)
            if name == 'clear':
                mut(); return V('(' + p.write(cp + 'set_empty') + ')', Ty('void'), False)
        if t.k == 'map':
            cp = tr.cpre(t)
            if name == 'find':
                v = self.E(args[0])
                r = V('<find>', rt, find=(p, v.code, cp), state=True); return r
            if name in ('end', 'cend'): return V('<end>', rt, find=(p, '<end>', cp))
            if name == 'count':
                v = self.E(args[0])
                return V('(if %scont_mem %s %s then 1 else 0)' % (cp, par(v.code), par(code)), rt, v.pure, state=True)
            if name == 'at':
                v = self.E(args[0])
                return V('(%smget %s %s)' % (cp, par(code), par(v.code)), t.args[1], path=p.ext(('map', v.code, cp)) if p else None, state=True)
            if name in ('emplace', 'insert'):
                mut(); vs = [self.E(a) for a in args]
                if len(vs) == 1:
                    b = tr.fresh('nw')
                    return InsRes(V('(let pr_ = %s in let %s = not (%scont_mem pr_.t20 %s) in %s; %s)' % (vs[0].code, b, cp, par(p.read()), p.write('%sminsert %s pr_.t20 pr_.t21' % (cp, par(p.read()))), b), Ty('insres'), False))
                kv = self.build_elem(t.args[0], [vs[0]], name); vv = self.build_elem(t.args[1], vs[1:], name)
                return V('(' + p.write('%sminsert %s %s %s' % (cp, par(p.read()), par(kv.code), par(vv.code))) + ')', Ty('void'), False)
            if name == 'size': return V('(length (%smap_elements %s))' % (cp, par(code)), rt, state=True)
            if name == 'empty': return V('(length (%smap_elements %s) = 0)' % (cp, par(code)), Ty('bool'), state=True)
            if name == 'clear':
                mut(); return V('(' + p.write(cp + 'mempty') + ')', Ty('void'), False)
        if t.k == 'tup' and name == 'swap': pass
        raise ExtractError('method %s of %r' % (name, t))

    def build_elem(self, et, vs, name):
        et = self.tr.canon(strip_ref(et))
        if et.k == 'rec' and et.name in self.tr.ast.recs:
            if len(vs) == 1 and self.tr.canon(strip_ref(vs[0].ty)) == et: return vs[0]
            f = self.tr.ctor_for(et.name, [v.ty for v in vs])
            if f is None:
                if not vs: return V(self.tr.default(et), et)
                raise ExtractError('emplace constructor of ' + et.name)
            vs2 = []
            for prm, v in zip(params(f), vs):
                pt = self.tr.canon(strip_ref(self.tr.ty(prm)))
                if pt.k == 'int' and strip_ref(v.ty).k == 'int': v = self.cast_int(v, pt)
                vs2.append(v)
            for prm in params(f)[len(vs):]:
                vs2.append(self.E([x for x in prm['inner'] if x.get('kind') and not x['kind'].endswith('Attr')][0]))
            return self.tr.call_fn(f, None, vs2, self)
        if et.k == 'tup' and len(vs) == len(et.args) and len(vs) > 1:
            pre = []
            vs = [self.build_elem(a, [v], name) if self.tr.canon(a).k == 'rec' and self.tr.canon(strip_ref(v.ty)) != self.tr.canon(a) else v for a, v in zip(et.args, vs)]
            cs = [self.tr.bindv(v, pre) for v in vs]
            code = '{ %s }' % '; '.join('t%d%d = %s' % (len(vs), i, c) for i, c in enumerate(cs))
            if pre: return V('(%s %s)' % (' '.join(pre), code), et, False)
            return V(code, et, True, state=True)
        if len(vs) == 0: return V(self.tr.default(et), et)
        if len(vs) == 1:
            v = vs[0]
            if et.k == 'int' and strip_ref(v.ty).k == 'int': return self.cast_int(v, et)
            return v
        raise ExtractError('emplace of %r' % et)

    def std_call(self, name, args, n):
        t = self.tr.ty(n)
        if name in ('move', 'forward', 'cref', 'ref'): return self.E(args[0])
        if name == 'max' and not args or name == 'min' and not args:
            w, sg = INTS[strip_ref(t).name]
            hi = 2 ** (w - 1) - 1 if sg else 2 ** w - 1
            lo = -2 ** (w - 1) if sg else 0
            return V(str(hi) if name == 'max' else '(%d)' % lo, t)
        if name in ('min', 'max') and len(args) == 2:
            a, b = self.E(args[0]), self.E(args[1])
            f = (lambda x, y: '(if %s < %s then %s else %s)' % (y, x, y, x)) if name == 'min' else (lambda x, y: '(if %s < %s then %s else %s)' % (x, y, y, x))
            return self.bind2(a, b, f, strip_ref(a.ty))
        if name == 'get' and len(args) == 1:
            v = self.E(args[0])
            i = tuple_index(n)
            tt = self.tr.canon(strip_ref(v.ty))
            if i is None:
                # type of result identifies nothing unique; use callee template args text
                raise ExtractError('std::get index')
            if tt.k == 'tup':
                a = ('f', 't%d%d' % (len(tt.args), i), len(tt.args))
                if v.path is not None: return V(v.path.ext(a).read(), tt.args[i], path=v.path.ext(a), state=True)
                return V(acc_read(v.code, a), tt.args[i], v.pure)
            return self.index(v, V(str(i), Ty('int', 'int')))
        if name in ('make_pair', 'make_tuple'):
            vs = [self.E(a) for a in args]
            pre = []
            cs = [self.tr.bindv(v, pre) for v in vs]
            code = '{ %s }' % '; '.join('t%d%d = %s' % (len(vs), i, c) for i, c in enumerate(cs))
            if pre: return V('(%s %s)' % (' '.join(pre), code), t, False)
            return V(code, Ty('tup', args=[strip_ref(v.ty) for v in vs]), True, state=True)
        if name == 'equal' and len(args) == 3:
            a, b, c = [self.E(x) for x in args]
            if a.code == '0' and c.code == '0' and b.code.startswith('(length'):
                et = self.elt(a)
                return V('(veq_prefix %s %s %s)' % (self.eqfun(et), par(a.cont.read()), par(c.cont.read())), Ty('bool'), not self.pure_mode, state=True)
        if name in ('find', 'find_if', 'count', 'count_if', 'any_of', 'all_of', 'none_of') and len(args) == 3:
            a, b, c = [self.E(x) for x in args]
            if a.code != '0' or not b.code.startswith('(length'): raise ExtractError('partial range ' + name)
            et = self.elt(a)
            if name in ('find', 'count'):
                x = self.tr.fresh('x')
                fun = '(fun (%s : %s) -> %s)' % (x, self.tr.wty(et), self.eq_code(V(x, et), c, et))
            else: fun = c.code
            nm = {'find': 'find_if', 'count': 'count_if'}.get(name, name)
            r = V('(v%s %s %s)' % (nm, fun, par(a.cont.read())), t, True, state=True)
            if nm == 'find_if': r.cont = a.cont; r.ty = a.ty
            elif nm == 'count_if': r.ty = Ty('int', 'int')
            else: r.ty = Ty('bool')
            return r
        if name == 'sort':
            a, b = self.E(args[0]), self.E(args[1])
            et = self.elt(a)
            if a.code != '0' or not b.code.startswith('(length'): raise ExtractError('partial sort')
            if self.pure_mode: raise NotPure()
            if len(args) == 2:
                if et.k == 'int': return V('(' + a.cont.write('vsort_int %s' % par(a.cont.read())) + ')', Ty('void'), False)
                nm = self.tr.opts.get('sorts', {}).get(self.tr.wty(et))
                if nm: return V('(' + a.cont.write('%s %s' % (nm, par(a.cont.read()))) + ')', Ty('void'), False)
            raise ExtractError('std::sort of %r' % et)
        if name == 'fill':
            a, b, c = [self.E(x) for x in args]
            if a.code == '0' and b.code.startswith('(length'):
                return V('(' + a.cont.write('vmake (length %s) %s' % (par(a.cont.read()), par(c.code))) + ')', Ty('void'), False)
        if name == 'swap':
            a, b = self.E(args[0]), self.E(args[1])
            x = self.tr.fresh('sw')
            return V('(let %s = %s in %s; %s)' % (x, a.path.read(), a.path.write(b.path.read()), b.path.write(x)), Ty('void'), False)
        if name == 'distance':
            a, b = self.E(args[0]), self.E(args[1])
            return self.bind2(b, a, lambda x, y: '(%s - %s)' % (x, y), t)
        if name in ('iswspace', 'iswdigit', 'isspace', 'isdigit', 'iswalpha', 'iswalnum'):
            a = self.E(args[0])
            return V('(c_%s %s)' % (name, par(a.code)), Ty('int', 'int'), a.pure, state=a.state)
        if name == '__assert_fail': return V('(cpp_assert_fail ())', Ty('void'), False)
        raise ExtractError('call of external function %s' % name)
    def elt(self, a):
        t = strip_ref(a.ty)
        c = self.tr.canon(strip_ref(t.args[0]))
        return self.tr.canon(strip_ref(c.args[0] if c.k in ('vec', 'arr', 'ptr') else c))

class InsRes(V):
    """result of set::insert: only `.second` is used."""
    def __init__(self, v):
        V.__init__(self, v.code, Ty('bool'), v.pure, state=True)
        self.insres = True

_old_member = FnCtx.e_MemberExpr
def _member(self, n):
    inner = n['inner'][0]
    x = inner
    while x['kind'] in ('MaterializeTemporaryExpr', 'ExprWithCleanups', 'ParenExpr', 'ImplicitCastExpr'): x = x['inner'][0]
    if n.get('name') == 'second' and x['kind'] == 'CXXMemberCallExpr':
        v = self.E(x)
        if isinstance(v, InsRes): return V(v.code, Ty('bool'), False, state=True)
    return _old_member(self, n)
FnCtx.e_MemberExpr = _member

def tuple_index(n):
    """std::get<I>: clang's JSON does not print template arguments of the callee; take them from the source text."""
    b = n.get('range', {}).get('begin', {})
    e = n.get('range', {}).get('end', {})
    b = b.get('expansionLoc', b); e = e.get('expansionLoc', e)
    f = _srcfile[0]
    off, eo = b.get('offset'), e.get('offset')
    if off is None: return None
    for src in _sources.values():
        txt = src[off:eo + 1]
        m = re.match(r'^std::get<\s*(\d+)\s*>\s*\(', txt) or re.match(r'^get<\s*(\d+)\s*>\s*\(', txt)
        if m: return int(m.group(1))
    return None
_srcfile = [None]
_sources = {}
def set_sources(files):
    _sources.clear()
    for f in files: _sources[f] = open(f, encoding='latin-1').read()

def gend(g): return (';\n' + g.rstrip().rstrip(';')) if g else ''

def callee_name(n):
    cal = n['inner'][0]
    while cal['kind'] in ('ImplicitCastExpr', 'ParenExpr'): cal = cal['inner'][0]
    return cal.get('referencedDecl', {}).get('name', '')

def assert_cond(n):
    """assert(e) expands to  e ? void(0) : __assert_fail(...)."""
    if n['kind'] != 'ConditionalOperator': return None
    def has_fail(x):
        if x.get('kind') == 'DeclRefExpr' and x.get('referencedDecl', {}).get('name') == '__assert_fail': return True
        return any(has_fail(c) for c in x.get('inner', []) if isinstance(c, dict))
    if has_fail(n['inner'][2]):
        c = n['inner'][0]
        return c
    return None

def refers_copy(n, pid, field):
    """initialiser / rhs is exactly `param.field` (or the param itself for a base)."""
    while n.get('kind') in ('ImplicitCastExpr', 'ExprWithCleanups', 'CXXConstructExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr', 'CXXStaticCastExpr'):
        ch = [c for c in n.get('inner', []) if c.get('kind')]
        if len(ch) != 1: return False
        n = ch[0]
    if n.get('kind') == 'CallExpr' and callee_name(n) in ('move', 'forward'): return refers_copy(n['inner'][1], pid, field)
    if n.get('kind') == 'DeclRefExpr': return n['referencedDecl']['id'] == pid and field.startswith('base:')
    if n.get('kind') == 'MemberExpr' and n.get('name') == field: 
        return refers_copy(n['inner'][0], pid, 'base:')
    return False

MUTOPS = {'=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>='}
def mutated(f, did):
    """Conservative: may the local/parameter with this decl id be modified in f's body?"""
    def direct(n):
        while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'MemberExpr', 'ArraySubscriptExpr', 'MaterializeTemporaryExpr'):
            if n['kind'] == 'ImplicitCastExpr' and n.get('castKind') == 'LValueToRValue': return False
            n = n['inner'][0]
        return n.get('kind') == 'DeclRefExpr' and n['referencedDecl']['id'] == did
    def walk(n):
        k = n.get('kind')
        ch = [c for c in n.get('inner', []) if isinstance(c, dict)]
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n.get('opcode') in MUTOPS and direct(ch[0]): return True
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--', '&') and direct(ch[0]): return True
        if k == 'CXXOperatorCallExpr' and callee_name(n) not in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator[]', 'operator*', 'operator->', 'operator+', 'operator-', 'operator<=', 'operator>='):
            if any(direct(c) and not isconst(c) for c in ch[1:]): return True
        if k == 'CXXMemberCallExpr':
            me = ch[0]
            o = me.get('inner', [{}])[0] if me.get('inner') else {}
            if direct(o) and not isconst(o): return True
        fwd = k == 'CXXMemberCallExpr' and ch[0].get('name') in ('emplace_back', 'emplace', 'push_back', 'insert', 'emplace_hint')   # forwarded to a constructor
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXConstructExpr') and not fwd:
            for c in (ch[1:] if k != 'CXXConstructExpr' else ch):
                if direct(c) and c.get('valueCategory') == 'lvalue' and not isconst(c): return True
        if k == 'VarDecl':
            t = n.get('type', {}).get('qualType', '')
            if t.rstrip().endswith('&') and not t.startswith('const'):
                for c in ch:
                    if direct(c) and not isconst(c): return True
        return any(walk(c) for c in ch)
    def isconst(c):
        q = c.get('type', {}).get('qualType', '')
        return q.startswith('const ')
    return walk({'kind': 'x', 'inner': f.get('inner', [])})

def unescape(s):
    out = []
    i = 0
    esc = {'n': 10, 't': 9, 'r': 13, '0': 0, '\\': 92, '"': 34, "'": 39}
    while i < len(s):
        c = s[i]
        if c == '\\':
            i += 1
            c = s[i]
            if c in esc: out.append(esc[c])
            elif c == 'x':
                m = re.match(r'[0-9A-Fa-f]+', s[i+1:])
                out.append(int(m.group(0), 16)); i += len(m.group(0))
            elif c == 'u':
                out.append(int(s[i+1:i+5], 16)); i += 4
            else: raise ExtractError('escape')
        else: out.append(ord(c))
        i += 1
    return out
