"""Load clang's JSON AST of a translation unit that includes /repo's sources.

Only declarations matched by -ast-dump-filter are dumped (namespace Centaurus and
std specialisations written in /repo), with all template instantiations.
"""
import json, os, re, subprocess

CLANG = 'clang++'
FLAGS = ['-std=c++11', '-funsigned-char', '-DCENTAURUS_BUILD_LINUX', '-Wno-everything',
         '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=Centaurus']

class ExtractError(Exception):
    """The source uses something the extractor does not cover (verdict: undecided)."""

class Ty:
    """Parsed C++ type."""
    __slots__ = ('k', 'name', 'args', 'const')
    def __init__(self, k, name='', args=(), const=False):
        self.k, self.name, self.args, self.const = k, name, list(args), const
    def __repr__(self):
        return self.k + (':' + self.name if self.name else '') + ('(' + ','.join(map(repr, self.args)) + ')' if self.args else '')
    def __eq__(self, o):
        return isinstance(o, Ty) and repr(self) == repr(o)
    def __hash__(self):
        return hash(repr(self))

INTS = {'char': (8, False), 'unsigned char': (8, False), 'signed char': (8, True), 'wchar_t': (32, True),
        'char16_t': (16, False), 'char32_t': (32, False), 'short': (16, True), 'unsigned short': (16, False),
        'int': (32, True), 'unsigned int': (32, False), 'unsigned': (32, False), 'long': (64, True),
        'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
        'size_t': (64, False), 'std::size_t': (64, False), 'uint64_t': (64, False), 'int64_t': (64, True),
        'uint32_t': (32, False), 'wint_t': (32, False), 'ptrdiff_t': (64, True), 'uintptr_t': (64, False),
        'std::ptrdiff_t': (64, True)}

TOK = re.compile(r'\s*(::|[A-Za-z_0-9]+|<|>|,|\*|&&|&|\(|\)|\[|\]|\.\.\.|-|.)')

def split_targs(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(': d += 1
        if ch in '>)': d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def norm_name(s):
    s = s.replace('Centaurus::', '').replace('std::__cxx11::', 'std::').replace('std::__1::', 'std::')
    s = re.sub(r'\b(class|struct|enum|typename) ', '', s)
    # the fully spelt set<X, less<X>, allocator<X> > is std::set<X>
    s = re.sub(r'(?<![\w:])(?:std::)?set<(\w+), ?(?:std::)?less<\1>, ?(?:std::)?allocator<\1> ?>', r'std::set<\1>', s)
    return s.strip()

def norm_type(s):
    s = norm_name(s)
    s = re.sub(r'\s+', ' ', s)
    s = s.replace('> >', '>>').replace('> >', '>>').replace(', ', ',')
    return s

_cache = {}
def parse_type(s, enums=(), aliases=None):
    key = s
    if key in _cache: return _cache[key]
    r = _parse_type(s)
    _cache[key] = r
    return r

def _parse_type(s):
    s = norm_name(s)
    s = re.sub(r'\s+', ' ', s).strip()
    # trailing ref / pointer / const
    const = False
    while True:
        if s.endswith('const') and (len(s) == 5 or not s[-6].isalnum() and s[-6] != '_'):
            s = s[:-5].strip(); const = True; continue
        if s.startswith('const ') and not _top_ptr(s):
            s = s[6:].strip(); const = True; continue
        if s.startswith('volatile '):
            s = s[9:].strip(); continue
        break
    if s.endswith('__restrict'): s = s[:-10].strip()
    if s.endswith('&&'):
        return Ty('rref', args=[_parse_type(s[:-2])])
    if s.endswith('&'):
        return Ty('ref', args=[_parse_type(s[:-1])])
    if s.endswith('*'):
        return Ty('ptr', args=[_parse_type(s[:-1])], const=const)
    if s.endswith(']'):
        i = s.rindex('[')
        return Ty('arr', args=[_parse_type(s[:i]), Ty('num', s[i+1:-1])])
    if re.match(r'^(enum )?\((unnamed|anonymous)( enum)? at [^)]*\)$', s) or re.match(r'^\S*\((unnamed|anonymous) enum at [^)]*\)$', s):
        return Ty('int', 'unsigned int', const=const)
    if s.endswith(')'):
        return Ty('fn', s)
    if s == 'void': return Ty('void')
    if s == 'bool': return Ty('bool')
    if s in INTS: return Ty('int', s, const=const)
    m = re.match(r'^(.*?)<(.*)>((?:::\w+)*)$', s, re.S)
    if m and m.group(3):
        nm = m.group(3).strip(':')
        inner = _parse_type(m.group(1) + '<' + m.group(2) + '>')
        if nm in ('iterator', 'const_iterator') : return Ty('iter', args=[inner])
        if nm in ('reverse_iterator', 'const_reverse_iterator'): return Ty('riter', args=[inner])
        if nm in ('size_type',): return Ty('int', 'unsigned long')
        if nm in ('value_type',) and inner.k in ('vec',): return inner.args[0]
        return Ty('rec', norm_type(s), const=const)
    if m:
        base, args = m.group(1), split_targs(m.group(2))
        b = base.split('::')[-1]
        if base.startswith('std::') or base in ('vector', 'pair', 'array', 'set', 'map', 'unordered_map', 'unordered_set', 'tuple', 'initializer_list') or base.startswith('__gnu_cxx'):
            if b == 'vector': return Ty('vec', args=[_parse_type(args[0])], const=const)
            if b == 'initializer_list': return Ty('vec', args=[_parse_type(args[0])], const=const)
            if b == 'basic_string': return Ty('vec', args=[_parse_type(args[0])], const=const)
            if b == 'array': return Ty('vec', 'array', args=[_parse_type(args[0]), Ty('num', args[1].rstrip('UL'))], const=const)
            if b in ('pair', 'tuple'): return Ty('tup', args=[_parse_type(a) for a in args], const=const)
            if b in ('set', 'unordered_set'): return Ty('set', b, args=[_parse_type(args[0])], const=const)
            if b in ('map', 'unordered_map'): return Ty('map', b, args=[_parse_type(args[0]), _parse_type(args[1])], const=const)
            if b == '__normal_iterator': return Ty('iter', args=[_parse_type(args[1])])
            if b in ('_Rb_tree_const_iterator', '_Rb_tree_iterator', '_Node_iterator', '_Node_const_iterator'):
                return Ty('nodeiter', args=[_parse_type(args[0])])
            if b == 'reverse_iterator':
                return Ty('riter', args=[_parse_type(args[0])])
            if b == 'atomic': return Ty('atomic', args=[_parse_type(args[0])])
            if b == 'function': return Ty('fn', args[0])
            return Ty('std', norm_type(s), const=const)
        return Ty('rec', norm_type(s), const=const)
    if s in ('std::wstring', 'wstring'): return Ty('vec', args=[Ty('int', 'wchar_t')], const=const)
    if s in ('std::string', 'string'): return Ty('vec', args=[Ty('int', 'char')], const=const)
    if s in ('std::nullptr_t', 'nullptr_t'): return Ty('ptr', args=[Ty('void')])
    if s.startswith('std::'): return Ty('std', s, const=const)
    return Ty('rec', norm_type(s), const=const)

def _top_ptr(s):
    return s.endswith('*') or s.endswith('&')

class AST:
    def __init__(self, repo, tu_text, workdir, extra_flags=()):
        os.makedirs(workdir, exist_ok=True)
        tu = os.path.join(workdir, 'tu.cpp')
        with open(tu, 'w') as f: f.write(tu_text)
        out = os.path.join(workdir, 'ast.json')
        cmd = [CLANG] + FLAGS + list(extra_flags) + ['-I' + os.path.join(repo, 'src/core'), tu]
        with open(out, 'w') as f:
            p = subprocess.run(cmd, stdout=f, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise ExtractError('clang failed: ' + p.stderr[:2000])
        self.cmd = ' '.join(cmd)
        s = open(out).read()
        os.unlink(out)
        # sugared spelling -> desugared type, where the spelling alone does not say (decltype, dependent aliases)
        self.sugar = {}
        for d, q in re.findall(r'"desugaredQualType":\s*"((?:[^"\\]|\\.)*)",\s*"qualType":\s*"((?:[^"\\]|\\.)*)"', s):
            if '*' in q or '&' in q or '(' in d: continue
            k = norm_name(q)
            self.sugar[k] = d if self.sugar.get(k, d) == d else None
        dec, i = json.JSONDecoder(), 0
        ws = re.compile(r'\s*(Dumping [^\n]*\n)?\s*')
        self.docs = []
        while True:
            i = ws.match(s, i).end()
            if i >= len(s): break
            o, i = dec.raw_decode(s, i)
            self.docs.append(o)
        self.by_id, self.funcs, self.recs, self.enums = {}, {}, {}, {}
        self.ftempl = {}
        for d in self.docs: self._walk(d, [], None)
        # previous-decl links: definition lookup
        for f in list(self.funcs.values()):
            pass

    def _walk(self, n, scope, rec):
        k = n.get('kind')
        nid = n.get('id')
        if nid is not None:
            if nid not in self.by_id or has_body(n): self.by_id[nid] = n
        if k == 'NamespaceDecl':
            nm = n.get('name', '')
            sc = scope if nm in ('Centaurus', '') else scope + [nm]
            for c in n.get('inner', []): self._walk(c, sc, None)
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            if not n.get('completeDefinition'): 
                return
            nm = n.get('name', '')
            if k == 'ClassTemplateSpecializationDecl':
                nm += '<' + ','.join(targ(c) for c in n.get('inner', []) if c['kind'] == 'TemplateArgument') + '>'
            full = norm_type('::'.join(scope + [nm]))
            n['_full'] = full
            if full not in self.recs: self.recs[full] = n
            for c in n.get('inner', []): self._walk(c, scope + [nm], n)
        elif k == 'ClassTemplateDecl':
            for c in n.get('inner', []):
                if c['kind'] == 'ClassTemplateSpecializationDecl': self._walk(c, scope, None)
        elif k == 'FunctionTemplateDecl':
            for c in n.get('inner', []):
                if c['kind'] in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl') and \
                   any(x['kind'] == 'TemplateArgument' for x in c.get('inner', [])):
                    self._walk(c, scope, rec)
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'CXXDestructorDecl'):
            owner = rec
            if owner is None and n.get('parentDeclContextId') in self.by_id:
                owner = self.by_id[n['parentDeclContextId']]
            n['_rec'] = owner.get('_full') if owner is not None and '_full' in owner else None
            pref = n['_rec'] if n['_rec'] else '::'.join(scope)
            nm = n.get('name', '')
            ps = params(n)
            sig = ','.join(norm_type(qt(p)) for p in ps)
            n['_qual'] = norm_type((pref + '::' if pref else '') + nm)
            n['_key'] = n['_qual'] + '(' + sig + ')'
            if n['type']['qualType'].rstrip().endswith('const') or re.search(r'\)\s*const\b', n['type']['qualType']):
                n['_constm'] = True
            if has_body(n) or n['_key'] not in self.funcs: self.funcs[n['_key']] = n
        elif k == 'EnumDecl':
            nm = norm_type('::'.join(scope + [n.get('name', '')]))
            v = -1
            vals = {}
            for c in n.get('inner', []):
                if c['kind'] != 'EnumConstantDecl': continue
                cv = const_value(c)
                v = cv if cv is not None else v + 1
                vals[c['name']] = v
                c['_value'] = v
                self.by_id[c['id']] = c
            n['_vals'] = vals
            self.enums[nm] = n
        else:
            for c in n.get('inner', []):
                if isinstance(c, dict) and c.get('kind', '').endswith('Decl'): self._walk(c, scope, rec)

    def find(self, key):
        """Function by key 'Class::name(params)' or by unique 'Class::name'."""
        key = norm_type(key)
        if key in self.funcs: return self.funcs[key]
        c = [f for f in self.funcs.values() if f['_qual'] == key]
        if len(c) == 1: return c[0]
        b = [f for f in c if has_body(f)]
        if len(b) == 1: return b[0]
        if not c: raise ExtractError('function not found in source: ' + key)
        raise ExtractError('ambiguous function: %s: %s' % (key, [f['_key'] for f in c]))

def const_value(c):
    for x in c.get('inner', []):
        if 'value' in x:
            try: return int(x['value'])
            except Exception: return None
        v = const_value(x)
        if v is not None: return v
    return None

def targ(c):
    if 'type' in c:
        t = c['type']
        return norm_type(t.get('desugaredQualType') or t['qualType'])
    if 'value' in c: return str(c['value'])
    return '?'

def has_body(n):
    return any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in n.get('inner', []) if isinstance(c, dict))

def body(n):
    for c in n.get('inner', []):
        if c.get('kind') == 'CompoundStmt': return c
    return None

def params(n):
    return [c for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl']

def qt(n):
    t = n.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''
