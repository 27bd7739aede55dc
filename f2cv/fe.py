"""Front end: clang's AST of the real /repo sources, re-extracted on every run.

For each translation unit clang is run with -ast-dump=json and the declarations whose
qualified name contains "f2c" are kept (nothing of their bodies is dropped or rewritten).
Functions are keyed by mangled name, so a definition found in one TU serves calls from another.
"""
import json, os, re, subprocess, hashlib, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('F2C_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG_ARGS = ['-std=c++17', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + HERE + '/stubs',
              '-I/usr/include/gdal', '-I/usr/include/eigen3', '-fsyntax-only', '-w',
              '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=f2c']


class ExtractError(Exception):
    pass


class N(object):
    __slots__ = ('kind', 't', 'name', 'op', 'kids', 'id', 'ref', 'refd', 'line', 'file', 'raw', 'tu', 'vc')

    def __repr__(self):
        return '<%s %s %s:%s>' % (self.kind, self.name or self.op or '', self.file, self.line)


class TU(object):
    def __init__(self, path):
        self.path = path
        self.decls = {}      # id -> N  (declarations)
        self.funcs = []      # function-like decl nodes


FUNC_KINDS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')
DECL_KINDS = FUNC_KINDS + ('VarDecl', 'ParmVarDecl', 'FieldDecl', 'CXXRecordDecl', 'ClassTemplateSpecializationDecl',
                           'EnumConstantDecl', 'EnumDecl', 'NamespaceDecl', 'ClassTemplateDecl', 'FunctionTemplateDecl',
                           'TypeAliasDecl', 'TypedefDecl', 'BindingDecl', 'DecompositionDecl')


class _Conv(object):
    def __init__(self, tu):
        self.tu = tu
        self.line = None
        self.file = None

    def _loc1(self, l):
        if not l:
            return None
        if 'spellingLoc' in l:
            self._loc1(l['spellingLoc'])
            return self._loc1(l['expansionLoc'])
        if 'file' in l:
            self.file = l['file']
        if 'line' in l:
            self.line = l['line']
        if 'offset' in l:
            return (self.file, self.line)
        return None

    def conv(self, d, parent=None):
        if not d:
            return None
        n = N()
        n.tu = self.tu
        n.kind = d.get('kind')
        n.id = d.get('id')
        lc = self._loc1(d.get('loc'))
        rb = None
        r = d.get('range')
        if r:
            rb = self._loc1(r.get('begin'))
            self._loc1(r.get('end'))
        p = rb or lc or (None, None)
        n.file, n.line = p
        t = d.get('type')
        n.t = (t.get('desugaredQualType') or t.get('qualType')) if t else None
        n.name = d.get('name')
        n.op = d.get('opcode')
        n.vc = d.get('valueCategory')
        n.refd = d.get('referencedDecl')
        n.ref = n.refd['id'] if n.refd else d.get('referencedMemberDecl')
        inner = d.get('inner')
        n.raw = {k: v for k, v in d.items() if k not in ('inner', 'range', 'loc', 'type')}
        if t:
            n.raw['qt'] = t.get('qualType')
        n.kids = [self.conv(c, n) for c in inner if not (c and (c.get('kind') or '').endswith('Comment'))] if inner else []
        if n.kind and (n.kind.endswith('Decl')):
            self.tu.decls[n.id] = n
            for c in n.kids:
                if c is not None and c.kind and c.kind.endswith('Decl'):
                    c.raw['parent'] = n
            if n.kind in FUNC_KINDS:
                self.tu.funcs.append(n)
        return n


def parse_tu(path):
    p = subprocess.run(['clang++'] + CLANG_ARGS + [path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise ExtractError('clang cannot parse %s:\n%s' % (path, p.stderr.decode(errors='replace')[-2000:]))
    s = p.stdout.decode(errors='replace')
    tu = TU(path)
    dec = json.JSONDecoder()
    i, L = 0, len(s)
    tops = []
    while i < L:
        while i < L and s[i] in ' \n\r\t':
            i += 1
        if i >= L:
            break
        if s[i] != '{':
            i = s.find('\n', i) + 1
            if i == 0:
                break
            continue
        o, i = dec.raw_decode(s, i)
        tops.append(o)
    sys.setrecursionlimit(20000)
    tu.tops = [_Conv(tu).conv(o) for o in tops]
    tu.sha = hashlib.sha256(s.encode()).hexdigest()[:12]
    for f in list(tu.decls.values()):
        f.raw.setdefault('parent', None)
    # methods defined out of line: parentDeclContextId
    return tu


def has_body(f):
    if any(c is not None and c.kind in ('CompoundStmt', 'CXXTryStmt') for c in f.kids):
        return True
    return False


class Program(object):
    def __init__(self):
        self.tus = {}
        self.defs = {}       # mangled -> N with body
        self.decl_by_mangled = {}
        self.records = {}    # qualified class name (f2c::types::X) -> record N (complete definition)
        self.enums = {}      # enum constant id by (tu,id)
        self.loaded_all = False
        self.errors = {}
        self.byqn = {}

    def all_sources(self):
        out = []
        for root, _, files in os.walk(REPO + '/src'):
            for f in files:
                if f.endswith('.cpp') and f != 'visualizer.cpp':
                    out.append(os.path.join(root, f))
        stub = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'stubs', 'instances.cpp')
        return sorted(out) + [stub]

    def load(self, paths):
        paths = [p for p in paths if p not in self.tus]
        with ThreadPoolExecutor(8) as ex:
            for p, tu in zip(paths, ex.map(parse_tu, paths)):
                self._add(tu)

    def load_all(self):
        if not self.loaded_all:
            self.loaded_all = True
            todo = [p for p in self.all_sources() if p not in self.tus]

            def one(p):
                try:
                    return parse_tu(p)
                except ExtractError as e:
                    self.errors[p] = str(e)
                    return None
            with ThreadPoolExecutor(8) as ex:
                for p, tu in zip(todo, ex.map(one, todo)):
                    if tu is not None:
                        self._add(tu)

    def _add(self, tu):
        self.tus[tu.path] = tu
        for f in tu.funcs:
            m = f.raw.get('mangledName')
            if not m:
                continue
            self.decl_by_mangled.setdefault(m, f)
            if has_body(f) and m not in self.defs:
                self.defs[m] = f
            elif f.raw.get('explicitlyDefaulted') and m not in self.defs:
                f.raw['defaulted'] = True
        self._scopes(tu)

    def _scopes(self, tu):
        def qual(n, prefix, cls=None):
            for c in n.kids:
                if c is None:
                    continue
                if c.kind == 'NamespaceDecl':
                    qual(c, prefix + ((c.name + '::') if c.name else ''))
                elif c.kind in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
                    c.raw['qn'] = prefix + (c.name or '')
                    if c.raw.get('completeDefinition'):
                        key = c.raw['qn'] + (self._targs(c) if c.kind != 'CXXRecordDecl' else '')
                        self.records.setdefault(key, c)
                    qual(c, prefix + (c.name or '') + '::')
                elif c.kind in ('ClassTemplateDecl', 'FunctionTemplateDecl'):
                    qual(c, prefix, n if n.kind in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') else cls)
                elif c.kind in FUNC_KINDS:
                    pid = c.raw.get('parentDeclContextId')
                    if pid and pid in tu.decls and tu.decls[pid].raw.get('qn'):
                        c.raw['cls'] = tu.decls[pid].raw['qn']
                        c.raw['clsn'] = tu.decls[pid]
                    elif n.kind in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
                        c.raw['cls'] = n.raw.get('qn')
                        c.raw['clsn'] = n
                    elif n.kind == 'FunctionTemplateDecl' and cls is not None:
                        c.raw['cls'] = cls.raw.get('qn')
                        c.raw['clsn'] = cls
                    c.raw['qn'] = (c.raw['cls'] + '::' if c.raw.get('cls') else prefix) + (c.name or '')
        for t in tu.tops:
            if t is None:
                continue
            holder = N()
            holder.kind = 'TU'
            holder.kids = [t]
            holder.raw = {}
            if t.kind == 'NamespaceDecl':
                qual(holder, '')
            elif t.kind in FUNC_KINDS:
                # printed at top level, e.g. out-of-namespace definitions or operator templates
                pid = t.raw.get('parentDeclContextId')
                if pid and pid in tu.decls and tu.decls[pid].raw.get('qn'):
                    t.raw['cls'] = tu.decls[pid].raw['qn']
                t.raw['qn'] = (t.raw['cls'] + '::' if t.raw.get('cls') else '') + (t.name or '')

    def _targs(self, c):
        a = [k.t for k in c.kids if k is not None and k.kind == 'TemplateArgument']
        return '<' + ','.join(str(x) for x in a) + '>'

    def find(self, qn, sig=None):
        """All function declarations with this qualified name having a body (optionally sig regex on type)."""
        out = {}
        if self.byqn.get('#') != len(self.tus):
            self.byqn = {'#': len(self.tus)}
            for tu in self.tus.values():
                for f in tu.funcs:
                    self.byqn.setdefault(f.raw.get('qn'), []).append(f)
        for _ in (0,):
            for f in self.byqn.get(qn, []):
                if (sig is None or re.search(sig, f.raw.get('qt') or '')):
                    m = f.raw.get('mangledName')
                    if m in self.defs:
                        out[m] = self.defs[m]
        return list(out.values())
