"""Frontend: /repo's current sources -> type-checked AST (clang) -> Program.

Every run copies the source tree (no build products) to a scratch directory,
lets cmake configure it there (this generates calcJconfig.hpp and the compile
commands), and asks clang for the resolved AST of every library / tool
translation unit.  Each unit is wrapped in one namespace so that a single
-ast-dump-filter catches everything the project itself declares (also static
helpers, anonymous namespaces and main) and nothing of the standard library.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from functools import lru_cache

REPO = os.environ.get('SA_REPO', '/repo')
WRAP = 'sa_root_ns'
CLANG = shutil.which('clang++-18') or shutil.which('clang++')


class FrontendError(Exception):
    pass


class N:
    """AST node."""
    __slots__ = ('k', 'id', 't', 'ch', 'a', 'file', 'line')

    def __init__(self):
        self.k = ''
        self.id = None
        self.t = ''
        self.ch = []
        self.a = {}
        self.file = None
        self.line = None

    def __repr__(self):
        return '<%s %s %s:%s>' % (self.k, self.a.get('name', ''), self.file, self.line)

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            st.extend(reversed(n.ch))

    @property
    def name(self):
        return self.a.get('name')


SKIP_KEYS = {'id', 'kind', 'loc', 'range', 'inner', 'type', 'mangledName'}


class _Loc:
    __slots__ = ('file', 'line')

    def __init__(self):
        self.file = None
        self.line = None


def _upd(loc, st):
    """process one location object in print order; returns (file,line)"""
    if not loc:
        return None
    if 'spellingLoc' in loc or 'expansionLoc' in loc:
        r = None
        for key in loc:
            if key in ('spellingLoc', 'expansionLoc'):
                x = _upd(loc[key], st)
                if key == 'expansionLoc':
                    r = x
        return r
    if 'offset' not in loc and 'line' not in loc and 'file' not in loc:
        return None
    if 'file' in loc:
        st.file = loc['file']
    if 'line' in loc:
        st.line = loc['line']
    return (st.file, st.line)


def _convert(o, st, tu, ids):
    n = N()
    n.k = o.get('kind', '')
    n.id = (tu, o['id']) if 'id' in o else None
    pos = None
    for key, v in o.items():
        if key == 'loc':
            p = _upd(v, st)
            if p:
                pos = p
        elif key == 'range':
            b = _upd(v.get('begin'), st)
            _upd(v.get('end'), st)
            if pos is None and b:
                pos = b
        elif key == 'type':
            n.t = v.get('desugaredQualType') or v.get('qualType', '')
            n.a['qt'] = v.get('qualType', '')
        elif key == 'mangledName':
            n.a['mangled'] = v
        elif key == 'inner':
            if pos:
                n.file, n.line = pos
            for c in v:
                if not isinstance(c, dict):
                    continue
                if not c:
                    x = N(); x.k = 'Null'
                    n.ch.append(x)
                    continue
                n.ch.append(_convert(c, st, tu, ids))
        elif key == 'array_filler':
            n.a[key] = True
            for c in v:
                if isinstance(c, dict) and c:
                    n.ch.append(_convert(c, st, tu, ids))
        elif key in SKIP_KEYS:
            pass
        else:
            n.a[key] = v
    if pos:
        n.file, n.line = pos
    if n.id is not None and (n.k.endswith('Decl') or n.k.endswith('Stmt') or n.k.endswith('Expr')):
        ids[n.id] = n
    return n


class Func:
    def __init__(self, node, cls, tu):
        self.node = node
        self.cls = cls            # qualified class name or None
        self.name = node.a.get('name', '')
        self.tu = tu
        self.mangled = node.a.get('mangled')
        self.params = [c for c in node.ch if c.k == 'ParmVarDecl']
        self.body = None
        self.inits = []
        for c in node.ch:
            if c.k == 'CompoundStmt' or c.k == 'CXXTryStmt':
                self.body = c
            elif c.k == 'CXXCtorInitializer':
                self.inits.append(c)
        self.qname = (cls + '::' if cls else '') + self.name
        self.virtual = bool(node.a.get('virtual'))
        self.static = node.a.get('storageClass') == 'static'
        self.kind = node.k

    @property
    def file(self):
        return self.node.file

    @property
    def line(self):
        return self.node.line

    @property
    def sig(self):
        return self.node.a.get('qt', '')

    def __repr__(self):
        return '<Func %s %s>' % (self.qname, self.sig)


class Class:
    def __init__(self, qname, node):
        self.qname = qname
        self.node = node
        self.bases = []
        self.fields = []      # list of FieldDecl nodes
        self.methods = []     # list of Func (declarations in class)


class Program:
    def __init__(self):
        self.ids = {}
        self.funcs = {}       # mangled -> Func (definition preferred)
        self.decl_key = {}    # decl id -> mangled
        self.classes = {}     # qname -> Class
        self.vars = {}        # id -> VarDecl (namespace level)
        self.files = set()
        self.tus = []
        self.by_qname = {}

    def find(self, qname, nparams=None, sig=None):
        r = [f for f in self.by_qname.get(qname, []) if f.body is not None]
        if nparams is not None:
            r = [f for f in r if len(f.params) == nparams]
        if sig is not None:
            r = [f for f in r if sig in f.sig]
        return r

    def func_of_decl(self, declid):
        m = self.decl_key.get(declid)
        return self.funcs.get(m) if m else None


def _rel(p):
    return p


def _strip_cls(q):
    return q


class Loader:
    def __init__(self, srcroot):
        self.srcroot = srcroot
        self.prog = Program()

    def relfile(self, f):
        if f is None:
            return None
        p = os.path.normpath(f)
        if p.startswith(self.srcroot + os.sep):
            return p[len(self.srcroot) + 1:]
        return p

    def add_tu(self, tu, nodes):
        P = self.prog
        for n in nodes:
            for x in n.walk():
                if x.file and os.path.isabs(x.file):
                    x.file = self.relfile(x.file)
        self.cls_by_id = {}
        for n in nodes:
            self._scan(n, None, tu)

    def _scan(self, n, cls, tu, ns=''):
        P = self.prog
        k = n.k
        if k == 'NamespaceDecl':
            nm = n.a.get('name', '')
            for c in n.ch:
                self._scan(c, None, tu)
        elif k in ('LinkageSpecDecl', 'ExportDecl'):
            for c in n.ch:
                self._scan(c, cls, tu)
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl',
                   'ClassTemplatePartialSpecializationDecl'):
            if k == 'ClassTemplatePartialSpecializationDecl':
                return
            self._record(n, cls, tu)
        elif k == 'ClassTemplateDecl':
            for c in n.ch:
                if c.k == 'ClassTemplateSpecializationDecl':
                    self._record(c, cls, tu)
        elif k == 'FunctionTemplateDecl':
            first = True
            for c in n.ch:
                if c.k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
                    if first:
                        first = False
                        continue
                    self._func(c, cls, tu)
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl',
                   'CXXDestructorDecl', 'CXXConversionDecl'):
            self._func(n, cls, tu)
        elif k == 'VarDecl':
            P.vars[n.id] = n

    def _record(self, n, outer, tu):
        P = self.prog
        nm = n.a.get('name')
        if nm is None:
            return
        q = nm
        if n.k == 'ClassTemplateSpecializationDecl':
            args = []
            for c in n.ch:
                if c.k == 'TemplateArgument':
                    args.append(c.t or c.a.get('qt', '') or str(c.a.get('value', '')))
            q = '%s<%s>' % (nm, ', '.join(args))
        if outer:
            q = outer + '::' + q
        self.cls_by_id[n.id] = q
        for c in n.ch:
            pass
        if not n.a.get('completeDefinition'):
            return
        C = P.classes.get(q)
        fresh = C is None
        if fresh:
            C = Class(q, n)
            P.classes[q] = C
            for b in n.a.get('bases', []) or []:
                t = b['type']
                C.bases.append(clean_type(t.get('desugaredQualType') or t['qualType']))
        for c in n.ch:
            if c.k == 'FieldDecl' and fresh:
                C.fields.append(c)
            elif c.k == 'FieldDecl':
                pass
            else:
                f = self._scan(c, q, tu)
        if fresh:
            pass

    def _func(self, n, cls, tu):
        P = self.prog
        # out-of-line member definition: owner via parentDeclContextId
        pid = n.a.get('parentDeclContextId')
        if cls is None and pid is not None:
            cls = self.cls_by_id.get((tu, pid))
        prev = n.a.get('previousDecl')
        f = Func(n, cls, tu)
        m = f.mangled
        if m is None:
            m = 'nomangle:%s:%s:%s' % (f.qname, f.sig, n.line)
            f.mangled = m
        # lambdas etc. are handled inside bodies
        if n.a.get('isImplicit') and f.body is None:
            P.decl_key[n.id] = m
            P.funcs.setdefault(m, f)
            return
        P.decl_key[n.id] = m
        old = P.funcs.get(m)
        if old is None or (old.body is None and f.body is not None):
            if old is not None:
                f.virtual = f.virtual or old.virtual
                f.static = f.static or old.static
                if f.cls is None:
                    f.cls = old.cls
                    f.qname = (f.cls + '::' if f.cls else '') + f.name
                # default arguments live on the first declaration
                f.decl = old.node
            P.funcs[m] = f
        else:
            old.virtual = old.virtual or f.virtual
            old.static = old.static or f.static

    def finish(self):
        P = self.prog
        for f in P.funcs.values():
            P.by_qname.setdefault(f.qname, []).append(f)
            if f.cls in P.classes:
                P.classes[f.cls].methods.append(f)
        return P


STDTPL = re.compile(r'(?<![\w:])(vector|set|map|unordered_map|unordered_set|multimap|list|deque|pair|array|forward_list|initializer_list|unique_ptr|shared_ptr)(?=<)')
STDSTR = re.compile(r'(?<![\w:])(?:std::(?:__cxx11::)?)?string(?![\w<:])')
STDSIZE = re.compile(r'(?<![\w:])(?:std::)?size_t(?![\w<])')


@lru_cache(None)
def clean_type(t):
    """one spelling per type"""
    t = t.replace(WRAP + '::', '').replace('catnip::', '')
    t = re.sub(r'\b(class|struct) ', '', t)
    t = STDTPL.sub(r'std::\1', t)
    t = STDSTR.sub('std::basic_string<char>', t).replace('std::__cxx11::', 'std::')
    t = STDSIZE.sub('unsigned long', t)
    while '> >' in t:
        t = t.replace('> >', '>>')
    return t.strip()


def _dump(clang_args, wrapper):
    cmd = [CLANG] + clang_args + ['-fsyntax-only', '-w', '-Xclang', '-ast-dump=json',
                                  '-Xclang', '-ast-dump-filter=' + WRAP, wrapper]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')


def _docs(s):
    d = json.JSONDecoder()
    i = 0
    out = []
    n = len(s)
    while True:
        while i < n and s[i] != '{':
            j = s.find('\n', i)
            if s[i].isspace():
                i += 1
            elif j < 0:
                i = n
            else:
                i = j + 1
        if i >= n:
            break
        o, i = d.raw_decode(s, i)
        out.append(o)
    return out


def copy_sources(dst):
    os.makedirs(dst, exist_ok=True)
    skip = {'_build', '.git', 'build'}
    for e in os.listdir(REPO):
        if e in skip:
            continue
        s = os.path.join(REPO, e)
        d = os.path.join(dst, e)
        if os.path.isdir(s):
            shutil.copytree(s, d, symlinks=True, ignore=shutil.ignore_patterns('.git', 'GAUSSIANFILES'))
        else:
            shutil.copy2(s, d)


def source_hash():
    h = hashlib.sha256()
    for base, ds, fs in os.walk(os.path.join(REPO, 'src')):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(('.cpp', '.hpp', '.h', '.txt', '.in', '.cc', '.hh')):
                p = os.path.join(base, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    h.update(open(__file__, 'rb').read())
    return h.hexdigest()


def load():
    """Returns Program for the current tree."""
    cache = os.environ.get('SA_CACHE')
    if cache:
        import pickle
        sys.setrecursionlimit(100000)
        key = os.path.join(cache, source_hash() + '.pkl')
        if os.path.exists(key):
            return pickle.load(open(key, 'rb'))
    tmp = tempfile.mkdtemp(prefix='sa_')
    try:
        src = os.path.join(tmp, 'r')
        copy_sources(src)
        bld = os.path.join(tmp, 'b')
        p = subprocess.run(['cmake', '-S', src, '-B', bld, '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON',
                            '-DCMAKE_POLICY_VERSION_MINIMUM=3.5', '-DENABLE_TESTS=OFF',
                            '-DENABLE_INTEGRATION_TESTS=OFF', '-DDOWNLOAD_TUTORIAL_FILES=OFF'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        cc = os.path.join(bld, 'compile_commands.json')
        if p.returncode != 0 or not os.path.exists(cc):
            raise FrontendError('cmake configure failed:\n' + p.stdout.decode('utf8', 'replace')[-2000:])
        cmds = json.load(open(cc))
        jobs = []
        for i, c in enumerate(cmds):
            f = os.path.normpath(os.path.join(c['directory'], c['file']))
            rel = os.path.relpath(f, src)
            if rel.startswith('..') or '/tests/' in '/' + rel:
                continue
            args = c.get('arguments') or c['command'].split()
            keep = []
            j = 0
            while j < len(args):
                a = args[j]
                if a.startswith(('-I', '-D', '-std', '-isystem', '-U')):
                    keep.append(a)
                    if a in ('-I', '-D', '-isystem', '-U'):
                        keep.append(args[j + 1]); j += 1
                j += 1
            # drop instrumentation guards
            jobs.append((i, f, keep))
        if not jobs:
            raise FrontendError('no translation units found')
        stdh = set()
        inst = {}       # class template instantiations used as bases: all their members are wanted
        for base, ds, fs in os.walk(os.path.join(src, 'src')):
            ds[:] = [d for d in ds if d != 'tests']
            for f in fs:
                if f.endswith(('.cpp', '.hpp', '.h', '.cc', '.hh')):
                    text = open(os.path.join(base, f), errors='replace').read()
                    for m in re.finditer(r'^\s*#\s*include\s*<([^>]+)>', text, re.M):
                        stdh.add(m.group(1))
                    if not f.endswith(('.cpp', '.cc')):
                        for m in re.finditer(r':\s*public\s+(\w+\s*<[^{};]*>)\s*\{', text):
                            inst.setdefault(re.sub(r'\s*([<>,])\s*', r'\1', m.group(1)), os.path.join(base, f))

        def one(job):
            i, f, keep = job
            w = os.path.join(tmp, 'w%d.cpp' % i)
            with open(w, 'w') as o:
                for h in sorted(stdh):
                    o.write('#if __has_include(<%s>)\n#include <%s>\n#endif\n' % (h, h))
                if f is None:
                    o.write('namespace %s {\n' % WRAP)
                    for h in sorted(set(inst.values())):
                        o.write('#include "%s"\n' % h)
                    o.write('namespace catnip {\n')
                    for t in sorted(inst):
                        o.write('template class %s;\n' % t)
                    o.write('}\n}\n')
                else:
                    o.write('namespace %s {\n#include "%s"\n}\n' % (WRAP, f))
            if f is None:
                rc, out, err = _dump(keep, w)
                return i, f, rc, out, err
            rc, out, err = _dump(keep + ['-I' + os.path.dirname(f)], w)
            return i, f, rc, out, err
        if inst:
            jobs.append((len(cmds), None, jobs[0][2]))
        with ThreadPoolExecutor(max_workers=8) as ex:
            res = list(ex.map(one, jobs))
        L = Loader(src)
        for i, f, rc, out, err in res:
            if f is None and rc != 0:
                if os.environ.get('SA_DEBUG'):
                    sys.stderr.write('instantiation: ' + err[:1500])
                continue
            if rc != 0:
                raise FrontendError('clang rejected %s:\n%s' % (os.path.relpath(f, src), err[:3000]))
            st = _Loc()
            nodes = [_convert(o, _Loc(), i, L.prog.ids) for o in _docs(out)]
            L.add_tu(i, nodes)
            if f is not None:
                L.prog.tus.append(os.path.relpath(f, src))
        prog = L.finish()
        prog.globals_fix = None
        if cache:
            os.makedirs(cache, exist_ok=True)
            pickle.dump(prog, open(key, 'wb'))
        return prog
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    import time
    t = time.time()
    P = load()
    print(time.time() - t, len(P.funcs), P.tus)
    for q in sorted(P.classes):
        print(q, P.classes[q].bases, [f.a.get('name') for f in P.classes[q].fields])
    for f in P.funcs.values():
        if f.body is not None:
            print(f.qname, f.sig, f.file, f.line, f.virtual)
