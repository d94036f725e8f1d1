"""Value-flow summariser.

One forward pass over the type-checked AST computes, for a function (callees
inlined or replaced by a contract), the value of every result and memory cell
as a normal-form term over the inputs, the guards of every abnormal exit and
the obligations of every memory access.  Joins produce gated values (no path
is enumerated); loops are replaced by closed forms (induction variables,
sums, quantified array updates, last/first-occurrence terms); anything the
rules do not cover becomes "top".
"""
from .terms import *
from .terms import _mk, mapnest, ptr, NULL, ptreq
from . import terms as tm
from .decide import Ctx, subst_t
from . import types as ty
from .types import kind, strip
import os

NFIELDS = tm.NFIELDS
NFIELDS.update({'map': 2, 'set': 1, 'pair': 2})


class Dead(Exception):
    pass


class Unsupported(Exception):
    pass


class Rollback(Exception):
    pass


class LV:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root = root
        self.path = tuple(path)

    def f(self, *steps):
        return LV(self.root, self.path + steps)

    def __repr__(self):
        return 'LV%s%s' % (show(self.root), show(self.path))


class LVIte:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class LVKV:
    """pair (key, mapped) behind a map iterator"""

    def __init__(self, lv, key, vsort, ksort):
        self.lv, self.key, self.vsort, self.ksort = lv, key, vsort, ksort


def diff(a, b, path, out):
    """the leaves at which two values differ"""
    if a is b:
        return
    if a.op == b.op == 'struct' and a.args[0] == b.args[0] and [k for k, _ in a.args[1]] == [k for k, _ in b.args[1]]:
        for (k, x), (_, y) in zip(a.args[1], b.args[1]):
            diff(x, y, path + (k,), out)
    else:
        out.add(path)


def havoc(v, path, leaves):
    if path in leaves:
        return sym(('any', path), v.sort)
    if v.op == 'struct' and any(l[:len(path)] == path for l in leaves):
        return struct(v.args[0], tuple((k, havoc(x, path + (k,), leaves)) for k, x in v.args[1]))
    return v


class LVTop:
    def __init__(self, why):
        self.why = why


class State:
    __slots__ = ('mem', 'pc')

    def __init__(self, mem=None, pc=()):
        self.mem = mem if mem is not None else {}
        self.pc = pc

    def fork(self, *conds):
        pc = self.pc
        for c in conds:
            if c is not TRUE:
                pc = pc + (c,)
        return State(dict(self.mem), pc)


class Exit:
    def __init__(self, pc, kind, node, info=None):
        self.pc, self.kind, self.node, self.info = pc, kind, node, info
        self.cond = None


class Event:
    def __init__(self, pc, kind, node, data, loops, stack):
        self.pc, self.kind, self.node, self.data, self.loops, self.stack = pc, kind, node, data, loops, stack


class Frame:
    _n = 0

    def __init__(self, func, this=None, env=None):
        Frame._n += 1
        self.id = Frame._n
        self.func = func
        self.this = this
        self.env = env if env is not None else {}
        self.rets = []
        self.base = 0
        self.loops = []


class LoopCtl:
    def __init__(self):
        self.breaks = []
        self.conts = []


def loc(n):
    return '%s:%s' % (n.file, n.line) if n is not None else '?'


class Engine:
    def __init__(self, prog, facts=(), models=None, opts=None):
        self.prog = prog
        self.models = dict(models or {})
        self.opts = opts or {}
        self.st = State({}, tuple(f for f in facts if f is not TRUE))
        self.exits = []
        self.events = []
        self.dry = 0
        self.fr = Frame(None)
        self.ctxs = {}
        self.stack = []
        self.loopstack = []      # [(t, N)]
        self.uid = 0
        self.closures = {}
        self.root_init = {}
        self.iters = []
        self.unroll = self.opts.get('unroll', 64)
        self.notes = []
        self.steps = 0
        self.max_steps = self.opts.get('max_steps', 400000)
        self.analysed = set()
        self.splits = 0
        self.discharged = 0
        self.smart = set()
        self.owned = set()       # heap blocks that once belonged to an object whose end is not modelled
        from . import lib
        self.lib = lib

    # ------------------------------------------------------------ contexts
    def ctx(self):
        return self.ctx_of(self.st.pc)

    def ctx_of(self, pc):
        c = self.ctxs.get(pc)
        if c is None:
            if not pc:
                c = Ctx()
            else:
                p = self.ctx_of(pc[:-1])
                c = p.extend(pc[-1])
            self.ctxs[pc] = c
        return c

    def simp(self, c):
        if c in (TRUE, FALSE):
            return c
        return self.ctx().simp_bool(c)

    def assume(self, c):
        c = self.simp(c)
        if c is TRUE:
            return
        self.st.pc = self.st.pc + (c,)
        if c is FALSE or self.ctx().dead:
            raise Dead()

    # ------------------------------------------------------------ recording
    def exit(self, kind, node, info=None):
        self.exits.append(Exit(self.st.pc, kind, node, info))
        raise Dead()

    def fail_if(self, c, kind, node, info=None):
        """c: abnormal exit condition"""
        c = self.simp(c)
        if c is FALSE:
            return
        self.exits.append(Exit(self.st.pc + (c,), kind, node, info))
        self.assume(lnot(c))

    def event(self, kind, node, data):
        if not self.dry:
            self.events.append(Event(self.st.pc, kind, node, data, tuple(self.loopstack), tuple(self.stack)))

    def require(self, c, kind, node, what):
        """memory-safety obligation"""
        s = self.simp(c)
        if s is TRUE:
            if not self.dry:
                self.discharged += 1
            return
        self.event('oblig:' + kind, node, (c, what))
        if s is FALSE:
            raise Dead()
        self.assume(s)

    # ------------------------------------------------------------ types
    def class_of(self, t):
        t = strip(t)
        return self.prog.classes.get(t)

    def fields(self, cls):
        """flattened (name, type, owner) of class name"""
        C = self.prog.classes.get(cls)
        if C is None:
            return None
        out = []
        for b in C.bases:
            fb = self.fields(strip(b))
            if fb:
                out += fb
        for f in C.fields:
            out.append((f.a.get('name'), f.t, cls))
        NFIELDS[cls] = len(out)
        return out

    def derives(self, cls, base):
        if cls == base:
            return True
        C = self.prog.classes.get(cls)
        return C is not None and any(self.derives(strip(b), base) for b in C.bases)

    # ------------------------------------------------------------ values
    def fresh_root(self, tag):
        self.uid += 1
        return (tag, self.uid, self.fr.id)

    def default(self, t, deep=True):
        """value-initialised object of type t (library types and scalars)"""
        k = kind(t)
        if k[0] == 'i':
            return ZERO
        if k[0] == 'r':
            return ZERO
        if k[0] == 'b':
            return FALSE
        if k[0] == 's' or k[0] == 'os':
            return EMPTY
        if k[0] == 'vec':
            return vec(ZERO, UNINIT)
        if k[0] == 'pair':
            return struct('pair', (('first', self.default(k[1])), ('second', self.default(k[2]))))
        if k[0] == 'map':
            return struct('map', (('#has', fill(FALSE)), ('#val', fill(self.default(k[2]) if kind(k[2])[0] in 'irbs' or kind(k[2])[0] in ('vec', 'ptr', 'map', 'set', 'pair') else sym(('dflt', k[2]), 'o')))))
        if k[0] == 'set':
            return struct('set', (('#has', fill(FALSE)),))
        if k[0] in ('ptr', 'iter'):
            return NULL
        if k[0] == 'cls':
            fs = self.fields(k[1])
            if fs is not None:
                return struct(k[1], tuple((n, self.default(ft)) for n, ft, o in fs))
        return top('default of ' + t, ty.sort(t))

    def uninit(self, t, name='uninit'):
        k = kind(t)
        if k[0] in ('s', 'vec', 'map', 'set', 'pair', 'os'):
            return self.default(t)
        if k[0] == 'cls':
            fs = self.fields(k[1])
            if fs is not None:
                return struct(k[1], tuple((n, self.uninit(ft, n)) for n, ft, o in fs))
        if k[0] == 'is':
            return self.lib.streams.closed()
        if 'fpos<' in t:
            return ZERO
        s = ty.SORT[k[0]]
        self.uid += 1
        return sym(('uninit', name, self.uid), s)

    def mksym(self, name, t):
        """arbitrary value of type t"""
        k = kind(t)
        if k[0] == 'pair':
            return struct('pair', (('first', self.mksym(name + '.first', k[1])), ('second', self.mksym(name + '.second', k[2]))))
        if k[0] == 'cls':
            fs = self.fields(k[1])
            if fs is not None:
                return struct(k[1], tuple((n, self.mksym(name + '.' + n, ft)) for n, ft, o in fs))
        return sym(name, ty.SORT[k[0]])

    def expand(self, v, t):
        """opaque record -> explicit record"""
        if v.op in ('struct', 'top'):
            return v
        k = kind(t)
        if k[0] == 'pair':
            return struct_x('pair', (('first', proj(v, 'first', ty.sort(k[1]))), ('second', proj(v, 'second', ty.sort(k[2])))))
        if k[0] == 'map':
            return struct_x('map', (('#has', proj(v, '#has', 'a')), ('#val', proj(v, '#val', 'a'))))
        if k[0] == 'set':
            return struct_x('set', (('#has', proj(v, '#has', 'a')),))
        if k[0] == 'cls':
            fs = self.fields(k[1])
            if fs is not None:
                return struct_x(k[1], tuple((n, proj(v, n, ty.sort(ft))) for n, ft, o in fs))
        return top('expand ' + t, 'o')

    # ------------------------------------------------------------ memory
    def rootval(self, root):
        m = self.st.mem
        v = m.get(root)
        if v is not None:
            return v
        if root[0] == 'deref':
            p = root[1]
            v = _mk('app', ('deref', p), root[2] if len(root) > 2 else 'o')
            return v
        if root[0] == 'fam':
            l = m.get(('famroot', root[1]))
            if l is not None:
                k = 0
                x = l
                while x.op == 'lam':
                    k += 1
                    x = x.args[1]
                for i in root[len(root) - k:]:
                    if l.op != 'lam':
                        return top('family', 'o')
                    l = subst(l.args[1], {bv(l.args[0]): i})
                return l
        if root[0] == 'g':
            if len(root) > 2:
                return sym(('global', root[1]), root[2])
        return top('unknown object %s' % (root[0],), 'o')

    def step(self, v, s):
        if s[0] == 'f':
            return proj(v, s[1], s[2])
        if s[0] == 'i':
            if v.sort == 's':
                return app('chr', 'i', v, s[1])
            return sel(varr(v), (s[1],), s[2], self.ctx())
        if s[0] == 'k':
            return sel(proj(v, '#val', 'a'), (s[1],), s[2], self.ctx())
        raise AssertionError(s)

    def read(self, l):
        if isinstance(l, T):
            return l
        if isinstance(l, LVIte):
            return ite(l.c, self.read(l.a), self.read(l.b))
        if isinstance(l, LVKV):
            return struct('pair', (('first', l.key), ('second', self.read(l.lv))))
        if isinstance(l, LVTop):
            return top(l.why, 'o')
        v = self.rootval(l.root)
        for s in l.path:
            v = self.step(v, s)
        return v

    def setp(self, v, path, val):
        if not path:
            return val
        s = path[0]
        if v.op == 'top':
            return v
        if s[0] == 'f':
            if v.op != 'struct':
                v = self.expand(v, s[3])
                if v.op == 'top':
                    return v
            out = []
            for n, x in v.args[1]:
                out.append((n, self.setp(x, path[1:], val) if n == s[1] else x))
            return struct(v.args[0], tuple(out))
        if s[0] == 'i':
            if v.sort == 's':
                return self.lib.str_set(self, v, s[1], val)
            old = sel(varr(v), (s[1],), s[2], self.ctx()) if len(path) > 1 else None
            return vec(vlen(v), store(varr(v), (s[1],), self.setp(old, path[1:], val)))
        if s[0] == 'k':
            arr = proj(v, '#val', 'a')
            old = sel(arr, (s[1],), s[2], self.ctx()) if len(path) > 1 else None
            return struct('map', (('#has', proj(v, '#has', 'a')), ('#val', store(arr, (s[1],), self.setp(old, path[1:], val)))))
        raise AssertionError(s)

    def write(self, l, val, node=None):
        if isinstance(l, LVIte):
            a, b = self.read(l.a), self.read(l.b)
            self.write(l.a, ite(l.c, val, a))
            # when both name the same place the second write must keep the first
            b = self.read(l.b)
            self.write(l.b, ite(l.c, b, val))
            return
        if isinstance(l, LVKV):
            self.write(l.lv, proj(val, 'second', l.vsort))
            return
        if isinstance(l, LVTop):
            self.havoc(l.why)
            return
        if l.root[0] == 'top':
            self.havoc('write through unknown pointer')
            return
        if l.root[0] == 'fam' and l.root not in self.st.mem and ('famroot', l.root[1]) in self.st.mem:
            self.st.mem[('famroot', l.root[1])] = top('write to one object of a family', 'o')
            return
        if not l.path:
            self.st.mem[l.root] = val
        else:
            self.st.mem[l.root] = self.setp(self.rootval(l.root), l.path, val)

    def unknown_effect(self, why):
        """code with unknown effects, which may also end abnormally"""
        self.havoc(why)
        self.assume(top(why, 'b'))

    def havoc(self, why):
        """a write to an unknown place"""
        for r in list(self.st.mem):
            if r[0] != 'famroot':
                v = self.st.mem[r]
                self.st.mem[r] = top(why, v.sort)

    def live_ptr(self, p, cx):
        """drop the alternatives of a pointer value that cannot arise here"""
        if p.op != 'ite':
            return p
        c, a, b = p.args
        ca, cb = cx.extend(c), cx.extend(lnot(c))
        if ca.refuted():
            return self.live_ptr(b, cb)
        if cb.refuted():
            return self.live_ptr(a, ca)
        return ite(c, self.live_ptr(a, ca), self.live_ptr(b, cb))

    def lv_of_ptr(self, p, pointee):
        """place a pointer value points to"""
        if p.op == 'ptr':
            return LV(p.args[0], p.args[1])
        if p.op == 'ite':
            p = self.live_ptr(p, self.ctx())
        if p.op == 'ite':
            return LVIte(p.args[0], self.lv_of_ptr(p.args[1], pointee), self.lv_of_ptr(p.args[2], pointee))
        if p.op == 'top':
            return LVTop(p.args[0])
        if p.op == 'null':
            return LVTop('null dereference')
        if p.op == 'app' and p.args[0] == 'kvptr':
            m = p.args[1]
            lm = LV(*m.args) if m.op == 'ptr' else LV(('deref', m))
            return LVKV(lm.f(('k', p.args[2], p.args[3])), p.args[2], p.args[3], p.args[4])
        # arbitrary pointer
        root = ('deref', p)
        if root not in self.st.mem:
            t = strip(pointee)
            k = kind(t)
            name = '*' + show(p)
            if not p.fv or all(v.op == 'sym' for v in p.fv):
                v = self.opts.get('deref', {}).get(p)
                self.st.mem[root] = v if v is not None else self.sym_object(p, t)
            else:
                self.st.mem[root] = self.sym_object(p, t)
            self.root_init[root] = self.st.mem[root]
        return LV(root)

    def sym_object(self, p, t):
        k = kind(t)
        s = ty.SORT[k[0]]
        base = _mk('app', ('deref', p), s)
        if k[0] in ('cls', 'pair'):
            return self.expand(base, t)
        return base

    def ptr_of(self, l):
        if isinstance(l, LV):
            if l.root[0] == 'deref' and not l.path:
                return l.root[1]
            return ptr(l.root, l.path)
        if isinstance(l, LVIte):
            return ite(l.c, self.ptr_of(l.a), self.ptr_of(l.b))
        if isinstance(l, LVTop):
            return top(l.why, 'P')
        return top('address of map entry', 'P')

    def temp(self, v):
        r = self.fresh_root('t')
        self.st.mem[r] = v
        return LV(r)

    def new_root(self, n, v):
        """heap object, named by allocation site, call chain and iteration"""
        key = (n.id, tuple(s[1].id for s in self.stack if s[1] is not None), tuple(self.iters))
        if self.loopstack:
            root = ('fam', key) + tuple(t for t, N in self.loopstack)
        else:
            root = ('h', key)
        self.st.mem[root] = v
        return root

    def quiet(self, f):
        """evaluate without recording"""
        self.dry += 1
        n = len(self.exits)
        try:
            return f()
        finally:
            self.dry -= 1
            del self.exits[n:]

    # ------------------------------------------------------------ merging
    def merge2(self, base_pc, c, s1, s2):
        """c true -> s1"""
        if s1 is s2:
            return s1
        mem = {}
        for r, v in s1.mem.items():
            w = s2.mem.get(r)
            if w is None:
                if r[0] == 'dead':
                    mem[r] = ite(c, v, FALSE)
                else:
                    mem[r] = v
            elif w is v:
                mem[r] = v
            else:
                mem[r] = ite(c, v, w)
        for r, w in s2.mem.items():
            if r not in s1.mem:
                mem[r] = ite(c, FALSE, w) if r[0] == 'dead' else w
        n = len(base_pc)
        e1 = tuple(x for x in s1.pc[n:] if x is not c)
        nc = lnot(c)
        e2 = tuple(x for x in s2.pc[n:] if x is not nc)
        pc = base_pc
        if e1 or e2:
            x = ite(c, land(*e1), land(*e2))
            if x is not TRUE:
                pc = pc + (x,)
        return State(mem, pc)

    def comb(self, c, a, b):
        if a is b:
            return a
        if a is None or b is None:
            return a if b is None else b
        if isinstance(a, T) and isinstance(b, T):
            return ite(c, a, b)
        if isinstance(a, LV) and isinstance(b, LV) and a.root == b.root and a.path == b.path:
            return a
        if isinstance(a, T):
            a = self.temp(a)
        if isinstance(b, T):
            b = self.temp(b)
        return LVIte(c, a, b)

    def branch(self, c, f1, f2):
        c = self.simp(c)
        if c is TRUE:
            return f1()
        if c is FALSE:
            return f2()
        base = self.st
        s1 = base.fork(c)
        s2 = base.fork(lnot(c))
        r1 = r2 = None
        d1 = d2 = False
        self.st = s1
        try:
            if self.ctx().dead:
                raise Dead()
            r1 = f1()
            s1 = self.st
        except Dead:
            d1 = True
        self.st = s2
        try:
            if self.ctx().dead:
                raise Dead()
            r2 = f2()
            s2 = self.st
        except Dead:
            d2 = True
        if d1 and d2:
            raise Dead()
        if d1:
            self.st = s2
            return r2
        if d2:
            self.st = s1
            return r1
        self.st = self.merge2(base.pc, c, s1, s2)
        return self.comb(c, r1, r2)

    # ------------------------------------------------------------ statements
    def ex(self, n):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('step budget')
        k = n.k
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n)
        self.any(n)

    def s_CompoundStmt(self, n):
        for c in n.ch:
            self.ex(c)

    def s_NullStmt(self, n):
        pass

    def s_Null(self, n):
        pass

    def s_DeclStmt(self, n):
        for c in n.ch:
            if c.k == 'VarDecl':
                self.decl(c)

    def decl(self, d):
        init = d.ch[0] if d.ch and d.a.get('init') else None
        if ty.isref(d.t):
            self.fr.env[d.id] = self.lv(init)
            return
        root = ('v', d.id, self.fr.id) if d.a.get('storageClass') != 'static' else ('v', d.id, 0)
        if '_ptr<' in d.t or 'auto_ptr' in d.t:
            self.smart.add(d.id)
        l = LV(root)
        self.fr.env[d.id] = l
        if d.a.get('storageClass') == 'static' and root in self.st.mem:
            return
        if init is None:
            k = kind(d.t)
            self.st.mem[root] = self.uninit(d.t, d.a.get('name', ''))
        else:
            self.init_into(l, d.t, init)

    def init_into(self, l, t, e):
        """initialise place l of type t from expression e"""
        x = self.peel(e)
        if x.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and kind(x.t)[0] == 'cls' and self.class_of(x.t) is not None \
                and strip(x.t) == strip(t):
            self.construct(x, l)
            return
        v = self.ev(e)
        v = self.coerce(v, t)
        self.write(l, v)

    def peel(self, e):
        while e.k in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ParenExpr', 'ConstantExpr') or \
                (e.k in ('ImplicitCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr') and e.a.get('castKind') in ('NoOp', 'ConstructorConversion')
                 and len(e.ch) == 1 and strip(e.ch[0].t) == strip(e.t)):
            e = e.ch[0]
        return e

    def coerce(self, v, t):
        if not isinstance(v, T):
            v = self.read(v)
        s = ty.sort(t)
        if v.sort == 'b' and s in ('i', 'r'):
            return tm.tonum(v)
        return v

    def s_IfStmt(self, n):
        ch = [c for c in n.ch]
        i = 0
        if n.a.get('hasInit'):
            self.ex(ch[i])
            i += 1
        if n.a.get('hasVar'):
            self.ex(ch[i])
            i += 1
        c = self.cond(ch[i])
        then = ch[i + 1]
        els = ch[i + 2] if len(ch) > i + 2 else None
        self.branch(c, lambda: self.ex(then), lambda: self.ex(els) if els is not None else None)

    def cond(self, n):
        v = self.ev(n)
        if v.sort != 'b':
            v = self.tobool(v)
        return v

    def tobool(self, v):
        if v.op == 'top':
            return top(v.args[0], 'b')
        if v.sort == 'b':
            return v
        if isnum(v):
            return ne(v, ZERO)
        if v.sort == 'P':
            return ne(v, NULL)
        return top('condition', 'b')

    def s_ReturnStmt(self, n):
        f = self.fr
        v = None
        if n.ch:
            e = n.ch[0]
            if f.func is not None and ty.isref(self.ret_type(f.func)):
                v = self.lv(e)
            else:
                x = self.peel(e)
                if x.k == 'CXXConstructExpr' and self.class_of(x.t) is not None:
                    r = self.retroot(f)
                    self.construct(x, LV(r), elide=True)
                    v = self.read(LV(r))
                else:
                    v = self.ev(e)
        f.rets.append((self.st, v))
        raise Dead()

    def retroot(self, f):
        return ('ret', f.id)

    def ret_type(self, f):
        s = f.node.t or f.sig if hasattr(f, 'node') else ''
        # "T (args) const"
        s = f.node.t
        if ' -> ' in s:
            return s.split(' -> ')[-1]
        d = 0
        for i in range(len(s)):
            if s[i] == '<':
                d += 1
            elif s[i] == '>':
                d -= 1
            elif s[i] == '(' and d == 0:
                return s[:i].strip()
        return s

    def s_BreakStmt(self, n):
        self.fr.loops[-1].breaks.append(self.st)
        raise Dead()

    def s_ContinueStmt(self, n):
        self.fr.loops[-1].conts.append(self.st)
        raise Dead()

    def s_SwitchStmt(self, n):
        # case list with fallthrough only between adjacent labels
        ch = n.ch
        v = self.ev(ch[-2]) if len(ch) >= 2 else None
        body = ch[-1]
        groups = []   # (labels or None, stmts)

        def add(s):
            labels = []
            x = s
            while x.k in ('CaseStmt', 'DefaultStmt'):
                if x.k == 'CaseStmt':
                    labels.append(x.ch[0])
                    x = x.ch[-1]
                else:
                    labels.append(None)
                    x = x.ch[-1]
            groups.append((labels, [x]))
        for s in body.ch:
            if s.k in ('CaseStmt', 'DefaultStmt'):
                add(s)
            elif groups:
                groups[-1][1].append(s)
        lc = LoopCtl()
        self.fr.loops.append(lc)
        allc = []
        base = self.st
        outs = []
        for gi, (labels, ss) in enumerate(groups):
            cs = [eq(v, self.ev(l)) for l in labels if l is not None]
            c = lor(*cs)
            allc.append((c, any(l is None for l in labels), gi))
        nodef = lnot(lor(*[c for c, d, g in allc]))
        ends = []
        for c, d, gi in allc:
            cc = lor(c, nodef) if d else c
            self.st = base.fork(cc)
            try:
                if self.ctx().dead:
                    raise Dead()
                for labels, ss in groups[gi:]:
                    for s in ss:
                        self.ex(s)
                ends.append(self.st)
            except Dead:
                pass
        if not any(d for c, d, g in allc):
            ends.append(base.fork(nodef))
        self.fr.loops.pop()
        self.join(base.pc, ends + lc.breaks)

    def join(self, base_pc, states, vals=None, extra=None):
        """merge disjoint states forked from base_pc; sets self.st; returns the merged value"""
        if not states:
            raise Dead()
        n = len(base_pc)
        if len(states) == 1:
            self.st = states[0]
            return vals[0] if vals else None
        rel = [land(*s.pc[n:]) for s in states]
        ctx = self.ctx_of(base_pc)
        conds = []
        for i, r in enumerate(rel[:-1]):
            c = ctx.simp_bool(r)
            conds.append(c)
            ctx = ctx.extend(lnot(c))
        acc = states[-1]
        val = vals[-1] if vals else None
        mem = dict(acc.mem)
        self.st = State(mem, base_pc)
        for i in range(len(states) - 2, -1, -1):
            c = conds[i]
            s = states[i]
            for r, v in s.mem.items():
                w = mem.get(r)
                if w is None:
                    mem[r] = ite(c, v, FALSE) if r[0] == 'dead' else v
                elif w is not v:
                    mem[r] = ite(c, v, w)
            for r in list(mem):
                if r[0] == 'dead' and r not in s.mem:
                    mem[r] = ite(c, FALSE, mem[r])
            if vals:
                val = self.comb(c, vals[i], val)
        return val

    def after_join(self, exits):
        """alive condition after a join: none of the abnormal exits since"""
        n = len(self.st.pc)
        for e in exits:
            c = lnot(land(*e.pc[n:]))
            c = self.simp(c)
            if c is not TRUE:
                self.st.pc = self.st.pc + (c,)

    # ------------------------------------------------------------ loops
    def s_ForStmt(self, n):
        init, var, cond, inc, body = n.ch
        self.ex(init)
        self.loop(n, (lambda: self.cond(cond)) if cond.k != 'Null' else (lambda: TRUE),
                  lambda: self.ex(body), (lambda: self.any(inc)) if inc.k != 'Null' else (lambda: None))

    def s_WhileStmt(self, n):
        cond, body = n.ch[-2], n.ch[-1]
        self.loop(n, lambda: self.cond(cond), lambda: self.ex(body), lambda: None)

    def s_DoStmt(self, n):
        body, cond = n.ch
        first = [True]
        # body once, then while
        lc = LoopCtl()
        self.fr.loops.append(lc)
        base = self.st.pc
        mark = len(self.exits)
        end = None
        try:
            self.ex(body)
            end = self.st
        except Dead:
            pass
        self.fr.loops.pop()
        states = ([end] if end is not None else []) + lc.conts
        if states:
            if len(states) > 1:
                self.join(base, states)
            else:
                self.st = states[0]
            try:
                self.loop(n, lambda: self.cond(cond), lambda: self.ex(body), lambda: None)
                end = self.st
            except Dead:
                end = None
        else:
            end = None
        fin = ([end] if end is not None else []) + lc.breaks
        self.join(base, fin)

    def s_CXXForRangeStmt(self, n):
        rng = n.ch[1].ch[0]
        lvar = n.ch[6].ch[0] if len(n.ch) > 6 else n.ch[-2].ch[0]
        body = n.ch[-1]
        cont = rng.ch[0]
        # the first child may be the (absent) init statement
        if n.ch[0].k != 'Null':
            self.ex(n.ch[0])
        l = self.lv(cont)
        k = kind(rng.t)
        if k[0] not in ('map', 'set', 'vec', 's'):
            k = kind(cont.t)
        if k[0] in ('map', 'set'):
            self.range_map(n, l, k, lvar, body)
            return
        v0 = self.read(l)
        idx = self.fresh_root('v')
        self.st.mem[idx] = ZERO
        es = 'i' if k[0] == 's' else ty.sort(k[1] if k[0] == 'vec' else lvar.t)

        def cond():
            v = self.read(l)
            ln = slen(v) if v.sort == 's' else vlen(v)
            return lt(self.st.mem[idx], ln)

        def bd():
            i = self.st.mem[idx]
            el = l.f(('i', i, es)) if isinstance(l, LV) else (LVIte(l.c, l.a.f(('i', i, es)), l.b.f(('i', i, es))) if isinstance(l, LVIte) else LVTop('range'))
            self.bind(lvar, el)
            self.ex(body)

        def inc():
            self.st.mem[idx] = add(self.st.mem[idx], ONE)
        self.loop(n, cond, bd, inc)
        self.st.mem.pop(idx, None)

    def bind(self, d, l):
        if ty.isref(d.t):
            self.fr.env[d.id] = l
        else:
            root = ('v', d.id, self.fr.id)
            self.fr.env[d.id] = LV(root)
            v = self.read(l)
            if self.class_of(d.t) is not None:
                v = self.copy_object(d.t, l, d)
            self.st.mem[root] = v

    def copy_object(self, t, l, node):
        """copy construction of a project class"""
        cls = strip(t)
        f = self.find_ctor(cls, copy=True)
        v = self.read(l)
        if f is None or f.body is None:
            return v
        tmp = LV(self.fresh_root('t'))
        self.write(tmp, self.uninit(t))
        self.call(f, tmp, [l], node)
        return self.read(tmp)

    def find_ctor(self, cls, copy=False):
        for f in self.prog.by_qname.get(cls + '::' + cls.split('::')[-1].split('<')[0], []):
            if len(f.params) == 1 and strip(f.params[0].t) == cls and ty.isref(f.params[0].t) and not ty.isrref(f.params[0].t):
                return f
        return None

    def range_map(self, n, l, k, lvar, body):
        v = self.read(l)
        items = self.lib.map_keys(v, self.ctx())
        if items is None:
            items = self.lib.opaque_keys(self, v, k)
            if items is None:
                self.notes.append((loc(n), 'iteration over a map of unknown content'))
                self.unknown_effect('iteration over a map of unknown content')
                return
        lc = LoopCtl()
        self.fr.loops.append(lc)
        base = self.st.pc
        pend = []
        mark = len(self.exits)
        dead = False
        il = len(self.iters)
        try:
            for kn, key in enumerate(items):
                self.iters[il:] = [kn]
                lc.conts = []
                b0 = self.st.pc
                ok = True
                try:
                    if k[0] == 'map':
                        vs = ty.sort(k[2])
                        el = LVKV(l.f(('k', key, vs)), key, vs, key.sort)
                        if not ty.isref(lvar.t):
                            el = self.temp(self.read(el))
                    else:
                        el = self.temp(key)
                    self.bind(lvar, el)
                    self.ex(body)
                except Dead:
                    ok = False
                sts = ([self.st] if ok else []) + lc.conts
                self.join(b0, sts)
        except Dead:
            dead = True
        del self.iters[il:]
        self.fr.loops.pop()
        self.join(base, ([] if dead else [self.st]) + lc.breaks)

    # ---- generic loop
    def loop(self, n, cond, body, inc):
        if self.unroll:
            r = self.try_unroll(n, cond, body, inc)
            if r:
                return
        from .loops import summarise, SplitOn
        keep, env0 = self.st.fork(), dict(self.fr.env)
        marks = (len(self.exits), len(self.fr.rets), len(self.events))
        try:
            summarise(self, n, cond, body, inc)
        except SplitOn as x:
            if self.splits >= 3:
                raise Unsupported('loop with a step chosen by several conditions')
            self.st = keep
            self.fr.env = env0
            del self.exits[marks[0]:]
            del self.fr.rets[marks[1]:]
            del self.events[marks[2]:]
            self.splits += 1
            try:
                self.branch(x.cond, lambda: self.loop(n, cond, body, inc), lambda: self.loop(n, cond, body, inc))
            finally:
                self.splits -= 1

    def try_unroll(self, n, cond, body, inc):
        """constant trip count"""
        st0 = self.st
        save = st0.fork()
        marks = (len(self.exits), len(self.fr.rets), len(self.events), self.uid)
        env0 = dict(self.fr.env)
        nl = len(self.fr.loops)
        sl = len(self.loopstack)
        outs = []
        base = st0.pc
        finished = False
        il = len(self.iters)
        try:
            for it in range(self.unroll + 1):
                self.iters[il:] = [it]
                c = self.simp(cond())
                if c is FALSE:
                    outs.append(self.st)
                    finished = True
                    break
                if c is TRUE and it == self.unroll and self.recurrent(prev, base, cond, body, inc):
                    # the loop goes on for ever from here: nothing gets behind it this way
                    finished = True
                    break
                if c is not TRUE or it == self.unroll:
                    raise Rollback()
                prev = self.st.fork()
                lc = LoopCtl()
                self.fr.loops.append(lc)
                ok = True
                try:
                    body()
                except Dead:
                    ok = False
                self.fr.loops.pop()
                if lc.breaks and (ok or lc.conts):
                    # conditional break: only unroll when the remaining trip count is still constant
                    outs += lc.breaks
                else:
                    outs += lc.breaks
                nxt = ([self.st] if ok else []) + lc.conts
                if not nxt:
                    finished = True
                    break
                b0 = base
                self.join_keep(base, nxt)
                inc()
            if not finished:
                raise Rollback()
        except Rollback:
            self.st = save
            del self.exits[marks[0]:]
            del self.fr.rets[marks[1]:]
            del self.events[marks[2]:]
            self.fr.env = env0
            del self.fr.loops[nl:]
            del self.loopstack[sl:]
            return False
        except Dead:
            # inside cond/inc
            del self.fr.loops[nl:]
            if not outs:
                raise
        finally:
            del self.iters[il:]
        self.join_keep(base, outs)
        return True

    def recurrent(self, prev, base, cond, body, inc):
        """one iteration from an arbitrary value of everything that changed in the last iteration comes back to the head without changing
        anything else: then every further iteration does"""
        keep, env0 = self.st, dict(self.fr.env)
        marks = (len(self.exits), len(self.fr.rets), len(self.events))
        nl, sl = len(self.fr.loops), len(self.loopstack)
        if keep.pc != base or prev.pc != base:
            return False
        changed = set()
        for r, v in keep.mem.items():
            if r in prev.mem:
                diff(prev.mem[r], v, (r,), changed)
        ok = False
        unroll, self.unroll = self.unroll, 0
        try:
            for _ in range(3):
                head = State({r: havoc(v, (r,), changed) for r, v in keep.mem.items()}, base)
                self.st = head.fork()
                lc = LoopCtl()
                self.fr.loops.append(lc)
                try:
                    if self.simp(cond()) is not TRUE:
                        break
                    body()
                    inc()
                except Dead:
                    if not (lc.conts and len(lc.conts) == 1):
                        break
                    self.st = lc.conts.pop()
                    inc()
                if lc.breaks or lc.conts or self.st.pc != base or (len(self.exits), len(self.fr.rets)) != marks[:2]:
                    break
                if any(x.kind.startswith('oblig:') for x in self.events[marks[2]:]):
                    break
                more = set()
                for r, v in self.st.mem.items():
                    if r in head.mem:
                        diff(head.mem[r], v, (r,), more)
                if more <= changed:
                    ok = True
                    break
                changed |= more
                del self.fr.loops[nl:]
        except Dead:
            pass
        finally:
            self.unroll = unroll
            self.st = keep
            del self.exits[marks[0]:]
            del self.fr.rets[marks[1]:]
            del self.events[marks[2]:]
            self.fr.env = env0
            del self.fr.loops[nl:]
            del self.loopstack[sl:]
        return ok

    def join_keep(self, base, states):
        """join where the alive condition stays explicit"""
        if not states:
            raise Dead()
        if len(states) == 1:
            self.st = states[0]
            return
        n = len(base)
        rel = lor(*[land(*s.pc[n:]) for s in states])
        self.join(base, states)
        rel = self.simp(rel)
        if rel is not TRUE:
            self.st.pc = self.st.pc + (rel,)

    # ------------------------------------------------------------ try / throw
    def s_CXXTryStmt(self, n):
        body = n.ch[0]
        base = self.st.pc
        mark = len(self.exits)
        outs = []
        try:
            self.ex(body)
            outs.append(self.st)
        except Dead:
            pass
        caught = [e for e in self.exits[mark:] if e.kind == 'throw']
        rest = [e for e in self.exits[mark:] if e.kind != 'throw']
        if caught:
            h = n.ch[1]
            self.exits[mark:] = rest
            c = lor(*[land(*e.pc[len(base):]) for e in caught])
            st = State(dict(outs[0].mem) if outs else {}, base)
            self.notes.append((loc(n), 'exception handler'))
            for r in st.mem:
                pass
            self.st = State({r: top('state at handler', v.sort) for r, v in st.mem.items()}, base + (c,))
            try:
                self.ex(h.ch[-1])
                outs.append(self.st)
            except Dead:
                pass
        self.join_keep(base, outs)

    def e_CXXThrowExpr(self, n):
        info = None
        if n.ch:
            x = n.ch[0]
            info = strip(x.t)
        self.exit('throw', n, info)

    # ------------------------------------------------------------ expressions
    def any(self, n):
        """evaluate for effects"""
        if n.a.get('valueCategory') in ('lvalue', 'xvalue'):
            return self.lv(n)
        return self.ev(n)

    def ev(self, n):
        """value of an expression"""
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('step budget')
        m = getattr(self, 'e_' + n.k, None)
        if m is None:
            if n.a.get('valueCategory') in ('lvalue', 'xvalue'):
                m2 = getattr(self, 'l_' + n.k, None)
                if m2 is not None:
                    return self.read(m2(n))
            for c in n.ch:
                if c.k.endswith('Expr') or c.k.endswith('Operator') or c.k.endswith('Literal'):
                    self.any(c)
            return top('expression %s at %s' % (n.k, loc(n)), ty.sort(n.t) if n.t else 'o')
        r = m(n)
        if r is None:
            return _mk('sym', ('void',), 'o')
        if not isinstance(r, T):
            r = self.read(r)
        return r

    def lv(self, n):
        """place of an expression (prvalues get a temporary)"""
        if n.a.get('valueCategory') in ('lvalue', 'xvalue'):
            m = getattr(self, 'l_' + n.k, None)
            if m is not None:
                r = m(n)
                if isinstance(r, T):
                    return self.temp(r)
                return r
        v = self.ev(n)
        return self.temp(v)

    def val(self, n):
        """value of any expression (reads glvalues)"""
        if n.a.get('valueCategory') in ('lvalue', 'xvalue'):
            return self.read(self.lv(n))
        return self.ev(n)

    # literals
    def e_IntegerLiteral(self, n):
        return C(int(n.a['value']))

    def e_CharacterLiteral(self, n):
        return C(int(n.a['value']))

    def e_FloatingLiteral(self, n):
        return C(Q(n.a['value']))

    def e_CXXBoolLiteralExpr(self, n):
        return Bc(n.a['value'])

    def e_CXXNullPtrLiteralExpr(self, n):
        return NULL

    def e_GNUNullExpr(self, n):
        return NULL

    def e_StringLiteral(self, n):
        return S(unquote(n.a['value']))

    def l_StringLiteral(self, n):
        return S(unquote(n.a['value']))

    def e_CXXThisExpr(self, n):
        t = self.fr.this
        return self.ptr_of(t) if t is not None else top('this', 'P')

    def e_UnaryExprOrTypeTraitExpr(self, n):
        return top('sizeof', 'i')

    def l_DeclRefExpr(self, n):
        rd = n.a['referencedDecl']
        did = (n.id[0], rd['id'])
        if did in self.fr.env:
            return self.fr.env[did]
        if rd['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            f = self.prog.func_of_decl(did)
            return _mk('fun', ((f.qname if f is not None else rd.get('name')), (f.mangled if f is not None else None)), 'f')
        if rd['kind'] == 'EnumConstantDecl':
            return sym(('enum', rd.get('name')), 'i')
        # namespace-level variable
        nm = rd.get('name')
        d = self.prog.vars.get(did)
        if d is not None:
            root = ('g', nm, ty.sort(d.t))
            if root not in self.st.mem:
                self.root_init[root] = None
                if d.ch and d.a.get('init'):
                    const = 'const ' in (d.a.get('qt', '') or d.t) or d.a.get('constexpr')
                    if const:
                        self.st.mem[root] = self.ev(d.ch[0])
                    else:
                        self.st.mem[root] = sym(('global', nm), ty.sort(d.t))
                else:
                    self.st.mem[root] = sym(('global', nm), ty.sort(d.t))
                self.root_init[root] = self.st.mem[root]
            return LV(root)
        if nm == 'npos':
            return MONE
        t = (rd.get('type') or {})
        tt = t.get('desugaredQualType') or t.get('qualType') or ''
        if nm in ('cout', 'cerr', 'clog'):
            root = ('g', nm, 's')
            self.st.mem.setdefault(root, EMPTY)
            self.root_init[root] = EMPTY
            return LV(root)
        if rd['kind'] == 'ParmVarDecl' or rd['kind'] == 'VarDecl':
            # static member / unknown
            if rd['kind'] == 'VarDecl':
                return LV(('g', nm, ty.sort(tt) if tt else 'o'))
        return LVTop('reference to ' + str(nm))

    def e_DeclRefExpr(self, n):
        r = self.l_DeclRefExpr(n)
        return r if isinstance(r, T) else self.read(r)

    # wrappers
    def _first(self, n):
        return n.ch[0]

    def e_ExprWithCleanups(self, n):
        return self.ev(n.ch[0]) if n.a.get('valueCategory') == 'prvalue' else self.read(self.lv(n.ch[0]))

    def l_ExprWithCleanups(self, n):
        return self.lv(n.ch[0])

    e_ParenExpr = e_ExprWithCleanups
    l_ParenExpr = l_ExprWithCleanups
    e_CXXBindTemporaryExpr = e_ExprWithCleanups
    l_CXXBindTemporaryExpr = l_ExprWithCleanups
    e_ConstantExpr = e_ExprWithCleanups
    l_ConstantExpr = l_ExprWithCleanups
    e_SubstNonTypeTemplateParmExpr = e_ExprWithCleanups

    def l_MaterializeTemporaryExpr(self, n):
        if n.ch[0].a.get('valueCategory') == 'prvalue':
            x = self.peel(n.ch[0])
            if x.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and self.class_of(x.t) is not None:
                l = LV(self.fresh_root('t'))
                self.construct(x, l)
                return l
            return self.temp(self.ev(n.ch[0]))
        return self.lv(n.ch[0])

    def e_MaterializeTemporaryExpr(self, n):
        return self.ev(n.ch[0])

    def e_CXXDefaultArgExpr(self, n):
        if n.ch:
            return self.ev(n.ch[0])
        return top('default argument', ty.sort(n.t))

    def e_CXXDefaultInitExpr(self, n):
        if n.ch:
            return self.ev(n.ch[0])
        return top('default init', ty.sort(n.t))

    def e_ImplicitValueInitExpr(self, n):
        return self.default(n.t)

    def e_CXXScalarValueInitExpr(self, n):
        return self.default(n.t)

    # casts
    def cast(self, n):
        ck = n.a.get('castKind')
        c = n.ch[0]
        if ck == 'LValueToRValue':
            l = self.lv(c)
            v = self.read(l)
            if isinstance(l, LV):
                self.check_live(l, n)
            return v
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr',
                  'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast', 'IntegralCast', 'Dynamic', 'AtomicToNonAtomic'):
            v = self.val(c)
            if ck == 'IntegralCast' and v.sort == 'b':
                return tm.tonum(v)
            if ck == 'IntegralCast' and strip(n.t) == 'bool':
                return self.tobool(v)
            if ck == 'IntegralCast' and v.op == 'c' and v.args[0] < 0 and ty.unsigned(n.t):
                w = ty.unsigned(n.t)
                if v.args[0] == -1:
                    # the largest value of the type; std::string::npos stays -1
                    return sym(('limit', 'max', w), 'i')
            return v
        if ck == 'ArrayToPointerDecay':
            x = self.peel(c)
            if x.k == 'StringLiteral':
                return S(unquote(x.a['value']))
            l = self.lv(c)
            if isinstance(l, LV):
                k = kind(c.t)
                return ptr(l.root, l.path + (('i', ZERO, ty.sort(k[1]) if k[0] == 'vec' else 'i'),))
            return top('array decay', 'P')
        if ck in ('IntegralToFloating', 'FloatingCast'):
            return tm.tonum(self.val(c))
        if ck == 'FloatingToIntegral':
            return app('trunc', 'i', self.val(c))
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return self.tobool(self.val(c))
        if ck == 'NullToPointer':
            self.val(c)
            return NULL
        if ck == 'ToVoid':
            self.any(c)
            return None
        v = self.val(c)
        return top('cast ' + str(ck), ty.sort(n.t))

    def e_ImplicitCastExpr(self, n):
        return self.cast(n)

    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_CXXDynamicCastExpr = e_ImplicitCastExpr

    def l_ImplicitCastExpr(self, n):
        if n.a.get('castKind') in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast'):
            return self.lv(n.ch[0])
        return self.cast(n)

    l_CStyleCastExpr = l_CXXStaticCastExpr = l_CXXFunctionalCastExpr = l_CXXConstCastExpr = l_ImplicitCastExpr

    def check_live(self, l, n):
        d = self.st.mem.get(('dead', l.root))
        if d is not None:
            self.require(lnot(d), 'live', n, 'use of released storage')

    # operators
    def e_UnaryOperator(self, n):
        op = n.a['opcode']
        if op in ('++', '--'):
            l = self.lv(n.ch[0])
            old = self.read(l)
            self.write(l, self.ptradd(old, ONE if op == '++' else MONE, n) if old.sort == 'P' else add(old, ONE if op == '++' else MONE))
            return old if n.a.get('isPostfix') else self.read(l)
        if op == '-':
            return tm.neg(self.val(n.ch[0]))
        if op == '+':
            return self.val(n.ch[0])
        if op == '!':
            return lnot(self.tobool(self.val(n.ch[0])))
        if op == '&':
            if kind(n.ch[0].t)[0] == 'fun':
                return self.val(n.ch[0])
            l = self.lv(n.ch[0])
            if isinstance(l, T):
                return l
            return self.ptr_of(l)
        if op == '*':
            return self.read(self.l_UnaryOperator(n))
        return top('unary ' + op, ty.sort(n.t))

    def l_UnaryOperator(self, n):
        op = n.a['opcode']
        if op == '*':
            p = self.val(n.ch[0])
            if p.sort == 'f':
                return p
            l = self.lv_of_ptr(p, n.t)
            self.bounds_of(l, n)
            return l
        if op in ('++', '--'):
            l = self.lv(n.ch[0])
            old = self.read(l)
            self.write(l, self.ptradd(old, ONE if op == '++' else MONE, n) if old.sort == 'P' else add(old, ONE if op == '++' else MONE))
            return l
        return self.temp(self.e_UnaryOperator(n))

    def ptradd(self, p, k, n=None):
        if p.op == 'ptr':
            path = p.args[1]
            if path and path[-1][0] == 'i':
                s = path[-1]
                return ptr(p.args[0], path[:-1] + (('i', add(s[1], k)) + s[2:],))
            return top('pointer arithmetic', 'P')
        if p.op == 'ite':
            return ite(p.args[0], self.ptradd(p.args[1], k, n), self.ptradd(p.args[2], k, n))
        if p.op == 'top':
            return p
        return _mk('app', ('ptradd', p, k), 'P')

    def bounds_of(self, l, n):
        """access obligation for a place reached through an index"""
        if not isinstance(l, LV) or not l.path or l.path[-1][0] != 'i':
            return
        cont = self.read(LV(l.root, l.path[:-1]))
        i = l.path[-1][1]
        ln = slen(cont) if cont.sort == 's' else vlen(cont)
        self.require(land(ge(i, ZERO), lt(i, ln)), 'bounds', n, 'index %s of %s' % (show(i)[:80], show(ln)[:80]))
        self.check_live(l, n)

    def l_ArraySubscriptExpr(self, n):
        p = self.val(n.ch[0])
        i = self.val(n.ch[1])
        if p.sort == 's':
            return self.temp(app('chr', 'i', p, i))
        if p.op == 'null':
            self.require(FALSE, 'bounds', n, 'null array')
            return LVTop('null array')
        q = self.ptradd(p, i, n)
        l = self.lv_of_ptr(q, n.t)
        self.bounds_of(l, n)
        return l

    def e_BinaryOperator(self, n):
        op = n.a['opcode']
        a, b = n.ch
        if op == '=':
            return self.read(self.l_BinaryOperator(n))
        if op == ',':
            self.any(a)
            return self.val(b)
        if op == '&&':
            x = self.tobool(self.val(a))
            return self.branch(x, lambda: self.tobool(self.val(b)), lambda: FALSE)
        if op == '||':
            x = self.tobool(self.val(a))
            return self.branch(x, lambda: TRUE, lambda: self.tobool(self.val(b)))
        x = self.val(a)
        y = self.val(b)
        return self.binop(op, x, y, n)

    def binop(self, op, x, y, n):
        if x.op == 'top' or y.op == 'top':
            w = x if x.op == 'top' else y
            return top(w.args[0], ty.sort(n.t))
        if op in ('==', '!='):
            r = eq(x, y)
            return r if op == '==' else lnot(r)
        if x.sort == 'P' or y.sort == 'P':
            if op == '+':
                return self.ptradd(x, y, n) if x.sort == 'P' else self.ptradd(y, x, n)
            if op == '-' and isnum(y):
                return self.ptradd(x, tm.neg(y), n)
            if op in ('-', '<', '>', '<=', '>='):
                d = self.ptrdiff(x, y)
                if op == '-':
                    return d
                return {'<': lt, '>': gt, '<=': le, '>=': ge}[op](d, ZERO)
        if op == '+':
            return add(x, y)
        if op == '-':
            return sub(x, y)
        if op == '*':
            return mul(x, y)
        if op == '/':
            if ty.sort(n.t) == 'r':
                return rdiv(x, y)
            self.require(ne(y, ZERO), 'div', n, 'division by zero')
            return idiv(x, y)
        if op == '%':
            return imod(x, y)
        if op == '<':
            return lt(x, y)
        if op == '>':
            return gt(x, y)
        if op == '<=':
            return le(x, y)
        if op == '>=':
            return ge(x, y)
        return app('bin' + op, ty.sort(n.t), x, y)

    def ptrdiff(self, x, y):
        if x.op == 'ptr' and y.op == 'ptr' and x.args[0] == y.args[0] and len(x.args[1]) == len(y.args[1]) and x.args[1][:-1] == y.args[1][:-1]:
            return sub(x.args[1][-1][1], y.args[1][-1][1])
        if x.op == 'ite':
            return ite(x.args[0], self.ptrdiff(x.args[1], y), self.ptrdiff(x.args[2], y))
        if y.op == 'ite':
            return ite(y.args[0], self.ptrdiff(x, y.args[1]), self.ptrdiff(x, y.args[2]))
        return top('pointer difference', 'i')

    def l_BinaryOperator(self, n):
        op = n.a['opcode']
        a, b = n.ch
        if op == '=':
            v = self.coerce(self.val(b), a.t)
            l = self.lv(a)
            self.write(l, v)
            if isinstance(l, LV):
                self.check_live(l, n)
            return l
        if op == ',':
            self.any(a)
            return self.lv(b)
        return self.temp(self.e_BinaryOperator(n))

    def l_CompoundAssignOperator(self, n):
        op = n.a['opcode'][:-1]
        a, b = n.ch
        y = self.val(b)
        l = self.lv(a)
        x = self.read(l)
        crt = (n.a.get('computeResultType') or {}).get('qualType', n.t)
        if op == '/' and ty.sort(crt) == 'r':
            v = rdiv(x, y)
        else:
            v = self.binop(op, x, y, n)
        if ty.sort(n.t) == 'i' and v.sort == 'r' and v.op != 'top':
            v = app('trunc', 'i', v)
        if ty.sort(n.t) == 'b':
            v = self.tobool(v)
        self.write(l, v)
        return l

    def e_CompoundAssignOperator(self, n):
        return self.read(self.l_CompoundAssignOperator(n))

    def e_ConditionalOperator(self, n):
        c = self.cond(n.ch[0])
        return self.branch(c, lambda: self.val(n.ch[1]), lambda: self.val(n.ch[2]))

    def l_ConditionalOperator(self, n):
        c = self.cond(n.ch[0])
        return self.branch(c, lambda: self.lv(n.ch[1]), lambda: self.lv(n.ch[2]))

    def l_MemberExpr(self, n):
        name = n.a.get('name')
        base = n.ch[0]
        rid = n.a.get('referencedMemberDecl')
        d = self.prog.ids.get((n.id[0], rid))
        if n.a.get('isArrow'):
            p = self.val(base)
            k = kind(base.t)
            l = self.lv_of_ptr(p, k[1] if k[0] == 'ptr' else base.t)
            bt = k[1] if k[0] == 'ptr' else base.t
        else:
            l = self.lv(base)
            bt = base.t
        return self.field(l, name, n.t, bt, n)

    def owner_of(self, bt, name):
        C = self.prog.classes.get(strip(bt))
        if C is None:
            return strip(bt)
        if any(f.a.get('name') == name for f in C.fields):
            return strip(bt)
        for b in C.bases:
            o = self.owner_of(b, name)
            c2 = self.prog.classes.get(o)
            if c2 is not None and any(f.a.get('name') == name for f in c2.fields):
                return o
        return strip(bt)

    def field(self, l, name, t, bt, n=None):
        if isinstance(l, LVIte):
            return LVIte(l.c, self.field(l.a, name, t, bt), self.field(l.b, name, t, bt))
        if isinstance(l, LVTop):
            return l
        if isinstance(l, LVKV):
            return self.temp(l.key) if name == 'first' else l.lv
        if isinstance(l, T):
            l = self.temp(l)
        if n is not None:
            self.check_live(l, n)
            if l.path and l.path[-1][0] == 'i':
                pass
        return l.f(('f', name, ty.sort(t), self.owner_of(bt, name)))

    def e_MemberExpr(self, n):
        return self.read(self.l_MemberExpr(n))

    # ------------------------------------------------------------ construction
    def e_CXXConstructExpr(self, n):
        k = kind(n.t)
        if k[0] == 'cls' and self.class_of(n.t) is not None:
            l = LV(self.fresh_root('t'))
            self.construct(n, l)
            return self.read(l)
        return self.lib.construct(self, n, k)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def l_CXXConstructExpr(self, n):
        l = LV(self.fresh_root('t'))
        self.write(l, self.e_CXXConstructExpr(n))
        return l

    def ctor_of(self, n, cls):
        qt = clean(n.a.get('ctorType', {}).get('qualType', ''))
        fs = self.prog.by_qname.get(cls + '::' + cls.split('::')[-1].split('<')[0], [])
        m = [f for f in fs if clean(f.sig) == qt]
        if not m:
            m = [f for f in fs if len(f.params) == len(n.ch) and f.kind == 'CXXConstructorDecl']
            if len(m) != 1:
                m = []
        b = [f for f in m if f.body is not None]
        return b[0] if b else (m[0] if m else None)

    def construct(self, n, l, elide=False):
        """run the constructor of a project class on place l"""
        cls = strip(n.t)
        f = self.ctor_of(n, cls)
        args = [c for c in n.ch]
        if f is None:
            # implicit
            if len(args) == 1 and strip(args[0].t) == cls:
                self.write(l, self.val(args[0]))
                return
            if not args:
                self.implicit_default(cls, l, n)
                return
            self.write(l, top('constructor of ' + cls, 'o'))
            return
        single = len(f.params) == 1 and strip(f.params[0].t) == cls and ty.isref(f.params[0].t)
        if single and (n.a.get('elidable') or elide or self.opts.get('elide')) and not self.opts.get('strict_copies'):
            # copy elision
            src = args[0]
            x = self.peel(src)
            if elide and x.a.get('valueCategory') != 'prvalue' and not n.a.get('elidable'):
                pass
            else:
                self.write(l, self.val(src))
                return
        if f.body is None and not f.inits:
            if single:
                self.write(l, self.val(args[0]))
                return
            if not f.params:
                self.implicit_default(cls, l, n)
                return
            self.write(l, top('constructor of %s without body' % cls, 'o'))
            return
        al = self.args(f, args)
        self.write(l, self.uninit(n.t))
        self.call(f, l, al, n)

    def implicit_default(self, cls, l, n):
        fs = self.fields(cls)
        C = self.prog.classes[cls]
        self.write(l, self.uninit(cls))
        self.run_inits(cls, l, None, n)

    def run_inits(self, cls, l, f, n):
        """base and member initialisation in declaration order"""
        C = self.prog.classes[cls]
        inits = {}
        binits = []
        if f is not None:
            for i in f.inits:
                if 'anyInit' in i.a:
                    inits[i.a['anyInit'].get('name')] = i
                elif 'baseInit' in i.a:
                    binits.append(i)
                elif 'delegatingInit' in i.a:
                    self.construct_at(i.ch[0], l, cls)
                    return
        for b in C.bases:
            bn = strip(b)
            bi = [i for i in binits if strip((i.a['baseInit'] or {}).get('desugaredQualType') or (i.a['baseInit'] or {}).get('qualType', '')) == bn]
            if not bi and binits and len(C.bases) == 1:
                bi = binits
            if bi and bi[0].ch:
                self.construct_base(bi[0].ch[0], l, bn)
            elif bn in self.prog.classes:
                fb = [g for g in self.prog.by_qname.get(bn + '::' + bn.split('::')[-1].split('<')[0], []) if not g.params]
                fb = [g for g in fb if g.body is not None] or fb
                if fb and fb[0].body is not None:
                    self.call(fb[0], l, [], n, cls=bn)
                else:
                    self.run_inits(bn, l, None, n)
        for fd in C.fields:
            nm = fd.a.get('name')
            fl = l.f(('f', nm, ty.sort(fd.t), cls))
            i = inits.get(nm)
            if i is not None and i.ch:
                e = i.ch[0]
                if e.k == 'CXXDefaultInitExpr' and not e.ch and fd.ch:
                    e = fd.ch[-1]
                self.init_into(fl, fd.t, e)
            elif fd.a.get('hasInClassInitializer') and fd.ch:
                self.init_into(fl, fd.t, fd.ch[-1])
            elif self.class_of(fd.t) is not None:
                g = [h for h in self.prog.by_qname.get(strip(fd.t) + '::' + strip(fd.t).split('::')[-1].split('<')[0], []) if not h.params]
                g = [h for h in g if h.body is not None] or g
                if g and g[0].body is not None:
                    self.call(g[0], fl, [], n, cls=strip(fd.t))
                else:
                    self.run_inits(strip(fd.t), fl, None, n)

    def construct_base(self, e, l, bn):
        x = self.peel(e)
        if x.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            f = self.ctor_of(x, bn)
            if f is not None and f.body is not None:
                self.call(f, l, self.args(f, x.ch), x, cls=bn)
                return
        self.run_inits(bn, l, None, e)

    def construct_at(self, e, l, cls):
        x = self.peel(e)
        f = self.ctor_of(x, cls)
        if f is not None:
            self.call(f, l, self.args(f, x.ch), x, cls=cls)

    def e_InitListExpr(self, n):
        return self.lib.init_list(self, n)

    def e_CXXStdInitializerListExpr(self, n):
        return self.ev(n.ch[0]) if n.ch[0].a.get('valueCategory') == 'prvalue' else self.read(self.lv(n.ch[0]))

    def e_CXXNewExpr(self, n):
        k = kind(n.t)
        pt = k[1] if k[0] == 'ptr' else 'void'
        if n.a.get('isArray'):
            ln = self.val(n.ch[0])
            # new[] of a negative size throws / is undefined
            self.require(ge(ln, ZERO), 'alloc', n, 'array extent %s' % show(ln)[:80])
            es = ty.sort(pt)
            v = vec(ln, UNINIT)
            if len(n.ch) > 1 and n.ch[1].k in ('InitListExpr', 'ImplicitValueInitExpr'):
                v = vec(ln, fill(self.default(pt)))
            root = self.new_root(n, v)
            self.event('new', n, (root, True))
            return ptr(root, (('i', ZERO, es),))
        root = self.new_root(n, self.uninit(pt))
        self.event('new', n, (root, False))
        if n.ch:
            self.init_into(LV(root), pt, n.ch[0])
        return ptr(root)

    def e_CXXDeleteExpr(self, n):
        p = self.val(n.ch[0])
        self.delete(p, n, bool(n.a.get('isArray')))
        return None

    def delete(self, p, n, isarr):
        if p.op == 'null':
            return
        if p.op == 'ite':
            self.branch(p.args[0], lambda: self.delete(p.args[1], n, isarr), lambda: self.delete(p.args[2], n, isarr))
            return
        if p.op != 'ptr':
            self.event('delete', n, (p, isarr))
            return
        root, path = p.args
        if root[0] in ('h', 'fam'):
            self.event('delete', n, (p, isarr))
            d = self.st.mem.get(('dead', root), FALSE)
            self.require(lnot(d), 'live', n, 'released twice')
            if path and path[-1][0] == 'i':
                self.require(eq(path[-1][1], ZERO), 'live', n, 'released from the middle')
                self.require(Bc(isarr), 'arrayform', n, 'array storage released with delete')
            else:
                self.require(Bc(not isarr), 'arrayform', n, 'single object released with delete[]')
            self.st.mem[('dead', root)] = TRUE
        else:
            self.event('delete', n, (p, isarr))
            self.st.mem[('dead', root)] = TRUE

    # ------------------------------------------------------------ calls
    def args(self, f, nodes):
        """evaluate arguments for the parameters of f"""
        out = []
        for i, p in enumerate(f.params):
            if i < len(nodes) and not (nodes[i].k == 'CXXDefaultArgExpr' and not nodes[i].ch):
                e = nodes[i]
                if ty.isref(p.t):
                    out.append(self.lv(e))
                else:
                    x = self.peel(e)
                    if x.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and self.class_of(x.t) is not None:
                        l = LV(self.fresh_root('t'))
                        self.construct(x, l)
                        out.append(self.read(l))
                    else:
                        out.append(self.coerce(self.val(e), p.t))
            else:
                d = self.default_of(f, i)
                if d is None:
                    out.append(top('missing argument', ty.sort(p.t)))
                else:
                    v = self.val(d)
                    out.append(self.temp(v) if ty.isref(p.t) else v)
        return out

    def default_of(self, f, i):
        cands = [f.node]
        if getattr(f, 'decl', None) is not None:
            cands.insert(0, f.decl)
        for nd in cands:
            ps = [c for c in nd.ch if c.k == 'ParmVarDecl']
            if i < len(ps) and ps[i].ch and ps[i].a.get('init'):
                return ps[i].ch[0]
        return None

    def call(self, f, this, args, node, cls=None, env=None):
        """inline f; this: LV or None; args: list of LV/T.  Returns T / LV / None"""
        m = self.models.get(f.qname) or self.models.get(f.qname + '/%d' % len(f.params))
        if m is not None:
            r = m(self, f, this, args, node)
            if r is not NotImplemented:
                return r
        if f.body is None:
            return self.nobody(f, this, args, node)
        if len(self.stack) > 60 or sum(1 for s in self.stack if s[0] is f) >= 2:
            self.notes.append((loc(node), 'recursion in ' + f.qname))
            return top('recursion', 'o') if not ty.isref(self.ret_type(f)) else LVTop('recursion')
        self.analysed.add(f.qname)
        fr = Frame(f, this, dict(env) if env else None)
        saved = self.fr
        self.stack.append((f, node))
        base = self.st.pc
        fr.base = len(base)
        mark = len(self.exits)
        for p, a in zip(f.params, args):
            if ty.isref(p.t):
                fr.env[p.id] = a if not isinstance(a, T) else self.temp(a)
            else:
                root = ('v', p.id, fr.id)
                self.st.mem[root] = a if isinstance(a, T) else self.read(a)
                fr.env[p.id] = LV(root)
        self.fr = fr
        try:
            try:
                if f.kind == 'CXXConstructorDecl':
                    c = cls or f.cls
                    if c in self.prog.classes:
                        self.run_inits(c, this, f, node)
                self.ex(f.body)
                fr.rets.append((self.st, None))
            except Dead:
                pass
        finally:
            self.fr = saved
            self.stack.pop()
        if not fr.rets:
            raise Dead()
        sts = [s for s, v in fr.rets]
        vals = [v for s, v in fr.rets]
        if len(sts) == 1:
            self.st = sts[0]
            r = vals[0]
        else:
            r = self.join(base, sts, vals)
            self.after_join(self.exits[mark:])
        # locals die
        if not isinstance(r, (LV, LVIte, LVKV)) :
            for k in [k for k in self.st.mem if len(k) == 3 and k[0] in ('v', 't') and k[2] == fr.id]:
                v = self.st.mem.pop(k)
                if isinstance(v, T) and (v.sort != 'P' or k[1] in self.smart):
                    self.own(v)
            self.st.mem.pop(('ret', fr.id), None)
        if isinstance(r, T) and r.sort == 'b' and ty.sort(self.ret_type(f)) in ('i', 'r'):
            r = tm.tonum(r)
        if self.stack and isinstance(r, T) and r.sort == 'o':
            self.own(r)
        return r

    def own(self, v):
        """the heap blocks v refers to belong to an object that is destroyed implicitly"""
        if v.op in ('c', 'sym', 'top') or v.sort in 'irsb':
            return
        for x in subterms(v):
            if x.op == 'ptr':
                self.owned.add(x.args[0])

    def nobody(self, f, this, args, node):
        if f.node.a.get('isImplicit') or f.node.a.get('explicitlyDefaulted'):
            if f.name == 'operator=' and args:
                v = args[0] if isinstance(args[0], T) else self.read(args[0])
                self.write(this, v)
                return this
            if f.kind == 'CXXConstructorDecl' and len(args) == 1:
                self.write(this, self.read(args[0]) if not isinstance(args[0], T) else args[0])
                return None
            if f.kind in ('CXXConstructorDecl', 'CXXDestructorDecl'):
                return None
        self.notes.append((loc(node), 'no body for ' + f.qname))
        self.havoc_args(args)
        return top('no body for ' + f.qname, 'o')

    def havoc_args(self, args):
        for a in args:
            if isinstance(a, (LV, LVIte)):
                v = self.read(a)
                self.write(a, top('modified by unknown function', v.sort))

    def _call_result(self, r, n):
        if r is None:
            return _mk('sym', ('void',), 'o')
        return r

    def callee(self, n):
        c = n
        while c.k in ('ImplicitCastExpr', 'ParenExpr'):
            c = c.ch[0]
        return c

    def e_CallExpr(self, n):
        r = self.do_call(n)
        if isinstance(r, T) or r is None:
            return r
        return self.read(r)

    def l_CallExpr(self, n):
        return self.do_call(n)

    def do_call(self, n):
        c = self.callee(n.ch[0])
        args = n.ch[1:]
        if c.k == 'DeclRefExpr':
            rd = c.a['referencedDecl']
            did = (n.id[0], rd['id'])
            if rd['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                f = self.prog.func_of_decl(did)
                if f is not None:
                    return self.call(f, None, self.args(f, args), n)
                return self.lib.call(self, rd.get('name'), args, n)
        # through a function value
        v = self.val(n.ch[0])
        return self.call_value(v, [self.arg_any(a) for a in args], n)

    def arg_any(self, a):
        return self.lv(a) if a.a.get('valueCategory') in ('lvalue', 'xvalue') else self.ev(a)

    def call_value(self, v, args, n):
        if v.op == 'fun':
            if v.args[0] == 'lambda':
                return self.call_lambda(v, args, n)
            fs = self.prog.funcs.get(v.args[1]) if v.args[1] else None
            if fs is not None:
                return self.call(fs, None, [self.read(a) if not isinstance(a, T) and not ty.isref(p.t) else a for a, p in zip(args, fs.params)], n)
            return self.lib.call_vals(self, v.args[0], [a if isinstance(a, T) else self.read(a) for a in args], n)
        if v.op == 'ite':
            return self.branch(v.args[0], lambda: self.call_value(v.args[1], args, n), lambda: self.call_value(v.args[2], args, n))
        self.unknown_effect('call through unknown function value')
        return top('call through unknown function value', ty.sort(n.t) if n.t else 'o')

    def call_lambda(self, v, args, n):
        node, env, this = self.closures[v.args[1]]
        meth = None
        for c in node.ch[0].ch:
            if c.k == 'CXXMethodDecl' and c.a.get('name') == 'operator()':
                meth = c
        f = self.lambda_func(meth)
        return self.call(f, this, [self.read(a) if not isinstance(a, T) and not ty.isref(p.t) else a for a, p in zip(args, f.params)], n, env=env)

    def lambda_func(self, meth):
        from .frontend import Func
        f = getattr(self, '_lf', {}).get(meth.id)
        if f is None:
            f = Func(meth, None, meth.id[0])
            f.qname = 'lambda@%s' % meth.line
            if not hasattr(self, '_lf'):
                self._lf = {}
            self._lf[meth.id] = f
        return f

    def e_LambdaExpr(self, n):
        self.uid += 1
        key = (n.id, self.uid)
        env = dict(self.fr.env)
        # copy captures: freeze scalar values
        self.closures[key] = (n, env, self.fr.this)
        return _mk('fun', ('lambda', key), 'f')

    def e_CXXMemberCallExpr(self, n):
        r = self.do_member(n)
        if isinstance(r, T) or r is None:
            return r
        return self.read(r)

    def l_CXXMemberCallExpr(self, n):
        return self.do_member(n)

    def do_member(self, n):
        me = self.callee(n.ch[0])
        args = n.ch[1:]
        name = me.a.get('name')
        rid = me.a.get('referencedMemberDecl')
        f = self.prog.func_of_decl((n.id[0], rid)) if rid else None
        base = me.ch[0]
        if me.a.get('isArrow'):
            p = self.val(base)
            k = kind(base.t)
            bt = k[1] if k[0] == 'ptr' else base.t
            l = self.lv_of_ptr(p, bt)
        else:
            l = self.lv(base)
            bt = base.t
        if isinstance(l, LV):
            self.bounds_of(l, n)
        if f is not None:
            return self.invoke(f, l, args, n, bt, qualified=self.is_qualified(me))
        return self.lib.method(self, kind(bt), name, l, args, n)

    def is_qualified(self, me):
        # Base::f() on a virtual function: the object is cast past a class that itself declares the name
        b = me.ch[0]
        if b.k != 'ImplicitCastExpr' or b.a.get('castKind') not in ('UncheckedDerivedToBase', 'DerivedToBase'):
            return False
        to = self.pointee(b.t)
        k = self.pointee(b.ch[0].t)
        name = me.a.get('name')
        while k and k != to:
            C = self.prog.classes.get(k)
            if C is None:
                return False
            if any(g.name == name for g in C.methods):
                return True
            k = strip(C.bases[0]) if len(C.bases) == 1 else None
        return False

    @staticmethod
    def pointee(t):
        k = kind(t)
        return strip(k[1]) if k[0] == 'ptr' else strip(t)

    def invoke(self, f, l, args, n, bt, qualified=False):
        if f.virtual and not qualified:
            return self.virtual_call(f, l, args, n)
        if self.needs_split(l):
            return self.branch(l.c, lambda: self.invoke(f, l.a, args, n, bt, qualified), lambda: self.invoke(f, l.b, args, n, bt, qualified))
        return self.call(f, l, self.args(f, args), n)

    def needs_split(self, l):
        return isinstance(l, LVIte)

    def virtual_call(self, f, l, args, n):
        if isinstance(l, LVIte):
            return self.branch(l.c, lambda: self.virtual_call(f, l.a, args, n), lambda: self.virtual_call(f, l.b, args, n))
        v = self.read(l)
        cls = v.args[0] if v.op == 'struct' else None
        g = None
        if cls is not None:
            g = self.override(cls, f)
        if g is None:
            g = self.opts.get('dispatch', lambda *a: None)(self, f, l, v)
        if g is None:
            if f.body is not None and cls is None:
                self.notes.append((loc(n), 'dynamic type unknown for ' + f.qname))
            elif f.body is None:
                self.notes.append((loc(n), 'dynamic type unknown for ' + f.qname))
                for a in args:
                    self.any(a)
                self.unknown_effect('virtual call on unknown dynamic type')
                return top('virtual call on unknown dynamic type', 'o')
            g = f
        return self.call(g, l, self.args(g, args), n)

    def override(self, cls, f):
        C = self.prog.classes.get(cls)
        if C is None:
            return None
        for g in C.methods:
            if g.name == f.name and len(g.params) == len(f.params) and [strip(p.t) for p in g.params] == [strip(p.t) for p in f.params]:
                gg = self.prog.funcs.get(g.mangled, g)
                return gg
            if f.kind == 'CXXDestructorDecl' and g.kind == 'CXXDestructorDecl':
                return self.prog.funcs.get(g.mangled, g)
        for b in C.bases:
            r = self.override(strip(b), f)
            if r is not None:
                return r
        return None

    def e_CXXOperatorCallExpr(self, n):
        r = self.do_operator(n)
        if isinstance(r, T) or r is None:
            return r
        return self.read(r)

    def l_CXXOperatorCallExpr(self, n):
        return self.do_operator(n)

    def do_operator(self, n):
        c = self.callee(n.ch[0])
        rd = c.a.get('referencedDecl', {})
        f = self.prog.func_of_decl((n.id[0], rd.get('id')))
        args = n.ch[1:]
        if f is not None:
            if f.cls is not None:
                l = self.lv(args[0])
                return self.invoke(f, l, args[1:], n, args[0].t)
            return self.call(f, None, self.args(f, args), n)
        if rd.get('name') == 'operator()' and kind(args[0].t)[0] == 'lam':
            return self.call_value(self.val(args[0]), [self.arg_any(a) for a in args[1:]], n)
        return self.lib.operator(self, rd.get('name'), args, n)

    # ------------------------------------------------------------ entry
    def run(self, f, this=None, args=()):
        """analyse f from the current state; returns (value, alive)"""
        self.steps = 0
        try:
            r = self.call(f, this, list(args), f.node)
            return r, True
        except Dead:
            return None, False

    def fails(self, kinds=('throw', 'exit')):
        """condition under which the run ended abnormally (relative to the base facts)"""
        n = 0
        return lor(*[land(*e.pc) for e in self.exits if e.kind in kinds])


def struct_x(cls, fields):
    """record without collapsing back to the opaque value"""
    return _mk('struct', (cls, tuple(fields)), 'o')


def clean(t):
    from .frontend import clean_type
    return clean_type(t).replace('std::', '').replace('class ', '').replace(' ', '')


def unquote(s):
    if s.startswith('L"') or s.startswith('u"'):
        s = s[1:]
    s = s[1:-1]
    out = []
    i = 0
    m = {'n': '\n', 't': '\t', '\\': '\\', '"': '"', "'": "'", 'r': '\r', '0': '\0', 'a': '\a', 'v': '\v', 'f': '\f', 'b': '\b'}
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s):
            i += 1
            if s[i] in '01234567':
                j = i
                while j < len(s) and j < i + 3 and s[j] in '01234567':
                    j += 1
                out.append(chr(int(s[i:j], 8)))
                i = j
                continue
            if s[i] == 'x':
                j = i + 1
                while j < len(s) and s[j] in '0123456789abcdefABCDEF':
                    j += 1
                out.append(chr(int(s[i + 1:j], 16)))
                i = j
                continue
            out.append(m.get(s[i], s[i]))
        else:
            out.append(s[i])
        i += 1
    return ''.join(out)
