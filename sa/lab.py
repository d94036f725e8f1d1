"""Symbolic objects to analyse member functions on, observed through the
code's own accessors (so a property does not depend on the storage layout)."""
from .terms import *
from .terms import _mk, ptr, NULL, has_top
from .decide import Ctx
from .engine import Engine, Dead, LV, State, Event, loc
from . import types as ty
from .report import Vanished


def pos(*xs):
    return [ge(x, ONE) for x in xs]


class Lab:
    """an analysis session: engine + the check it reports to"""

    def __init__(self, chk, facts=(), models=None, opts=None):
        self.chk = chk
        self.prog = chk.prog
        self.e = Engine(chk.prog, list(facts), models, opts)
        self.runs = {}

    # ------------------------------------------------------------ matrices
    def matrix(self, nm, r, c, s):
        """a matrix of the given dimensions with arbitrary elements"""
        fs = {n: t for n, t, o in self.e.fields(self.chk.cls('Matrix'))}
        if set(fs) != {'rows', 'cols', 'shel', 'elem'} or not fs['elem'].strip().endswith('*'):
            return self.built_matrix(nm, r, c, s)
        root = ('h', nm)
        data = sym(nm + '.data', 'a')
        self.e.st.mem[root] = vec(mul(r, c, s), data)
        vals = {'rows': r, 'cols': c, 'shel': s, 'elem': ptr(root, (('i', ZERO, 'r'),))}
        v = struct('Matrix', tuple((n, vals[n]) for n in (x[0] for x in self.e.fields('Matrix'))))
        l = LV(('o', nm))
        self.e.st.mem[l.root] = v
        return l

    def built_matrix(self, nm, r, c, s):
        """for a storage layout unknown here: the constructor builds the matrix, then its elements become arbitrary"""
        e = self.e
        l = LV(('o', nm))
        e.st.mem[l.root] = e.uninit('Matrix')
        before = set(e.st.mem)
        ct = [f for f in self.chk.funcs('Matrix::Matrix') if len(f.params) == 3 and all(ty.sort(p.t) == 'i' for p in f.params)]
        if not ct:
            raise Vanished('constructor Matrix(int, int, int)')
        n0, v0 = len(e.exits), len(e.events)
        _, ok = self.run(ct[0], l, [r, c, s])
        del e.exits[n0:]
        del e.events[v0:]
        if not ok:
            raise Dead()
        names, n = {}, 0

        def arbitrary(v):
            nonlocal n
            n += 1
            return vec(vlen(v), sym('%s.data%s' % (nm, n if n > 1 else ''), 'a'))

        def walk(v):
            if v.op == 'struct':
                return struct(v.args[0], tuple((k, walk(x)) for k, x in v.args[1]))
            if v.op == 'ptr' and v.args[0] in names:
                return ptr(names[v.args[0]], v.args[1])
            if v.sort == 'v' and v.op != 'top' and vlen(v).op != 'c':
                return arbitrary(v)
            return v
        for root in [x for x in e.st.mem if x not in before and x[0] == 'h']:
            new = ('h', nm + '.' + str(len(names)))
            names[root] = new
            e.st.mem[new] = walk(e.st.mem.pop(root))
        e.st.mem[l.root] = walk(e.st.mem[l.root])
        if not n:
            raise RuntimeError('storage of class Matrix is not understood')
        return l

    def val(self, x):
        """result of a run as a value"""
        return self.e.read(x) if x is not None and not isinstance(x, T) else x

    def place(self, x):
        return x if not isinstance(x, T) else self.e.temp(x)

    def run(self, f, this=None, args=(), total=True):
        self.chk.functions.add(f.qname)
        # objects of repeated calls are different objects
        k = self.runs[f] = self.runs.get(f, -1) + 1
        keep = self.e.iters
        before, n0, v0 = self.e.st.fork(), len(self.e.exits), len(self.e.events)
        base = before.pc
        self.e.iters = list(keep) + [('run', k)] if k else keep
        try:
            r, alive = self.e.run(f, this, args)
        finally:
            self.e.iters = keep
        if total:
            self.ends(f, base, alive, n0, v0)
        if not alive:
            # judged in the situation before the call, not in one that cannot occur
            self.e.st = before
        self.chk.functions.update(self.e.analysed)
        return r, alive

    def ends(self, f, base, alive, n0, v0):
        """the call returns or reports an error in every case: what is left is a loop that goes on for ever"""
        e = self.e
        if e.dry:
            return
        k = len(base)
        pcs = [x.pc for x in e.exits[n0:]] + ([e.st.pc] if alive else [])
        pcs += [v.pc + (lnot(v.data[0]),) for v in e.events[v0:] if v.kind.startswith('oblig:')]
        if any(pc[:k] != base for pc in pcs):
            return
        # from the end of the longest path back to the start: at each point the ways on have to be complete
        chain = max(pcs, key=len, default=base)
        rest = list(pcs)
        for j in range(len(chain), k - 1, -1):
            p = chain[:j]
            here = [pc for pc in rest if pc[:j] == p]
            ways = lor(*[land(*pc[j:]) for pc in here])
            if ways is TRUE or j > k and len(here) > 1 and self.quietly_holds(ways, p):
                rest = [pc for pc in rest if pc[:j] != p] + [p]
        cover = lor(*[land(*pc[k:]) for pc in rest])
        if cover is not TRUE:
            self.chk.holds('%s ends in every case' % f.qname, loc(f.node), cover, e.ctx_of(base))

    def quietly_holds(self, cond, pc):
        try:
            return self.e.ctx_of(pc).simp_bool(cond) is TRUE
        except RecursionError:
            return False

    def fork(self):
        return self.e.st.fork()

    def quietly(self, fn, *facts):
        """run fn under extra facts, leaving state and records unchanged"""
        e = self.e
        keep, ex, ev, d = e.st.fork(), list(e.exits), list(e.events), e.discharged
        e.dry += 1
        try:
            e.st = e.st.fork(*facts)
            return fn()
        finally:
            e.dry -= 1
            e.st, e.exits, e.events, e.discharged = keep, ex, ev, d

    def dims(self, l):
        out = []
        for n in ('get_rows', 'get_cols', 'get_shel'):
            f = self.chk.func('Matrix::' + n, 0)
            out.append(self.quietly(lambda: self.val(self.e.call(f, l, [], f.node))))
        return out

    def get(self, l, i, j, k=ONE):
        """element (i,j,k) as the three-index accessor reports it (1-based)"""
        f = self.chk.func('Matrix::get_elem', 3)

        def go():
            try:
                return self.val(self.e.call(f, l, [i, j, k], f.node))
            except Dead:
                return top('element access refused', 'r')
        return self.quietly(go)

    def inrange(self, i, j, k, d):
        return [ge(i, ONE), le(i, d[0]), ge(j, ONE), le(j, d[1]), ge(k, ONE), le(k, d[2])]

    def ctx(self, *facts):
        return self.e.ctx().extend(*[f for f in facts if f is not TRUE])

    # ------------------------------------------------------------ reporting
    def accesses(self, name, since=0):
        """memory obligations recorded by the run"""
        c = self.chk
        seen = {}
        for ev in self.e.events[since:]:
            if ev.kind.startswith('oblig:'):
                cond, what = ev.data
                key = (loc(ev.node), ev.kind)
                # several contexts reach one access: each is its own obligation
                seen.setdefault(key, []).append((ev, cond, what))
        for (where, kind), l in seen.items():
            for ev, cond, what in l:
                c.holds('%s: %s (%s)' % (name, kind[6:], what), where, cond, self.e.ctx_of(ev.pc), 'every access inside its object')
        n = self.e.discharged
        c.bulk += n
        self.e.discharged = 0
        c.count('accesses discharged while summarising', n)
        return n

    def exits(self, since=0):
        return self.e.exits[since:]
