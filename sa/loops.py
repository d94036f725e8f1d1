"""Closed forms for loops.

The places an iteration changes are found by re-analysing the body over
symbolic carried values until the set is stable; each carried place then gets
its value at the start of iteration t as a closed form (linear induction,
sums, last/any/all occurrence, quantified array update, concatenation, or a
generic fold).  One recording pass over the closed forms collects the
obligations and events of an arbitrary iteration t.
"""
from .terms import *
from .terms import _mk, ptr
from . import terms as tm
from .decide import Ctx
from .engine import Dead, LV, State, LoopCtl, Exit, LVIte, LVKV, LVTop, loc, struct_x
from . import types as ty


class Leaf:
    def __init__(self, root, path, kind, init):
        self.root, self.path, self.kind, self.init = root, path, kind, init
        s = {'len': 'i', 'arr': 'a', 'pi': 'i'}.get(kind, init.sort)
        self.sort = s
        self.lam = fresh('L', s)
        self.next = None
        self.closed = None

    def key(self):
        return (self.root, self.path, self.kind)


MISSING = object()


def diff(v0, v1, path, out):
    if v0 is v1:
        return
    if v0.op == 'top' and v1.op == 'top':
        return
    if v0.op == 'struct' and v1.op == 'struct' and v0.args[0] == v1.args[0]:
        for (n, a), (m, b) in zip(v0.args[1], v1.args[1]):
            diff(a, b, path + (n,), out)
        return
    if v0.sort == 'v' and v1.sort == 'v' and v0.op != 'top' and v1.op != 'top':
        if vlen(v0) is not vlen(v1):
            out.append((path, 'len', vlen(v0)))
        if varr(v0) is not varr(v1):
            out.append((path, 'arr', varr(v0)))
        return
    if v0.op == 'ptr' and v1.op == 'ptr' and v0.args[0] == v1.args[0]:
        p, q = v0.args[1], v1.args[1]
        if len(p) == len(q) and p and p[:-1] == q[:-1] and p[-1][0] == 'i' and q[-1][0] == 'i':
            out.append((path, 'pi', p[-1][1]))
            return
    if v0.op == 'struct' or (v1.op == 'struct' and v0.sort == 'o'):
        # keep record shape where possible
        st, ot = (v0, v1) if v0.op == 'struct' else (v1, v0)
        for n, a in st.args[1]:
            b = proj(ot, n, a.sort)
            x, y = (a, b) if v0.op == 'struct' else (b, a)
            diff(x, y, path + (n,), out)
        return
    out.append((path, 'whole', v0))


def getleaf(v, path, kind, sort):
    for n in path:
        v = proj(v, n, fieldsort(v, n))
    if kind == 'len':
        return vlen(v)
    if kind == 'arr':
        return varr(v)
    if kind == 'pi':
        if v.op == 'ptr' and v.args[1] and v.args[1][-1][0] == 'i':
            return v.args[1][-1][1]
        return top('pointer leaves its object', 'i')
    return v


def fieldsort(v, n):
    if v.op == 'struct':
        for m, x in v.args[1]:
            if m == n:
                return x.sort
    if v.op == 'ite':
        return fieldsort(v.args[1], n)
    return 'o'


def setleaf(v, path, kind, val):
    if path:
        if v.op != 'struct':
            return v if v.op == 'top' else top('record shape', v.sort)
        return struct(v.args[0], tuple((n, setleaf(x, path[1:], kind, val) if n == path[0] else x) for n, x in v.args[1]))
    if kind == 'len':
        return vec(val, varr(v))
    if kind == 'arr':
        return vec(vlen(v), val)
    if kind == 'pi':
        if val.op == 'top':
            return top(val.args[0], 'P')
        if v.op != 'ptr':
            return top('pointer shape', 'P')
        p = v.args[1]
        return ptr(v.args[0], p[:-1] + (('i', val) + p[-1][2:],))
    return val


class SplitOn(Exception):
    """a step of the loop depends on a condition the loop does not change: decide it first"""

    def __init__(self, cond):
        self.cond = cond


class Iter:
    """outcome of one abstract iteration"""
    pass


def local_root(eng, r):
    return r[0] in ('v', 't', 'ret')


def run_iter(eng, mem, pc, cond, body, inc, facts=()):
    """analyse one iteration from memory mem"""
    out = Iter()
    eng.st = State(dict(mem), pc + tuple(f for f in facts if f is not TRUE))
    fr = eng.fr
    nl = len(fr.loops)
    marks = (len(eng.exits), len(fr.rets))
    out.c = TRUE
    out.end = None
    out.breaks = []
    out.zero = False
    out.cpc = eng.st.pc
    basepc = eng.st.pc
    out.basepc = basepc
    lc = LoopCtl()
    try:
        c = eng.simp(cond())
        out.c = c
        out.cend = eng.st.fork()
        if c is FALSE:
            out.zero = True
            raise Dead()
        npre = eng.st.pc
        eng.assume(c)
        out.cpc = eng.st.pc
        fr.loops.append(lc)
        ok = True
        try:
            body()
        except Dead:
            ok = False
        del fr.loops[nl:]
        sts = ([eng.st] if ok else []) + lc.conts
        if sts:
            eng.join_keep(out.cpc, sts)
            inc()
            out.end = eng.st
    except Dead:
        del fr.loops[nl:]
    out.breaks = lc.breaks
    out.exits = eng.exits[marks[0]:]
    del eng.exits[marks[0]:]
    out.rets = fr.rets[marks[1]:]
    del fr.rets[marks[1]:]
    return out


def build(mem, leaves, vals):
    m = dict(mem)
    for lf in leaves:
        m[lf.root] = setleaf(m[lf.root], lf.path, lf.kind, vals(lf))
    return m


def summarise(eng, n, cond, body, inc):
    base = eng.st
    M0 = dict(base.mem)
    env0 = dict(eng.fr.env)
    t = fresh('t')
    leaves = []
    keys = set()
    fr = eng.fr
    NINF = top('trip count', 'i')

    def facts_of(lvs):
        fs = [ge(t, ZERO)]
        for lf in lvs:
            if lf.kind == 'len':
                fs.append(ge(lf.lam, ZERO))
        return fs

    # ---- which places change
    eng.dry += 1
    eng.loopstack.append((t, None))
    try:
        first = run_iter(eng, M0, base.pc, cond, body, inc)
        if first.zero:
            zero = True
        else:
            zero = False
            it = first
            for rnd in range(12):
                new = []
                for r in discover_roots(eng, it, M0, t, leaves):
                    M0[r] = eng.root_init[r]
                states = ([it.end] if it.end is not None else []) + it.breaks + [s for s, v in it.rets]
                cur = build(M0, leaves, lambda lf: lf.lam)
                for s in states:
                    for r, v in s.mem.items():
                        if r not in cur:
                            continue
                        d = []
                        diff(cur[r], v, (), d)
                        for path, kd, init in d:
                            add_leaf(leaves, keys, r, path, kd, M0, new)
                # a whole-value leaf below another one
                if not new:
                    break
                it = run_iter(eng, build(M0, leaves, lambda lf: lf.lam), base.pc, cond, body, inc, facts_of(leaves))
            else:
                for lf in leaves:
                    lf.closed = top('unstable loop', lf.sort)
    finally:
        eng.dry -= 1
        eng.loopstack.pop()
    eng.fr.env = env0
    if zero:
        eng.st = State(dict(M0), base.pc)
        eng.assume(lnot(cond()))
        return
    # only places changed on the way to the next iteration are carried
    lam_of = {lf.lam: lf for lf in leaves}
    if it.end is not None:
        for lf in leaves:
            lf.next = getleaf(it.end.mem.get(lf.root, M0[lf.root]), lf.path, lf.kind, lf.sort)
    else:
        for lf in leaves:
            lf.next = lf.lam
    # ---- closed forms
    bctx = eng.ctx_of(base.pc).extend(ge(t, ZERO))
    sigma = {}
    solved = set()

    def try_all(ctx):
        prog = True
        while prog:
            prog = False
            for lf in leaves:
                if lf in solved:
                    continue
                nx = subst(lf.next, sigma)
                if lf.closed is not None:
                    pass
                elif has_top(nx) and not depends(nx, lf, lam_of):
                    lf.closed = top('loop-carried', lf.sort)
                else:
                    others = [v for v in nx.fv if v in lam_of and v is not lf.lam]
                    if others:
                        continue
                    nx = ctx.simp(nx) if nx is not lf.lam else nx
                    if [v for v in nx.fv if v in lam_of and v is not lf.lam]:
                        continue
                    r = solve(eng, lf, nx, t, ctx)
                    if r is None:
                        continue
                    lf.closed = r
                sigma[lf.lam] = lf.closed
                solved.add(lf)
                prog = True

    def simple(ctx):
        prog = True
        while prog:
            prog = False
            for lf in leaves:
                if lf in solved or lf.sort not in ('i', 'r', 'b'):
                    continue
                nx = subst(lf.next, sigma)
                if [v for v in nx.fv if v in lam_of and v is not lf.lam]:
                    continue
                if nx is lf.lam:
                    lf.closed = lf.init
                else:
                    d = sub(nx, lf.lam) if isnum(nx) else None
                    if d is not None and d.op == 'ite':
                        d = ctx.simp(d)
                    if d is None or lf.lam in d.fv or t in d.fv or d.op == 'ite':
                        continue
                    lf.closed = add(lf.init, mul(t, d))
                sigma[lf.lam] = lf.closed
                solved.add(lf)
                prog = True
    simple(bctx)
    for lf in leaves:
        if lf in solved or lf.sort != 'i':
            continue
        d = sub(subst(lf.next, sigma), lf.lam)
        if d.op == 'ite':
            d = bctx.simp(d)
        if d.op == 'ite' and not has_top(d.args[0]) and not any(v is t or v in lam_of for v in d.args[0].fv):
            raise SplitOn(d.args[0])
    c_t = subst(it.c, sigma)
    pre = bctx
    main, extra = [], []
    for x in (c_t.args if c_t.op == 'and' else (c_t,)):
        if any(v in lam_of for v in x.fv):
            continue
        k = trip(x, t, bctx)
        if k is not None:
            main.append((x, k))
    ctx = bctx.extend(*[lt(t, k) for x, k in main]) if main else bctx
    # an iteration that has a successor ran to its end: what its accesses
    # checked holds (the closed forms describe completed iterations only)
    if it.end is not None:
        fs = []
        for x in it.end.pc[len(it.basepc):]:
            x = subst(x, sigma)
            if has_top(x) or any(v in lam_of for v in x.fv):
                continue
            fs.append(x)
        ctx = ctx.extend(*fs)
    try_all(ctx)
    for lf in leaves:
        if lf not in solved:
            lf.closed = top('mutually recursive loop variables', lf.sort)
            sigma[lf.lam] = lf.closed
            solved.add(lf)
    c_t = subst(it.c, sigma)
    if c_t.op in ('or', 'ite', 'not'):
        c_t = bctx.simp_bool(c_t)
    N, rest = None, []
    cs = list(c_t.args) if c_t.op == 'and' else [c_t]
    if c_t is TRUE:
        cs = []
    ks = []
    for x in cs:
        k = trip(x, t, bctx)
        if k is not None:
            ks.append(k)
        else:
            rest.append(x)
    if ks:
        N = ks[0]
        for k in ks[1:]:
            N = ite(le(k, N), k, N)
        if rest:
            g = lnot(land(*rest))
            g = bctx.extend(lt(t, N)).simp_bool(g)
            if has_top(g):
                N = None
            else:
                N = mkfirst(t, N, g)
    if N is not None and has_top(N):
        N = None
    # ---- leaving early
    loopfacts = [ge(t, ZERO)]
    if N is not None:
        loopfacts.append(lt(t, N))
        if rest:
            loopfacts.append(land(*rest))
    else:
        loopfacts.append(top('unknown trip count', 'b'))
    nb = len(base.pc)

    def relcond(pc, npre):
        return land(*pc[npre:])

    npre = len(it.basepc)

    def at_t(c):
        c = subst(c, sigma)
        return bctx.extend(*loopfacts).simp_bool(c)
    Lbr = lor(*[at_t(relcond(s.pc, npre)) for s in it.breaks])
    Lrt = lor(*[at_t(relcond(s.pc, npre)) for s, v in it.rets])
    Lex = lor(*[at_t(relcond(e.pc, npre)) for e in it.exits])
    L = lor(Lbr, Lrt)
    u = fresh('u')
    prior = []
    if L is not FALSE or Lex is not FALSE:
        prior = [lnot(mkex(u, t, subst(lor(L, Lex), {t: u})))]
    # ---- recording pass
    eng.fr.env = dict(env0)
    eng.loopstack.append((t, N))
    Mt = build(M0, leaves, lambda lf: lf.closed)
    ev0 = len(eng.events)
    rec = run_iter(eng, Mt, base.pc, cond, body, inc, loopfacts + prior)
    eng.loopstack.pop()
    eng.fr.env = env0
    np2 = len(rec.basepc)
    fam = {}
    for s in ([rec.end] if rec.end is not None else []) + rec.breaks:
        for r, v in s.mem.items():
            if r[0] == 'fam' and r not in M0 and r[-1] is t:
                w = s.mem.get(('famroot', r[1]))
                fam[('famroot', r[1])] = mklam(t, v)
            elif r[0] == 'famroot' and r not in M0:
                fam[r] = mklam(t, v)
    hasbrk = L is not FALSE
    Lb = [(s, land(*s.pc[np2:])) for s in rec.breaks]
    Lr = [(s, v, land(*s.pc[np2:])) for s, v in rec.rets]
    Le = [(e, land(*e.pc[np2:])) for e in rec.exits]
    inv = bctx.extend(*loopfacts)
    Lall = lor(*([c for s, c in Lb] + [c for s, v, c in Lr]))
    Lall = inv.simp_bool(Lall)
    known = N is not None and not has_top(Lall)
    cap = max0(N) if N is not None else None
    if N is not None:
        cap = eng.ctx_of(base.pc).simp(cap)

    def exists(c):
        if c is FALSE:
            return FALSE
        if N is None or has_top(c):
            return top('leaves a loop of unknown length', 'b')
        return mkex(t, N, c)
    # exits (abnormal)
    noexit = []
    for e, c in Le:
        c = seq_simp(inv, c)
        if c is FALSE:
            continue
        if Lall is not FALSE:
            c2 = land(c, lnot(mkex(u, t, subst(Lall, {t: u}))))
        else:
            c2 = c
        x = exists(c2)
        if x is FALSE:
            continue
        eng.exits.append(Exit(base.pc + (x,), e.kind, e.node, e.info))
        if x.op != 'top':
            noexit.append(lnot(x))
    # normal end
    outs = []
    if known:
        brk = mkex(t, N, Lall)
        brk = eng.ctx_of(base.pc).simp_bool(brk)
        F = mkfirst(t, N, Lall) if brk is not FALSE else None
    else:
        brk = FALSE if Lall is FALSE else top('leaves a loop of unknown length', 'b')
        F = None if Lall is FALSE else top('iteration of a break', 'i')
    post_pc = base.pc + tuple(x for x in noexit if x is not TRUE)
    # an iteration with an unknown effect may end abnormally
    for s in ([rec.end] if rec.end is not None else []) + [s for s, c in Lb]:
        w = [x for x in s.pc[len(rec.cpc):] if has_top(x)]
        if w:
            post_pc += (w[0] if w[0].op == 'top' else top('an iteration of unknown effect', 'b'),)
            break

    def at(mem, when):
        m = {}
        for r, v in mem.items():
            if r in M0:
                m[r] = subst(v, {t: when}) if when.op != 'top' else (v if t not in v.fv else top('value at a break', v.sort))
        for r, v in fam.items():
            m[r] = v
        for r, v in M0.items():
            if r not in m:
                m[r] = v
        return m
    if rec.end is not None or not it.rets or True:
        if brk is not TRUE:
            final = {lf: (subst(lf.closed, {t: cap}) if cap is not None else
                          (lf.closed if t not in lf.closed.fv and lf.closed is lf.init else top('loop of unknown length', lf.sort))) for lf in leaves}
            m = build(M0, leaves, lambda lf: final[lf])
            m.update(fam)
            eng.st = State(m, post_pc + (() if brk is FALSE else (lnot(brk),)))
            try:
                if eng.ctx().dead:
                    raise Dead()
                c = eng.quiet(cond)
                if N is not None:
                    pass
                if rest or N is None:
                    if not has_top(c):
                        eng.assume(lnot(c))
                outs.append(eng.st)
            except Dead:
                pass
    for s, v, c in Lr:
        c = inv.simp_bool(c)
        if c is FALSE:
            continue
        cc = subst(c, {t: F}) if known else top('return from a loop', 'b')
        st = State(at(s.mem, F), post_pc + tuple(x for x in (brk, cc) if x is not TRUE))
        fr.rets.append((st, substv(v, t, F)))
    for s, c in Lb:
        c = inv.simp_bool(c)
        if c is FALSE:
            continue
        cc = subst(c, {t: F}) if known else top('break', 'b')
        st = State(at(s.mem, F), post_pc + tuple(x for x in (brk, cc) if x is not TRUE))
        if len(Lb) + len(Lr) == 1 and known:
            st.pc = post_pc + ((brk,) if brk is not TRUE else ())
        outs.append(st)
    if not outs:
        raise Dead()
    # the end-of-loop state comes first in outs: use the break states' guards
    outs = outs[1:] + outs[:1] if len(outs) > 1 else outs
    if Lr:
        eng.join_keep(post_pc, outs)
    else:
        eng.join(post_pc, outs)


def add_leaf(leaves, keys, r, path, kd, M0, new):
    # climb: a leaf below/above an existing whole leaf
    for lf in leaves:
        if lf.root == r and lf.kind == 'whole' and path[:len(lf.path)] == lf.path:
            return
    key = (r, path, kd)
    if key in keys:
        return
    v = M0[r]
    ok = True
    for i, nme in enumerate(path):
        if v.op != 'struct':
            path = path[:i]
            kd = 'whole'
            ok = False
            break
        v = proj(v, nme, fieldsort(v, nme))
    key = (r, path, kd)
    if key in keys:
        return
    if kd in ('len', 'arr') and v.sort != 'v':
        kd = 'whole'
    if kd == 'pi' and v.op != 'ptr':
        kd = 'whole'
    key = (r, path, kd)
    if key in keys:
        return
    if kd == 'whole':
        leaves[:] = [lf for lf in leaves if not (lf.root == r and lf.path[:len(path)] == path)]
    keys.add(key)
    init = v if kd == 'whole' else (vlen(v) if kd == 'len' else varr(v) if kd == 'arr' else v.args[1][-1][1])
    lf = Leaf(r, path, kd, init)
    leaves.append(lf)
    new.append(lf)


def discover_roots(eng, it, M0, t, leaves):
    out = []
    lams = {lf.lam for lf in leaves}
    for s in ([it.end] if it.end is not None else []) + it.breaks + [x for x, v in it.rets]:
        for r, v in s.mem.items():
            if r in M0 or r in out or r not in eng.root_init:
                continue
            fv = set()
            tm._scan(r[1:] if isinstance(r, tuple) else (r,), fv, 0)
            if t in fv or fv & lams or any(x.op == 'sym' and isinstance(x.args[0], str) and x.args[0].startswith('L!') for x in fv):
                if v is not eng.root_init[r]:
                    eng.notes.append(('loop', 'write through a per-iteration pointer'))
                continue
            out.append(r)
    return out


def substv(v, t, F):
    if v is None:
        return None
    if isinstance(v, T):
        if F.op == 'top':
            return v if t not in v.fv else top('value at a return', v.sort)
        return subst(v, {t: F})
    if isinstance(v, LV):
        if F.op == 'top':
            return LVTop('place at a return')
        return LV(subst(v.root, {t: F}), subst(v.path, {t: F}))
    if isinstance(v, LVIte):
        return LVIte(subst(v.c, {t: F}), substv(v.a, t, F), substv(v.b, t, F))
    return v


def depends(nx, lf, lam_of):
    return False


def trip(c, t, ctx):
    """number of iterations n with  c(t) <=> t < n  for 0<=t (unclipped), or None"""
    if c.op == 'ge' or (c.op == 'not' and c.args[0].op == 'ge' and not tm._isreal(P(c.args[0].args[0]))):
        p = P(c.args[0]) if c.op == 'ge' else padd({m: -q for m, q in P(c.args[0].args[0]).items()}, {(): Q(1)}, -1)
        k = None
        rest = {}
        for m, q in p.items():
            if m == ((t, 1),):
                k = q
            else:
                if any(t in a.fv for a, e in m):
                    return None
                rest[m] = q
        if k is None or k >= 0:
            return None
        r = fromP(rest)
        if k == -1:
            return add(r, ONE)
        if r.sort == 'i' and k.denominator == 1:
            return add(idiv(r, C(-k)), ONE) if ctx.prove_ge(P(r)) else ite(ge(r, ZERO), add(idiv(r, C(-k)), ONE), ZERO)
        return None
    if c.op == 'gt':
        return None
    if c.op == 'or':
        ks = [trip(x, t, ctx) for x in c.args]
        if any(k is None for k in ks):
            return None
        m = ks[0]
        for k in ks[1:]:
            d = sub(k, m)
            if ctx.prove_ge(P(d)):
                m = k
            elif not ctx.prove_ge(P(sub(m, k))):
                m = ite(le(m, k), k, m)
        return m
    if c.op == 'not' and c.args[0].op == 'eqz':
        p = P(c.args[0].args[0])
        e = tm.solve_linear(p, t)
        if e is None or t in e.fv:
            return None
        if ctx.prove_ge(P(e)):
            return e
        return None
    return None


# ------------------------------------------------------------ recurrences
def solve(eng, lf, nx, t, ctx):
    lam, x0 = lf.lam, lf.init
    if nx is lam:
        return x0
    if x0.op == 'top' and lf.sort != 'a':
        x0 = top(x0.args[0], lf.sort)
    u = fresh('u')
    at = lambda x: subst(x, {t: u})
    if lam not in nx.fv:
        prev = subst(nx, {t: sub(t, ONE)})
        if subst(prev, {t: ZERO}) is x0:
            return prev
        return ite(ge(t, ONE), prev, x0)
    if has_top(nx):
        return top('loop-carried', lf.sort)
    if lf.sort == 'a':
        return solve_arr(eng, lf, nx, t, ctx)
    if lf.sort == 'b':
        return solve_bool(lf, nx, t, u)
    # value kept or replaced
    r = keep_form(nx, lam)
    if r is not None:
        g, v = r
        return mklast(u, t, at(g), at(v), x0)
    r = once(nx, lam, x0, t, u, ctx)
    if r is not None:
        return r
    if isnum(lam):
        d = sub(nx, lam)
        for a in cut_atoms(d):
            # telescoping distances between separators
            x, sep, q = a.args[1:]
            if q is t and sub(d, add(app('fof', 'i', app('substr', 's', x, app('cutpos', 'i', x, sep, t), MONE), sep), ONE)) is ZERO:
                return add(x0, app('cutpos', 'i', x, sep, t))
    if isnum(lam):
        d = delta(nx, lam)
        if d is not None:
            return add(x0, mksum(u, t, at(d)) if t in d.fv else mul(t, d))
    if lf.sort == 's':
        c = chop(nx, lam)
        if c is not None:
            return app('substr', 's', x0, app('cutpos', 'i', x0, c, t), MONE)
        d = sdelta(nx, lam)
        if d is not None:
            return cat(x0, mkcatf(u, t, at(d)))
    if lf.sort in ('i', 'r', 's'):
        acc = fresh('acc', lam.sort)
        return mkfold(u, acc, t, subst(nx, {t: u, lam: acc}), x0)
    return top('loop-carried record', lf.sort)


def seq_simp(ctx, c):
    c = ctx.simp_bool(c)
    if c.op != 'and':
        return c
    for x in c.args:
        if ctx.extend(*[y for y in c.args if y is not x]).simp_bool(x) is FALSE:
            return FALSE
    return c


def chop(nx, lam):
    """nx = what follows the first separator in lam (lam if there is none) -> separators"""
    if nx.op == 'app' and nx.args[0] == 'substr' and nx.args[1] is lam and nx.args[3] is MONE:
        q = sub(nx.args[2], ONE)
        if q.op == 'app' and q.args[0] == 'fof' and q.args[1] is lam and q.args[2].op == 'str':
            return q.args[2]
    return None


def cut_atoms(d):
    out, seen, st = [], set(), [d]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == 'app' and x.args[0] == 'cutgap':
            out.append(x)
            continue
        if x.op == 'p':
            st.extend(a for m in P(x) for a, e in m)
        elif x.op == 'ite':
            st.extend(x.args[1:])
    return out


def keep_form(nx, lam):
    """nx = ite(g, v, lam) with g, v free of lam"""
    if nx is lam:
        return FALSE, lam
    if nx.op == 'ite':
        c, a, b = nx.args
        if lam in c.fv:
            return None
        if a is lam:
            if lam not in b.fv:
                return lnot(c), b
            r = keep_form(b, lam)
            return None if r is None else (land(lnot(c), r[0]), r[1])
        if b is lam:
            if lam not in a.fv:
                return c, a
            r = keep_form(a, lam)
            return None if r is None else (land(c, r[0]), r[1])
        ra = (TRUE, a) if lam not in a.fv else keep_form(a, lam)
        rb = (TRUE, b) if lam not in b.fv else keep_form(b, lam)
        if ra is None or rb is None:
            return None
        va = ra[1]
        vb = rb[1]
        return lor(land(c, ra[0]), land(lnot(c), rb[0])), ite(c, va, vb)
    return None


def once(nx, lam, x0, t, u, ctx):
    """value replaced when a condition first holds and a test of the value itself then stops it changing"""
    if nx.op != 'ite':
        return None
    c, a, b = nx.args
    if b is lam:
        g, v = c, a
    elif a is lam:
        g, v = lnot(c), b
    else:
        return None
    parts = list(g.args) if g.op == 'and' else [g]
    if v.op == 'ite' and v.args[2] is lam:
        parts.append(v.args[0])
        v = v.args[1]
    elif v.op == 'ite' and v.args[1] is lam:
        parts.append(lnot(v.args[0]))
        v = v.args[2]
    own = [y for y in parts if lam in y.fv]
    rest = land(*[y for y in parts if lam not in y.fv])
    if not own or lam in v.fv or any(t in y.fv for y in own):
        return None
    h = land(*own)
    c2 = ctx.extend(ge(t, ZERO), rest)
    if c2.simp_bool(subst(h, {lam: v})) is not FALSE:
        return None
    F = mkfirst(u, t, subst(rest, {t: u}))
    return ite(land(subst(h, {lam: x0}), lt(F, t)), subst(v, {t: F}), x0)


def delta(nx, lam):
    if nx.op == 'ite':
        if lam in nx.args[0].fv:
            return None
        a, b = delta(nx.args[1], lam), delta(nx.args[2], lam)
        if a is None or b is None:
            return None
        return ite(nx.args[0], a, b)
    d = sub(nx, lam)
    if lam in d.fv:
        return None
    return d


def sdelta(nx, lam):
    if nx is lam:
        return EMPTY
    if nx.op == 'ite':
        if lam in nx.args[0].fv:
            return None
        a, b = sdelta(nx.args[1], lam), sdelta(nx.args[2], lam)
        if a is None or b is None:
            return None
        return ite(nx.args[0], a, b)
    if nx.op == 'cat' and nx.args[0] is lam:
        r = cat(*nx.args[1:])
        return None if lam in r.fv else r
    return None


def solve_bool(lf, nx, t, u):
    lam, x0 = lf.lam, lf.init
    hi = subst(nx, {lam: TRUE})
    lo = subst(nx, {lam: FALSE})
    if hi is lo:
        prev = subst(hi, {t: sub(t, ONE)})
        return ite(ge(t, ONE), prev, x0)
    # nx = lam ? hi : lo
    if hi is TRUE:
        return lor(x0, mkex(u, t, subst(lo, {t: u})))
    if lo is FALSE:
        return land(x0, lnot(mkex(u, t, lnot(subst(hi, {t: u})))))
    r = keep_form(nx, lam)
    if r is not None:
        return mklast(u, t, subst(r[0], {t: u}), subst(r[1], {t: u}), x0)
    # set / reset: lam' = lo or (lam and hi), monotone
    return top('loop-carried condition', 'b')


def lam_reads(x, lam):
    """does x read the carried array"""
    return lam in x.fv


def solve_arr(eng, lf, nx, t, ctx):
    lam, x0 = lf.lam, lf.init
    if nx.op == 'ite':
        # kept under a condition free of the array
        c, a, b = nx.args
        if lam not in c.fv:
            ga = guard_upd(a, lam, c)
            gb = guard_upd(b, lam, lnot(c))
            if ga is not None and gb is not None:
                nx = upd(lam, ga + gb)
    if nx.op != 'upd' or nx.args[0] is not lam:
        return top('loop-carried container', 'a')
    effs = nx.args[1]
    u = fresh('u')
    if not any(lam in e.fv for e in effs):
        return upd(x0, (mkfor(u, t, subst(effs, {t: u})),))
    # accumulation into places that do not move
    r = accumulate(effs, lam, x0, t, u, ctx)
    if r is not None:
        return upd(x0, r)
    # reads of places not written by earlier iterations
    stores = []
    for e in effs:
        stores += flatten_for(e)
    w = fresh('w')

    def untouched(idx, c):
        """no iteration w<t writes idx"""
        c2 = c.extend(ge(w, ZERO), lt(w, t))
        for vs, g, ix, val in stores:
            if lam in g.fv or any(lam in i.fv for i in ix):
                g = TRUE
                if any(lam in i.fv for i in ix):
                    return False
            m = {t: w}
            vs2 = [(v, subst(n, m)) for v, n in vs]
            c3 = c2.extend_loops(vs2)
            if len(ix) != len(idx):
                return False
            same = land(*([eq(subst(a, m), b) for a, b in zip(ix, idx)] + [subst(g, m)]))
            if c3.simp_bool(same) is not FALSE:
                return False
        return True
    fail = []

    def res(x, c):
        if not isinstance(x, T):
            return tuple(res(y, c) for y in x) if isinstance(x, tuple) else x
        if lam not in x.fv:
            return x
        if x is lam:
            fail.append(x)
            return x
        if x.op == 'asel':
            a = x.args[0]
            idx = tuple(res(i, c) for i in x.args[1:])
            if a is lam:
                if untouched(idx, c):
                    return sel(x0, idx, x.sort, c)
                fail.append(x)
                return x
            if lam in a.fv:
                # unresolved read through an update of this iteration
                if a.op == 'upd' and a.args[0] is lam:
                    if untouched(idx, c):
                        return sel(upd(x0, tuple(res(e, c) for e in a.args[1])), idx, x.sort, c)
                fail.append(x)
                return x
            return sel(a, idx, x.sort, c)
        if x.op in ('for', 'sum', 'ex', 'last', 'first', 'catf'):
            v = fresh('o')
            h, n = x.args[0], res(x.args[1], c)
            c2 = c.extend_loops([(v, n)])
            o = lambda y: res(subst(y, {bv(h): v}), c2)
            if x.op == 'for':
                return mkfor(v, n, o(x.args[2]))
            if x.op == 'sum':
                return mksum(v, n, o(x.args[2]))
            if x.op == 'ex':
                return mkex(v, n, o(x.args[2]))
            if x.op == 'first':
                return mkfirst(v, n, o(x.args[2]))
            if x.op == 'catf':
                return mkcatf(v, n, o(x.args[2]))
            return mklast(v, n, o(x.args[2]), o(x.args[3]), res(x.args[4], c))
        if x.op == 'ite':
            g = res(x.args[0], c)
            return ite(g, res(x.args[1], c.extend(g)), res(x.args[2], c.extend(lnot(g))))
        if x.op == 'st':
            g = res(x.args[0], c)
            c2 = c.extend(g)
            return _mk('st', (g, tuple(res(i, c2) for i in x.args[1]), res(x.args[2], c2)), 'e')
        return tm._rebuild(x, lambda y: res(y, c))
    c = ctx
    out = tuple(res(e, c) for e in effs)
    if fail or any(lam in e.fv for e in out):
        return top('array recurrence', 'a')
    return upd(x0, (mkfor(u, t, subst(out, {t: u})),))


def guard_upd(a, lam, c):
    if a is lam:
        return ()
    if a.op == 'upd' and a.args[0] is lam:
        return tuple(tm._guard_eff(c, e) for e in a.args[1])
    return None


def accumulate(effs, lam, x0, t, u, ctx):
    out = []
    for e in effs:
        if e.op == 'st':
            g, ix, val = e.args
            if any(lam in i.fv or t in i.fv for i in ix):
                return None
            rd = _mk('asel', (lam,) + ix, val.sort)
            a = fresh('cell', val.sort)
            v2 = replace(val, rd, a)
            g = replace(g, rd, a)
            if lam in v2.fv or lam in g.fv:
                return None
            if len(effs) > 1:
                return None
            cell0 = sel(x0, ix, val.sort, ctx)
            nxv = ite(g, v2, a)
            r = once(nxv, a, cell0, t, u, ctx)
            if r is not None:
                out.append(_mk('st', (TRUE, ix, r), 'e'))
                continue
            if a in g.fv:
                return None
            if isnum(val):
                d = delta(nxv, a)
                if d is not None:
                    new = add(cell0, mksum(u, t, subst(d, {t: u})))
                    out.append(_mk('st', (TRUE, ix, new), 'e'))
                    continue
            if val.sort == 's':
                d = sdelta(nxv, a)
                if d is not None:
                    out.append(_mk('st', (TRUE, ix, cat(cell0, mkcatf(u, t, subst(d, {t: u})))), 'e'))
                    continue
            if val.sort == 'v' and a in v2.fv:
                # nested container: array of the element
                return nested_acc(effs, lam, x0, t, u, ctx)
            return None
        else:
            h, n, es = e.args
            if t in n.fv or lam in n.fv or len(effs) > 1:
                return None
            v = fresh('a')
            c2 = ctx.extend_loops([(v, n)])
            r = accumulate(subst(es, {bv(h): v}), lam, x0, t, u, c2)
            if r is None:
                return None
            # places of different v must differ (each is written once per outer iteration)
            for x in flatten_for(mkfor(v, n, r)):
                pass
            out.append(mkfor(v, n, r))
    return tuple(out)


def nested_acc(effs, lam, x0, t, u, ctx):
    """A[ix] (a container) updated element-wise in every iteration"""
    e = effs[0]
    g, ix, val = e.args
    if len(effs) != 1 or g is not TRUE:
        return None
    rd = _mk('asel', (lam,) + ix, 'v')
    ln, ar = vlen(val), varr(val)
    la, aa = fresh('len'), fresh('arr', 'a')
    ln2 = replace(replace(ln, vlen(rd), la), varr(rd), aa)
    ar2 = replace(replace(ar, vlen(rd), la), varr(rd), aa)
    if lam in ln2.fv or lam in ar2.fv:
        return None
    c0 = sel(x0, ix, 'v', ctx)
    l0 = Leaf(None, (), 'len', vlen(c0))
    d = delta(ln2, la)
    if d is None or aa in d.fv:
        return None
    lc = add(vlen(c0), mksum(u, t, subst(d, {t: u})) if t in d.fv else mul(t, d))
    class F:
        pass
    f = F()
    f.lam, f.init = aa, varr(c0)
    ar3 = subst(ar2, {la: lc})
    if ar3 is aa:
        ac = varr(c0)
    else:
        ac = solve_arr(None, f, ar3, t, ctx)
    if has_top(ac):
        return None
    return (_mk('st', (TRUE, ix, vec(lc, ac)), 'e'),)


def replace(x, a, b):
    """replace every occurrence of term a"""
    memo = {}

    def go(y):
        if not isinstance(y, T):
            return tuple(go(z) for z in y) if isinstance(y, tuple) else y
        if y is a:
            return b
        r = memo.get(y)
        if r is None:
            r = tm._rebuild(y, go)
            memo[y] = r
        return r
    return go(x)
