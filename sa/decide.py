"""Entailment, equivalence of normal forms and separation by a valuation."""
import random, math
from fractions import Fraction as Q
from . import terms as tm
from .terms import *
from .terms import _mk, _rebuild, _close

NONNEG_FLD = {'#len'}
ATOMFACT = tm.FINDLIKE | {'cutpos', 'cutgap', 'chr', 'slen'}


def nonneg_atom(a):
    if a.op == 'app' and a.args[0] in tm.NONNEG:
        return True
    if a.op == 'fld' and a.args[1] in NONNEG_FLD:
        return True
    if a.op == 'first':
        return True
    if a.sort == 'sl':
        return True
    return False


class Ctx:
    def __init__(self, lits=(), parent=None):
        self.lits = []
        self.true = set()
        self.polys = []       # (poly dict) >= 0
        self.dead = False
        self.eqs = {}         # term -> term substitution
        self.memo = {}
        self.pmemo = {}
        self.exfalse = []
        self.samples = None
        self.digdone = set()
        self.psamples = ()
        self.seen = set(parent.seen) if parent is not None else set()
        self.weak = parent.weak if parent is not None else False   # a condition was dropped
        if parent is not None:
            self.lits = list(parent.lits)
            self.true = set(parent.true)
            self.polys = list(parent.polys)
            self.dead = parent.dead
            self.eqs = dict(parent.eqs)
            self.exfalse = list(parent.exfalse)
            self.psamples = parent.samples if parent.samples is not None else parent.psamples
        for l in lits:
            self._add(l)

    def extend(self, *lits):
        return Ctx(lits, self)

    def extend_loops(self, vs):
        l = []
        for v, n in vs:
            l.append(ge(v, ZERO))
            l.append(lt(v, n))
        return Ctx(l, self)

    def _add(self, l):
        if l is TRUE:
            return
        if l is FALSE:
            self.dead = True
            return
        if l.op == 'top':
            self.weak = True
            return
        if l.op == 'and':
            for x in l.args:
                self._add(x)
            return
        if l in self.true:
            return
        if lnot(l) in self.true:
            self.dead = True
            return
        if l.op == 'or' and len(l.args) <= 6 and not self.dead:
            r = self._simp_bool(l)
            if r is not l:
                self.true.add(l)
                self._add(r)
                return
        self.lits.append(l)
        self.true.add(l)
        self.memo = {}
        self.pmemo = {}
        if l.op == 'ge':
            q = P(l.args[0])
            self.addpoly(q)
            f = tm._found(q) if len(q) == 1 else None
            if f is not None and f.args[0] in ('find', 'rfind'):
                self.addpoly(P(sub(sub(slen(f.args[1]), slen(f.args[2])), f)))
        elif l.op == 'not':
            a = l.args[0]
            if a.op == 'ge':
                self.addpoly(padd({m: -c for m, c in P(a.args[0]).items()}, {(): Q(1)}, -1))
            elif a.op == 'eq' and tm.EMPTY in a.args:
                x = a.args[1] if a.args[0] is tm.EMPTY else a.args[0]
                n = slen(x)
                if any(b.op == 'ite' for m in P(n) for b, e in m):
                    n = self.simp(n)
                self.addpoly(padd(P(n), {(): Q(1)}, -1))
            elif a.op == 'ex':
                self.exfalse.append(a)
            elif a.op == 'eqz':
                p = P(a.args[0])
                if len(p) == 2 and () in p:
                    m, = [m for m in p if m]
                    x = m[0][0]
                    if len(m) == 1 and m[0][1] == 1 and p[()] == p[m] and x.op == 'app' and x.args[0] in tm.FINDLIKE:
                        # found
                        self.addpoly({m: Q(1)})
                        if x.args[0] in ('find', 'rfind'):
                            self.addpoly(P(sub(sub(slen(x.args[1]), slen(x.args[2])), x)))
        elif l.op == 'eqz':
            p = P(l.args[0])
            if not tm._isreal(p):
                self.addpoly(p)
                self.addpoly({m: -c for m, c in p.items()})
            # orient as a substitution
            best = None
            for m, c in p.items():
                if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                    a = m[0][0]
                    e = solve_linear(p, a)
                    if e is not None and not _occurs(a, e):
                        # prefer eliminating the youngest atom
                        if best is None or a.id > best[0].id:
                            best = (a, e)
            if best is not None and best[0] not in self.eqs:
                self._addeq(*best)
        elif l.op == 'eq':
            a, b = l.args
            if isconst(a) or a.op in ('null',):
                a, b = b, a
            if a not in self.eqs and not _occurs(a, b):
                self._addeq(a, b)
            for x, y in ((a, b), (b, a)):
                if y.op == 'str' and y.args[0] and x.op == 'app' and x.args[0] == 'substr' and x.args[3] is tm.MONE:
                    # the end of a string is as long as what it equals
                    self._add(tm.eq(sub(slen(x.args[1]), x.args[2]), C(len(y.args[0]))))
                    for q in range(1, min(len(y.args[0]), 8) + 1):
                        z = app('substr', 's', x.args[1], sub(slen(x.args[1]), C(q)), tm.MONE)
                        if z.op == 'app' and z not in self.eqs:
                            self._addeq(z, S(y.args[0][-q:]))
        # opposite reals
        if l.op == 'gt':
            pass

    def saturate(self):
        """unit propagation over the disjunctive facts, equalities from
        opposite bounds, equal digits of equal mixed-radix numbers"""
        for _ in range(4):
            ch = False
            for q in list(self.polys):
                if self.dead:
                    return self
                if len(q) < 2 or len(q) > 4:
                    continue
                n = {m: -c for m, c in q.items()}
                t = eqz({m: Q(c) for m, c in q.items()})
                if t.op == 'eqz' and t not in self.true and not self._eqsub(t) is TRUE and self.prove_ge(n):
                    self._add(t)
                    ch = True
            if not self.dead and self._digit_eqs():
                ch = True
            for l in list(self.lits):
                if self.dead:
                    return self
                if l.op == 'or' and len(l.args) <= 12:
                    out = []
                    self.true.discard(l)
                    self.memo = {}
                    for x in l.args:
                        y = self.simp_bool(x)
                        if y is TRUE:
                            out = None
                            break
                        if y is not FALSE:
                            out.append(y)
                    if out is None:
                        continue
                    self.true.add(l)
                    self.memo = {}
                    if len(out) < len(l.args):
                        self.lits.remove(l)
                        self.true.discard(l)
                        self._add(lor(*out))
                        ch = True
                elif l.op == 'eq' and l.args[0].sort == 's' and not self.dead:
                    # what is known of a text may have become simpler
                    own = {k: v for k, v in self.eqs.items() if k is not l.args[0] and k is not l.args[1]}
                    l2 = subst_t(l, own) if own else l
                    if l2 is not l and l2 is not TRUE and l2 not in self.true:
                        self._add(l2)
                        ch = True
                elif l.op in ('not', 'ge', 'eqz') and not self.dead:
                    if l.op == 'eqz':
                        l2 = self._defactor(l)
                        if l2 is not l and l2 not in self.true:
                            self._add(l2)
                            ch = True
                        continue
                    if self.eqs:
                        l2 = subst_t(l, self.eqs)
                        if l2 is not l:
                            if l2 not in self.true:
                                self._add(l2)
                                ch = True
                            continue
                    if l.op == 'not' and l.args[0].op == 'eqz' and l not in self.digdone:
                        p = P(l.args[0].args[0])
                        if tm._isreal(p) or len(p) > 5:
                            continue
                        self.digdone.add(l)
                        up, dn = gt0(dict(p)), gt0({m: -c for m, c in p.items()})
                        if up in self.true or dn in self.true:
                            continue
                        u = self.extend(up).impossible()
                        d = self.extend(dn).impossible()
                        if u and d:
                            self.dead = True
                        elif u or d:
                            self._add(dn if u else up)
                            ch = True
            if not ch:
                break
        return self

    def atom_facts(self, p):
        """bounds that searches in strings have by definition"""
        for m in p:
            for a, e in m:
                if a.op != 'app' or a in self.seen or a.args[0] not in ATOMFACT:
                    continue
                k = a.args[0]
                if k in tm.FINDLIKE:
                    self.seen.add(a)
                    self.addpoly({((a, 1),): Q(1), (): Q(1)})
                    if k in ('find', 'rfind') and not (a.args[2].op == 'str' and a.args[2].args[0]):
                        continue
                    self.addpoly(P(sub(sub(slen(a.args[1]), ONE), a)))
                elif k == 'chr':
                    # the character at the place a search found
                    for m2 in P(a.args[2]):
                        f = m2[0][0] if m2 else None
                        if f is not None and len(m2) == 1 and m2[0][1] == 1 and f.op == 'app' and f.args[0] in ('fof', 'lof', 'find', 'rfind') \
                                and f.args[2].op == 'str' and len(f.args[2].args[0]) == 1 \
                                and f.args[1] is app('substr', 's', a.args[1], sub(a.args[2], f), MONE):
                            self.seen.add(a)
                            if self.prove_ge(P(f)):
                                self.addpoly({((a, 1),): Q(1), (): Q(-ord(f.args[2].args[0]))})
                                self.addpoly({((a, 1),): Q(-1), (): Q(ord(f.args[2].args[0]))})
                            else:
                                self.seen.discard(a)
                elif k == 'slen':
                    # a piece is at most as long as was asked for
                    y = a.args[1]
                    self.seen.add(a)
                    if y.op == 'app' and y.args[0] == 'substr' and y.args[3] is not MONE:
                        x, q, w = y.args[1:]
                        if self.prove_ge(P(w)):
                            self.addpoly(P(sub(w, a)))
                            if self.prove_ge(P(q)) and self.prove_ge(P(sub(sub(slen(x), q), w))):
                                self.addpoly(P(sub(a, w)))
                        else:
                            self.seen.discard(a)
                elif k == 'cutpos':
                    self.seen.add(a)
                    self.addpoly(P(sub(slen(a.args[1]), a)))
                elif k == 'cutgap':
                    x, d, q = a.args[1:]
                    self.seen.add(a)
                    if self.prove_ge(P(sub(sub(app('cntof', 'i', x, d), q), ONE))):
                        self.addpoly(P(sub(sub(sub(slen(x), ONE), a), app('cutpos', 'i', x, d, q))))
                    else:
                        self.seen.discard(a)

    def addpoly(self, p):
        p = _ints(p)
        self.atom_facts(p)
        if not _allpos(p):
            self.polys.append(p)
        self.samples = None

    def _addeq(self, a, b):
        b = subst_t(b, self.eqs)
        if b is a:
            return
        for k in list(self.eqs):
            self.eqs[k] = subst_t(self.eqs[k], {a: b})
        self.eqs[a] = b

    # ---- integer positivity
    def prove_ge(self, p):
        if not p:
            return True
        if set(p) == {()}:
            return p[()] >= 0
        if self.dead:
            return True
        p = _ints(p)
        self.atom_facts(p)
        key = frozenset(p.items())
        r = self.pmemo.get(key)
        if r is None:
            if self.samples is None:
                self.samples = find_samples(self.polys, self.psamples)
            r = _prove(p, self.polys, self.samples)
            self.pmemo[key] = r
        return r

    def atom_val(self, a):
        """True/False/None for a bool atom"""
        if a in self.true:
            return True
        if lnot(a) in self.true:
            return False
        if a.op == 'ge':
            p = P(a.args[0])
            if self.prove_ge(p):
                return True
            if self.prove_ge(padd({m: -c for m, c in p.items()}, {(): Q(1)}, -1)):
                return False
        elif a.op == 'eqz':
            p = P(a.args[0])
            if not tm._isreal(p):
                if self.prove_ge(padd(p, {(): Q(1)}, -1)):
                    return False
                n = {m: -c for m, c in p.items()}
                if self.prove_ge(padd(n, {(): Q(1)}, -1)):
                    return False
                if self.prove_ge(p) and self.prove_ge(n):
                    return True
                if self._apart(p):
                    return False
            else:
                if _mk('gt', a.args, 'b') in self.true:
                    return False
        elif a.op == 'gt':
            if _mk('eqz', a.args, 'b') in self.true:
                return False
        elif a.op == 'ex':
            h, n, b = a.args
            v = fresh('e')
            bb = subst(b, {bv(h): v})
            c2 = self.extend(ge(v, ZERO), lt(v, n))
            if c2.dead:
                return False
            r = c2.simp_bool(bb)
            if r is FALSE:
                return False
        if self.exfalse:
            for e in self.exfalse:
                if self._instance(e, a):
                    return False
                na = lnot(a)
                if self._instance(e, na):
                    return True
        return None

    def _defactor(self, b):
        """divide by common factors known to be positive"""
        p = P(b.args[0])
        if len(p) < 2 or () in p:
            return b
        common = None
        for m in p:
            d = dict(m)
            common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
            if not common:
                return b
        for a in common:
            if a.sort not in ('i', 'sl') or not self.prove_ge({((a, 1),): Q(1), (): Q(-1)}):
                return b
        q = {}
        for m, c in p.items():
            q[tuple((a, e - common.get(a, 0)) for a, e in m if e != common.get(a, 0))] = c
        return {'eqz': eqz, 'ge': ge0, 'gt': gt0}[b.op](q)

    def _digit_eqs(self):
        """equal mixed-radix numbers have equal digits"""
        ch = False
        for l in list(self.lits):
            if l.op != 'eqz' or self.dead:
                continue
            p = P(l.args[0])
            if tm._isreal(p):
                continue
            if len(p) < 3 or len(p) > 16 or l in self.digdone:
                continue
            base = None
            for L in self._forms(p)[:6]:
                z = eqz(dict(L))
                if z in self.true or self._eqsub(z) is TRUE:
                    continue
                if base is None:
                    base = Ctx([k for k in self.lits if k is not l])
                    if base.dead:
                        break
                if base.extend(gt0(dict(L)))._apart(p, 1) and base.extend(gt0({m: -c for m, c in L.items()}))._apart(p, 1):
                    self._add(z)
                    ch = True
                    break
            else:
                self.digdone.add(l)
        return ch

    def solve_digits(self, q, vs):
        """the unique values the unknowns vs must have for q == 0, digit by
        digit -> (solution, residual condition) or None"""
        key = ('digits', frozenset(q.items()), tuple(vs))
        if key in self.pmemo:
            return self.pmemo[key]
        self.pmemo[key] = None
        r = self.pmemo[key] = self._solve_digits(q, vs)
        return r

    def _solve_digits(self, q, vs):
        sol = {}
        cx = self
        left = [v for v in vs if any(v in a.fv for m in q for a, e in m)]
        while left:
            if cx.dead or len(q) > 16:
                return None
            z = eqz(dict(q))
            if z.op == 'eqz':
                z = cx._defactor(z)
                if z.op == 'eqz':
                    q = P(z.args[0])
            for L in self._forms(q)[:8] + [q]:
                v = next((v for v in left if solve_linear(L, v) is not None), None)
                if v is None:
                    continue
                e = solve_linear(L, v)
                if any(w in e.fv for w in left):
                    continue
                if L is not q and not (cx.extend(gt0(dict(L)))._apart(q, 1) and
                                       cx.extend(gt0({m: -c for m, c in L.items()}))._apart(q, 1)):
                    continue
                break
            else:
                return None
            sol = {k: subst_t(x, {v: e}) for k, x in sol.items()}
            sol[v] = e
            q = P(subst_t(fromP(q), {v: e}))
            cx = cx.extend(eq(v, e))
            left = [w for w in left if w is not v and any(w in a.fv for m in q for a, e in m)]
        return sol, eqz(q)

    def _forms(self, p):
        """linear forms L with p = F*L + rest for a common cofactor F: the
        differences of the digits of mixed-radix numbers"""
        cof = {}
        for m in p:
            for a, e in m:
                F = tuple((x, k if x is not a else k - 1) for x, k in m if x is not a or k > 1)
                cof[F] = sum(k for _, k in F)
        out = []
        for F, deg in cof.items():
            fd = dict(F)
            L = {}
            for m, c in p.items():
                d = dict(m)
                if any(d.get(x, 0) < k for x, k in fd.items()):
                    continue
                r = tuple((x, k - fd.get(x, 0)) for x, k in m if k != fd.get(x, 0))
                if sum(k for _, k in r) <= 1:
                    L[r] = c
            if len(L) < 2 or len(L) > 5 or len(L) == len(p):
                continue
            if all(c > 0 for c in L.values()) or all(c < 0 for c in L.values()):
                continue
            g = 0
            for c in L.values():
                if Q(c).denominator != 1:
                    break
                g = math.gcd(g, abs(int(c)))
            else:
                if len(L) == 2 and () in L and int(L[()]) % [abs(int(c)) for m, c in L.items() if m][0]:
                    continue
                L = {m: c / g for m, c in L.items()}
                out.append((-deg, len(L), len(out), L))
        out.sort(key=lambda x: x[:3])
        return [L for _, _, _, L in out]

    def _apart(self, p, depth=0):
        """p != 0: split on the order of two atoms that occur with opposite
        coefficients (the digits of a mixed-radix index)"""
        if depth > 2 or len(p) < 2 or len(p) > 16 or self.dead:
            return self.dead
        key = ('apart', frozenset(p.items()), depth)
        r = self.pmemo.get(key)
        if r is not None:
            return r
        self.pmemo[key] = False
        r = self._apart1(p, depth)
        self.pmemo[key] = r
        return r

    def _apart1(self, p, depth):
        if self.samples is None:
            self.samples = find_samples(self.polys, self.psamples)
        pi = _ints(p)
        for s in self.samples:
            v = _evalp(pi, s)
            if v == 0:
                return False
        # common factor (known nonzero)
        common = None
        for m in p:
            d = dict(m)
            common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
        for a, e in (common or {}).items():
            if not self.prove_ge({((a, 1),): 1, (): -1}):
                return False
        if common:
            q = {}
            for m, c in p.items():
                d = dict(m)
                for a, e in common.items():
                    d[a] -= e
                q[tuple((a, e) for a, e in m if d[a] for e in (d[a],))] = c
            p = q
        n = {m: -c for m, c in p.items()}
        if self.prove_ge(padd(p, {(): Q(1)}, -1)) or self.prove_ge(padd(n, {(): Q(1)}, -1)):
            return True
        for L in self._forms(p)[:4]:
            ok = True
            for c in (gt0(dict(L)), eqz(dict(L)), gt0({m: -c for m, c in L.items()})):
                cx = self.extend(c)
                if cx.dead:
                    continue
                q = P(cx._eqsub(fromP(p)))
                if not q:
                    ok = False
                    break
                n = {m: -k for m, k in q.items()}
                if set(q) == {()}:
                    continue
                if cx.prove_ge(padd(q, {(): Q(1)}, -1)) or cx.prove_ge(padd(n, {(): Q(1)}, -1)):
                    continue
                if lnot(eqz(dict(q))) in cx.true:
                    continue
                if not cx._apart(q, depth + 1):
                    ok = False
                    break
            if ok:
                return True
        return False

    def refuted(self):
        """dead, or some disjunctive fact has no true branch left"""
        if self.dead:
            return True
        for l in self.lits:
            if l.op == 'or' and len(l.args) <= 40 and all(lnot(x) in self.true for x in l.args):
                return True
        return False

    def impossible(self):
        """some fact is contradicted by the others"""
        if self.dead:
            return True
        last = self.polys[-1:] + [q for q in self.polys[:-1] if any(sum(e for _, e in m) > 1 for m in q)]
        for q in last[:6]:
            if self.prove_ge(padd({m: -c for m, c in q.items()}, {(): Q(1)}, -1)):
                return True
        return False

    def _eqsub(self, t):
        return subst_t(t, self.eqs) if self.eqs else t

    def _instance(self, e, a):
        """is a an instance body(u) of the false existential e with 0<=u<n provable?"""
        h, n, b = e.args
        m = match(b, a, bv(h))
        if m is None:
            return False
        u = m
        if u is True:
            return False
        return self.prove_ge(P(u)) and self.prove_ge(padd(padd(P(n), P(u), -1), {(): Q(1)}, -1))

    def simp_bool(self, b):
        if b in (TRUE, FALSE):
            return b
        r = self.memo.get(b)
        if r is None:
            r = self._simp_bool(b)
            self.memo[b] = r
        return r

    def _simp_bool(self, b):
        if b.op == 'top':
            return b
        if b.op == 'not':
            return lnot(self.simp_bool(b.args[0]))
        if b.op in ('and', 'or'):
            out = []
            for x in b.args:
                y = self.simp_bool(x)
                out.append(y)
            r = (land if b.op == 'and' else lor)(*out)
            if r.op in ('and', 'or'):
                if r in self.true or b in self.true:
                    return TRUE
                if lnot(r) in self.true or lnot(b) in self.true:
                    return FALSE
            return r
        if b.op == 'ite':
            c = self.simp_bool(b.args[0])
            return ite(c, self.simp_bool(b.args[1]), self.simp_bool(b.args[2]))
        if b.op in ('eqz', 'ge', 'gt') and not self.dead:
            b2 = self._defactor(b)
            if b2 is not b:
                return self.simp_bool(b2)
        v = self.atom_val(b)
        if v is None and self.eqs:
            b2 = subst_t(b, self.eqs)
            if b2 is not b:
                if b2 in (TRUE, FALSE):
                    return b2
                if b2.op in ('and', 'or', 'not', 'ite'):
                    return self.simp_bool(b2)
                v = self.atom_val(b2)
                if v is None:
                    if b2.op in ('eqz', 'ge', 'gt') and not self.dead:
                        b3 = self._defactor(b2)
                        if b3 is not b2:
                            return self.simp_bool(b3)
                    return b2
        if v is None:
            if b.op == 'ex':
                h, n, body = b.args
                x = fresh('e')
                c2 = self.extend(ge(x, ZERO), lt(x, n))
                return mkex(x, self.simp(n), c2.simp_bool(subst(body, {bv(h): x})))
            return self._simp_args(b)
        return Bc(v)

    def _simp_sum(self, v, n, body):
        """split the range at a threshold inside it"""
        if body.op == 'ite' and body.args[0].op == 'ge' and v in body.args[0].fv:
            p = P(body.args[0].args[0])
            e = solve_linear(p, v)
            if e is not None and v not in e.fv:
                c, X, Y = body.args
                if p.get(((v, 1),)) == 1:
                    lo, hi = Y, X
                else:
                    lo, hi, e = X, Y, add(e, ONE)
                if self.prove_ge(P(e)) and self.prove_ge(P(sub(n, e))):
                    w = fresh('s')
                    hi = subst(hi, {v: add(w, e)})
                    c1 = self.extend(ge(v, ZERO), lt(v, e))
                    c2 = self.extend(ge(w, ZERO), lt(w, sub(n, e)))
                    return add(self._simp_sum(v, e, canon(c1.simp(lo))), self._simp_sum(w, sub(n, e), canon(c2.simp(hi))))
        return mksum(v, n, body)

    def _simp_args(self, b):
        # simplify numeric/str arguments of the atom
        r = _rebuild(b, lambda a: self.simp(a) if a.sort != 'e' else a, self)
        if r is not b and r not in (TRUE, FALSE) and r.op not in ('and', 'or', 'not', 'ite', 'top'):
            v = self.atom_val(r)
            if v is not None:
                return Bc(v)
        return r

    def simp(self, t):
        if not isinstance(t, T):
            return t
        if t.sort == 'b':
            return self.simp_bool(t)
        r = self.memo.get(t)
        if r is not None:
            return r
        if t in self.eqs:
            r = self.eqs[t]
            self.memo[t] = r
            return r
        op = t.op
        if op in ('sym', 'bv', 'c', 'str', 'null', 'top', 'fun'):
            r = t
        elif op == 'ite':
            c = self.simp_bool(t.args[0])
            if c is TRUE:
                r = self.simp(t.args[1])
            elif c is FALSE:
                r = self.simp(t.args[2])
            else:
                r = ite(c, self.extend(c).simp(t.args[1]), self.extend(lnot(c)).simp(t.args[2]))
        elif op in ('sum', 'last', 'first', 'for', 'catf'):
            h, n = t.args[0], t.args[1]
            v = fresh('s')
            n2 = self.simp(n)
            c2 = self.extend(ge(v, ZERO), lt(v, n2))
            o = lambda x: c2.simp(subst(x, {bv(h): v}))
            if op == 'sum':
                r = self._simp_sum(v, n2, canon(o(t.args[2])))
            elif op == 'last':
                g = canon(o(t.args[2]))
                r = None
                for q in (g.args if g.op == 'and' else (g,)):
                    if q.op == 'eqz' and v in q.fv and not tm._isreal(P(q.args[0])) and solve_linear(P(q.args[0]), v) is None:
                        d = c2.solve_digits(P(q.args[0]), [v])
                        if d is not None:
                            # the guard holds for one value of the loop variable only
                            e = d[0][v]
                            rest = land(d[1], *[subst(x, {v: e}) for x in (g.args if g.op == 'and' else (g,)) if x is not q])
                            r = ite(land(ge(e, ZERO), lt(e, n2), rest), subst(t.args[3], {bv(h): e}), t.args[4])
                            r = self.simp(r)
                            break
                if r is None:
                    r = mklast(v, n2, g, canon(o(t.args[3])), self.simp(t.args[4]))
            elif op == 'first':
                r = mkfirst(v, n2, canon(o(t.args[2])))
            elif op == 'catf':
                r = mkcatf(v, n2, canon(o(t.args[2])))
            else:
                r = mkfor(v, n2, tuple(c2.simp(subst(x, {bv(h): v})) for x in t.args[2]))
        elif op == 'app' and t.args[0] == 'max0':
            a = self.simp(t.args[1])
            if self.prove_ge(P(a)):
                r = a
            elif self.prove_ge({m: -c for m, c in P(a).items()}):
                r = ZERO
            else:
                r = max0(a)
        elif op == 'st':
            g = self.simp_bool(t.args[0])
            c2 = self.extend(g)
            r = _mk('st', (g, tuple(self.simp(i) for i in t.args[1]), c2.simp(t.args[2])), 'e')
        else:
            r = _rebuild(t, self.simp, self)
            if r in self.eqs:
                r = self.eqs[r]
        self.memo[t] = r
        return r


def subst_t(t, m):
    """substitute arbitrary terms"""
    if not m:
        return t
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            r = x if x.op in ('sym', 'bv', 'c', 'str', 'true', 'false', 'null', 'top', 'fun') else _rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


def _occurs(a, b):
    return any(x is a for x in subterms(b))


def match(pat, t, var):
    """one-variable first-order matching; returns binding, True when var does not matter, None"""
    bind = [None]

    def go(p, x):
        if p is var:
            if bind[0] is None:
                bind[0] = x
                return True
            return bind[0] is x
        if var not in p.fv:
            return p is x
        if p.op == 'p' or (p.op in ('ge', 'eqz', 'gt')):
            pp = P(p.args[0]) if p.op != 'p' else P(p)
            if p.op != 'p' and p.op != x.op:
                return False
            xx = P(x.args[0]) if p.op != 'p' else P(x)
            # linear: c*var + rest == xx
            if bind[0] is not None:
                return subst(fromP(pp), {var: bind[0]}) is fromP(xx)
            c = pp.get(((var, 1),))
            if c is None:
                # try atoms containing var
                for m, cc in pp.items():
                    for a, e in m:
                        if var in a.fv:
                            for m2, c2 in xx.items():
                                for a2, e2 in m2:
                                    sv = bind[0]
                                    if a2.op == a.op and go(a, a2):
                                        if subst(fromP(pp), {var: bind[0]}) is fromP(xx):
                                            return True
                                    bind[0] = sv
                return False
            r = {k: v for k, v in pp.items() if k != ((var, 1),)}
            e = fromP({k: v / c for k, v in padd(xx, r, -1).items()})
            bind[0] = e
            return subst(fromP(pp), {var: e}) is fromP(xx)
        if not isinstance(x, T) or p.op != x.op or p.sort != x.sort or len(p.args) != len(x.args):
            return False
        if p.op in BINDERS:
            return False
        return goargs(p.args, x.args)

    def goargs(a, b):
        if len(a) != len(b):
            return False
        for p, x in zip(a, b):
            if isinstance(p, T):
                if not isinstance(x, T) or not go(p, x):
                    return False
            elif isinstance(p, tuple):
                if not isinstance(x, tuple) or not goargs(p, x):
                    return False
            elif p != x:
                return False
        return True
    if pat.op in ('and', 'or'):
        return None
    if go(pat, t):
        return bind[0] if bind[0] is not None else True
    return None


# ------------------------------------------------------------------ positivity
def _allpos(p):
    for m, c in p.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 and not nonneg_atom(a):
                return False
    return True


def _ints(p):
    """positive multiple of p with integer coefficients"""
    for c in p.values():
        if c.denominator != 1:
            break
    else:
        return {m: int(c) for m, c in p.items()}
    d = 1
    for c in p.values():
        d = d * c.denominator // math.gcd(d, c.denominator)
    return {m: int(c * d) for m, c in p.items()}


def _iadd(p, q, k=1):
    d = dict(p)
    for m, c in q.items():
        v = d.get(m, 0) + c * k
        if v:
            d[m] = v
        else:
            d.pop(m, None)
    return d


def _imul(p, q):
    d = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = tm._mmul(m1, m2) if m1 and m2 else (m1 or m2)
            v = d.get(m, 0) + c1 * c2
            if v:
                d[m] = v
            else:
                d.pop(m, None)
    return d


_pcount = [0]
BUDGET = 250


def _evalp(p, s):
    r = 0
    for m, c in p.items():
        for a, e in m:
            v = s.get(a)
            if v is None:
                return None
            c = c * v ** e
        r += c
    return r


def atoms_of(ps):
    return {a for p in ps for m in p for a, e in m}


def _repair(s, polys, atoms, rng, steps=40):
    """move the point s into the set described by polys"""
    by = {}
    for i, q in enumerate(polys):
        for a in {a for m in q for a, e in m}:
            by.setdefault(a, []).append(i)
    vals = [_evalp(q, s) for q in polys]
    for _ in range(steps):
        bad = [i for i, v in enumerate(vals) if v < 0]
        if not bad:
            return True
        q = polys[rng.choice(bad)]
        vs = [a for m in q for a, e in m]
        if not vs:
            return False
        best = None
        for a in dict.fromkeys(vs):
            old = s[a]
            idx = by[a]
            was = sum(min(0, vals[i]) for i in idx)
            for d in (1, -1, 2, -2, 4, -4, rng.randint(-9, 9)):
                nv = old + d
                if nv < 0 and nonneg_atom(a):
                    continue
                s[a] = nv
                sc = sum(min(0, _evalp(polys[i], s)) for i in idx) - was
                if best is None or sc > best[0]:
                    best = (sc, a, nv)
            s[a] = old
        if best is None:
            return False
        if best[0] <= 0 and rng.random() < 0.5:
            a = rng.choice(vs)
            s[a] = rng.randint(0, 8)
        else:
            a = best[1]
            s[a] = best[2]
        for i in by[a]:
            vals[i] = _evalp(polys[i], s)
    return not any(v < 0 for v in vals)


def find_samples(polys, old, want=5):
    """points that satisfy polys; groups of facts without a common atom are looked at separately"""
    polys = [q for q in polys if any(q)]
    owner, groups = {}, []
    for q in polys:
        at = {a for m in q for a, e in m}
        hit = []
        for a in at:
            g = owner.get(a)
            if g is not None and g not in hit:
                hit.append(g)
        if hit:
            g = hit[0]
            for h in hit[1:]:
                groups[g][0].extend(groups[h][0])
                groups[g][1].update(groups[h][1])
                for a in groups[h][1]:
                    owner[a] = g
                groups[h] = ([], set())
        else:
            g = len(groups)
            groups.append(([], set()))
        groups[g][0].append(q)
        groups[g][1].update(at)
        for a in at:
            owner[a] = g
    parts = []
    for qs, at in groups:
        if qs:
            r = _group_samples(qs, at, old, want)
            if not r:
                return []
            parts.append(r)
    if not parts:
        return [{}]
    out = []
    for k in range(max(len(r) for r in parts)):
        c = {}
        for r in parts:
            c.update(r[k % len(r)])
        out.append(c)
    return out


_samplecache = {}


def _group_samples(polys, atoms, old, want):
    key = frozenset(frozenset(q.items()) for q in polys)
    r = _samplecache.get(key)
    if r is not None:
        return r
    rng = random.Random(len(polys) * 7919 + len(old))
    atoms = sorted(atoms, key=lambda a: a.id)
    out = []
    for s in old:
        miss = [a for a in atoms if a not in s]
        if len(miss) == len(atoms):
            continue
        ok = False
        for _ in range(2):
            c = {a: s[a] for a in atoms if a in s}
            for a in miss:
                c[a] = rng.randint(0, 5)
            if _repair(c, polys, miss or atoms, rng, 12):
                ok = True
                break
        if ok:
            out.append(c)
    k = 0
    while len(out) < want and k < 6:
        k += 1
        hi = rng.choice([3, 6, 12])
        c = {a: rng.randint(0, hi) for a in atoms}
        if _repair(c, polys, atoms, rng, 40):
            out.append(c)
    if len(_samplecache) > 20000:
        _samplecache.clear()
    _samplecache[key] = out
    return out


def _prove(p, facts, samples=()):
    if _allpos(p):
        return True
    atoms = {a for m in p for a, e in m}
    known = None
    for s in samples:
        miss = [a for a in atoms if a not in s]
        if miss:
            # atoms no fact constrains
            if known is None:
                known = atoms_of(facts)
            s = dict(s)
            for a in miss:
                if a not in known:
                    s[a] = 3
        v = _evalp(p, s)
        if v is not None and v < 0:
            return False
        if miss:
            for a in miss:
                if a not in known:
                    s[a] = 0 if nonneg_atom(a) else -5
            v = _evalp(p, s)
            if v is not None and v < 0:
                return False
    # relevant facts: connected by atoms
    rel = []
    left = list(facts)
    ch = True
    while ch:
        ch = False
        for q in list(left):
            qa = {a for m in q for a, e in m}
            if qa & atoms:
                rel.append(q)
                left.remove(q)
                if len(rel) < 24:
                    n = len(atoms)
                    atoms |= qa
                    ch = True
    if _linear(p, rel):
        return True
    _pcount[0] = 0
    if _vertex(p, rel):
        return True
    _pcount[0] = 0
    return _elim(p, rel, 0)


def _bounds(facts):
    """atom -> (lower bounds, upper bounds)"""
    out = {}
    for q in facts:
        for v, e, s in _lower(q):
            out.setdefault(v, ([], []))[0 if s > 0 else 1].append(e)
    return out


def _vertex(p, facts):
    """a polynomial affine in v is minimal at a bound of v: replace v by the
    bound its coefficient's sign selects, until nothing negative is left"""
    bnd = _bounds(facts)
    tried = set()
    nn = set()

    def pos(q):
        for m, c in q.items():
            if c < 0:
                return False
            for a, e in m:
                if e % 2 and a not in nn and not nonneg_atom(a):
                    return False
        return True
    ch = True
    while ch:
        ch = False
        for v, (lo, hi) in bnd.items():
            if v not in nn and any(pos(e) for e in lo):
                nn.add(v)
                ch = True

    def sign(a, done):
        if pos(a):
            return 1
        na = {m: -c for m, c in a.items()}
        if pos(na):
            return -1
        return 0

    def go(p, done, depth):
        if pos(p):
            return True
        key = (frozenset(p.items()), done)
        if key in tried or depth > 12:
            return False
        tried.add(key)
        _pcount[0] += 1
        if _pcount[0] > BUDGET:
            return False
        moves = []
        for v in {a for m in p for a, e in m}:
            if v in done:
                continue
            A = {}
            ok = True
            for m, c in p.items():
                for a, e in m:
                    if a is v:
                        if e != 1:
                            ok = False
                        A[tuple(x for x in m if x[0] is not v)] = c
                    elif v in a.fv:
                        ok = False
            if not ok:
                continue
            s = sign(A, done)
            if not s:
                continue
            lo, hi = bnd.get(v, ((), ()))
            cand = list(lo if s > 0 else hi)
            if s > 0 and (nonneg_atom(v) or v in nn) and {} not in cand:
                cand.append({})
            for e in cand:
                if any(a in done for m in e for a, _ in m):
                    continue
                moves.append((s, len(e), v, e))
        # atoms that need an upper bound first
        moves.sort(key=lambda x: (x[0], -x[1], x[2].id))
        for s, _, v, e in moves:
            if go(_sub1(p, v, e), done | {v}, depth + 1):
                return True
            if _pcount[0] > BUDGET:
                return False
        return False
    return go(p, frozenset(), 0)


def _linear(p, facts):
    """p = sum of at most two facts (+ nonneg remainder)"""
    for i, q in enumerate(facts):
        d = _iadd(p, q, -1)
        if _allpos(d):
            return True
    if len(facts) <= 14:
        for i, q in enumerate(facts):
            d1 = _iadd(p, q, -1)
            for r in facts[i:]:
                if _allpos(_iadd(d1, r, -1)):
                    return True
    return False


def _lower(q):
    """fact q>=0 usable as lower bound of atom v: v >= e; yields (v, e poly, sign)"""
    for m, c in q.items():
        if len(m) == 1 and m[0][1] == 1:
            v = m[0][0]
            if v.sort == 'sl':
                continue
            ok = True
            for m2 in q:
                if m2 != m and any(a is v or v in a.fv for a, e in m2):
                    ok = False
            if not ok:
                continue
            k = abs(c)
            if k != 1:
                if any(x % k for x in q.values()):
                    continue
            rest = {m2: -x // k for m2, x in q.items() if m2 != m}
            if c > 0:
                yield v, rest, 1
            else:
                yield v, {m2: -x for m2, x in rest.items()}, -1


def _sub1(p, v, rep):
    d = {}
    for m, c in p.items():
        e = 0
        for a, ee in m:
            if a is v:
                e = ee
        if e == 0:
            x = d.get(m, 0) + c
            if x:
                d[m] = x
            else:
                d.pop(m, None)
            continue
        q = {tuple(x for x in m if x[0] is not v): c}
        for _ in range(e):
            q = _imul(q, rep)
        for m2, c2 in q.items():
            x = d.get(m2, 0) + c2
            if x:
                d[m2] = x
            else:
                d.pop(m2, None)
    return d


_slk = {}


def _slack(i):
    if i not in _slk:
        _slk[i] = sym('slack%d' % i, 'sl')
    return _slk[i]


def _elim(p, facts, depth):
    _pcount[0] += 1
    if _pcount[0] > BUDGET:
        return False
    if _allpos(p):
        return True
    if depth > 9:
        return False
    pa = {a for m in p for a, e in m}
    cand = []
    for i, q in enumerate(facts):
        for v, e, s in _lower(q):
            if v in pa:
                cand.append((s, len(e), i, v, e))
    # atoms that occur in a negative monomial want an upper bound, others a lower bound
    cand.sort(key=lambda x: (-x[0], 0 if any(x[4]) else 1, x[1]))
    seen = set()
    for s, _, i, v, e in cand:
        if s == -1 and (v, 1) in seen:
            continue
        seen.add((v, s))
        sl = _slack(depth)
        rep = _iadd(e, {((sl, 1),): 1}, s)
        nf = []
        dead = False
        for j, q in enumerate(facts):
            if j != i:
                nq = _sub1(q, v, rep)
                if nq and not _allpos(nq):
                    nf.append(nq)
        if _elim(_sub1(p, v, rep), nf, depth + 1):
            return True
        if _pcount[0] > BUDGET:
            return False
    return False


# ------------------------------------------------------------------ lifting / comparison
def first_cond(t, seen=None):
    """an ite condition atom outside binders, or for bool terms an atom"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(reversed(x))
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.sort == 'b':
            a = first_atom(x)
            if a is not None:
                return a
            continue
        if x.op == 'ite':
            a = first_atom(x.args[0])
            if a is not None:
                return a
        if x.op in BINDERS:
            # only the parts outside the scope
            if x.op == 'last':
                st.append(x.args[4])
            if x.op == 'fold':
                st.append(x.args[3])
            if x.op != 'lam':
                st.append(x.args[1])
            continue
        st.extend(reversed([a for a in x.args if isinstance(a, (T, tuple))]))
    return None


def first_atom(b):
    if b in (TRUE, FALSE) or b.op == 'top':
        return None
    if b.op == 'not':
        return first_atom(b.args[0])
    if b.op in ('and', 'or', 'ite'):
        for x in b.args:
            a = first_atom(x)
            if a is not None:
                return a
        return None
    # nested ite inside atom arguments
    for x in b.args:
        if isinstance(x, T) and b.op not in BINDERS:
            a = first_cond(x)
            if a is not None:
                return a
    return b


def _min_atom(t):
    """smallest-id atom for canonical splitting"""
    best = None
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op in BINDERS:
            if x.sort == 'b' and (best is None or x.id < best.id):
                best = x
            continue
        if x.sort == 'b' and x.op not in ('and', 'or', 'not', 'ite', 'true', 'false', 'top'):
            if first_cond(x) is x or first_atom(x) is x:
                if best is None or x.id < best.id:
                    best = x
                continue
        st.extend([a for a in x.args if isinstance(a, (T, tuple))])
    return best


def _assign(t, a, val):
    return subst_t(t, {a: Bc(val)})


def canon(t, budget=60):
    """Shannon normal form (bounded)"""
    n = [budget]

    def go(t):
        a = _min_atom(t)
        if a is None or n[0] <= 0:
            return t
        n[0] -= 1
        x, y = go(_assign(t, a, True)), go(_assign(t, a, False))
        return ite(a, x, y)
    r = go(t)
    return t if n[0] <= 0 else r


class Diff:
    def __init__(self, kind, a, b, ctx, why=''):
        self.kind = kind      # 'diff' | 'unknown'
        self.a = a
        self.b = b
        self.ctx = ctx
        self.why = why
        self.witness = None


def compare(a, b, ctx, budget=4000):
    """[] when proved equal under ctx, else list of undecided leaves (Diff)"""
    n = [budget]
    out = []
    ctx = ctx.extend()

    def go(a, b, ctx, depth):
        if a is b:
            return
        ctx.saturate()
        if ctx.dead:
            return
        if len(out) > 12:
            return
        n[0] -= 1
        if n[0] < 0:
            out.append(Diff('unknown', a, b, ctx, 'budget'))
            return
        a = ctx.simp(a)
        b = ctx.simp(b)
        if a is b:
            return
        if a.op == 'struct' and b.op == 'struct' and a.args[0] == b.args[0]:
            for (n1, x), (n2, y) in zip(a.args[1], b.args[1]):
                if n1 != n2:
                    out.append(Diff('unknown', a, b, ctx, 'fields'))
                    return
                go(x, y, ctx, depth)
            return
        c = first_cond(_mk('pairx', (a, b), 'x'))
        if c is not None and depth < 60:
            v = ctx.simp_bool(c)
            if v in (TRUE, FALSE):
                go(subst_t(a, {c: v}), subst_t(b, {c: v}), ctx, depth + 1)
                return
            for val in (True, False):
                lit = c if val else lnot(c)
                c2 = ctx.extend(lit)
                if c2.dead or _infeasible(c2):
                    continue
                go(_assign(a, c, val), _assign(b, c, val), c2, depth + 1)
            return
        if a.sort == 'v' and b.sort == 'v' and (a.op == 'vec' or b.op == 'vec'):
            go(vlen(a), vlen(b), ctx, depth)
            i = fresh('i')
            c2 = ctx.extend(ge(i, ZERO), lt(i, ctx.simp(vlen(a))))
            if not c2.dead:
                s = elem_sort(varr(a)) or elem_sort(varr(b)) or 'o'
                go(sel(varr(a), (i,), s, c2), sel(varr(b), (i,), s, c2), c2, depth)
            return
        if a.op in ('sum', 'last', 'first', 'catf', 'ex') and a.op == b.op:
            # same range, bodies equal pointwise
            h1, h2 = a.args[0], b.args[0]
            v = fresh('u')
            na, nb = a.args[1], b.args[1]
            if na is nb or not compare(na, nb, ctx, 50):
                c2 = ctx.extend(ge(v, ZERO), lt(v, na))
                k = len(out)
                for x, y in zip(a.args[2:], b.args[2:]):
                    if a.op == 'last' and x is a.args[4]:
                        break
                    go(subst(x, {bv(h1): v}), subst(y, {bv(h2): v}), c2, depth)
                if a.op == 'last':
                    go(a.args[4], b.args[4], ctx, depth)
                if len(out) == k:
                    return
                del out[k:]
        out.append(Diff('diff', a, b, ctx))
    go(a, b, ctx, 0)
    return out


def _infeasible(ctx):
    """cheap contradiction check of the newest literal against the linear facts"""
    if not ctx.lits:
        return False
    l = ctx.lits[-1]
    base = Ctx(ctx.lits[:-1])
    base.eqs = ctx.eqs
    r = base.simp_bool(l)
    return r is FALSE


def elem_sort(arr):
    for x in subterms(arr):
        if x.op == 'st':
            return x.args[2].sort
        if x.op == 'fill':
            return x.args[0].sort
    return None


# ------------------------------------------------------------------ valuations
STR_POOL = ['', 'a', 'b', 'HOMO', 'ab.log', 'x/y.pun', ' a b ', '-f', '--flag', '1', '2.5', 'aa']


class Env:
    def __init__(self, seed, pools):
        self.seed = seed
        self.ov = {}
        self.touched = []
        self.pools = pools
        self.memo = {}

    def rnd(self, key, sort):
        if key in self.ov:
            self.touched.append((key, sort))
            return self.ov[key]
        r = random.Random('%s|%r' % (self.seed, key))
        v = self.draw(r, sort, key)
        self.ov[key] = v
        self.touched.append((key, sort))
        return v

    def draw(self, r, sort, key):
        if sort == 'i' or sort == 'sl':
            if isinstance(key, tuple) and len(key) > 2 and key[0] == 'fld' and key[2] == '#len':
                return Q(r.choice([0, 1, 1, 2, 2, 3, 3, 4]))
            x = r.random()
            if x < 0.25 and self.pools['i']:
                return Q(r.choice(self.pools['i']))
            return Q(r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, -1, -2]))
        if sort == 'r':
            x = r.random()
            if x < 0.2 and self.pools['i']:
                return Q(r.choice(self.pools['i']))
            return Q(r.randint(-40, 40), r.choice([1, 3, 7, 8]))
        if sort == 'b':
            return r.random() < 0.5
        if sort == 's':
            p = self.pools['s']
            x = r.random()
            if p and x < 0.7:
                s = r.choice(p)
                y = r.random()
                if y < 0.15:
                    s = s + r.choice(p)
                elif y < 0.2:
                    s = s[1:]
                return s
            return r.choice(STR_POOL) if x < 0.9 else ''.join(r.choice('ab ./-1') for _ in range(r.randint(0, 5)))
        return ('u',) + (key,)


def pools_of(*ts):
    ints = set()
    strs = set()
    for t in ts:
        for x in subterms(t):
            if x.op == 'str':
                strs.add(x.args[0])
            elif x.op in ('ge', 'eqz', 'gt', 'c'):
                if x.op == 'c':
                    ints.add(x.args[0])
                else:
                    p = P(x.args[0])
                    c = p.get((), 0)
                    for m, k in p.items():
                        if len(m) == 1 and k != 0:
                            ints.add(-c / k)
                            ints.add(-c / k + 1)
                            ints.add(-c / k - 1)
    return {'i': sorted(x for x in ints if abs(x) < 1000 and Q(x).denominator == 1)[:60], 's': sorted(strs)[:60]}


class Stop(Exception):
    pass


def ev(t, env, b=None):
    """evaluate; b: bound var values {height: value}"""
    if b is None:
        b = {}
    return _ev(t, env, b)


_budget = [0]


def _ev(t, env, b):
    op = t.op
    A = t.args
    if op == 'c' or op == 'str':
        return A[0]
    if op == 'bv':
        return b[A[0]]
    closed = not any(v.op == 'bv' for v in t.fv)
    if closed:
        r = env.memo.get(t)
        if r is not None:
            return r
    _budget[0] -= 1
    if _budget[0] < 0:
        raise Stop()
    r = _ev1(t, env, b)
    if closed:
        env.memo[t] = r
    return r


def _ev1(t, env, b):
    op = t.op
    A = t.args
    if op == 'p':
        s = Q(0)
        for m, c in A:
            v = c
            for a, e in m:
                x = _ev(a, env, b)
                if isinstance(x, bool):
                    x = Q(int(x))
                v = v * x ** e
            s += v
        return s
    if op == 'sym':
        return env.rnd(('sym', A[0]), t.sort)
    if op == 'true':
        return True
    if op == 'false':
        return False
    if op == 'not':
        return not _ev(A[0], env, b)
    if op == 'and':
        return all(_ev(x, env, b) for x in A)
    if op == 'or':
        return any(_ev(x, env, b) for x in A)
    if op == 'ge':
        return _ev(A[0], env, b) >= 0
    if op == 'gt':
        return _ev(A[0], env, b) > 0
    if op == 'eqz':
        return _ev(A[0], env, b) == 0
    if op == 'eq':
        return _ev(A[0], env, b) == _ev(A[1], env, b)
    if op == 'ite':
        return _ev(A[1] if _ev(A[0], env, b) else A[2], env, b)
    if op == 'inv':
        x = _ev(A[0], env, b)
        if x == 0:
            raise EvalUndef()
        return 1 / x
    if op == 'cat':
        return ''.join(_ev(x, env, b) for x in A)
    if op == 'top':
        raise TopEncountered(A[0])
    if op == 'null':
        return ('null',)
    if op == 'fun':
        return ('fun',) + tuple(str(a) for a in A)
    if op == 'app':
        args = tuple(_ev(x, env, b) if isinstance(x, T) else x for x in A[1:])
        f = FOLD.get(A[0])
        if f is not None:
            return f(*args)
        if A[0] == 'num':
            return tm.num_text(env.seed, args)
        return env.rnd(('app', A[0], args), t.sort)
    if op == 'fld':
        x = _ev(A[0], env, b)
        if isinstance(x, tuple) and x and x[0] == 'struct':
            for n, v in x[2]:
                if n == A[1]:
                    return v
        if isinstance(x, tuple) and x and x[0] == 'vecv':
            return x[1] if A[1] == '#len' else ('arrof', x)
        return env.rnd(('fld', x, A[1]), t.sort)
    if op == 'struct':
        return ('struct', A[0], tuple((n, _ev(v, env, b)) for n, v in A[1]))
    if op == 'ptr':
        return ('ptr',) + tuple(_evkey(a, env, b) for a in A)
    if op == 'vec':
        n = _ev(A[0], env, b)
        if n > 200:
            raise Stop()
        s = elem_sort(A[1]) or 'o'
        return ('vecv', n, tuple(_read(A[1], (Q(i),), s, env, b) for i in range(int(n))))
    if op == 'asel':
        return _read(A[0], tuple(_ev(i, env, b) for i in A[1:]), t.sort, env, b)
    if op in ('ex', 'sum', 'last', 'first', 'catf', 'fold'):
        h = A[0]
        n = _ev(A[1], env, b)
        if n > 400:
            raise Stop()
        n = max(0, int(n))
        bb = dict(b)
        if op == 'ex':
            for i in range(n):
                bb[h] = Q(i)
                if _ev(A[2], env, bb):
                    return True
            return False
        if op == 'sum':
            s = Q(0)
            for i in range(n):
                bb[h] = Q(i)
                x = _ev(A[2], env, bb)
                s += int(x) if isinstance(x, bool) else x
            return s
        if op == 'catf':
            s = ''
            for i in range(n):
                bb[h] = Q(i)
                s += _ev(A[2], env, bb)
            return s
        if op == 'first':
            for i in range(n):
                bb[h] = Q(i)
                if _ev(A[2], env, bb):
                    return Q(i)
            return Q(n)
        if op == 'last':
            for i in reversed(range(n)):
                bb[h] = Q(i)
                if _ev(A[2], env, bb):
                    return _ev(A[3], env, bb)
            return _ev(A[4], env, b)
        acc = _ev(A[3], env, b)
        for i in range(n):
            bb[h] = Q(i)
            bb[-h] = acc
            acc = _ev(A[2], env, bb)
        return acc
    if t.sort == 'a':
        return ('arr', t) if op in ('fill', 'upd') else ('sym', A)
    if op == 'lam':
        return ('lam', t)
    raise AssertionError('ev ' + op)


def _evkey(a, env, b):
    if isinstance(a, T):
        return _ev(a, env, b)
    if isinstance(a, tuple):
        return tuple(_evkey(x, env, b) for x in a)
    return a


def _read(arr, idx, sort, env, b):
    _budget[0] -= 1
    if _budget[0] < 0:
        raise Stop()
    op = arr.op
    if op == 'fill':
        return _ev(arr.args[0], env, b)
    if op == 'ite':
        return _read(arr.args[1] if _ev(arr.args[0], env, b) else arr.args[2], idx, sort, env, b)
    if op == 'upd':
        for e in reversed(arr.args[1]):
            r = _readeff(e, idx, env, b)
            if r is not None:
                return r[0]
        return _read(arr.args[0], idx, sort, env, b)
    if op == 'top':
        raise TopEncountered(arr.args[0])
    key = _ev(arr, env, b)
    if isinstance(key, tuple) and key and key[0] == 'arrof':
        v = key[1]
        if idx[0] < 0 or idx[0] >= v[1]:
            raise EvalUndef()
        return v[2][int(idx[0])]
    if isinstance(key, tuple) and key and key[0] == 'arr':
        return _read(key[1], idx, sort, env, b)
    return env.rnd(('sel', key, idx), sort)


def _readeff(e, idx, env, b):
    if e.op == 'st':
        g, ix, v = e.args
        if tuple(_ev(i, env, b) for i in ix) == idx and _ev(g, env, b):
            return (_ev(v, env, b),)
        return None
    h, n, effs = e.args
    n = _ev(n, env, b)
    if n > 400:
        raise Stop()
    bb = dict(b)
    for i in reversed(range(max(0, int(n)))):
        bb[h] = Q(i)
        for x in reversed(effs):
            r = _readeff(x, idx, env, bb)
            if r is not None:
                return r
    return None


def separate(a, b, ctx, seed=1, tries=400, extra=()):
    """valuation satisfying ctx under which a and b differ -> description dict or None"""
    lits = list(ctx.lits)
    pools = pools_of(a, b, *lits)
    rng = random.Random(seed)
    for k in range(tries):
        env = Env('%d.%d' % (seed, k), pools)
        ok = _satisfy(env, lits, rng, 60)
        if not ok:
            continue
        try:
            _budget[0] = 60000
            env.memo = {}
            x = ev(a, env)
            y = ev(b, env)
        except (TopEncountered, EvalUndef, Stop, OverflowError, ZeroDivisionError):
            continue
        if x != y:
            # the evaluation itself may have drawn new values: facts still hold (they were drawn before)
            return {'values': {_key(k2): _val(v) for k2, v in list(env.ov.items())[:40]}, 'code': _val(x), 'spec': _val(y)}
    return None


def satisfiable(ctx, seed=1, tries=200):
    rng = random.Random(seed)
    pools = pools_of(*ctx.lits)
    for k in range(tries):
        env = Env('%d.%d' % (seed, k), pools)
        if _satisfy(env, ctx.lits, rng, 80):
            return {_key(k2): _val(v) for k2, v in list(env.ov.items())[:40]}
    return None


def _is_range(l):
    """a type limit for a converted text"""
    l = l.args[0] if l.op == 'not' else l
    if l.op != 'ge':
        return False
    at = [a for m, c in P(l.args[0]) .items() for a, e in m]
    return any(a.op == 'sym' and isinstance(a.args[0], tuple) and a.args[0][0] == 'limit' for a in at) and \
        all(a.op == 'sym' or a.op == 'app' and a.args[0] in ('stoi', 'stod') for a in at)


def _satisfy(env, lits, rng, steps):
    for s in range(steps):
        bad = None
        for l in lits:
            try:
                _budget[0] = 20000
                env.memo = {}
                env.touched = []
                if not ev(l, env):
                    bad = l
            except EvalUndef:
                # the range of a number is said of those texts only that are numbers
                if not _is_range(l):
                    bad = l
            except (OverflowError, ZeroDivisionError):
                bad = l
            except (TopEncountered, Stop):
                return False
            if bad is not None:
                break
        if bad is None:
            return True
        if not env.touched:
            return False
        key, sort = rng.choice(env.touched)
        # structured repair for equalities
        if bad.op == 'eq' and rng.random() < 0.7:
            x, y = bad.args
            for u, w in ((x, y), (y, x)):
                if u.op == 'sym' or u.op == 'fld' or u.op == 'asel':
                    try:
                        env.memo = {}
                        val = ev(w, env)
                        env.memo = {}
                        env.touched = []
                        ev(u, env)
                        if env.touched:
                            env.ov[env.touched[-1][0]] = val
                            break
                    except Exception:
                        pass
            continue
        env.ov[key] = env.draw(rng, sort, key)
    return False


def _key(k):
    if isinstance(k, tuple):
        if k and k[0] == 'sym' and len(k) == 2:
            return str(k[1]) if not isinstance(k[1], tuple) else '.'.join(map(str, k[1]))
        if k and k[0] == 'fld':
            return '%s.%s' % (_key(k[1]), k[2])
        if k and k[0] == 'sel':
            return '%s[%s]' % (_key(k[1]), ','.join(_val(x) for x in k[2]))
        if k and k[0] == 'u':
            return _key(k[1])
        return '(' + ','.join(_key(x) for x in k) + ')'
    return str(k)


def _val(v):
    if isinstance(v, Q):
        return str(v)
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'u':
            return _key(v[1])
        return '(' + ','.join(_val(x) for x in v) + ')'
    return repr(v)


def _holds_in(ctx, x):
    if x.op == 'and':
        return all(_holds_in(ctx, y) for y in x.args)
    return x in ctx.true


def by_cases(test, ctx, budget=48):
    """test(leaf) for every leaf of a case split over the disjunctive facts of ctx"""
    left = [budget]

    def go(c, depth):
        left[0] -= 1
        if left[0] < 0:
            return False
        c.saturate()
        if c.dead or c.impossible():
            return True
        if test(c):
            return True
        if depth == 0:
            return False
        pick = None
        for l in c.lits:
            if l.op == 'or' and not any(_holds_in(c, x) for x in l.args):
                if pick is None or len(l.args) < len(pick.args):
                    pick = l
        if pick is None:
            return False
        for x in pick.args:
            if not go(c.extend(x), depth - 1):
                return False
        return True
    if not any(l.op == 'or' for l in ctx.lits):
        return False
    return go(ctx.extend(), 6)


def prove_or_refute(cond, ctx, seed=1):
    """('proved',None) | ('refuted',valuation) | ('unknown',why)   for a bool term under ctx"""
    d = compare(cond, TRUE, ctx)
    if not d or by_cases(lambda c: not compare(cond, TRUE, c), ctx):
        return 'proved', None
    for x in d:
        w = separate(x.a, x.b, x.ctx, seed)
        if w is not None:
            return 'refuted', w
    w = separate(cond, TRUE, ctx, seed)
    if w is not None:
        return 'refuted', w
    t = has_top(cond)
    return 'unknown', t.args[0] if t is not None else 'not decided'


def equal_or_refute(a, b, ctx, seed=1):
    d = compare(a, b, ctx)
    if not d or by_cases(lambda c: not compare(a, b, c), ctx):
        return 'proved', None
    for x in d:
        w = separate(x.a, x.b, x.ctx, seed)
        if w is not None:
            return 'refuted', w
    w = separate(a, b, ctx, seed)
    if w is not None:
        return 'refuted', w
    t = has_top(a) or has_top(b)
    return 'unknown', t.args[0] if t is not None else 'not decided: %s vs %s' % (show(d[0].a)[:200], show(d[0].b)[:200])
