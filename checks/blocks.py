"""Reordering of atom blocks: every match of few atoms, blocks of any size, arbitrary matrix contents."""
from itertools import permutations
from sa.terms import *
from sa.lab import Lab
from sa.engine import LV, loc, Dead
from sa.report import Vanished
from checks.matrix import where, total


def ints(*xs):
    a = fill(ZERO)
    for i, x in enumerate(xs):
        a = store(a, (C(i),), x if isinstance(x, T) else C(x))
    return vec(C(len(xs)), a)


def offsets(sizes):
    out, o = [], ZERO
    for s in sizes:
        out.append(o)
        o = add(o, s)
    return out, o


def c20(c):
    c.rules.append('block k of the result is the block of the atom that position k is matched with')
    R = sym('R')

    def overload(name, n):
        fs = [f for f in c.prog.by_qname.get(name, []) if len(f.params) == n and f.body]
        if not fs:
            raise Vanished('function %s of %d arguments' % (name, n))
        c.functions.add(name)
        return fs[0]

    def call(lab, f, args):
        e = lab.e
        n0, v0 = len(e.exits), len(e.events)
        r, ok = lab.run(f, None, [e.temp(a) if isinstance(a, T) and a.sort == 'v' else a for a in args])
        return (lab.val(r) if ok else None), ok, e.exits[n0:], v0

    def reorder(name, match, split, both, atoms=None, sizes=None):
        """match: where each position's atom is now, split: number of positions of the first unit (None: one list)"""
        n = len(match)
        na = atoms or n
        txt = ' '.join(map(str, match[:split or n])) + (' | ' + ' '.join(map(str, match[split:])) if split is not None else '')
        nm = '%s, match %s%s%s' % (name, txt, ' of %d' % atoms if atoms else '', ', sizes %s' % ' '.join(map(str, sizes)) if sizes else '')

        def go():
            b = [C(x) for x in sizes] if sizes else [sym('b%d' % i) for i in range(1, na + 1)]
            rng = [ge(x, ONE) for x in b + [R] if x.op == 'sym']
            lab = Lab(c, rng)
            e = lab.e
            off, tot = offsets(b)
            m = lab.matrix('M', tot if both else R, tot, ONE)
            lists = [ints(*match)] if split is None else [ints(*match[:split]), ints(*match[split:])]
            f = overload(name, len(lists) + 2)
            r, ok, exits, v0 = call(lab, f, lists + [ints(*b), e.ptr_of(m)])
            w = where(f)
            for x in exits:
                c.never('%s: accepted' % nm, loc(x.node), e.ctx_of(x.pc))
            if not ok:
                return c.holds('%s: accepted' % nm, w, FALSE, lab.ctx())
            lab.accesses(nm, v0)
            out = e.lv_of_ptr(r, 'Matrix')
            for what, x, y in zip(('rows', 'columns', 'shelves'), lab.dims(out), (tot if both else R, tot, ONE)):
                c.equal('%s: %s' % (nm, what), w, x, y, lab.ctx())
            nb = [b[k - 1] for k in match]
            noff, _ = offsets(nb)
            i, j = sym('i'), sym('j')
            for l in range(n):
                for k in range(n if both else 1):
                    # every place of a block of given size, any place of a block of any size
                    for ik in range(1, sizes[match[k] - 1] + 1) if sizes and both else (i,):
                        for jl in range(1, sizes[match[l] - 1] + 1) if sizes else (j,):
                            ii, jj = (x if isinstance(x, T) else C(x) for x in (ik, jl))
                            facts = [ge(jj, ONE), le(jj, nb[l]), ge(ii, ONE), le(ii, nb[k] if both else R)]
                            saved = e.st
                            e.st = saved.fork(*facts)
                            ri = add(noff[k], ii) if both else ii
                            oi = add(off[match[k] - 1], ii) if both else ii
                            got = lab.get(out, ri, add(noff[l], jj))
                            want = lab.get(m, oi, add(off[match[l] - 1], jj))
                            c.equal('%s: block %s' % (nm, (k + 1, l + 1) if both else l + 1), w, got, want, e.ctx())
                            e.st = saved
            # the matrix given stays as it was
            saved = e.st
            e.st = saved.fork(ge(i, ONE), le(i, tot if both else R), ge(j, ONE), le(j, tot))
            now = lab.get(m, i, j)
            e.st = saved
            l2 = Lab(c, rng)
            m2 = l2.matrix('M', tot if both else R, tot, ONE)
            l2.e.st = l2.e.st.fork(ge(i, ONE), le(i, tot if both else R), ge(j, ONE), le(j, tot))
            c.equal('%s: the matrix given stays' % nm, w, now, l2.get(m2, i, j), l2.e.ctx())
        c.group(nm, go)

    deep = c.tier == 'thorough'
    for n in range(1, 5 if deep else 4):
        for p in permutations(range(1, n + 1)):
            reorder('unscramble_Coef', p, None, False)
            for k in range(1, n):
                reorder('unscramble_Coef', p, k, False)
    if not deep:
        for p in permutations(range(1, 5)):
            if all(p[i] != i + 1 for i in range(4)):
                reorder('unscramble_Coef', p, None, False, sizes=(2, 1, 3, 2))
                reorder('unscramble_Coef', p, 2, False, sizes=(2, 1, 3, 2))
                reorder('unscramble_Coef', p, 1, False, sizes=(2, 1, 3, 2))
    for n in (1, 2):
        for p in permutations(range(1, n + 1)):
            if p != (2, 1) or deep:
                reorder('unscramble_S', p, None, True)
                for k in range(1, n):
                    reorder('unscramble_S', p, k, True)
    for p in permutations(range(1, 4)):
        for k in (None, 1, 2):
            reorder('unscramble_S', p, k, True, sizes=(2, 1, 3))
    # fewer positions than atoms: what is matched goes where it belongs
    for p in permutations(range(1, 4), 2):
        reorder('unscramble_Coef', p, None, False, 3)
        reorder('unscramble_S', p, None, True, 3, sizes=(2, 1, 3))

    def refusal(name, k1, k2, n):
        """k1, k2 matched positions, n atoms"""
        nm = '%s, %s positions, %d atoms' % (name, k1 if k2 is None else '%d + %d' % (k1, k2), n)

        def go():
            b = [sym('b%d' % i) for i in range(1, n + 1)]
            W = sym('W')
            ms = [sym('m%d' % i) for i in range(k1 + (k2 or 0))]
            lab = Lab(c, [ge(x, ONE) for x in b + [R, W]])
            e = lab.e
            m = lab.matrix('M', W if name == 'unscramble_S' else R, W, ONE)
            tot = offsets(b)[1]
            lists = [ints(*ms[:k1])] + ([ints(*ms[k1:])] if k2 is not None else [])
            f = overload(name, len(lists) + 2)
            bad = lor(ne(tot, W), *[lor(lt(x, ONE), gt(x, C(n))) for x in ms], *[eq(x, y) for q, x in enumerate(ms) for y in ms[:q]])
            r, ok, exits, v0 = call(lab, f, lists + [ints(*b), e.ptr_of(m)])
            # that everything else is accepted is decided above, match by match
            if ok:
                c.never('%s: refuses what does not fit' % nm, where(f), e.ctx().extend(bad))
        c.group(nm, go)
    for name in ('unscramble_Coef', 'unscramble_S'):
        refusal(name, 1, None, 1)
        refusal(name, 2, None, 2)
        refusal(name, 1, 1, 2)
