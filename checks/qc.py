"""Transfer integral: formula, orbital selection, size checks, unscrambling data flow."""
from sa.terms import *
from sa.terms import has_top, mksum
from sa.lab import Lab
from sa.engine import LV, loc, Dead
from sa import types as ty
from sa.report import Vanished
from checks.matrix import where, total, ty_ret

N, NP, A, B = sym('N'), sym('P'), sym('A'), sym('B')
HARTREE = Q(272114, 10000)


def elem(lab, m, i, j):
    """element (i,j), one-based, of the original matrix contents"""
    return lab.get(m, i, j, ONE)


def spec_terms(lab, x, y, p, s, e, cp, rx=ONE, ry=ONE):
    """the numbers of the projective method: gamma_k = sum_m zeta_m sum_l S_ml P_kl"""
    g = {}

    def gamma(z, row, off, width, k):
        m, l = fresh('m'), fresh('l')
        cur = lab.e.st
        lab.e.st = cur.fork(ge(m, ZERO), lt(m, width), ge(l, ZERO), lt(l, N), ge(k, ZERO), lt(k, NP))
        zz = elem(lab, z, row, add(m, ONE))
        ss = elem(lab, s, add(add(m, off), ONE), add(l, ONE))
        pp = elem(lab, p, add(k, ONE), add(l, ONE))
        lab.e.st = cur
        return mksum(m, width, mul(zz, mksum(l, N, mul(ss, pp))))

    def braket(u, w, energy):
        k = fresh('k')
        t = mul(u(k), w(k))
        if energy:
            cur = lab.e.st
            lab.e.st = cur.fork(ge(k, ZERO), lt(k, NP))
            t = mul(t, elem(lab, e, add(k, ONE), ONE))
            lab.e.st = cur
        return mksum(k, NP, t)
    ga = lambda k: gamma(x, rx, ZERO, A, k)
    gb = lambda k: gamma(y, ry, ZERO if cp else A, B, k)
    g['S_ab'] = braket(gb, ga, False)
    g['J_ab'] = braket(gb, ga, True)
    g['e_a'] = braket(ga, ga, True)
    g['e_b'] = braket(gb, gb, True)
    half = C(Q(1, 2))
    g['J_eff'] = rdiv(sub(g['J_ab'], mul(mul(half, add(g['e_a'], g['e_b'])), g['S_ab'])),
                      sub(ONE, mul(g['S_ab'], g['S_ab'])))
    return g


def base_facts(cp):
    return [ge(v, ONE) for v in (N, NP, A, B)] + ([eq(A, N), eq(B, N)] if cp else [eq(add(A, B), N)])


def printed(lab):
    """label -> inserted number, from the text sent to standard output"""
    out = {}
    for k, v in lab.e.st.mem.items():
        if k[0] == 'g' and k[1] == 'cout':
            parts = v.args if v.op == 'cat' else (v,)
            for a, b in zip(parts, parts[1:]):
                if a.op == 'str' and b.op == 'app' and b.args[0] == 'ostr':
                    lab_ = a.args[0].split('\n')[-1].strip().rstrip(':=').strip()
                    out.setdefault(lab_, []).append(b.args[1])
    return out


def c08(c):
    """The transfer integral function is summarised for symbolic coefficient, overlap and energy matrices of arbitrary size (with and
    without counterpoise); the returned value and the printed numbers are compared with the specified formula, sums over symbolic ranges included."""
    c.rules.append('closed form of the result equals (J_ab - (e_a+e_b) S_ab / 2) / (1 - S_ab^2)')
    f = c.func('calculate_transfer_integral')
    for cp in (True, False):
        def one(cp=cp):
            nm = 'transfer integral %s counterpoise' % ('with' if cp else 'without')
            lab = Lab(c, base_facts(cp), opts={'track_out': True})
            x, y = lab.matrix('x', ONE, A, ONE), lab.matrix('y', ONE, B, ONE)
            p, s, e = lab.matrix('p', NP, N, ONE), lab.matrix('s', N, N, ONE), lab.matrix('e', NP, ONE, ONE)
            g = spec_terms(lab, x, y, p, s, e, cp)
            r, alive = lab.run(f, None, [x, y, p, s, e, TRUE if cp else FALSE])
            total(c, lab, nm, f, alive)
            if not alive:
                return
            ctx = lab.e.ctx()
            c.equal(nm + ': result', where(f), lab.val(r), g['J_eff'], ctx)
            pr = printed(lab)
            for k in ('J_ab', 'e_a', 'e_b', 'S_ab', 'J_eff'):
                vs = pr.get(k)
                if not vs:
                    c.add('%s: printed %s' % (nm, k), where(f), 'unknown', 'no number is printed under this label')
                    continue
                want = g[k] if k == 'S_ab' else mul(g[k], factor(lab, c))
                c.equal('%s: printed %s' % (nm, k), where(f), vs[-1], want, ctx)
        c.group('formula cp=%s' % cp, one)

        def sizes(cp=cp):
            lab = Lab(c, [ge(v, ONE) for v in (N, NP, A, B)])
            x, y = lab.matrix('x', ONE, A, ONE), lab.matrix('y', ONE, B, ONE)
            p, s, e = lab.matrix('p', NP, N, ONE), lab.matrix('s', N, N, ONE), lab.matrix('e', NP, ONE, ONE)
            r, alive = lab.run(f, None, [x, y, p, s, e, TRUE if cp else FALSE])
            bad = lor(ne(A, N), ne(B, N)) if cp else ne(add(A, B), N)
            if alive:
                c.never('sizes that do not fit are refused (cp=%s)' % cp, where(f), lab.e.ctx().extend(bad))
        c.group('sizes cp=%s' % cp, sizes)


def factor(lab, c):
    """the unit conversion: the named constant if the program has one, within tolerance of the physical value"""
    for k, v in lab.e.st.mem.items():
        if k[0] == 'g' and k[1] == 'hartreeToeV' and v.op == 'c' and abs(v.args[0] - HARTREE) < Q(1, 1000):
            return v
    return C(HARTREE)


# ------------------------------------------------------------------ C09, C10
n1, n2, h1, h2 = sym('n1'), sym('n2'), sym('h1'), sym('h2')


def complex_(c, lab, cp, dims=None):
    """a complex built by the code's own constructor; -> place, matrices, constructor, alive"""
    e = lab.e
    x, y = lab.matrix('x', n1, A, ONE), lab.matrix('y', n2, B, ONE)
    p, s, en = lab.matrix('p', NP, N, ONE), lab.matrix('s', *(dims or (N, N)), ONE), lab.matrix('e', NP, ONE, ONE)
    f = c.func('TransferComplex::TransferComplex', 8)
    root = ('o', 'tc')
    e.st.mem[root] = e.uninit('TransferComplex')
    tc = LV(root)
    mo = lambda a, b: struct('pair', (('first', a), ('second', b)))
    r, alive = lab.run(f, tc, [e.ptr_of(x), e.ptr_of(y), e.ptr_of(p), mo(n1, h1), mo(n2, h2), e.ptr_of(s), e.ptr_of(en), cp])
    return tc, (x, y, p, s, en), f, alive


def c09(c):
    """Construction followed by the coupling calculation is summarised for symbolic orbital maps; the result in each of the four HOMO/LUMO
    combinations is compared with the formula applied to the selected coefficient rows, and the refusal condition with the specified one."""
    c.rules.append('row HOMO+k (k<=0) or HOMO+1+k (k>=0); everything else is refused')
    for cp in (True, False):
        c.group('selection cp=%s' % cp, lambda cp=cp: selection(c, cp, 0))


def c21(c):
    """As C09 for the second of two calculations on one complex with unrelated selections; every matrix the complex was built from
    is compared at an arbitrary place before and after."""
    c.rules.append('the second calculation has the result of a first one; no given matrix changes')
    for cp in (True, False):
        c.group('again cp=%s' % cp, lambda cp=cp: selection(c, cp, 1))


def selection(c, cp, before):
    facts = base_facts(cp) + [ge(v, ONE) for v in (n1, n2)] + [ge(h1, ZERO), ge(h2, ZERO), le(h1, n1), le(h2, n2)]
    lab = Lab(c, facts)
    e = lab.e
    tc, ms, ct, alive = complex_(c, lab, TRUE if cp else FALSE)
    if not before:
        total(c, lab, 'construction', ct, alive)
    if not alive:
        return
    g = c.func('TransferComplex::calcJ', 2)
    i, j = sym('i'), sym('j')

    def contents():
        out = []
        for m in ms:
            d = lab.dims(m)
            cur = e.st
            e.st = cur.fork(ge(i, ONE), le(i, d[0]), ge(j, ONE), le(j, d[1]))
            out.append((d, lab.get(m, i, j, ONE), e.ctx()))
            e.st = cur
        return out
    old = contents()
    start = e.st.fork()

    def ask(n):
        ot, on = e.temp(e.mksym('ot' + n, g.params[0].t)), e.temp(e.mksym('on' + n, g.params[1].t))
        tyv, nov, has = {}, {}, {}
        for w in ('mon1', 'mon2'):
            a, b = e.read(ot), e.read(on)
            has[w] = land(sel(proj(a, '#has', 'a'), (S(w),), 'b'), sel(proj(b, '#has', 'a'), (S(w),), 'b'))
            tyv[w] = sel(proj(a, '#val', 'a'), (S(w),), 's')
            nov[w] = sel(proj(b, '#val', 'a'), (S(w),), 'i')

        def good(w, n, h):
            k = nov[w]
            return land(has[w], lor(land(eq(tyv[w], S('HOMO')), le(k, ZERO), gt(add(k, h), ZERO)),
                                    land(eq(tyv[w], S('LUMO')), ge(k, ZERO), lt(add(k, h), n))))
        return ot, on, tyv, nov, land(good('mon1', n1, h1), good('mon2', n2, h2))
    nm = 'coupling %s counterpoise' % ('with' if cp else 'without')
    for k in range(before):
        ot, on, tyv, nov, ok = ask('before')
        r, alive = lab.run(g, tc, [ot, on])
        if not alive:
            return
        for w, (d, v, cx), (d2, v2, cx2) in zip(('first monomer coefficients', 'second monomer coefficients', 'dimer coefficients', 'overlap', 'dimer energies'), old, contents()):
            for x, y in zip(d, d2):
                c.equal('%s: size of the %s stays' % (nm, w), where(g), y, x, e.ctx())
            c.equal('%s: %s stay' % (nm, w), where(g), v2, v, cx2)
        nm = 'second ' + nm
    ot, on, tyv, nov, ok = ask('')
    pre = e.st.fork()
    n0 = len(lab.exits())
    r, alive = lab.run(g, tc, [ot, on])
    for q in lab.exits()[n0:]:
        c.never(nm + ': refuses only what cannot be selected', loc(q.node), e.ctx_of(q.pc).extend(ok))
    if not alive:
        c.holds(nm + ': accepts some selection', where(g), FALSE, e.ctx_of(pre.pc))
        return
    c.never(nm + ': refuses what cannot be selected', where(g), e.ctx().extend(lnot(ok)))
    v = lab.val(r)
    for a in ('HOMO', 'LUMO'):
        for b in ('HOMO', 'LUMO'):
            case = [eq(tyv['mon1'], S(a)), eq(tyv['mon2'], S(b))]
            ctx = e.ctx().extend(*case)
            rx = add(add(h1, nov['mon1']), ZERO if a == 'HOMO' else ONE)
            ry = add(add(h2, nov['mon2']), ZERO if b == 'HOMO' else ONE)
            cur = e.st
            # the elements the matrices had from the start
            e.st = start.fork(*case)
            for q in (ge(rx, ONE), le(rx, n1), ge(ry, ONE), le(ry, n2)):
                e.st = e.st.fork(q)
            sp = spec_terms(lab, ms[0], ms[1], ms[2], ms[3], ms[4], cp, rx, ry)['J_eff']
            e.st = cur
            c.equal('%s: %s of the first and %s of the second' % (nm, a, b), where(g), v, sp, ctx)


def c10(c):
    """Construction is summarised for symbolic sizes and compared with the specified refusal condition; unscrambling is summarised with the
    matching and reordering functions uninterpreted, and the matrices held afterwards are compared with the specified data flow."""
    c.rules.append('constructor refuses exactly the inconsistent sizes; unscrambling reorders each matrix by its own match')
    SC = sym('SC')

    def sizes(cp):
        lab = Lab(c, [ge(v, ONE) for v in (N, NP, A, B, SC, n1, n2)])
        tc, ms, f, alive = complex_(c, lab, TRUE if cp else FALSE, (SC, SC))
        bad = lor(ne(SC, N), lor(ne(A, N), ne(B, N)) if cp else gt(add(A, B), N))
        for q in lab.exits():
            c.never('construction refuses only inconsistent sizes (cp=%s)' % cp, loc(q.node), lab.e.ctx_of(q.pc).extend(lnot(bad)))
        if alive:
            c.never('construction refuses inconsistent sizes (cp=%s)' % cp, where(f), lab.e.ctx().extend(bad))
        else:
            c.holds('construction accepts consistent sizes (cp=%s)' % cp, where(f), FALSE, lab.ctx())
    for cp in (True, False):
        c.group('sizes cp=%s' % cp, lambda cp=cp: sizes(cp))

    def flow(cp):
        models, made = {}, {}

        def val(eng, a):
            return a if isinstance(a, T) else eng.read(a)

        def key(eng, a):
            if isinstance(a, T):
                return a
            v = eng.read(a)
            return v

        def matchcol(eng, f, this, args, node):
            return app('match', 'v', objid(eng, this), objid(eng, args[0]), val(eng, args[1]))

        def objid(eng, l):
            if isinstance(l, T):
                return l
            return eng.ptr_of(l)

        def unscr(tag):
            def m(eng, f, this, args, node):
                vs = [val(eng, a) for a in args]
                name = '%s(%s)' % (tag, '; '.join(show(v) for v in vs))
                root = ('o', name)
                made[root] = all(v.op in ('sym', 'ptr') or v.op == 'app' and v.args[0] == 'match' for v in vs)
                if root not in eng.st.mem:
                    eng.st.mem[root] = app(tag, 'o', *vs)
                return eng.ptr_of(LV(root))
            return m
        models['Matrix::matchCol'] = matchcol
        models['Matrix::matchRow'] = matchcol
        models['unscramble_Coef'] = unscr('reorder columns')
        models['unscramble_S'] = unscr('reorder both')
        for q in ('unscramble_Coef', 'unscramble_S', 'Matrix::matchCol'):
            if not c.prog.by_qname.get(q):
                c.add('unscrambling cp=%s' % cp, '', 'unknown', 'no function ' + q)
                return
        facts = base_facts(cp) + [ge(v, ONE) for v in (n1, n2)]
        lab = Lab(c, facts, models=models)
        e = lab.e
        tc, ms, ct, alive = complex_(c, lab, TRUE if cp else FALSE)
        if not alive:
            return
        f = c.func('TransferComplex::unscramble', 5)
        na = [sym('na%d' % i) for i in range(3)]
        for v in na:
            e.assume(ge(v, ONE))
        THREE = C(3)
        co = [lab.matrix(w, THREE, v, ONE) for w, v in zip(('c1', 'c2', 'cP'), na)]
        bP, b2 = e.temp(e.mksym('basisP', f.params[3].t)), e.temp(e.mksym('basis2', f.params[4].t))
        before = e.read(tc)
        r, alive = lab.run(f, tc, co + [bP, b2])
        nm = 'unscrambling %s counterpoise' % ('with' if cp else 'without')
        if not alive:
            c.holds(nm + ' completes', where(f), FALSE, lab.ctx())
            return
        after = e.read(tc)
        names = [n for n, t, o in e.fields('TransferComplex') if t.strip().endswith('*')]

        def held(v):
            return {n: proj(v, n, 'P') for n in names}
        b, a = held(before), held(after)
        # which field holds which matrix is read off the constructed object
        role = {}
        for w, m in zip(('x', 'y', 'p', 's', 'e'), ms):
            for n in names:
                if b[n] is e.ptr_of(m):
                    role[w] = n
        if set(role) != set('xypse'):
            raise Vanished('the matrices held by the complex')
        pid = [e.ptr_of(m) for m in co]
        sig = None

        def mt(i, j):
            return app('match', 'v', pid[i], pid[j], sym('sig'))
        # the precision is free: take it from the code, the same for every match
        sigs = {t.args[3] for n in names for r_ in roots_of(e, a[n]) for t in subterms(r_) if t.op == 'app' and t.args[0] == 'match'}
        for x in sorted(sigs, key=lambda t: t.id):
            c.holds(nm + ': coordinates are compared to at least two and at most six decimals', where(f),
                    land(ge(x, C(2)), le(x, C(6))), lab.ctx())
        sg = next(iter(sigs)) if len(sigs) == 1 else None

        def want(tag, *vs):
            root = ('o', '%s(%s)' % (tag, '; '.join(show(v) for v in vs)))
            return ptr(root, ())
        if sg is None:
            c.add(nm + ': one precision for all matches', where(f), 'unknown', '%d precisions' % len(sigs))
            return
        mt = lambda i, j: app('match', 'v', pid[i], pid[j], sg)
        vP, v2 = e.read(bP), e.read(b2)
        if cp:
            exp = {'x': b[role['x']], 'y': want('reorder columns', mt(0, 1), v2, b[role['y']]),
                   'p': want('reorder columns', mt(0, 2), vP, b[role['p']]),
                   's': want('reorder both', mt(0, 2), vP, b[role['s']]), 'e': b[role['e']]}
        else:
            exp = {'x': b[role['x']], 'y': b[role['y']],
                   'p': want('reorder columns', mt(0, 2), mt(1, 2), vP, b[role['p']]),
                   's': want('reorder both', mt(0, 2), mt(1, 2), vP, b[role['s']]), 'e': b[role['e']]}
        names_ = {'x': 'first monomer coefficients', 'y': 'second monomer coefficients', 'p': 'dimer coefficients', 's': 'overlap', 'e': 'dimer energies'}
        for w in 'xypse':
            got = a[role[w]]
            if got is exp[w]:
                c.add('%s: %s' % (nm, names_[w]), where(f), 'proved')
            elif got.op == 'ptr' and exp[w].op == 'ptr' and (made.get(got.args[0]) or any(got is q for q in b.values())):
                c.add('%s: %s' % (nm, names_[w]), where(f), 'refuted', {'code': show(got), 'spec': show(exp[w])})
            else:
                c.add('%s: %s' % (nm, names_[w]), where(f), 'unknown', show(got)[:300])
    for cp in (True, False):
        c.group('flow cp=%s' % cp, lambda cp=cp: flow(cp))


def roots_of(e, p):
    if p.op == 'ptr':
        v = e.st.mem.get(p.args[0])
        return [v] if v is not None else []
    return []
