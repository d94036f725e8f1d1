"""Matrix properties: every member function is summarised for symbolic
dimensions and contents; results are observed through get_elem."""
from sa.terms import *
from sa.terms import has_top, mksum
from sa.lab import Lab, pos
from sa.engine import LV, loc, Dead
from sa import types as ty

M = 'Matrix'


def Rs():
    return sym('R'), sym('C'), sym('S')


def new_lab(c, facts=(), dims=None, opts=None):
    R, C_, S_ = dims or Rs()
    lab = Lab(c, pos(R, C_, S_) + list(facts), opts=opts)
    m = lab.matrix('m', R, C_, S_)
    return lab, m, (R, C_, S_)


def where(f):
    return loc(f.node)


def arg_for(lab, p, i, nm):
    k = ty.kind(p.t)[0]
    name = '%s%d' % (nm, i)
    if k in ('i', 'r', 'b'):
        return sym(name, ty.sort(p.t))
    if k == 's':
        return lab.e.temp(sym(name, 's'))
    return None


# ------------------------------------------------------------------ C01
def sig_of(f):
    return f.qname + '(' + ','.join(p.t for p in f.params) + ')'


def member_runs(c, f):
    """analyse member f once on an arbitrary matrix and arbitrary arguments"""
    lab, m, d = new_lab(c)
    args = []
    for i, p in enumerate(f.params):
        t = ty.strip(p.t)
        if t == M:
            a = lab.matrix('a%d' % i, *[sym('a%d.%s' % (i, x)) for x in 'RCS'])
            for x in 'RCS':
                lab.e.assume(ge(sym('a%d.%s' % (i, x)), ONE))
            args.append(a)
        elif ty.kind(p.t)[0] in ('i', 'r', 'b'):
            args.append(sym('a%d' % i, ty.sort(p.t)))
        else:
            v = lab.e.temp(lab.e.mksym('a%d' % i, p.t))
            args.append(v)
    this = m if f.cls == M and f.kind == 'CXXMethodDecl' else None
    if f.kind == 'CXXConstructorDecl':
        root = ('o', 'new')
        lab.e.st.mem[root] = lab.e.uninit(M)
        this = LV(root)
    return lab, this, args


# the documented operations; helpers of another name have preconditions of their own and are judged through these
API = {M + '::' + x for x in '''Matrix ~Matrix operator= set_rows set_cols set_shel set_row set_col resize set_elem index get_rows get_cols get_shel
       total_elem get_elem get_elem_ptr get_col get_row move_row move_col swap_row swap_col getCol getRow invert matchRow
       matchCol'''.split()} | set('operator<< operator* Matrix_diag Matrix_copy Matrix_concatenate_rows Matrix_concatenate_cols'.split())


def matrix_functions(c):
    c.cls(M)
    out = []
    for q, fs in c.prog.by_qname.items():
        for f in fs:
            if f.body is None or f.qname not in API:
                continue
            if f.cls == M and f.kind in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
                out.append(f)
            elif f.cls is None and any(ty.strip(p.t) == M for p in f.params) and f.node.file and 'matrix' in f.node.file:
                out.append(f)
    return out


def c01(c):
    """Every read and write of matrix storage, vectors and freed memory in the matrix class and the
    free matrix functions is summarised for symbolic dimensions and arguments; each access yields the
    obligation that its index lies inside the object it addresses, that the object is alive and that
    it is released by the matching form of delete."""
    c.rules.append('index in [0, length) for every subscript, pointer dereference and container access; object alive; delete matches new')
    fs = matrix_functions(c)
    pub = ['get_elem', 'set_elem', 'get_row', 'get_col', 'set_row', 'set_col', 'resize']
    for p in pub:
        c.funcs(M + '::' + p)
    for f in fs:
        if f.kind == 'CXXDestructorDecl':
            continue

        def one(f=f):
            lab, this, args = member_runs(c, f)
            lab.run(f, this, args)
            lab.accesses(sig_of(f))
        c.group(sig_of(f), one)
    # indices outside are refused, those inside accepted
    for nm, nix in (('get_elem', (1, 2, 3)), ('set_elem', (1, 2, 3))):
        for n in nix:
            def two(nm=nm, n=n):
                k = n + (1 if nm == 'set_elem' else 0)
                f = c.func(M + '::' + nm, k)
                lab, m, d = new_lab(c)
                ix = [sym(x) for x in 'ijk'[:n]]
                args = ix if nm == 'get_elem' else [sym('v', 'r')] + ix
                refusal(c, lab, f, m, args, lor(*[lor(lt(x, ONE), gt(x, y)) for x, y in zip(ix, d)]))
            c.group('%s/%d refusal' % (nm, n), two)
    for nm, dim in (('get_row', 0), ('get_col', 1), ('set_row', 0), ('set_col', 1)):
        def three(nm=nm, dim=dim):
            f = c.func(M + '::' + nm)
            lab, m, d = new_lab(c)
            i = sym('i')
            bad = lor(lt(i, ONE), gt(i, d[dim]))
            if nm.startswith('get'):
                refusal(c, lab, f, m, [i], bad)
            else:
                v = lab.e.mksym('v', f.params[0].t)
                lab.e.assume(ge(vlen(v), ZERO))
                refusal(c, lab, f, m, [lab.e.temp(v), i], lor(bad, ne(vlen(v), d[1 - dim])))
        c.group(nm + ' refusal', three)


def refusal(c, lab, f, this, args, bad, only=True):
    """the call ends abnormally exactly when bad holds"""
    e = lab.e
    nm = sig_of(f)
    base = e.st.fork()
    r, alive = lab.run(f, this, args)
    for x in lab.exits() if only else ():
        c.never('%s refuses only what is out of range' % nm, loc(x.node), e.ctx_of(x.pc).extend(lnot(bad)))
    if alive:
        c.never('%s refuses everything out of range' % nm, where(f), e.ctx().extend(bad))
    else:
        c.holds('%s accepts some input' % nm, where(f), bad, e.ctx_of(base.pc))
    e.st = base


# ------------------------------------------------------------------ helpers
def idx():
    return sym('i'), sym('j'), sym('k')


def same_contents(c, lab, nm, w, obj, dims, spec, shelves=True, rule=''):
    """get(obj,i,j,k) == spec(i,j,k) for every index inside dims, and the dimensions are dims"""
    got = lab.dims(obj)
    for x, y, n in zip(got, dims, ('rows', 'columns', 'shelves')):
        c.equal('%s: number of %s' % (nm, n), w, x, y, lab.ctx(), rule)
    i, j, k = idx()
    if not shelves:
        k = ONE
    facts = [ge(i, ONE), le(i, dims[0]), ge(j, ONE), le(j, dims[1])]
    if shelves:
        facts += [ge(k, ONE), le(k, dims[2])]
    e = lab.e
    keep = e.st.fork()
    try:
        for f in facts:
            e.assume(f)
    except Dead:
        e.st = keep
        return
    a = lab.get(obj, i, j, k)
    b = spec(i, j, k)
    c.equal('%s: element values' % nm, w, a, b, e.ctx(), rule)
    e.st = keep


def total(c, lab, nm, f, alive, since=0, ok=TRUE):
    """no abnormal end under the facts of the lab (plus ok)"""
    for x in lab.exits(since):
        c.never('%s: does not fail' % nm, loc(x.node), lab.e.ctx_of(x.pc).extend(ok))
    if not alive:
        c.add('%s: has a normal outcome' % nm, where(f), 'refuted', 'every path ends abnormally')


def pre(lab, m):
    """accessor values of m before the operation, as a function"""
    e = lab.e
    st = e.st.fork()

    def g(i, j, k=ONE):
        cur = e.st
        e.st = State(dict(st.mem), cur.pc)
        try:
            return lab.get(m, i, j, k)
        finally:
            e.st = cur
    return g


from sa.engine import State  # noqa: E402


def ctor(c, n=None, types=None):
    out = []
    for f in c.prog.by_qname.get('Matrix::Matrix', []):
        if f.body is None or f.kind != 'CXXConstructorDecl':
            continue
        if [ty.strip(p.t) for p in f.params] == types:
            return f
    raise Vanished('constructor Matrix(%s)' % ', '.join(types))


from sa.report import Vanished  # noqa: E402


def construct(lab, f, args, name='n'):
    root = ('o', name)
    lab.e.st.mem[root] = lab.e.uninit(M)
    l = LV(root)
    r, alive = lab.run(f, l, args)
    return l, alive


VD, VI, VVD = 'std::vector<double>', 'std::vector<int>', 'std::vector<std::vector<double>>'


# ------------------------------------------------------------------ C02
def c02(c):
    """Copy construction, assignment and every function that returns a matrix are summarised; the storage
    reached from the copy and from the original are compared as heap places, writes through one are shown
    not to reach the other, and destroying both is shown to release each block once and with the matching form."""
    c.rules.append('copy and original reach distinct heap blocks; a write to one leaves every element of the other; both can be destroyed')
    setf = c.func(M + '::set_elem', 4)
    dtor = [f for f in c.prog.by_qname.get(M + '::~' + M, []) if f.body is not None]

    def destroy(lab, l):
        if dtor:
            lab.run(dtor[0], l, [])
        elif any('_ptr<' in t for _, t, _ in lab.e.fields(M)):
            lab.e.own(lab.e.read(l))

    def independent(nm, w, lab, a, b, da, db):
        e = lab.e
        i, j, k = idx()
        p, q, s = sym('p'), sym('q'), sym('s')
        for x, y, dx, dy, n in ((a, b, da, db, 'writing the copy'), (b, a, db, da, 'writing the original')):
            keep = e.st.fork()
            try:
                for f in lab.inrange(p, q, s, dy) + lab.inrange(i, j, k, dx):
                    e.assume(f)
                g = pre(lab, x)
                before = g(i, j, k)
                lab.run(setf, y, [sym('w', 'r'), p, q, s])
                c.equal('%s: %s leaves the other unchanged' % (nm, n), w, lab.get(x, i, j, k), before, e.ctx())
            except Dead:
                pass
            e.st = keep
        # both destroyed
        keep = e.st.fork()
        ev = len(e.events)
        for x in (b, a):
            destroy(lab, x)
        lab.accesses('%s: both destroyed' % nm, ev)
        leaks(c, lab, nm + ', both destroyed', w, 0, (a, b))
        e.st = keep

    def copyctor():
        f = ctor(c, types=[M])
        lab, m, d = new_lab(c)
        g = pre(lab, m)
        n, alive = construct(lab, f, [m])
        total(c, lab, 'copy construction', f, alive)
        same_contents(c, lab, 'copy construction', where(f), n, d, g)
        independent('copy construction', where(f), lab, m, n, d, d)
    c.group('copy construction', copyctor)

    def assign():
        f = c.func(M + '::operator=')
        lab, m, d = new_lab(c)
        d2 = tuple(sym('b' + x) for x in 'RCS')
        for x in d2:
            lab.e.assume(ge(x, ONE))
        m2 = lab.matrix('m2', *d2)
        g = pre(lab, m2)
        r, alive = lab.run(f, m, [m2])
        total(c, lab, 'assignment', f, alive)
        same_contents(c, lab, 'assignment', where(f), m, d2, g)
        independent('assignment', where(f), lab, m, m2, d2, d2)
        lab, m, d = new_lab(c)
        g = pre(lab, m)
        r, alive = lab.run(f, m, [m])
        same_contents(c, lab, 'self assignment', where(f), m, d, g)
        ev = len(lab.e.events)
        destroy(lab, m)
        lab.accesses('self assignment, then destroyed', ev)
        leaks(c, lab, 'self assignment, then destroyed', where(f), 0, (m,))
    c.group('assignment', assign)

    def values():
        for f in matrix_functions(c):
            rt = ty.strip(ty_ret(lab0, f))
            if rt != M or f.kind != 'CXXMethodDecl' and f.cls is not None or f.name == 'operator=' or f.name == 'operator*':
                continue

            def one(f=f):
                lab, this, args = member_runs(c, f)
                mats = ([this] if this is not None else []) + [a for a in args if isinstance(a, LV)]
                r, alive = lab.run(f, this, args)
                if not alive:
                    return
                r = lab.place(r)
                db = tuple(lab.dims(r))
                for m in mats:
                    if ty.strip(kind_of(lab, m)) != M:
                        continue
                    independent('result of ' + sig_of(f), where(f), lab, m, r, tuple(lab.dims(m)), db)
            c.group('result of ' + sig_of(f), one)
    lab0 = Lab(c)
    values()

    # after any mutator the object still owns one live block
    for f in matrix_functions(c):
        if f.cls == M and f.kind == 'CXXMethodDecl' and not (f.node.t or '').rstrip().endswith('const') and f.name != 'operator=':
            def mut(f=f):
                lab, this, args = member_runs(c, f)
                r, alive = lab.run(f, this, args)
                if not alive:
                    return
                ev = len(lab.e.events)
                lab.e.discharged = 0
                leaks(c, lab, sig_of(f), where(f))
                destroy(lab, this)
                lab.accesses('%s, then destroyed' % sig_of(f), ev)
                leaks(c, lab, sig_of(f) + ', then destroyed', where(f), 0, (this,))
            c.group('%s, then destroyed' % sig_of(f), mut)


def ty_ret(lab, f):
    return lab.e.ret_type(f)


def leaks(c, lab, nm, w, since=0, gone=()):
    """array storage is released or belongs to an object that is still there. gone: objects that ended"""
    e = lab.e
    st = e.st.fork()
    for l in gone:
        st.mem.pop(l.root, None)
    blocks = {}
    for root, v in st.mem.items():
        if root[0] == 'h' and isinstance(v, T) and v.sort == 'v':
            blocks[root] = ()
    for ev in e.events[since:]:
        if ev.kind == 'new' and ev.data[1] and ev.data[0] in blocks:
            blocks[ev.data[0]] = ev.pc

    def reach(v, root):
        if v.op == 'ptr':
            return Bc(v.args[0] == root)
        if v.op == 'ite':
            return ite(v.args[0], reach(v.args[1], root), reach(v.args[2], root))
        if v.op == 'struct':
            return lor(*[reach(x, root) for _, x in v.args[1] if x.sort in 'Pov'])
        if v.op == 'null' or v.sort in 'irsb':
            return FALSE
        if v.op == 'top':
            return TRUE
        return Bc(any(x.op == 'ptr' and x.args[0] == root or x.op == 'top' for x in subterms(v)))
    for root, pc in blocks.items():
        if root in e.owned:
            continue
        held = [st.mem.get(('dead', root), FALSE)]
        for r, v in st.mem.items():
            if isinstance(v, T) and r[0] != 'dead' and r != root and v.sort in 'ova':
                held.append(reach(v, root))
        cx = e.ctx_of(st.pc).extend(*pc)
        if not cx.dead:
            c.holds('%s: no storage is lost' % nm, w, lor(*held), cx)


def kind_of(lab, l):
    v = lab.e.read(l)
    return v.args[0] if v.op == 'struct' else ''


# ------------------------------------------------------------------ C03
def c03(c):
    """Constructors, element setters/getters, row and column getters/setters and copies are summarised for
    symbolic dimensions, indices and contents; the element value observed through the three-index accessor
    is compared with the value the specification gives for that index."""
    c.rules.append('closed form of the observed element equals the specified one for every index in range')
    R, C_, S_ = Rs()
    zero = lambda i, j, k: ZERO

    def ctors():
        lab = Lab(c, pos(R, C_, S_))
        base = lab.fork()
        for types, args, d in (([], [], (ONE, ONE, ONE)), (['int'], [R], (R, ONE, ONE)), (['int', 'int'], [R, C_], (R, C_, ONE)),
                               (['int', 'int', 'int'], [R, C_, S_], (R, C_, S_))):
            f = ctor(c, types=types)
            lab.e.st = base.fork()
            k = len(lab.e.exits)
            n, alive = construct(lab, f, args)
            nm = 'Matrix(%s)' % ', '.join(types)
            total(c, lab, nm, f, alive, k)
            if alive:
                same_contents(c, lab, nm, where(f), n, d, zero)
    c.group('constructors', ctors)

    def vectors():
        for t in (VD, VI):
            f = ctor(c, types=[t])
            lab = Lab(c)
            v = lab.e.mksym('v', t)
            lab.e.assume(ge(vlen(v), ONE))
            n, alive = construct(lab, f, [v])
            nm = 'Matrix(%s)' % t
            total(c, lab, nm, f, alive)
            es = 'r' if t == VD else 'i'
            same_contents(c, lab, nm, where(f), n, (vlen(v), ONE, ONE), lambda i, j, k: sel(varr(v), (sub(i, ONE),), es))
        f = ctor(c, types=[VVD])
        lab = Lab(c)
        v = lab.e.mksym('v', VVD)
        n_ = vlen(v)
        row = lambda i: sel(varr(v), (i,), 'v')
        w = vlen(row(ZERO))
        lab.e.assume(ge(n_, ONE))
        lab.e.assume(ge(w, ONE))
        x = sym('x')
        uneven = mkex(x, n_, ne(vlen(row(x)), w))
        base = lab.fork()
        n, alive = construct(lab, f, [v])
        nm = 'Matrix(%s)' % VVD
        for y in lab.exits():
            c.never('%s: refuses only rows of different length' % nm, loc(y.node), lab.e.ctx_of(y.pc).extend(lnot(uneven)))
        if alive:
            c.never('%s: refuses rows of different length' % nm, where(f), lab.e.ctx().extend(uneven))
            same_contents(c, lab, nm, where(f), n, (n_, w, ONE), lambda i, j, k: sel(varr(row(sub(i, ONE))), (sub(j, ONE),), 'r'))
        else:
            c.holds('%s: accepts some input' % nm, where(f), FALSE, lab.e.ctx_of(base.pc))
    c.group('constructors from vectors', vectors)

    def setters():
        p, q, s, v = sym('p'), sym('q'), sym('s'), sym('v', 'r')
        for n in (1, 2, 3, 4):
            f = c.func(M + '::set_elem', n)
            lab, m, d = new_lab(c)
            g = pre(lab, m)
            at = (p, q, s)[:n - 1] + (ONE,) * (4 - n)
            for fct in lab.inrange(*at, d):
                lab.e.assume(fct)
            r, alive = lab.run(f, m, [v] + list(at[:n - 1]))
            nm = 'set_elem with %d indices' % (n - 1)
            total(c, lab, nm, f, alive)
            if alive:
                same_contents(c, lab, nm, where(f), m, d,
                              lambda i, j, k: ite(land(eq(i, at[0]), eq(j, at[1]), eq(k, at[2])), v, g(i, j, k)))
        for n in (0, 1, 2):
            f = c.func(M + '::get_elem', n)
            lab, m, d = new_lab(c)
            at = (p, q, s)[:n] + (ONE,) * (3 - n)
            for fct in lab.inrange(*at, d):
                lab.e.assume(fct)
            want = lab.get(m, *at)
            r, alive = lab.run(f, m, list(at[:n]))
            nm = 'get_elem with %d indices' % n
            total(c, lab, nm, f, alive)
            if alive:
                c.equal(nm, where(f), lab.val(r), want, lab.e.ctx())
        f = c.func(M + '::get_elem_ptr', 2)
        lab, m, d = new_lab(c)
        for fct in lab.inrange(p, q, ONE, d):
            lab.e.assume(fct)
        want = lab.get(m, p, q, ONE)
        r, alive = lab.run(f, m, [p, q])
        total(c, lab, 'get_elem_ptr', f, alive)
        if alive:
            l = lab.e.lv_of_ptr(lab.val(r), 'double')
            c.equal('get_elem_ptr: value behind the pointer', where(f), lab.e.read(l), want, lab.e.ctx())
    c.group('element access', setters)

    def rows():
        p = sym('p')
        for nm, dim in (('row', 0), ('col', 1)):
            f = c.func(M + '::get_' + nm, 1)
            lab, m, d = new_lab(c)
            lab.e.assume(ge(p, ONE))
            lab.e.assume(le(p, d[dim]))
            r, alive = lab.run(f, m, [p])
            total(c, lab, 'get_' + nm, f, alive)
            if alive:
                v = lab.val(r)
                c.equal('get_%s: length' % nm, where(f), vlen(v), d[1 - dim], lab.e.ctx())
                x = sym('x')
                lab.e.assume(ge(x, ZERO))
                lab.e.assume(lt(x, d[1 - dim]))
                at = (p, add(x, ONE)) if dim == 0 else (add(x, ONE), p)
                c.equal('get_%s: values' % nm, where(f), sel(varr(v), (x,), 'r', lab.e.ctx()), lab.get(m, *at), lab.e.ctx())
            f = c.func(M + '::set_' + nm, 2)
            lab, m, d = new_lab(c)
            g = pre(lab, m)
            lab.e.assume(ge(p, ONE))
            lab.e.assume(le(p, d[dim]))
            v = lab.e.mksym('v', VD)
            lab.e.assume(eq(vlen(v), d[1 - dim]))
            r, alive = lab.run(f, m, [lab.e.temp(v), p])
            total(c, lab, 'set_' + nm, f, alive)
            if alive:
                def spec(i, j, k):
                    a, b = (i, j) if dim == 0 else (j, i)
                    return ite(eq(a, p), sel(varr(v), (sub(b, ONE),), 'r'), g(i, j, k))
                same_contents(c, lab, 'set_' + nm, where(f), m, d, spec, shelves=False)
    c.group('rows and columns', rows)

    def copies():
        f = c.func('Matrix_copy', 1)
        lab, m, d = new_lab(c)
        g = pre(lab, m)
        r, alive = lab.run(f, None, [m])
        total(c, lab, 'Matrix_copy', f, alive)
        if alive:
            same_contents(c, lab, 'Matrix_copy', where(f), lab.place(r), d, g)
        f = ctor(c, types=[M])
        lab, m, d = new_lab(c)
        g = pre(lab, m)
        n, alive = construct(lab, f, [m])
        if alive:
            same_contents(c, lab, 'copy construction', where(f), n, d, g)
    c.group('copies', copies)


# ------------------------------------------------------------------ C04
def c04(c):
    """The dimension setters and resize are summarised for symbolic old and new dimensions; every element
    of the result is compared with the old element at the same position, or zero where there was none."""
    c.rules.append('closed form of the observed element: old value inside the old extent, zero outside')
    n = sym('n')
    for nm, dim in (('set_rows', 0), ('set_cols', 1), ('set_shel', 2)):
        def one(nm=nm, dim=dim):
            f = c.func(M + '::' + nm, 1)
            lab, m, d = new_lab(c, [ge(n, ONE)])
            g = pre(lab, m)
            r, alive = lab.run(f, m, [n])
            total(c, lab, nm, f, alive)
            if not alive:
                return
            nd = tuple(n if x == dim else d[x] for x in range(3))

            def spec(i, j, k):
                return ite(gt((i, j, k)[dim], d[dim]), ZERO, g(i, j, k))
            same_contents(c, lab, nm, where(f), m, nd, spec)
        c.group(nm, one)

    def rs():
        r_, c_ = sym('r'), sym('c')
        f = c.func(M + '::resize', 2)
        lab, m, d = new_lab(c, [ge(r_, ONE), ge(c_, ONE)])
        g = pre(lab, m)
        r, alive = lab.run(f, m, [r_, c_])
        total(c, lab, 'resize', f, alive)
        if alive:
            same_contents(c, lab, 'resize', where(f), m, (r_, c_, ONE),
                          lambda i, j, k: ite(lor(gt(i, d[0]), gt(j, d[1])), ZERO, g(i, j, ONE)), shelves=False)
    c.group('resize', rs)

    def refuse():
        for nm, args, bad in (('set_rows', [n], lt(n, ZERO)), ('set_cols', [n], lt(n, ZERO)), ('set_shel', [n], lt(n, ONE)),
                              ('resize', [n, sym('c')], lor(lt(n, ONE), lt(sym('c'), ONE)))):
            f = c.func(M + '::' + nm, len(args))
            lab, m, d = new_lab(c)
            refusal(c, lab, f, m, args, bad)
    c.group('refused dimensions', refuse)


# ------------------------------------------------------------------ C05
def c05(c):
    """The four row/column moves are summarised for symbolic positions; every element of the result is compared
    with the element the permutation puts there (two-cycle for swap, rotation for move)."""
    c.rules.append('observed element (i,j) equals the old element at the permuted position')
    a, b = sym('a'), sym('b')
    for nm, dim, kind in (('swap_row', 0, 's'), ('swap_col', 1, 's'), ('move_row', 0, 'm'), ('move_col', 1, 'm')):
        def one(nm=nm, dim=dim, kind=kind):
            f = c.func(M + '::' + nm, 2)
            R, C_, S_ = Rs()
            lim = (R, C_)[dim]
            lab, m, d = new_lab(c, [ge(a, ONE), le(a, lim), ge(b, ONE), le(b, lim)])
            g = pre(lab, m)
            r, alive = lab.run(f, m, [a, b])
            total(c, lab, nm, f, alive)
            if not alive:
                return

            def src(x):
                if kind == 's':
                    return ite(eq(x, a), b, ite(eq(x, b), a, x))
                return ite(eq(x, b), a, ite(land(ge(x, a), lt(x, b)), add(x, ONE),
                                            ite(land(gt(x, b), le(x, a)), sub(x, ONE), x)))

            def spec(i, j, k):
                x = (i, j)[dim]
                # select by cases so that the old value is read at a plain index
                cases = [(b, eq(x, a)), (a, eq(x, b))] if kind == 's' else \
                    [(a, eq(x, b)), (add(x, ONE), land(ge(x, a), lt(x, b))), (sub(x, ONE), land(gt(x, b), le(x, a)))]
                def at(y):
                    cur = lab.e.st
                    lab.e.st = cur.fork(ge(y, ONE), le(y, lim))
                    try:
                        return g(y, j, k) if dim == 0 else g(i, y, k)
                    finally:
                        lab.e.st = cur
                r = g(i, j, k)
                for y, cond in reversed(cases):
                    r = ite(cond, at(y), r)
                return r
            same_contents(c, lab, nm, where(f), m, d, spec, shelves=False)
        c.group(nm, one)

        def two(nm=nm, dim=dim):
            f = c.func(M + '::' + nm, 2)
            lim = Rs()[dim]
            lab, m, d = new_lab(c, [ne(a, b)])
            refusal(c, lab, f, m, [a, b], lor(lt(a, ONE), gt(a, lim), lt(b, ONE), gt(b, lim)), only=False)
        c.group(nm + ' refusal', two)


# ------------------------------------------------------------------ C06
def c06(c):
    """Transposition, concatenation, diagonal, product and row/column extraction are summarised for symbolic
    dimensions; dimensions and every element of the result are compared with the algebraic definition."""
    c.rules.append('closed form of the observed element equals the algebraic definition')
    R, C_, S_ = Rs()

    def inv_():
        f = c.func(M + '::invert', 0)
        lab, m, d = new_lab(c, dims=(R, C_, ONE))
        g = pre(lab, m)
        r, alive = lab.run(f, m, [])
        total(c, lab, 'transpose', f, alive)
        if alive:
            same_contents(c, lab, 'transpose', where(f), lab.place(r), (C_, R, ONE), lambda i, j, k: swapped(lab, g, i, j))
    c.group('transpose', inv_)

    def cat_():
        for nm, dim in (('Matrix_concatenate_rows', 0), ('Matrix_concatenate_cols', 1)):
            f = c.func(nm, 2)
            n2 = sym('n2')
            d1 = (R, C_, S_)
            d2 = tuple(n2 if x == dim else d1[x] for x in range(3))
            lab, m, d = new_lab(c, [ge(n2, ONE)])
            m2 = lab.matrix('m2', *d2)
            g1, g2 = pre(lab, m), pre(lab, m2)
            a0 = lab.e.read(m) if not ty.isref(f.params[0].t) else m
            if isinstance(a0, T):
                # by-value parameter: the caller copies
                cc = ctor(c, types=[M])
                n, _ = construct(lab, cc, [m], 'argcopy')
                a0 = n
            r, alive = lab.run(f, None, [a0, m2])
            total(c, lab, nm, f, alive)
            if alive:
                tot = add(d1[dim], n2)
                nd = tuple(tot if x == dim else d1[x] for x in range(3))

                def spec(i, j, k):
                    x = (i, j)[dim]
                    y = sub(x, d1[dim])
                    cur = lab.e.st
                    lab.e.st = cur.fork(le(x, d1[dim]))
                    u = g1(i, j, k)
                    lab.e.st = cur.fork(gt(x, d1[dim]))
                    w = g2(y, j, k) if dim == 0 else g2(i, y, k)
                    lab.e.st = cur
                    return ite(le(x, d1[dim]), u, w)
                same_contents(c, lab, nm, where(f), lab.place(r), nd, spec)
    c.group('concatenation', cat_)

    def diag_():
        f = c.func('Matrix_diag', 1)
        for d in ((R, ONE, ONE), (ONE, C_, ONE)):
            lab, m, _ = new_lab(c, dims=d)
            g = pre(lab, m)
            r, alive = lab.run(f, None, [m])
            nm = 'Matrix_diag of a %s' % ('column' if d[1] is ONE else 'row')
            total(c, lab, nm, f, alive)
            if alive:
                n = d[0] if d[1] is ONE else d[1]

                def spec(i, j, k):
                    v = g(i, ONE, ONE) if d[1] is ONE else g(ONE, i, ONE)
                    return ite(eq(i, j), v, ZERO)
                same_contents(c, lab, nm, where(f), lab.place(r), (n, n, ONE), spec)
        lab, m, d = new_lab(c)
        refusal(c, lab, f, None, [m], lor(land(gt(R, ONE), gt(C_, ONE)), gt(S_, ONE)))
    c.group('diagonal', diag_)

    def prod():
        f = c.func('operator*', 2)
        K = sym('K')
        lab, m, d = new_lab(c, [ge(K, ONE)], dims=(R, K, ONE))
        lab.e.assume(ge(C_, ONE))
        m2 = lab.matrix('m2', K, C_, ONE)
        g1, g2 = pre(lab, m), pre(lab, m2)
        r, alive = lab.run(f, None, [m, m2])
        total(c, lab, 'product', f, alive)
        if alive:
            def spec(i, j, k):
                x = fresh('x')
                cur = lab.e.st
                lab.e.st = cur.fork(ge(x, ZERO), lt(x, K))
                b = mul(g1(i, add(x, ONE), ONE), g2(add(x, ONE), j, ONE))
                lab.e.st = cur
                return mksum(x, K, b)
            same_contents(c, lab, 'product', where(f), lab.place(r), (R, C_, ONE), spec)
        lab, m, d = new_lab(c)
        d2 = tuple(sym('b' + x) for x in 'RCS')
        for x in d2:
            lab.e.assume(ge(x, ONE))
        m2 = lab.matrix('m2', *d2)
        refusal(c, lab, f, None, [m, m2], lor(ne(C_, d2[0]), ne(S_, ONE), ne(d2[2], ONE)))
    c.group('product', prod)

    def extract():
        p = sym('p')
        for nm, dim in (('getRow', 0), ('getCol', 1)):
            f = c.func(M + '::' + nm, 1)
            lab, m, d = new_lab(c, [ge(p, ONE), le(p, (R, C_)[dim])])
            g = pre(lab, m)
            r, alive = lab.run(f, m, [p])
            total(c, lab, nm, f, alive)
            if alive:
                nd = tuple(ONE if x == dim else d[x] for x in range(3))
                same_contents(c, lab, nm, where(f), lab.place(r), nd,
                              (lambda i, j, k: g(p, j, k)) if dim == 0 else (lambda i, j, k: g(i, p, k)))
    c.group('extraction', extract)


def swapped(lab, g, i, j):
    return g(j, i, ONE)


# ------------------------------------------------------------------ C07
def c07(c):
    """matchRow and matchCol are summarised for symbolic matrices and each number of decimals 0..9; every entry of the result is
    compared with: the last row (column) of the other matrix whose entries print equally after rounding to that
    many decimals, or -1."""
    c.rules.append('closed form of entry i: last matching index, -1 when none')
    R, C_, S_ = Rs()
    digits = range(0, 7) if c.tier == 'quick' else range(0, 10)
    for nm, dim in (('matchRow', 0), ('matchCol', 1)):
        for sf in digits:
            def one(nm=nm, dim=dim, sf=sf):
                f = c.func(M + '::' + nm, 2)
                n2 = sym('n2')
                lab, m, d = new_lab(c, [ge(n2, ONE)], dims=(R, C_, ONE))
                d2 = (n2, C_, ONE) if dim == 0 else (R, n2, ONE)
                m2 = lab.matrix('m2', *d2)
                r, alive = lab.run(f, m, [m2, C(sf)])
                name = '%s with %d decimals' % (nm, sf)
                total(c, lab, name, f, alive)
                if not alive:
                    return
                v = lab.val(r)
                c.equal('%s: one entry per own row/column' % name, where(f), vlen(v), d[dim], lab.e.ctx())
                i, x, y = sym('i'), fresh('x'), fresh('y')
                e = lab.e
                for fct in (ge(i, ZERO), lt(i, d[dim])):
                    e.assume(fct)
                cur = e.st
                oth = d[1 - dim]
                e.st = cur.fork(ge(x, ZERO), lt(x, n2), ge(y, ZERO), lt(y, oth))
                i1, x1, y1 = add(i, ONE), add(x, ONE), add(y, ONE)
                a = lab.get(m, *((i1, y1) if dim == 0 else (y1, i1)))
                b = lab.get(m2, *((x1, y1) if dim == 0 else (y1, x1)))
                e.st = cur
                differ = mkex(y, oth, lnot(eq(text(a, sf), text(b, sf))))
                spec = mklast(x, n2, lnot(differ), add(x, ONE), C(-1))
                c.equal('%s: entries' % name, where(f), sel(varr(v), (i,), 'i', e.ctx()), spec, e.ctx())
            c.group('%s/%d' % (nm, sf), one)


def text(v, sf):
    t = C(10 ** sf)
    return app('ostr', 's', rdiv(app('round', 'r', mul(v, t)), t))
