"""Readers of coefficient and log files, on files of bounded shape with arbitrary numbers."""
from sa.terms import *
from sa.terms import num
from sa.lab import Lab
from sa.engine import LV, loc, Dead
from sa import types as ty
from sa.report import Vanished
from checks.matrix import where
from checks.io import Obj, last_component, length_fact


def lines(*ls):
    a = fill(EMPTY)
    for i, l in enumerate(ls):
        a = store(a, (C(i),), l if isinstance(l, T) else S(l))
    return vec(C(len(ls)), a)


class Reading:
    """one reader object and the file it reads"""

    def __init__(self, c, cls, path, content, facts=()):
        self.c, self.cls, self.path = c, cls, path if isinstance(path, T) else S(path)
        self.content = content
        there = app('exists', 'b', self.path)
        self.lab = Lab(c, [there] + list(facts), opts={'files': self.files})
        self.e = self.lab.e
        self.opened = 0
        self.ob = Obj(self.lab, cls, [self.path])

    def files(self, eng, path):
        return lines(*self.content) if eng.simp(eq(path, self.path)) is TRUE else None

    def read(self):
        """-> completes"""
        r, ok = self.ob.call('read')
        return ok

    def where(self, name):
        return where(self.ob.f(name, ()))

    def matrix(self, l):
        return self.e.lv_of_ptr(l, 'Matrix')


def completes(c, rd, nm):
    """reading ends normally and nothing is refused on the way"""
    f = rd.ob.f('read', ())
    n0, v0 = len(rd.e.exits), len(rd.e.events)
    ok = rd.read()
    rd.lab.accesses('%s: reading' % nm, v0)
    for x in rd.e.exits[n0:]:
        c.never('%s: nothing is refused' % nm, loc(x.node), rd.e.ctx_of(x.pc))
    if not ok:
        c.holds('%s: reading completes' % nm, where(f), FALSE, rd.lab.ctx())
    else:
        c.holds('%s: reading completes' % nm, where(f), TRUE, rd.lab.ctx())
    return ok


def refused(c, rd, nm):
    f = rd.ob.f('read', ())
    if rd.read():
        c.never('%s: refused' % nm, where(f), rd.e.ctx())
    else:
        c.holds('%s: refused' % nm, where(f), TRUE, rd.lab.ctx())


# ------------------------------------------------------------------ coefficient files
def coef(spin, i, j):
    return num('mant', 'm%s%d.%d' % (spin, i, j), 11), num('expo', 'e%s%d.%d' % (spin, i, j), 3)


def coef_value(spin, i, j):
    m, x = coef(spin, i, j)
    return mul(app('stod', 'r', m), app('pow', 'r', C(10), app('stod', 'r', x)))


def mo(spin, i, n):
    ls = [cat(S('%5d %s MO OE=' % (i, spin)), num('mant', 'oe%s%d' % (spin, i), 11), S('D'), num('expo', 'ox%s%d' % (spin, i), 3))]
    row = []
    for j in range(1, n + 1):
        m, x = coef(spin, i, j)
        row += [m, S('D'), x]
        if j % 5 == 0 or j == n:
            ls.append(cat(*row))
            row = []
    return ls


def pun(n, alpha, beta, tail=()):
    ls = [S('(5D15.8)')]
    for spin, k in (('Alpha', alpha), ('Beta', beta)):
        for i in range(1, k + 1):
            ls += mo(spin, i, n)
    return ls + list(tail)


SHAPES = [(1, 1, 0), (3, 3, 0), (5, 5, 0), (7, 7, 0), (10, 2, 0), (12, 12, 0), (2, 2, 2), (5, 5, 5), (6, 6, 6), (10, 3, 3), (11, 2, 2), (4, 3, 2), (4, 2, 3), (2, 12, 12)]
MORE = [(n, n, b) for n in range(1, 17) for b in (0, n)] + [(26, 26, 26), (31, 11, 11), (25, 30, 0), (1, 40, 40)]


def c18(c):
    c.rules.append('element (i, j) of a spin is the j-th number below the i-th orbital header of that spin')

    def shape(n, alpha, beta, tail):
        nm = '%d numbers per orbital, %d alpha and %d beta orbitals%s' % (n, alpha, beta, ', text behind' if tail else '')

        def go():
            rd = Reading(c, 'PunReader', 'dir/mol.pun', pun(n, alpha, beta, tail))
            if not completes(c, rd, nm):
                return
            for spin, k in (('Alpha', alpha), ('Beta', beta)):
                n0 = len(rd.e.exits)
                p, ok = rd.ob.call('getCoefsMatrix', S(spin))
                w = where(rd.ob.f('getCoefsMatrix', (S(spin),)))
                if not k:
                    c.holds('%s: no %s coefficients' % (nm, spin), w, Bc(not ok), rd.lab.ctx())
                    continue
                if not ok:
                    c.holds('%s: %s coefficients are there' % (nm, spin), w, FALSE, rd.lab.ctx())
                    continue
                for x in rd.e.exits[n0:]:
                    c.never('%s: %s coefficients are there' % (nm, spin), loc(x.node), rd.e.ctx_of(x.pc))
                m = rd.matrix(p)
                d = rd.lab.dims(m)
                for what, a, b in zip(('rows', 'columns'), d, (k, n)):
                    c.equal('%s: %s %s' % (nm, spin, what), w, a, C(b), rd.lab.ctx())
                for i in range(1, k + 1):
                    for j in range(1, n + 1):
                        c.equal('%s: %s element' % (nm, spin), w, rd.lab.get(m, C(i), C(j)), coef_value(spin, i, j), rd.lab.ctx())
            r = rd.ob.do('restrictedShell')
            c.holds('%s: one or two spins' % nm, rd.where('restrictedShell'), eq(r, Bc(not beta)), rd.lab.ctx())
        c.group(nm, go)
    for s in SHAPES + (MORE if c.tier == 'thorough' else []):
        shape(*s, ())
    shape(5, 5, 0, (S(' 0 Cartesian Gradient'),))
    shape(3, 3, 3, (S(' 0 Cartesian Gradient'),))

    def short(n, alpha, beta, drop):
        nm = '%d numbers per orbital, %d alpha and %d beta orbitals, last %d lines missing' % (n, alpha, beta, drop)

        def go():
            rd = Reading(c, 'PunReader', 'dir/mol.pun', pun(n, alpha, beta)[:-drop])
            refused(c, rd, nm)
        c.group(nm, go)
    for n, a, b in ((7, 3, 0), (12, 2, 0), (6, 2, 2)):
        per = (n + 4) // 5
        for d in range(1, per + 1):
            short(n, a, b, d)

    def names():
        p = sym('path', 's')
        lab = Lab(c, [length_fact(p), app('blankfree', 'b', p)])
        name = last_component(p)
        d = app('lof', 'i', name, S('.'))
        end = app('substr', 's', name, d, MONE)
        bad = lor(lt(d, ZERO), land(*[ne(end, S(x)) for x in ('.pun', '.orb', '.7')]))
        made(c, lab, 'PunReader', p, bad)
    c.group('file names', names)
    c.group('missing file', lambda: missing(c, 'PunReader', 'mol.pun'))


def made(c, lab, cls, p, bad):
    """constructing the reader refuses exactly the names that are bad"""
    e = lab.e
    base = e.st.fork()
    n0 = len(e.exits)
    try:
        ob = Obj(lab, cls, [p], must=False)
        c.never('%s: refuses names without its extension' % cls, where(ob.ct), e.ctx().extend(bad))
    except Dead:
        c.holds('%s: accepts something' % cls, '', bad, e.ctx_of(base.pc))
    for x in e.exits[n0:]:
        c.never('%s: refuses no other name' % cls, loc(x.node), e.ctx_of(x.pc).extend(lnot(bad)))


def missing(c, cls, path):
    lab = Lab(c, [lnot(app('exists', 'b', S(path)))])
    ob = Obj(lab, cls, [S(path)])
    r, ok = ob.call('read')
    f = ob.f('read', ())
    if ok:
        c.never('a file that does not exist is refused', where(f), lab.e.ctx())
    else:
        c.holds('a file that does not exist is refused', where(f), TRUE, lab.ctx())


# ------------------------------------------------------------------ log files
def gap(*xs):
    """texts with blanks in front of each"""
    out = []
    for x in xs:
        out += [S('  '), x]
    return cat(*out)


def energy_line(spin, kind, items, joined=False):
    """items: texts of numbers; joined: nothing between them"""
    head = S('%s %s eigenvalues -- ' % (spin.rjust(6), kind))
    return cat(head, S('  '), *items) if joined else cat(head, gap(*items))


def signed(nm, minus):
    t = num('utok', nm)
    return cat(S('-'), t) if minus else t


def energies(tag, spin, occ, virt):
    """lines and the values on them; 5 to a line"""
    ls, vals = [], []
    for kind, k in ((' occ.', occ), ('virt.', virt)):
        row = []
        for j in range(1, k + 1):
            x = signed('%s%s%s%d' % (tag, spin, kind.strip('. '), j), kind == ' occ.')
            row.append(x)
            vals.append(x)
            if j % 5 == 0 or j == k:
                ls.append(energy_line(spin, kind, row))
                row = []
    return ls, vals


def noise(k):
    return [S(' Leave Link  %d' % k), S(''), S(' The electronic state is 1-AG.')]


def table(tag, atoms, title='Center     Atomic      Atomic'):
    dash = S(' ' + '-' * 69)
    ls = [dash, S(' %s             Coordinates (Angstroms)' % title), S(' Number     Number       Type             X           Y           Z'), dash]
    vals = []
    for i in range(1, atoms + 1):
        v = [num('tok', '%s.%s%d' % (tag, q, i)) for q in 'xyz']
        vals.append(v)
        ls.append(cat(S('%7d %10d %11d    ' % (i, 6, 0)), gap(*v)))
    return ls + [dash], vals


def overlap(n):
    """lower triangle in blocks of five columns"""
    ls = [S(' *** Overlap ***')]
    vals = {}
    for b in range(0, n, 5):
        hi = min(b + 5, n)
        ls.append(S(' ' + ''.join('%14d' % (j + 1) for j in range(b, hi))))
        for i in range(b, n):
            xs = []
            for j in range(b, min(i + 1, hi)):
                m, x = num('tok', 's%d.%d' % (i + 1, j + 1)), num('expo', 't%d.%d' % (i + 1, j + 1), 3)
                vals[i + 1, j + 1] = mul(app('stod', 'r', m), app('pow', 'r', C(10), app('stod', 'r', x)))
                xs.append(cat(m, S('D'), x))
            ls.append(cat(S('%7d' % (i + 1)), gap(*xs)))
    return ls + [S(' *** Kinetic Energy ***')], vals


ORB = ['1S', '2S', '2PX', '2PY', '2PZ', '3S', '3PX', '3PY', '3PZ', '4XX', '4YY', '4ZZ', '4XY', '4XZ', '4YZ']


def population(atoms):
    """atoms: (element, number of functions)"""
    ls = [S('     Gross orbital populations:'), S('                           1')]
    ao = 0
    for a, (el, k) in enumerate(atoms, 1):
        for j in range(k):
            ao += 1
            head = '%4d %-4d%-2s %-9s' % (ao, a, el, ' ' + ORB[j]) if j == 0 else '%4d       %-9s' % (ao, ' ' + ORB[j])
            ls.append(cat(S(head), gap(num('tok', 'p%d' % ao))))
    return ls + [S('          Condensed to atoms (all electrons):')]


def parsed(x):
    return app('stod', 'r', x)


def c19(c):
    c.rules.append('each quantity is the numbers at its place of the latest section that reports it, in order')

    deep = c.tier == 'thorough'

    def read(nm, content, bare=False):
        rd = Reading(c, 'LogReader', 'dir/mol.log', content if bare else noise(1) + content + noise(2))
        return rd if completes(c, rd, nm) else None

    def sequence(rd, nm, w, v, want):
        c.equal('%s: how many' % nm, w, vlen(v), C(len(want)), rd.lab.ctx())
        for i, x in enumerate(want):
            c.equal('%s: each value' % nm, w, sel(varr(v), (C(i),), x.sort, rd.lab.ctx()), x, rd.lab.ctx())

    def levels(rd, nm, spin, occ, vals):
        n0 = len(rd.e.exits)
        w = where(rd.ob.f('getOE', (S(spin),)))
        v, ok = rd.ob.call('getOE', S(spin))
        if not ok:
            return c.holds('%s: %s energies are there' % (nm, spin), w, FALSE, rd.lab.ctx())
        sequence(rd, '%s: %s energies' % (nm, spin), w, v, [parsed(x) for x in vals])
        w = where(rd.ob.f('getHOMOLevel', (S(spin),)))
        h, ok = rd.ob.call('getHOMOLevel', S(spin))
        c.equal('%s: %s occupied levels' % (nm, spin), w, h if ok else top('no level', 'i'), C(occ), rd.lab.ctx())
        for x in rd.e.exits[n0:]:
            c.never('%s: %s energies are there' % (nm, spin), loc(x.node), rd.e.ctx_of(x.pc))

    def energy(nm, *blocks, bare=False):
        """blocks: (spin, occupied, virtual)"""
        def go():
            content, last = [], {}
            for i, (spin, occ, virt) in enumerate(blocks):
                if spin == 'text':
                    content += noise(3 + i)
                    continue
                ls, vals = energies('abcdefg'[i], spin, occ, virt)
                content += ls
                last[spin] = occ, vals
            rd = read(nm, content, bare)
            if rd:
                for spin in sorted(last):
                    levels(rd, nm, spin, *last[spin])
        c.group(nm, go)
    for occ, virt in ((1, 1), (5, 5), (4, 3), (7, 6), (12, 8)):
        energy('%d occupied and %d virtual Alpha levels' % (occ, virt), ('Alpha', occ, virt))
        energy('%d occupied and %d virtual levels of two spins' % (occ, virt), ('Alpha', occ, virt), ('Beta', occ - 1 or 1, virt + 1))
    energy('levels of two spins and nothing else', ('Alpha', 6, 2), ('Beta', 5, 3), bare=True)
    energy('text between the levels of two spins', ('Alpha', 3, 3), ('text', 0, 0), ('Beta', 2, 2))
    energy('levels of one spin and nothing else', ('Alpha', 6, 2), bare=True)
    if deep:
        for n in range(1, 31):
            energy('%d levels of each kind of two spins' % n, ('Alpha', n, n + 3), ('Beta', n + 1, n))
    energy('two blocks of Alpha energies', ('Alpha', 6, 3), ('text', 0, 0), ('Alpha', 4, 5))
    energy('two blocks of both spins', ('Alpha', 6, 3), ('Beta', 5, 4), ('text', 0, 0), ('Alpha', 3, 2), ('Beta', 2, 3))

    def joined(signs, first):
        """numbers without blanks between them where a minus sign follows"""
        nm = 'energies %s in one word' % ''.join('-' if s else '+' for s in signs) + (' behind a full line' if first else '')

        def go():
            xs = [signed('j%d' % i, s) for i, s in enumerate(signs)]
            ls, vals = energies('a', 'Alpha', 5, 0) if first else ([], [])
            rd = read(nm, ls + [energy_line('Alpha', ' occ.', xs, True)])
            if rd:
                levels(rd, nm, 'Alpha', len(vals) + len(xs), vals + xs)
        c.group(nm, go)
    for k in range(1, 6):
        joined([True] * k, False)
        joined([True] * k, True)
    joined([False, True], True)
    joined([False, True, True, True], True)

    def partly(cut):
        """x: nothing in front of the number"""
        nm = 'energies with blanks at some places: %s' % cut

        def go():
            xs = [signed('j%d' % i, True) for i in range(len(cut))]
            rd = read(nm, [cat(S(' Alpha  occ. eigenvalues -- '), *[y for p, x in zip(cut, xs) for y in (S('  ') if p == ' ' else EMPTY, x)])])
            if rd:
                levels(rd, nm, 'Alpha', len(cut), xs)
        c.group(nm, go)
    for k in range(2, 6):
        for m in range(1 << (k - 1)):
            partly(' ' + ''.join('x' if m >> i & 1 else ' ' for i in range(k - 1)))

    def coords(nm, *tables):
        def go():
            content = []
            for i, (n, t) in enumerate(tables):
                ls, vals = table('t%d' % i, n, t)
                content += ls + noise(7 + i)
            rd = read(nm, content)
            if not rd:
                return
            v = rd.ob.do('getCoords')
            w = where(rd.ob.f('getCoords', ()))
            c.equal('%s: three directions' % nm, w, vlen(v), C(3), rd.lab.ctx())
            for q in range(3):
                x = sel(varr(v), (C(q),), 'v', rd.lab.ctx())
                sequence(rd, '%s: %s' % (nm, 'xyz'[q]), w, x, [parsed(r[q]) for r in vals])
        c.group(nm, go)
    A, B = 'Center     Atomic      Atomic', 'Center     Atomic     Atomic'
    for n in (1, 2, 5, 12) + ((30, 60) if deep else ()):
        coords('coordinates of %d atoms' % n, (n, A))
    coords('coordinates of 3 atoms, older title', (3, B))
    coords('two tables of coordinates', (3, A), (3, A))
    coords('three tables of coordinates, the last one shorter', (4, A), (4, B), (2, A))

    def overlaps(n):
        nm = 'overlap of %d functions' % n

        def go():
            ls, vals = overlap(n)
            rd = read(nm, ls)
            if not rd:
                return
            n0 = len(rd.e.exits)
            p, ok = rd.ob.call('getOverlapMatrix')
            w = where(rd.ob.f('getOverlapMatrix', ()))
            if not ok:
                return c.holds('%s: it is there' % nm, w, FALSE, rd.lab.ctx())
            for x in rd.e.exits[n0:]:
                c.never('%s: it is there' % nm, loc(x.node), rd.e.ctx_of(x.pc))
            m = rd.matrix(p)
            for what, a in zip(('rows', 'columns'), rd.lab.dims(m)):
                c.equal('%s: %s' % (nm, what), w, a, C(n), rd.lab.ctx())
            for (i, j), x in vals.items():
                c.equal('%s: lower triangle' % nm, w, rd.lab.get(m, C(i), C(j)), x, rd.lab.ctx())
                c.equal('%s: upper triangle' % nm, w, rd.lab.get(m, C(j), C(i)), x, rd.lab.ctx())
        c.group(nm, go)
    for n in (1, 2, 4, 5, 6, 7, 10, 11, 13, 15, 16):
        overlaps(n)
    if deep:
        for n in [3, 8, 9, 12, 14] + list(range(17, 32)):
            overlaps(n)

    def functions(nm, atoms):
        def go():
            rd = read(nm, population(atoms))
            if not rd:
                return
            v = rd.ob.do('getBasisFuncCount')
            sequence(rd, nm, where(rd.ob.f('getBasisFuncCount', ())), v, [C(k) for el, k in atoms])
        c.group(nm, go)
    functions('functions of one atom', [('C', 5)])
    functions('functions of two atoms', [('C', 5), ('H', 2)])
    functions('atoms with one function', [('H', 1), ('H', 1), ('C', 3), ('H', 1)])
    functions('functions of eleven atoms', [('C', 2), ('Cl', 3)] + [('H', 1 + i % 2) for i in range(9)])

    if deep:
        functions('functions of thirty atoms', [(('C', 15), ('H', 5), ('Cl', 7))[i % 3] for i in range(30)])

    def whole():
        """two steps of a calculation, every section in each"""
        content = []
        for t in 'ab':
            tl, tv = table(t, 3, A)
            al, av = energies(t, 'Alpha', 4 if t == 'a' else 7, 3)
            bl, bv = energies(t, 'Beta', 3 if t == 'a' else 6, 4)
            content += tl + noise(5) + overlap(7)[0] + noise(6) + al + bl + population([('C', 5), ('H', 2)])
        nm = 'two steps'
        rd = read(nm, content)
        if not rd:
            return
        v = rd.ob.do('getCoords')
        for q in range(3):
            sequence(rd, '%s: %s' % (nm, 'xyz'[q]), where(rd.ob.f('getCoords', ())), sel(varr(v), (C(q),), 'v', rd.lab.ctx()), [parsed(r[q]) for r in tv])
        levels(rd, nm, 'Alpha', 7, av)
        levels(rd, nm, 'Beta', 6, bv)
        sequence(rd, nm + ': functions', where(rd.ob.f('getBasisFuncCount', ())), rd.ob.do('getBasisFuncCount'), [C(5), C(2)])
        m = rd.matrix(rd.ob.do('getOverlapMatrix'))
        for (i, j), x in overlap(7)[1].items():
            c.equal('%s: overlap' % nm, where(rd.ob.f('getOverlapMatrix', ())), rd.lab.get(m, C(j), C(i)), x, rd.lab.ctx())
    c.group('two steps', whole)

    def absent():
        rd = read('no section', [])
        if not rd:
            return
        for get in ('getOE', 'getHOMOLevel'):
            st = rd.e.st.fork()
            r, ok = rd.ob.call(get, S('Alpha'))
            c.holds('levels of a log file without any are refused', where(rd.ob.f(get, (S('Alpha'),))), Bc(not ok), rd.lab.ctx())
            rd.e.st = st
        p, ok = rd.ob.call('getOverlapMatrix')
        w = where(rd.ob.f('getOverlapMatrix', ()))
        if ok:
            c.never('a log file without overlap is refused', w, rd.e.ctx())
        else:
            c.holds('a log file without overlap is refused', w, TRUE, rd.lab.ctx())
    c.group('no section', absent)

    def cut(nm, content, at):
        def go():
            rd = Reading(c, 'LogReader', 'dir/mol.log', (noise(1) + content)[:3 + at])
            refused(c, rd, '%s, cut off' % nm)
        c.group('%s, %d lines only' % (nm, at), go)
    t = table('t', 3)[0]
    for at in range(2, len(t)):
        cut('coordinates', t, at)
    o = overlap(7)[0]
    for at in list(range(1, len(o) - 1)):
        cut('overlap', o, at)
    f = population([('C', 3), ('H', 1)])
    for at in range(1, len(f)):
        cut('functions', f, at)

    def names():
        p = sym('path', 's')
        lab = Lab(c, [length_fact(p), app('blankfree', 'b', p)])
        name = last_component(p)
        d = app('lof', 'i', name, S('.'))
        made(c, lab, 'LogReader', p, lor(lt(d, ZERO), ne(app('substr', 's', name, d, MONE), S('.log'))))
    c.group('file names', names)
    c.group('missing file', lambda: missing(c, 'LogReader', 'mol.log'))
