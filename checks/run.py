"""The program as a whole: which file, spin and orbital goes where."""
from sa.terms import *
from sa.terms import has_top, ptr, _mk
from sa.lab import Lab
from sa.engine import LV, loc, Dead
from sa import types as ty
from sa.report import Vanished
from checks.matrix import where

TRIO = ('P', '1', '2')
ROLE = {'P': 'dimer', '1': 'first monomer', '2': 'second monomer'}


def val(e, a):
    return a if isinstance(a, T) else e.read(a)


class Program:
    """main with its readers, settings and the transfer complex replaced by what they are documented to deliver"""

    def __init__(self, c):
        self.c = c
        self.spin = {u: sym('spin' + u, 's') for u in TRIO}
        self.pun = {u: sym('pun' + u, 's') for u in TRIO}
        self.log = {u: sym('log' + u, 's') for u in TRIO}
        self.type = {u: sym('type' + u, 's') for u in '12'}
        self.num = {u: sym('num' + u) for u in '12'}
        self.cp = sym('cp', 'b')
        self.mats = {}
        self.calls = []
        facts = [lor(*[eq(x, S(y)) for y in ('Alpha', 'Beta')]) for x in self.spin.values()]
        facts += [lor(*[eq(x, S(y)) for y in ('HOMO', 'LUMO')]) for x in self.type.values()]
        m = {}
        for q, f in {'prepareParser': self.handle('ArgumentParser'), 'prepareParameters': self.handle('Parameters'), 'ArgumentParser::parse': self.parse,
                     'PunReader::PunReader': self.open, 'LogReader::LogReader': self.open, 'FileReader::read': self.reading,
                     'PunReader::getCoefsMatrix': self.coef, 'LogReader::getOverlapMatrix': self.overlap, 'LogReader::getOE': self.energies,
                     'LogReader::getHOMOLevel': self.homo, 'LogReader::getBasisFuncCount': self.basis, 'LogReader::getCoords': self.coords,
                     'TransferComplex::TransferComplex': self.build, 'TransferComplex::unscramble': self.unscramble, 'TransferComplex::calcJ': self.calc}.items():
            if not c.prog.by_qname.get(q):
                raise Vanished(q)
            m[q] = f
        for k, d in (('Pun', self.pun), ('Log', self.log), ('Spin', self.spin)):
            for u in TRIO:
                m['Parameters::get' + k + u] = self.const(d[u])
        for u in '12':
            m['Parameters::getOrbType' + u] = self.const(self.type[u])
            m['Parameters::getOrbNum' + u] = self.const(self.num[u])
        m['Parameters::getCounterPoise'] = self.const(self.cp)
        for d in ('ArgumentParser::~ArgumentParser', 'Parameters::~Parameters', 'PunReader::~PunReader', 'LogReader::~LogReader',
                  'FileReader::~FileReader', 'TransferComplex::~TransferComplex'):
            m[d] = self.nothing
        self.lab = Lab(c, facts, models=m, opts={"track_out": True})
        self.e = self.lab.e
        for k in ('parse', 'complex', 'unscramble', 'calcJ'):
            self.root_flag(k, FALSE)

    # ---- models
    def nothing(self, eng, f, this, args, node):
        return None

    def const(self, v):
        return lambda eng, f, this, args, node: v

    def handle(self, cls):
        root = ('h', cls)

        def m(eng, f, this, args, node):
            eng.st.mem[root] = sym(cls, 'o')
            self.root_flag('made ' + cls, TRUE)
            return ptr(root, ())
        return m

    def root_flag(self, what, v):
        self.e.st.mem[('o', what)] = v

    def flag(self, what):
        return self.e.st.mem.get(('o', what), FALSE)

    def parse(self, eng, f, this, args, node):
        self.event('parse', node, [val(eng, a) for a in args])
        return None

    def event(self, kind, node, args):
        if not self.e.dry:
            self.calls.append((kind, node, args, self.e.st.fork()))
        self.root_flag(kind, TRUE)

    def open(self, eng, f, this, args, node):
        eng.write(this, struct_reader(f.qname.split('::')[0], val(eng, args[0]), FALSE))
        return None

    def reading(self, eng, f, this, args, node):
        v = eng.read(this)
        eng.write(this, struct_reader(v.args[0], proj(v, 'path', 's'), TRUE))
        return None

    def path(self, eng, this, node, what):
        v = eng.read(this)
        if not eng.dry:
            self.c.holds('%s is asked for after the file was read' % what, loc(node), proj(v, 'read', 'b'), eng.ctx())
        return proj(v, 'path', 's')

    def matrix(self, kind, *key):
        k = (kind,) + key
        if k not in self.mats:
            nm = '%s(%s)' % (kind, ', '.join(show(x) for x in key))
            r, cc = sym('rows of ' + nm), sym('columns of ' + nm)
            self.mats[k] = (nm, r, cc)
            self.e.assume(land(ge(r, ONE), ge(cc, ONE)))
        nm, r, cc = self.mats[k]
        if ('o', nm) not in self.e.st.mem:
            return self.lab.matrix(nm, r, cc, ONE)
        return LV(('o', nm))

    def coef(self, eng, f, this, args, node):
        return eng.ptr_of(self.matrix('coefficients', self.path(eng, this, node, 'coefficients'), val(eng, args[0])))

    def overlap(self, eng, f, this, args, node):
        return eng.ptr_of(self.matrix('overlap', self.path(eng, this, node, 'overlap')))

    def energies(self, eng, f, this, args, node):
        return self.energies_of(self.path(eng, this, node, 'energies'), val(eng, args[0]))

    def energies_of(self, path, spin):
        n = app('count', 'i', S('energies'), path, spin)
        self.e.assume(ge(n, ONE))
        return vec(n, app('data', 'a', S('energies'), path, spin))

    def homo(self, eng, f, this, args, node):
        return self.homo_of(self.path(eng, this, node, 'HOMO level'), val(eng, args[0]))

    def homo_of(self, path, spin):
        return app('level', 'i', path, spin)

    def basis(self, eng, f, this, args, node):
        return self.basis_of(self.path(eng, this, node, 'basis functions'))

    def basis_of(self, path):
        n = app('count', 'i', S('basis'), path)
        self.e.assume(ge(n, ZERO))
        return vec(n, app('data', 'a', S('basis'), path))

    def coords(self, eng, f, this, args, node):
        return self.coords_of(self.path(eng, this, node, 'coordinates'))

    def coords_of(self, path):
        n = app('count', 'i', S('atoms'), path)
        self.e.assume(ge(n, ONE))
        a = fill(EMPTY)
        for i in range(3):
            a = store(a, (C(i),), vec(n, app('data', 'a', S('xyz'[i]), path)))
        return vec(C(3), a)

    def build(self, eng, f, this, args, node):
        self.event('complex', node, [val(eng, a) for a in args])
        eng.write(this, sym('complex', 'o'))
        return None

    def unscramble(self, eng, f, this, args, node):
        self.event('unscramble', node, list(args))
        return None

    def calc(self, eng, f, this, args, node):
        self.event('calcJ', node, list(args))
        return sym('J', 'r')


def struct_reader(cls, path, read):
    return _mk('struct', (cls, (('path', path), ('read', read))), 'o')


def c16(c):
    c.rules.append('every quantity is handed on in the role of the unit and spin it was read for')
    p = Program(c)
    lab, e = p.lab, p.e
    f = c.func('main')
    w = where(f)
    argv, argc = ptr(('h', 'argv'), (('i', ZERO, 's'),)), sym('argc')
    e.st.mem[('h', 'argv')] = sym('arguments', 'v')
    r, ok = lab.run(f, None, [argv if ty.sort(x.t) == 'P' else argc for x in f.params], total=False)
    for x in lab.exits():
        c.never('the run is refused by nothing but its parts', loc(x.node), e.ctx_of(x.pc))
    if not ok:
        c.holds('the run completes', w, FALSE, lab.ctx())
        return
    for k, what in (('parse', 'the command line is parsed'), ('complex', 'the complex is built'), ('calcJ', 'the transfer integral is calculated')):
        c.holds(what, w, p.flag(k), lab.ctx())
    final = e.st
    sizes = [app('count', 'i', S('basis'), p.log[u]) for u in TRIO]
    c.equal('orbitals are unscrambled exactly when basis functions are known for all three', w, p.flag('unscramble'), land(*[ge(n, ONE) for n in sizes]), lab.ctx())

    def same_matrix(what, node, l, want, cx):
        """the matrix at l holds what want holds"""
        if l is None:
            c.add(what, loc(node), 'unknown', 'not a matrix')
            return
        d1, d2 = lab.dims(l), lab.dims(want)
        for n, a, b in zip(('rows', 'columns', 'shelves'), d1, d2):
            c.equal('%s: %s' % (what, n), loc(node), a, b, cx)
        i, j = sym('i'), sym('j')
        g = [ge(i, ONE), le(i, d2[0]), ge(j, ONE), le(j, d2[1])]
        keep = e.st
        e.st = keep.fork(*g)
        a, b = lab.get(l, i, j), lab.get(want, i, j)
        c.equal('%s: elements' % what, loc(node), a, b, e.ctx())
        e.st = keep

    def built(cls_args):
        """a matrix of the program made from a vector or rows"""
        l = LV(('o', 'expected' + str(len(e.st.mem))))
        e.st.mem[l.root] = e.uninit('Matrix')
        n0 = len(e.exits)
        want = ty.kind(ty.strip(cls_args[0]))
        ct = [g for g in c.funcs('Matrix::Matrix') if len(g.params) == 1 and ty.kind(ty.strip(g.params[0].t)) == want]
        if not ct:
            raise Vanished('constructor of Matrix from ' + cls_args[0])
        g = ct[0]
        lab.run(g, l, [e.temp(cls_args[1]) if ty.isref(g.params[0].t) else cls_args[1]])
        del e.exits[n0:]
        return l

    VD, VVD = 'std::vector<double>', 'std::vector<std::vector<double>>'

    def handed(kind, node, args, st):
        e.st = st
        cx = e.ctx()
        g = [x for x in c.prog.by_qname[{'parse': 'ArgumentParser::parse', 'complex': 'TransferComplex::TransferComplex',
                                         'unscramble': 'TransferComplex::unscramble', 'calcJ': 'TransferComplex::calcJ'}[kind]] if len(x.params) == len(args)]
        if not g:
            raise Vanished('parameters of ' + kind)
        here = loc(node)
        if kind == 'parse':
            for x, a in zip(g[0].params, args):
                if ty.sort(x.t) == 'P':
                    c.holds('all arguments are parsed', here, TRUE if a is argv else FALSE, cx)
                else:
                    c.equal('number of arguments parsed', here, a, argc, cx)
        elif kind == 'complex':
            ms = [a for a, x in zip(args, g[0].params) if ty.sort(x.t) == 'P']
            rest = [a for a, x in zip(args, g[0].params) if ty.sort(x.t) != 'P']
            if len(ms) != 5 or len(rest) != 3:
                raise Vanished('what a complex is built from')
            want = [p.matrix('coefficients', p.pun['1'], p.spin['1']), p.matrix('coefficients', p.pun['2'], p.spin['2']),
                    p.matrix('coefficients', p.pun['P'], p.spin['P']), p.matrix('overlap', p.log['P']), built((VD, p.energies_of(p.log['P'], p.spin['P'])))]
            cx = e.ctx()
            for what, a, b in zip(('first monomer coefficients', 'second monomer coefficients', 'dimer coefficients', 'overlap of the dimer', 'dimer energies'), ms, want):
                same_matrix(what, node, e.lv_of_ptr(a, 'Matrix'), b, cx)
            for u, o in zip('12', rest[:2]):
                en = p.energies_of(p.log[u], p.spin[u])
                c.equal('%s: number of orbitals' % ROLE[u], here, proj(o, 'first', 'i'), vlen(en), cx)
                c.equal('%s: HOMO level' % ROLE[u], here, proj(o, 'second', 'i'), p.homo_of(p.log[u], p.spin[u]), cx)
            c.equal('counterpoise', here, rest[2], p.cp, cx)
        elif kind == 'unscramble':
            ls = [a for a, x in zip(args, g[0].params) if ty.kind(ty.strip(x.t))[0] == 'cls']
            bs = [a for a, x in zip(args, g[0].params) if ty.kind(ty.strip(x.t))[0] != 'cls']
            if len(ls) != 3 or len(bs) != 2:
                raise Vanished('what unscrambling is given')
            for u, l in zip(('1', '2', 'P'), ls):
                same_matrix('%s: coordinates' % ROLE[u], node, l if not isinstance(l, T) else e.temp(l), built((VVD, p.coords_of(p.log[u]))), cx)
            for u, b in zip(('P', '2'), bs):
                v, x = val(e, b), p.basis_of(p.log[u])
                c.equal('%s: number of atoms with basis functions' % ROLE[u], here, vlen(v), vlen(x), cx)
                i = sym('i')
                c.equal('%s: basis functions per atom' % ROLE[u], here, sel(varr(v), (i,), 'i'), sel(varr(x), (i,), 'i'), cx.extend(ge(i, ZERO), lt(i, vlen(x))))
            c.holds('unscrambling comes after building and before calculating', here, land(p.flag('complex'), lnot(p.flag('calcJ'))), cx)
        else:
            ks = [ty.kind(ty.strip(x.t)) for x in g[0].params]
            for a, k in zip(args, ks):
                m = val(e, a)
                for u in '12':
                    key = S('mon' + u)
                    c.holds('%s: orbital of the calculation given' % ROLE[u], here, sel(proj(m, '#has', 'a'), (key,), 'b'), cx)
                    so = ty.SORT[k[2][0]] if isinstance(k[2], tuple) else ty.sort(k[2])
                    c.equal('%s: orbital %s' % (ROLE[u], 'type' if so == 's' else 'number'), here, sel(proj(m, '#val', 'a'), (key,), so),
                            p.type[u] if so == 's' else p.num[u], cx)
    for kind, node, args, st in p.calls:
        c.group(kind, lambda: handed(kind, node, args, st))
    e.st = final
    text = [v for k, v in final.mem.items() if k[0] == 'g' and k[1] == 'cout']

    def report():
        if not text or has_top(text[0]):
            c.add('what was calculated is reported', w, 'unknown', 'text not known')
            return
        signs = {'=': eq, '+': gt, '-': lt}
        for s1 in signs:
            for s2 in signs:
                for cx, t in cases(lab.ctx(signs[s1](p.num['1'], ZERO), signs[s2](p.num['2'], ZERO)), text[0]):
                    told(cx, lines_of(t), s1, s2)

    def told(cx, lines, s1, s2):
        for label, pieces in expected(p, {'1': s1, '2': s2}):
            ws = words(label)
            got = [l for l in lines if l and l[0].op == 'str' and words(l[0].args[0])[:len(ws)] == ws]
            nm = 'report line "%s" (orbital numbers %s, %s)' % (label, s1, s2)
            if not got:
                near = [l for l in lines if set(ws) <= set(words(' '.join(x.args[0] for x in l if x.op == 'str')))]
                if any(x.op == 'ite' for l in lines for x in l) or near:
                    c.add(nm, w, 'unknown', 'no line begins so')
                else:
                    c.holds(nm, w, FALSE, cx, 'no line tells this')
                continue
            fixed = [x for x in map(cx.simp, pieces) if x.op == 'str']
            for l in got:
                have = [x for x in l if x.op != 'str']
                if fixed and pieces[0].op != 'str' and len(have) == len(pieces) - 1:
                    # one orbital only: its number is part of the text
                    for a, b in zip(have, pieces):
                        c.equal(nm, w, a, b, cx)
                    k = l.index(have[-1]) + 1
                    tail = l[k].args[0] if k < len(l) and l[k].op == 'str' else ''
                    n = fixed[0].args[0]
                    c.holds(nm + ': number', w, TRUE if words(tail)[:1] == [n if n[0] == '-' else '+' + n] else FALSE, cx)
                    continue
                if len(have) != len(pieces):
                    lost = [b for b in pieces if not any(y is q for x in have for y in subterms(x) for q in core(b))]
                    if lost and not any(x.op == 'ite' for x in have):
                        c.holds(nm, w, FALSE, cx, 'the line does not tell ' + show(lost[0])[:80])
                    else:
                        c.add(nm, w, 'unknown', '%d values in the line' % len(have))
                    continue
                for a, b in zip(have, pieces):
                    c.equal(nm, w, a, b, cx)
                if len(pieces) == 3:
                    k = l.index(have[2])
                    sign = l[k - 1].args[0] if l[k - 1].op == 'str' else ''
                    c.holds(nm + ': sign', w, TRUE if ('+' in sign) == (signs_of(label, s1, s2) == '+') else FALSE, cx)
    c.group('report', report)


def core(b):
    """what a printed value is made of"""
    return [b.args[1]] if b.op == 'app' and b.args[0] == 'tos' else [b]


def cases(cx, t, depth=6):
    """the forms of a text under the conditions it depends on"""
    t = cx.simp(t)
    x = next((x for x in (t.args if t.op == 'cat' else (t,)) if x.op == 'ite'), None)
    if x is None or not depth:
        return [(cx, t)]
    out = []
    for c in (x.args[0], lnot(x.args[0])):
        d = cx.extend(c)
        if not d.impossible():
            out += cases(d, t, depth - 1)
    return out


def signs_of(label, s1, s2):
    return s1 if '1' in label else s2


def words(s):
    return s.replace(':', ' ').split()


def expected(p, sign):
    """(label, values) of the lines that tell what is calculated"""
    out = [('Dimer Spin', [p.spin['P']])]
    for u, nm in (('1', 'Monomer 1 Spin'), ('2', 'Monomer 2 Spin')):
        out.append((nm, [p.spin[u], p.type[u]] + ([app('tos', 's', p.num[u])] if sign[u] != '=' else [])))
    for k, d in (('log', p.log), ('pun', p.pun)):
        for u, nm in (('1', 'for first monomer is'), ('2', 'for second monomer is'), ('P', 'for dimer is')):
            if k == 'pun':
                nm = nm.replace('for ', 'for the ')
            out.append(('%s file %s' % (k, nm), [d[u]]))
    return out


def lines_of(t):
    """a text as lines of pieces"""
    out = [[]]
    for x in (t.args if t.op == 'cat' else (t,)):
        if x.op == 'str':
            first, *more = x.args[0].split('\n')
            if first:
                out[-1].append(S(first))
            for m in more:
                out.append([S(m)] if m else [])
        else:
            out[-1].append(x)
    return out
