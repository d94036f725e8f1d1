"""C++ type strings -> kinds."""
import re
from functools import lru_cache
from .frontend import clean_type

INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'signed char',
        'unsigned char', 'long long', 'unsigned long long', 'size_t', 'wchar_t', 'ptrdiff_t', 'std::size_t',
        'unsigned', '__off_t', '__mode_t'}


def targs(t):
    """template arguments of 'X<a, b>'"""
    i = t.find('<')
    if i < 0:
        return []
    d = 0
    out = []
    cur = ''
    for ch in t[i:]:
        if ch == '<' or ch == '(':
            d += 1
            if d == 1 and ch == '<':
                continue
        elif ch == '>' or ch == ')':
            d -= 1
            if d == 0 and ch == '>':
                break
        elif ch == ',' and d == 1:
            out.append(cur.strip())
            cur = ''
            continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


@lru_cache(None)
def strip(t):
    """drop references and top-level const"""
    t = clean_type(t or '')
    ch = True
    while ch:
        ch = False
        t = t.strip()
        for suf in ('&&', '&'):
            if t.endswith(suf):
                t = t[:-len(suf)]
                ch = True
        if t.endswith(' const') or t.endswith('*const'):
            t = t[:-5].strip()
            ch = True
        if t.startswith('const ') and not t.endswith('*'):
            t = t[6:]
            ch = True
        if t.startswith('volatile '):
            t = t[9:]
            ch = True
        if t.startswith('enum '):
            t = t[5:]
            ch = True
    return t


def isref(t):
    return (t or '').strip().endswith('&')


def isrref(t):
    return (t or '').strip().endswith('&&')


STRS = ('std::basic_string<char>', 'std::string', 'std::__cxx11::basic_string<char>', 'string')


@lru_cache(None)
def kind(t):
    t = strip(t)
    if t.endswith(']'):
        m = re.match(r'^(.*)\[(\d+)\]$', t)
        if m:
            return ('vec', m.group(1).strip())
    if t in STRS or t.startswith('std::basic_string<char'):
        return ('s',)
    if t == 'bool':
        return ('b',)
    if t.startswith('std::fpos<') or t == 'std::streampos':
        return ('i',)
    if t in ('double', 'float', 'long double'):
        return ('r',)
    if t in INTS:
        return ('i',)
    if t == 'void':
        return ('void',)
    if t.endswith(')') and '(lambda' not in t:
        return ('fun',)
    if t.endswith('*'):
        x = t[:-1].strip()
        if x.startswith('const '):
            x = x[6:]
        return ('ptr', x)
    if t.startswith(('std::unique_ptr<', 'std::shared_ptr<')):
        return ('ptr', targs(t)[0])
    if t.startswith(('std::vector<', 'std::list<', 'std::deque<', 'std::initializer_list<', 'std::array<', 'std::forward_list<')):
        return ('vec', targs(t)[0])
    if t.startswith('std::pair<'):
        a = targs(t)
        return ('pair', a[0], a[1])
    if t.startswith(('std::map<', 'std::unordered_map<', 'std::multimap<')):
        a = targs(t)
        return ('map', a[0], a[1])
    if t.startswith(('std::set<', 'std::unordered_set<')):
        return ('set', targs(t)[0])
    if t.startswith('__gnu_cxx::__normal_iterator<'):
        a = targs(t)
        c = kind(a[1])
        if c[0] == 's':
            return ('iter', 'char')
        x = a[0].strip()
        if x.endswith('*const'):
            x = x[:-5].strip()
        return ('iter', x[:-1].strip() if x.endswith('*') else x)
    if t.startswith(('std::_List_iterator<', 'std::_List_const_iterator<')):
        return ('iter', targs(t)[0])
    if t.startswith(('std::_Rb_tree', 'std::__detail::_Node')):
        return ('miter', targs(t)[0])
    if '(lambda at' in t:
        return ('lam',)
    if t.startswith(('std::basic_ostream', 'std::basic_ostringstream', 'std::basic_stringstream', 'std::ostream', 'std::basic_ofstream')):
        return ('os',)
    if t.startswith(('std::basic_istream', 'std::basic_ifstream', 'std::basic_istringstream', 'std::basic_ios', 'std::basic_fstream')):
        return ('is',)
    if t == 'std::nullptr_t':
        return ('ptr', 'void')
    return ('cls', t)


SORT = {'i': 'i', 'b': 'b', 'r': 'r', 's': 's', 'vec': 'v', 'ptr': 'P', 'iter': 'P', 'lam': 'f', 'fun': 'f',
        'os': 's', 'void': 'o', 'pair': 'o', 'map': 'o', 'set': 'o', 'miter': 'o', 'cls': 'o', 'is': 'o'}


def sort(t):
    k = kind(t)
    return SORT[k[0]]


UNSIGNED = {'unsigned long': 'unsigned long', 'size_t': 'unsigned long', 'std::size_t': 'unsigned long', 'unsigned int': 'unsigned int',
            'unsigned': 'unsigned int', 'unsigned long long': 'unsigned long'}


def unsigned(t):
    """canonical unsigned type name or None"""
    return UNSIGNED.get(strip(t))
