"""A01: annotation items"""
from vc import *
LEVEL = 'proof'
HARNESS = 'h_a01.cpp'
ASSUMPTIONS = ['boost::bimap is modelled by its contract: insert(name, number) adds the pair unless the name (or the number) is there already; find, at and size as documented', 'std::bitset<128> is modelled as a set of numbers below 128', 'at most 128 attribute names per manager']
BOUNDED = ['listing the attributes, texts as values, copies: histories of up to 40 assignments with shared interned strings; numbers around every width boundary']
BUDGET = 14
SOURCES = ['common/annotation_item.cpp', 'common/annotation_item_manager.cpp', 'common/string_frag.cpp', 'common/zvalue.cpp', 'common/logging.cpp']
HOPTS = {'libs': ['-llog4cpp', '-lpthread']}
EXPLAIN = 'see DESIGN.md'
I = z3.IntSort()
def tb(v): return v if isz(v) and z3.is_bool(v) else (z3.BoolVal(bool(v)) if not isz(v) else v != 0)
class Bimap(Abs):
    """the attribute names: which are there, their numbers, and how many there are"""
    def __init__(self, dom, num, n, size): self.dom, self.num, self.n, self.size = dom, num, n, size
    def same(self, o): return self.dom.eq(o.dom) and self.num.eq(o.num) and self.n is o.n
    def havoc(self, V, st, hint): return Bimap(V.fresh(hint + '_dom', self.dom.sort()), V.fresh(hint + '_num', self.num.sort()), V.fresh(hint + '_n', I), self.size)
class Bits(Abs):
    size = 16
    def __init__(self, a): self.a = a
    def same(self, o): return self.a.eq(o.a)
    def havoc(self, V, st, hint): return Bits(V.fresh(hint + '_bits', self.a.sort()))
class Vals(Abs):
    """std::vector of values: what is at each number, and how many there are"""
    size = 24; esize = 8
    def __init__(self, a, n): self.a, self.n = a, n
    def same(self, o): return self.a.eq(o.a) and self.n is o.n
    def havoc(self, V, st, hint): return Vals(V.fresh(hint + '_vals', self.a.sort()), V.fresh(hint + '_len', I))
    def within(self, V, st, k): V.oblige(st, z3.And(k >= 0, k < self.n), 'container element access in bounds')
    def load(self, V, st, p, ty): k = V.ival(p.idx); self.within(V, st, k); return self.a[k]
    def store(self, V, st, p, v, ty): k = V.ival(p.idx); self.within(V, st, k); return Vals(z3.Store(self.a, k, V.ival(v)), self.n)
class Tmp(Abs):
    size = 16
    def __init__(self, *x): self.x = x
    def same(self, o): return self is o
    def havoc(self, V, st, hint): raise Unsupported('temporary')
class State:
    """any manager and any item consistent with it"""
    def __init__(m, c):
        V = m.V = c.load([os.path.join(build.VERIF, 'drivers/p_a01.cpp'), 'common/annotation_item_manager.cpp', 'common/annotation_item.cpp']); st = m.st = c.st; V.safety = True
        m.off = m.consts('vp_item_off', 6); ss = V.ssort; m.sz = m.off[5] - m.off[0]
        m.dom, m.num, m.n = z3.Const('dom', z3.ArraySort(ss, z3.BoolSort())), z3.Const('num', z3.ArraySort(ss, I)), V.fresh_int(st, 64, 'n')
        m.vals = z3.Const('vals', z3.ArraySort(I, I)); m.bits = z3.Const('bits', z3.ArraySort(I, z3.BoolSort())); m.len = V.fresh_int(st, 64, 'len')
        m.mgr = V.region(st, 'mgr', {m.off[0]: (Bimap(m.dom, m.num, m.n, m.sz), m.sz)}); m.item = V.region(st, 'item', {m.off[2]: (Vals(m.vals, m.len), 24), m.off[3]: (Bits(m.bits), 16)})
        m.END = V.region(st, 'end'); m.HIT = V.region(st, 'found')
        m.x, m.xp = c.str_arg(st, 'x'); m.y = V.fresh('y', ss); m.z = V.fresh('z', ss); m.k = V.fresh('k', I)
        T = r'(.* )?.*boost::bimaps::'
        for rx, f in ((r'(.* )?boost::bimaps::relation::mutant_relation<.*mutant_relation\(.*', m.rel), (T + r'.*~.*\(\)', lambda *a: None), (T + r'.*::insert\(.*|_ZN5boost6bimaps.*6insertE.*', m.insert), (T + r'.*::size\(\) const|_ZNK5boost6bimaps.*4sizeEv$', m.count), (T + r'.*::at<.*', m.at), (T + r'.*::find.*', m.find), (T + r'.*::end\(\).*|_ZNK?5boost6bimaps.*3endEv$', lambda V, st, a, ins: m.END), (r'.*boost::iterators::operator==<boost::bimaps.*', m.same), (r'.*boost::iterators::operator!=<boost::bimaps.*', m.differ),
                      (r'std::bitset<128ul>::operator\[\]\(unsigned long\)$', m.ref), (r'std::bitset<128ul>::operator\[\]\(unsigned long\) const$', m.bit), (r'std::bitset<128ul>::test\(', m.bit), (r'std::bitset<128ul>::reference::operator=\(bool\)', m.setref), (r'std::bitset<128ul>::reference::operator bool', m.getref), (r'std::bitset<128ul>::reference::~', lambda *a: None), (r'std::bitset<128ul>::size', lambda V, st, a, ins: 128), (r'std::bitset<128ul>::set\(', m.setbit),
                      (r'std::vector<void ?\*.*>::resize\(unsigned long\)', m.resize), (r'std::vector<void ?\*.*>::size\(\)', m.many), (r'std::vector<void ?\*.*>::(operator\[\]|at)\(unsigned long\)', m.elem)):
            V.models.insert(0, (re.compile(rx, re.S), f))
        A = lambda e: V.assume(st, e)
        for k in (m.x, m.y, m.z): A(z3.Implies(m.dom[k], z3.And(m.num[k] >= 0, m.num[k] < m.n)))
        for p, q in ((m.x, m.y), (m.x, m.z), (m.y, m.z)): A(z3.Implies(z3.And(m.dom[p], m.dom[q], m.num[p] == m.num[q]), p == q))
        A(z3.And(m.n >= 0, m.n <= 128, z3.Or(m.dom[m.x], m.n < 128), m.len < 2**31))
        for k in (m.k, m.num[m.x], m.num[m.y]): A(z3.Implies(m.bits[k], z3.And(k >= 0, k < m.len, k < m.n)))
        A(z3.Not(m.bits[m.n]))
        for k in (m.k, m.num[m.x]): A(z3.Implies(z3.And(z3.Not(m.bits[k]), k >= 0, k < m.len), m.vals[k] == 0))
    def consts(m, name, n):
        for k in m.V.mods:
            if name in k.globs:
                init, ty, _ = k.ginit(name)
                if init: return [k.const_at(init, ty, 8 * i, 8)[1] for i in range(n)]
        raise Unsupported(name)
    def get(m, st): return m.V.read_abs(st, Ptr(m.mgr.rid, m.off[0]), Bimap)
    def put(m, st, b): m.V.write_abs(st, Ptr(m.mgr.rid, m.off[0]), b)
    def rel(m, V, st, a, ins):
        if len(a) < 3: raise Unsupported('copied relation')
        V.write_abs(st, a[0], Tmp(getstr(V, st, a[1]), V.ival(V.load(st, a[2], sym._FakeTy(32)) if isinstance(a[2], Ptr) else a[2])))
    def insert(m, V, st, a, ins):
        r = next((c[0] for p in a[::-1] if isinstance(p, Ptr) for c in [st.cell(p.rid, p.off)] if c and isinstance(c[0], Tmp)), None)
        if r is None: raise Unsupported('insert')
        x, v = r.x; b = m.get(st); V.oblige(st, z3.Or(b.dom[x], v == b.n), 'a new name gets the next number'); old = b.dom[x]
        m.put(st, Bimap(z3.Store(b.dom, x, True), z3.If(old, b.num, z3.Store(b.num, x, v)), z3.If(old, b.n, b.n + 1), m.sz))
    def count(m, V, st, a, ins): return m.get(st).n
    def at(m, V, st, a, ins):
        b = m.get(st); k = getstr(V, st, a[1])
        return fork(V, st, b.dom[k], lambda s: [('ret', s, V.region(s, 'number', {0: (b.num[k], 4)}))], lambda s: V.throw(s, '_ZTISt12out_of_range'))
    def find(m, V, st, a, ins): return fork(V, st, m.get(st).dom[getstr(V, st, a[1])], lambda s: [('ret', s, m.HIT)], lambda s: [('ret', s, m.END)])
    def _eq(m, V, st, a):
        p, q = (st.cell(x.rid, x.off) for x in a[:2])
        if not (p and q and isinstance(p[0], Ptr) and isinstance(q[0], Ptr)): raise Unsupported('registry iterator')
        if p[0].rid == q[0].rid and p[0].rid == m.HIT.rid: raise Unsupported('registry iterators')
        return p[0].rid == q[0].rid
    def same(m, V, st, a, ins): return z3.BoolVal(m._eq(V, st, a))
    def differ(m, V, st, a, ins): return z3.BoolVal(not m._eq(V, st, a))
    def within(m, V, st, n): V.oblige(st, z3.And(n >= 0, n < 128), 'attribute number within the set')
    def ref(m, V, st, a, ins): n = V.ival(a[2]); m.within(V, st, n); V.write_abs(st, a[0], Tmp(a[1], n))
    def setref(m, V, st, a, ins):
        p, n = V.read_abs(st, a[0], Tmp).x; b = V.read_abs(st, p, Bits); v = a[1]
        if isinstance(v, Ptr): raise Unsupported('assigned reference')
        V.write_abs(st, p, Bits(z3.Store(b.a, n, tb(v)))); return a[0]
    def getref(m, V, st, a, ins): p, n = V.read_abs(st, a[0], Tmp).x; return V.read_abs(st, p, Bits).a[n]
    def bit(m, V, st, a, ins): n = V.ival(a[1]); m.within(V, st, n); return V.read_abs(st, a[0], Bits).a[n]
    def setbit(m, V, st, a, ins): n = V.ival(a[1]); m.within(V, st, n); V.write_abs(st, a[0], Bits(z3.Store(V.read_abs(st, a[0], Bits).a, n, tb(a[2])))); return a[0]
    def resize(m, V, st, a, ins):
        # the new elements are null
        q = V.read_abs(st, a[0], Vals); n = V.ival(a[1]); r = V.fresh('resized', q.a.sort()); V.assume(st, z3.And(*[z3.Implies(z3.And(k >= 0, k < q.n, k < n), r[k] == q.a[k]) for k in (m.k, m.num[m.x], m.num[m.y])], *[z3.Implies(z3.And(k >= q.n, k < n), r[k] == 0) for k in (m.k, m.num[m.x], m.num[m.y])])); V.write_abs(st, a[0], Vals(r, n))
    def many(m, V, st, a, ins): return V.read_abs(st, a[0], Vals).n
    def elem(m, V, st, a, ins): k = V.ival(a[1]); V.read_abs(st, a[0], Vals).within(V, st, k); return Ptr(('d', HP(a[0])), 0, k, 8)
    def now(m, s): return m.V.read_abs(s, Ptr(m.item.rid, m.off[2]), Vals), m.V.read_abs(s, Ptr(m.item.rid, m.off[3]), Bits).a, m.get(s)
def assign(c):
    """after setting an attribute the item has that value for it, every other attribute of the item is as it was, and every name keeps its number (so other items read the same)"""
    m = State(c); V = m.V; v = V.fresh_int(m.st, 64, 'v')
    for k, s, r in c.call('vp_set', [m.mgr, m.item, m.xp, v], m.st):
        if k == 'throw': V.oblige(s, False, 'setting never throws below 128 names'); continue
        vals, bits, b = m.now(s); at = z3.If(m.dom[m.x], m.num[m.x], m.n)
        V.oblige(s, z3.And(b.dom[m.x], b.num[m.x] == at), 'the name has its old number, or the next one'); V.oblige(s, b.n == z3.If(m.dom[m.x], m.n, m.n + 1), 'one name more exactly when it is new')
        V.oblige(s, z3.Implies(m.y != m.x, z3.And(b.dom[m.y] == m.dom[m.y], b.num[m.y] == m.num[m.y])), 'the other names keep their numbers')
        V.oblige(s, z3.Implies(z3.And(b.dom[m.y], b.dom[m.z], b.num[m.y] == b.num[m.z]), m.y == m.z), 'different names have different numbers')
        V.oblige(s, bits[at], 'the item has the attribute'); V.oblige(s, vals.a[at] == v, 'with the value set')
        V.oblige(s, z3.Implies(m.k != at, bits[m.k] == m.bits[m.k]), 'it has no other attribute more or less'); V.oblige(s, z3.Implies(z3.And(m.k != at, m.bits[m.k]), vals.a[m.k] == m.vals[m.k]), 'the other values stay')
        V.oblige(s, z3.Implies(bits[m.k], z3.And(m.k >= 0, m.k < vals.n, m.k < b.n)), 'attributes are numbered below the count of names and have a value'); V.oblige(s, z3.Implies(z3.And(z3.Not(bits[m.k]), m.k >= 0, m.k < vals.n), vals.a[m.k] == 0), 'the places of attributes it does not have hold the null value'); c.cover(s, 'assign')
def read(c):
    """reading an attribute gives its value if the item has it, the null value if not, and changes nothing"""
    m = State(c); V = m.V; at = m.num[m.x]
    for k, s, r in c.call('vp_get', [m.mgr, m.item, m.xp], m.st):
        if k == 'throw': V.oblige(s, False, 'reading never throws'); continue
        vals, bits, b = m.now(s); has = z3.And(m.dom[m.x], m.bits[at])
        got = 0 if isinstance(r, Ptr) and r.rid is None else V.ival(r); V.oblige(s, got == z3.If(has, m.vals[at], 0), 'the value set last, or null')
        V.oblige(s, z3.And(vals.a == m.vals, vals.n == m.len, bits == m.bits, b.dom == m.dom, b.num == m.num, b.n == m.n), 'nothing changes'); c.cover(s, 'read')
def integers(c):
    """every integer is kept exactly: as a value it is a number, not a text, and reads back as itself"""
    V = c.load([os.path.join(build.VERIF, 'drivers/p_a01.cpp'), 'common/annotation_item_manager.cpp'], mode='bv'); V.safety = True; i = z3.BitVec('i', 32); mgr = V.region(c.st, 'mgr')
    c.enc = lambda m: [('ints', c.int_of(m, i).to_bytes(8, 'little'))]
    for k, s, z in c.call('vp_from_int', [mgr, i], c.st):
        if k == 'throw': V.oblige(s, False, 'no exception'); continue
        for f, post, name in (('vp_is_int', lambda v: tb(v), 'it is a number'), ('vp_is_string', lambda v: z3.Not(tb(v)), 'it is not a text'), ('vp_to_int', lambda v: V.bvv(v, 32) == i, 'it reads back as itself')):
            for k2, s2, v in c.call(f, [mgr, z], s.fork()):
                V.oblige(s2, z3.BoolVal(False) if k2 == 'throw' else post(v), name); c.cover(s2, name)
UNITS = [assign, read, integers]
