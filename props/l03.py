"""L03: tag registry: names and planes"""
from vc import *
LEVEL = 'proof'
HARNESS = 'h_l03.cpp'
ASSUMPTIONS = ['boost::bimap is modelled by its contract: insert(name, number) adds the pair unless the name (or the number) is there already; size, at and the order of insertion as documented', 'a registry never holds more than 64 names (a collection has 64 places; the unit shows what happens below that)']
BOUNDED = ['collections of several tags, lists of names, tag specifications and mask specifications: histories of up to 60 registrations, checked after every step']
BUDGET = 15
SOURCES = ['common/layer_tag_collection.cpp', 'common/layer_tag_mask.cpp', 'common/layer_tag_manager.cpp']
EXPLAIN = 'see DESIGN.md'
B = lambda n: z3.BitVecVal(n, 64)
def tb(v): return v if isz(v) and z3.is_bool(v) else (z3.BoolVal(bool(v)) if not isz(v) else v != 0)
class Bimap(Abs):
    """the registry: which names are there, their numbers, and how many there are"""
    size = 56
    def __init__(self, dom, num, n, end): self.dom, self.num, self.n, self.size = dom, num, n, end
    def same(self, o): return self.dom.eq(o.dom) and self.num.eq(o.num) and self.n.eq(o.n)
    def havoc(self, V, st, hint): return Bimap(V.fresh(hint + '_dom', self.dom.sort()), V.fresh(hint + '_num', self.num.sort()), V.fresh(hint + '_n', self.n.sort()), self.size)
class Rel(Abs):
    def __init__(self, k, v): self.k, self.v = k, v
    size = 40
    def same(self, o): return self.k.eq(o.k) and self.v is o.v
    def havoc(self, V, st, hint): raise Unsupported('relation')
class Registry:
    """a registry after any history: names have different numbers, all below how many there are"""
    def __init__(m, c, empty=False):
        V = m.V = c.load([os.path.join(build.VERIF, 'drivers/p_l03.cpp'), 'common/layer_tag_manager.cpp', 'common/layer_tag_collection.cpp', 'common/layer_tag_mask.cpp'], mode='bv'); st = m.st = c.st; V.safety = True; m.c = c
        m.off = m.consts('vp_manager_off', 4); ss = V.ssort; m.sz = m.off[1] - m.off[0]
        m.dom, m.num, m.n = z3.Const('dom', z3.ArraySort(ss, z3.BoolSort())), z3.Const('num', z3.ArraySort(ss, z3.BitVecSort(64))), z3.BitVec('n', 64)
        m.sym, m.planes = z3.BitVecs('symbol planes', 64)
        m.mgr = V.region(st, 'mgr') if empty else V.region(st, 'mgr', {m.off[0]: (Bimap(m.dom, m.num, m.n, m.sz), m.sz), m.off[1]: (m.sym, 8), m.off[2]: (m.planes, 8)})
        m.out = V.region(st, 'out')
        T = r'.*boost::bimaps::'
        for rx, f in ((r'(.* )?' + T + r'.*mutant_relation\(.*', m.rel), (r'(.* )?' + T + r'.*~.*\(\)', lambda *a: None), (r'(.* )?' + T + r'.*::insert\(.*|_ZN5boost6bimaps.*6insertE.*', m.insert), (r'(.* )?' + T + r'.*::size\(\) const|_ZNK5boost6bimaps.*4sizeEv$', m.count), (r'(.* )?' + T + r'.*::at<.*', m.at), (r'(.* )?boost::bimaps::bimap<.*>::bimap\(.*', m.make)):
            V.models.insert(0, (re.compile(rx, re.S), f))
    def consts(m, name, n):
        for k in m.V.mods:
            if name in k.globs:
                init, ty, _ = k.ginit(name)
                if init: return [k.const_at(init, ty, 8 * i, 8)[1] for i in range(n)]
        raise Unsupported(name)
    def where(m, p): return m.V.gep(m.st, Ptr(p.rid, 0), 0, []) if False else Ptr(p.rid, m.off[0])
    def get(m, st): return m.V.read_abs(st, m.where(m.mgr), Bimap)
    def put(m, st, b): m.V.write_abs(st, m.where(m.mgr), b)
    def make(m, V, st, a, ins): m.put(st, Bimap(z3.K(V.ssort, z3.BoolVal(False)), z3.K(V.ssort, B(0)), B(0), m.sz))
    def rel(m, V, st, a, ins):
        if len(a) < 3: raise Unsupported('copied relation')
        V.write_abs(st, a[0], Rel(getstr(V, st, a[1]), V.load(st, a[2], sym._FakeTy(64)) if isinstance(a[2], Ptr) else a[2]))
    def insert(m, V, st, a, ins):
        r = next((V.read_abs(st, p, Rel) for p in a[::-1] if isinstance(p, Ptr) and isinstance((st.cell(p.rid, p.off) or [None])[0], Rel)), None)
        if r is None: raise Unsupported('insert')
        b = m.get(st); v = V.bvv(r.v, 64); V.oblige(st, z3.Or(b.dom[r.k], v == b.n), 'a new name gets the next number'); old = b.dom[r.k]
        m.put(st, Bimap(z3.Store(b.dom, r.k, True), z3.If(old, b.num, z3.Store(b.num, r.k, v)), z3.If(old, b.n, b.n + 1), m.sz))
    def count(m, V, st, a, ins): return m.get(st).n
    def at(m, V, st, a, ins):
        b = m.get(st); k = getstr(V, st, a[1])
        def ok(s): return [('ret', s, V.region(s, 'number', {0: (b.num[k], 8)}))]
        return fork(V, st, b.dom[k], ok, lambda s: V.throw(s, '_ZTISt12out_of_range'))
    def val(m, s, p): return m.V.load(s, p, sym._FakeTy(64))
    def planes_of(m, s): return m.val(s, Ptr(m.mgr.rid, m.off[2]))
    def symbol_of(m, s): return m.val(s, Ptr(m.mgr.rid, m.off[1]))
def state(c):
    m = Registry(c); V, st = m.V, m.st; m.x, m.xp = c.str_arg(st, 'x'); m.y = V.fresh('y', V.ssort); m.z = V.fresh('z', V.ssort)
    for k in (m.x, m.y, m.z): V.assume(st, z3.Implies(m.dom[k], z3.ULT(m.num[k], m.n)))
    for p, q in ((m.x, m.y), (m.x, m.z), (m.y, m.z)): V.assume(st, z3.Implies(z3.And(m.dom[p], m.dom[q], m.num[p] == m.num[q]), p == q))
    V.assume(st, z3.ULE(m.n, B(64))); V.assume(st, z3.Or(m.dom[m.x], z3.ULT(m.n, B(64))))
    return m
def kept(m, s):
    """what every registration keeps"""
    b = m.get(s); new = z3.If(m.dom[m.x], m.num[m.x], m.n)
    m.V.oblige(s, z3.And(b.dom[m.x], b.num[m.x] == new), 'the name has its old number, or the next one')
    m.V.oblige(s, b.n == z3.If(m.dom[m.x], m.n, m.n + 1), 'one name more exactly when it is new')
    m.V.oblige(s, z3.Implies(m.y != m.x, z3.And(b.dom[m.y] == m.dom[m.y], b.num[m.y] == m.num[m.y])), 'the other names keep their numbers')
    m.V.oblige(s, z3.Implies(b.dom[m.y], z3.ULT(b.num[m.y], b.n)), 'numbers stay below the count')
    m.V.oblige(s, z3.Implies(z3.And(b.dom[m.y], b.dom[m.z], b.num[m.y] == b.num[m.z]), m.y == m.z), 'different names have different numbers')
    return new
def singleton(c):
    """a collection made of one name holds exactly the number of that name; registered names keep their numbers, new ones get the next; plane tags grow by the name exactly if it starts with '!'"""
    m = state(c); V = m.V
    for k, s, v in c.call('vp_singleton', [m.mgr, m.out, m.xp], m.st):
        if k == 'throw': V.oblige(s, False, 'registering never throws below 64 names'); continue
        n = kept(m, s); bit = B(1) << n
        V.oblige(s, m.val(s, m.out) == bit, 'the collection holds exactly the name')
        bang = z3.And(z3.Length(m.x) > 0, m.x[0] == z3.BitVecVal(33, 8))
        V.oblige(s, m.planes_of(s) == z3.If(bang, m.planes | bit, m.planes), 'plane tags: the names starting with an exclamation mark'); V.oblige(s, m.symbol_of(s) == m.sym, 'the symbol tag stays'); c.cover(s, 'singleton')
def membership(c):
    """asking whether a collection holds a name answers whether its number is in the collection, and changes the meaning of no collection"""
    m = state(c); V = m.V; t = z3.BitVec('t', 64); tp = V.region(m.st, 't', {0: (t, 8)})
    for k, s, v in c.call('vp_is_there', [m.mgr, m.xp, tp], m.st):
        if k == 'throw': V.oblige(s, False, 'asking never throws below 64 names'); continue
        n = kept(m, s); V.oblige(s, tb(v) == ((z3.LShR(t, n) & 1) == 1), 'the answer'); V.oblige(s, m.val(s, tp) == t, 'the collection asked about stays'); V.oblige(s, m.planes_of(s) == m.planes, 'the plane tags stay'); c.cover(s, 'membership')
def planes(c):
    """the plane tags of a collection are those of its tags that are plane tags; two collections are in the same plane iff these agree; the empty collection is empty"""
    m = Registry(c); V = m.V; a, b = z3.BitVecs('a b', 64); pa = V.region(m.st, 'a', {0: (a, 8)}); pb = V.region(m.st, 'b', {0: (b, 8)})
    def go(f, args, post, name):
        for k, s, v in c.call(f, args, m.st.fork()):
            if k == 'throw': V.oblige(s, False, name + ': no exception'); continue
            V.oblige(s, post(s, v), name); V.oblige(s, z3.And(m.val(s, pa) == a, m.val(s, pb) == b, m.planes_of(s) == m.planes, m.symbol_of(s) == m.sym), name + ': nothing else changes'); c.cover(s, name)
    go('vp_only_planes', [m.mgr, m.out, pa], lambda s, v: m.val(s, m.out) == (a & m.planes), 'plane tags of a collection')
    go('vp_same_plane', [m.mgr, pa, pb], lambda s, v: tb(v) == ((a & m.planes) == (b & m.planes)), 'same plane')
    go('vp_plane_tags', [m.mgr, m.out], lambda s, v: m.val(s, m.out) == m.planes, 'all plane tags')
    go('vp_none', [m.mgr, m.out], lambda s, v: m.val(s, m.out) == 0, 'the empty collection')
def first(c):
    """a new registry holds the name symbol only, and no plane tag"""
    m = Registry(c, empty=True); V = m.V
    for k, s, v in c.call('vp_manager', [m.mgr], m.st):
        if k == 'throw': V.oblige(s, False, 'no exception'); continue
        b = m.get(s); k = V.lit(b'symbol'); y = V.fresh('y', V.ssort)
        V.oblige(s, z3.And(b.n == 1, b.dom[y] == (y == k), b.num[k] == 0, m.symbol_of(s) == 1, m.planes_of(s) == 0), 'symbol only'); c.cover(s, 'first')
UNITS = [singleton, membership, planes, first]
