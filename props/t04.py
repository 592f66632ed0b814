"""T04: lattice text and traversal"""
from vc import *
LEVEL = 'proof'
HARNESS = 'h_lat.cpp'
ASSUMPTIONS = ['the graph (boost::adjacency_list) is modelled by its contract: a vertex carries the position it was added with, an edge the two vertices it was added between', 'boost::dynamic_bitset::resize only changes how many edges the sets can name', 'the text is valid UTF-8, and the coder reads a character at a boundary and writes it back as the same bytes (property U01)', 'what addEdge does with the endpoints and annotation it is given is not proved (bounded, properties T01 and T02); the unit symbols proves what it is given']
BOUNDED = ['sorted traversal, loose vertices, storing the edges: texts mixing one to four byte characters, appended in pieces; implicit symbol edges']
BUDGET = 25
SOURCES = ['common/' + f for f in 'lattice.cpp layer_tag_collection.cpp layer_tag_mask.cpp layer_tag_manager.cpp annotation_item.cpp annotation_item_manager.cpp string_frag.cpp string_helpers.cpp cutter.cpp zvalue.cpp psi_exception.cpp logging.cpp'.split()]
HOPTS = {'libs': ['-llog4cpp', '-lpthread'], 'defs': ['-DPROP=4']}
EXPLAIN = 'see DESIGN.md'
I = z3.IntSort()
def tb(v): return v if isz(v) and z3.is_bool(v) else (z3.BoolVal(bool(v)) if not isz(v) else v != 0)
def s32(v): return z3.If(v >= 2**31, v - 2**32, v)
class Text:
    """a lattice over a valid UTF-8 text: B marks its character boundaries"""
    def __init__(m, c):
        V = m.V = c.load([os.path.join(build.VERIF, 'drivers/p_t04.cpp'), 'common/lattice.cpp', 'common/string_helpers.cpp']); st = m.st = c.st; V.safety = True
        m.off = m.consts('vp_lattice_off', 9); m.s = V.fresh_seq('text'); m.n = z3.Length(m.s); V.assume(st, m.n < 2**31 - 8)
        m.B = z3.Function('B', I, z3.BoolSort()); m.pv = z3.Function('prev', I, I); m.pos = z3.Function('position', I, I); V.assume(st, z3.And(m.B(0), m.B(m.n)))
        m.lat = V.region(st, 'lattice', {m.off[0]: (Str(m.s), 32), m.off[8]: (z3.Int('symboltag'), 8)}); m.pr = V.region(st, 'vertex')
        V.models.insert(0, (re.compile(r'(.* )?boost::vec_adj_list_impl<.*|(.* )?boost::adjacency_list<.*>::operator\[\]\(unsigned long\).*', re.S), m.vertex))
        V.models.insert(0, (re.compile(r'(.* )?boost::dynamic_bitset<.*>::resize\(', re.S), lambda *a: None))
    def consts(m, name, n):
        for k in m.V.mods:
            if name in k.globs:
                init, ty, _ = k.ginit(name)
                if init: return [k.const_at(init, ty, 8 * i, 8)[1] for i in range(n)]
        raise Unsupported(name)
    def ln(m, k): b = m.s[k]; return z3.If(b < 0x80, 1, z3.If(b < 0xE0, 2, z3.If(b < 0xF0, 3, 4)))
    def cont(m, k): return z3.And(m.s[k] >= 0x80, m.s[k] < 0xC0)
    def valid(m, k):
        """what well-formedness of the text says at boundary k"""
        b = m.s[k]; return z3.Implies(z3.And(m.B(k), k >= 0, k < m.n), z3.And(b >= 0, b < 256, z3.Or(b < 0x80, z3.And(b >= 0xC0, b < 0xF8)), k + m.ln(k) <= m.n, m.B(k + m.ln(k)), m.pv(k + m.ln(k)) == k, *[z3.Implies(m.ln(k) > j, m.cont(k + j)) for j in (1, 2, 3)]))
    def vertex(m, V, st, a, ins):
        """assumed contract of the graph: a vertex carries the position it was added with"""
        v = V.ival(a[1]); return V.region(st, 'vertex', {0: (z3.If(m.pos(v) < 0, m.pos(v) + 2**32, m.pos(v)), 4)})
    def edge(m, src, tgt, ix): return m.V.region(m.st, 'edge', {0: (src, 8), 8: (tgt, 8), m.off[5]: (ix, 4)})
def ends(m, c, e, src, tgt, pre, what):
    V = m.V; out = V.region(m.st, 'out', {0: (Str(V.lit(b'')), 32)}); V.assume(m.st, pre)
    def go(f, args, post, name):
        for k, s, v in c.call(f, args, m.st.fork()):
            if k == 'throw': V.oblige(s, False, what + ': no exception'); continue
            V.oblige(s, post(s, v), what + ': ' + name); c.cover(s, what + name)
    for f, want, name in (('vp_source', src, 'source'), ('vp_target', tgt, 'target'), ('vp_begin', src, 'begin'), ('vp_end', tgt, 'end'), ('vp_length', tgt - src, 'length')): go(f, [m.lat, e], lambda s, v: s32(V.ival(v)) == want, name)
    go('vp_text', [m.lat, e, out], lambda s, v: getstr(V, s, out) == z3.SubSeq(m.s, src, tgt - src), 'text')
def characters(c):
    """a character edge goes from its position over exactly the character there, and has that text"""
    m = Text(c); V = m.V; i = z3.Int('i'); e = m.edge(0, 0, i)
    ends(m, c, e, i, i + m.ln(i), z3.And(i >= 0, i < m.n, m.B(i), m.valid(i)), 'character edge')
def stretches(c):
    """an edge between two text positions has these as its begin and end, and the text between them; its length is their distance"""
    m = Text(c); V = m.V; a, b = z3.Ints('a b'); e = m.edge(a, b, 2**32 - 1)
    ends(m, c, e, m.pos(a), m.pos(b), z3.And(a >= 0, b >= 0, a < 2**62, b < 2**62, m.pos(a) >= 0, m.pos(a) <= m.pos(b), m.pos(b) <= m.n), 'edge')
def positions(c):
    """exactly the positions from 0 to the length of the text are accepted; appending a text makes the text of the lattice the two in order"""
    m = Text(c); V = m.V; i = V.fresh_int(m.st, 32, 'i')
    for k, s, v in c.call('vp_vertex', [m.lat, i], m.st.fork()):
        ok = z3.And(s32(i) >= 0, s32(i) <= m.n)
        if k == 'throw': V.oblige(s, z3.Not(ok), 'refused only outside the text'); continue
        V.oblige(s, z3.And(ok, V.ival(v) == i), 'the position itself, within the text'); c.cover(s, 'position')
    t, tp = c.str_arg(m.st, 't'); V.assume(m.st, m.n + z3.Length(t) < 2**31 - 8)
    for k, s, v in c.call('vp_append', [m.lat, tp], m.st.fork()):
        if k == 'throw': V.oblige(s, False, 'appending never throws'); continue
        V.oblige(s, V.read_abs(s, Ptr(m.lat.rid, m.off[0]), Str).seq == z3.Concat(m.s, t), 'the text is the two in order'); c.cover(s, 'append')
def codec(m):
    """contracts of the coder (property U01): a character is read from its boundary, and written as the bytes it was read from"""
    V = m.V; CP = z3.Function('code_point', I, I)
    def nxt(V, st, a, ins):
        p = st.cell(a[0].rid, a[0].off)[0]; k = V.ival(p.idx) if p.stride else V.ival(p.off); V.oblige(st, z3.And(k >= 0, k < m.n, m.B(k)), 'a character is read at its boundary'); V.assume(st, m.valid(k))
        V.assume(st, z3.And(CP(k) >= 0, CP(k) < 0x110000)); V.store(st, a[0], Ptr(p.rid, 0, k + m.ln(k), 1), sym._FakeTy(64)); return CP(k)
    def prior(V, st, a, ins):
        p = st.cell(a[0].rid, a[0].off)[0]; k = V.ival(p.idx) if p.stride else V.ival(p.off); V.oblige(st, z3.And(k > 0, k <= m.n, m.B(k)), 'the character before a boundary is read'); j = m.pv(k)
        V.assume(st, z3.And(j >= 0, j < k, m.B(j), k == j + m.ln(j), m.valid(j), CP(j) >= 0, CP(j) < 0x110000)); V.store(st, a[0], Ptr(p.rid, 0, j, 1), sym._FakeTy(64)); return CP(j)
    def app(V, st, a, ins):
        x = V.ival(a[0]); k = x.arg(0) if z3.is_app(x) and x.decl().eq(CP) else None
        if k is None: raise Unsupported('written character')
        o = a[1]
        if not isinstance(o, Ptr): raise Unsupported('output')
        setstr(V, st, o, V.cat(getstr(V, st, o), z3.SubSeq(m.s, k, m.ln(k)))); return o
    for rx, f in ((r'(.* )?utf8::next<', nxt), (r'(.* )?utf8::prior<', prior), (r'(.* )?utf8::append<', app)): V.models.insert(0, (re.compile(rx), f))
def previous(c):
    """the vertex before one in the text is the boundary before it"""
    m = Text(c); V = m.V; codec(m); v = z3.Int('v'); V.assume(m.st, z3.And(v >= 1, v <= m.n, m.B(v)))
    for k, s, r in c.call('vp_prior', [m.lat, v], m.st):
        if k == 'throw': V.oblige(s, False, 'no exception'); continue
        V.oblige(s, V.ival(r) == m.pv(v), 'the boundary before'); c.cover(s, 'prior')
def symbols(c):
    """covering a stretch of text with characters adds, one after the other and without gap, one edge per character, each over exactly its bytes and named by them"""
    m = Text(c); V = m.V; st = m.st; codec(m); a, b = z3.Ints('a b'); g = V.region(st, 'covered', {0: (a, 8)}); V.assume(st, z3.And(a >= 0, a <= b, b <= m.n, m.B(a), m.B(b)))
    at = lambda S: V.ival(V.acc((g.rid, 0))(S))
    def item(V, s, args, ins): s.ghost = dict(s.ghost or {}); s.ghost['cat'] = getstr(V, s, args[1]); return None
    def add(V, s, args, ins):
        i = next(j for j, x in enumerate(args) if isinstance(x, Ptr) and x.rid == m.lat.rid); f, t = s32(V.ival(args[i + 1])), s32(V.ival(args[i + 2])); k = at(s); cat = (s.ghost or {}).get('cat')
        V.oblige(s, f == k, 'each edge begins where the last one ended'); V.oblige(s, t == k + m.ln(k), 'and covers one character')
        if cat is None: raise Unsupported('annotation')
        V.oblige(s, cat == z3.Concat(z3.Unit(z3.IntVal(39)), z3.SubSeq(m.s, k, m.ln(k))), 'it is named by the character'); V.store(s, g, t, sym._FakeTy(64)); return V.fresh_int(s, 64, 'edge') if i == 0 else None
    for rx, f in ((r'(.* )?AnnotationItem::AnnotationItem\(std::string( const&)?\)', item), (r'(.* )?AnnotationItem::~', lambda *x: None), (r'(.* )?Lattice::addEdge\(', add), (r'(.* )?LayerTagCollection::LayerTagCollection\(LayerTagCollection const', lambda *x: None), (r'(.* )?Lattice::EdgeSequence::~?EdgeSequence\(\)', lambda *x: None)): V.models.insert(0, (re.compile(rx, re.S), f))
    def inv(loc, kind):
        A = V.acc(loc)
        return lambda S: z3.And(at(S) == V.ival(A(S)), m.B(at(S)), at(S) >= a, at(S) <= b)
    def gen(V, lv, st0, H):
        out = [('covered', lambda S: z3.And(m.B(at(S)), at(S) >= a, at(S) <= b), 'covered')]
        for loc, kind in V.intcells(lv): out.append(('covered %s' % (loc,), inv(loc, 'int'), 'cov%s' % (loc,)))
        return out
    V.cand_gens = [gen]; V.fact_gens = [lambda V, lv, H: [m.valid(at(H)), z3.Implies(z3.And(m.B(at(H)), m.B(b), at(H) < b), at(H) + m.ln(at(H)) <= b)]]
    ends = c.call('vp_symbols', [m.lat, a, b], st)
    if any(sum(str(k).startswith('cov(') for k in l['keys']) < 2 for l in V.loops_inv): raise Unsupported('no invariant found that relates the loop to the specification')
    for k, s, v in ends:
        if k == 'throw': V.oblige(s, False, 'no exception'); continue
        V.oblige(s, at(s) == b, 'the whole stretch is covered'); c.cover(s, 'symbols')
UNITS = [characters, stretches, positions, previous, symbols]
