"""K01: tokens and sentences tile the text, as the rules say"""
from vc import *
LEVEL = 'proof'
HARNESS = 'h_k01.cpp'
BUDGET = 20
SOURCES = ['common/' + f for f in 'lattice.cpp layer_tag_collection.cpp layer_tag_mask.cpp layer_tag_manager.cpp annotation_item.cpp annotation_item_manager.cpp string_frag.cpp string_helpers.cpp lattice_worker.cpp processor_factory.cpp processor_file_fetcher.cpp file_fetcher.cpp configurator.cpp its_data.cpp ant_like_path_glob.cpp segment_glob.cpp processor.cpp cutter.cpp zvalue.cpp psi_exception.cpp logging.cpp escaping.cpp regexp.cpp object_cache.cpp xml_property_tree.cpp annotator.cpp annotator_factory.cpp cutter_annotator_options.cpp language_dependent_annotator_factory.cpp lang_specific_processor_file_fetcher.cpp'.split()] + ['tools/tokenizers/tp/tp_tokenizer.cpp', 'tools/tokenizers/tp/tp_token_cutter.cpp', 'tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp', 'tools/segmenters/srx/srx_segmenter.cpp', 'tools/segmenters/srx/srx_rules.cpp']
INC = ('tools/tokenizers/tp', 'tools/segmenters/srx')
HOPTS = {'libs': ['-llog4cpp', '-lpthread', '-lboost_program_options', '-lboost_filesystem', '-lboost_system', '-lpcrecpp'], 'extra_inc': list(INC)}
EXPLAIN = 'see DESIGN.md'
NPOS = 2**64 - 1
U64 = sym._FakeTy(64); U32 = sym._FakeTy(32)
def tb(v): return v if isz(v) and z3.is_bool(v) else (z3.BoolVal(bool(v)) if not isz(v) else v != 0)
def consts(V, name, n):
    for m in V.mods:
        if name in m.globs:
            init, ty, _ = m.ginit(name)
            if init: return [m.const_at(init, ty, 8 * k, 8)[1] for k in range(n)]
    raise Unsupported(name)
class Base:
    """a valid UTF-8 text: B marks its character boundaries"""
    def __init__(m, c):
        V = m.V = c.load([os.path.join(build.VERIF, 'drivers/p_k01.cpp'), 'common/string_helpers.cpp'], extra_inc=INC); st = m.st = c.st; I = z3.IntSort()
        m.off = consts(V, "vp_cutter_off", 9)
        m.s, m.sp = c.str_arg(st, 'text'); m.n = z3.Length(m.s); V.assume(st, z3.And(m.n >= 1, m.n < 2**31 - 8))
        m.B = z3.Function('B', I, z3.BoolSort()); m.nx = lambda k: k + m.ln(k); m.pv = z3.Function('prev', I, I)
        V.assume(st, z3.And(m.B(0), m.B(m.n)))
        V.models.insert(0, (re.compile(r'(.* )?VariadicFunction2<.*FindAndConsumeN.*>::operator\(\)'), m.find))
        V.models.insert(0, (re.compile(r'(.* )?VariadicFunction2<.*ConsumeN.*>::operator\(\)'), m.consume)) if hasattr(m, 'consume') else None
    def ln(m, k):
        b = m.s[k]; return z3.If(b < 0x80, 1, z3.If(b < 0xE0, 2, z3.If(b < 0xF0, 3, 4)))
    def valid(m, k):
        """what well-formedness of the text says at boundary k"""
        b = m.s[k]; return z3.And(z3.Implies(z3.And(m.B(k), k >= 0, k < m.n), z3.And(b >= 0, b < 256, z3.Or(b < 0x80, z3.And(b >= 0xC0, b < 0xF8)), k + m.ln(k) <= m.n, m.B(m.nx(k)), m.pv(m.nx(k)) == k)))
    def find(m, V, st, a, ins): raise Unsupported('FindAndConsume')
class Upd(Base):
    def __init__(m, c):
        Base.__init__(m, c); I = z3.IntSort(); m.F = z3.Function('found', I, z3.BoolSort()); m.C = z3.Function('consumed', I, I); m.G = z3.Function('group', I, I)
    def bp(m, k): return k + m.C(k) - m.G(k)
    def rx(m, k): return z3.Implies(z3.And(m.F(k), k >= 0, k < m.n), z3.And(m.C(k) >= 1, m.C(k) <= m.n - k, m.G(k) >= 0, m.G(k) <= m.C(k)))
    def find(m, V, st, a, ins):
        """assumed contract of PerlRegExp::FindAndConsume: on the text from k on, whether there is a match, how far it reaches, and how long its group is"""
        p, arg = a[1], a[3]; k = V.ival(st.cell(p.rid, p.off)[0].idx)
        V.oblige(st, V.ival(V.load(st, V.gep(st, p, 8, []), U32)) == m.n - k, 'the rule is tried on the whole rest of the text'); V.assume(st, m.rx(k))
        out = st.cell(arg.rid, arg.off)[0]
        V.store(st, V.gep(st, p, 8, []), m.n - k - z3.If(m.F(k), m.C(k), 0), U32); V.store(st, V.gep(st, out, 8, []), z3.If(m.F(k), m.G(k), 0), U32)
        return m.F(k)
def update(c):
    """the position a rule gives: the first start, from the segment's beginning or the last one tried, whose match breaks at or after the minimum"""
    m = Upd(c); V, st = m.V, m.st; start, brk, mn, pos, j = (V.fresh_int(st, 64, x) for x in ('start', 'brk', 'min', 'pos', 'j'))
    app = V.region(st, 'app', {0: (start, 8), 8: (brk, 8)}); rp = V.region(st, 'rx', {0: (V.region(st, 'regex'), 8), 8: (NULL, 8)}); this = V.region(st, 'cutter')
    V.assume(st, z3.And(pos < m.n, m.B(pos), mn > pos, start <= m.n, m.B(start), z3.Or(brk == NPOS, z3.And(brk >= 0, brk <= m.n))))
    s0 = z3.If(start < pos, pos, start); ok = lambda k: z3.And(m.F(k), m.bp(k) >= mn)
    V.assume(st, z3.And(m.B(j), s0 <= j, j < m.n))
    new = lambda S: (V.ival(V.acc((app.rid, 0))(S)), V.ival(V.acc((app.rid, 8))(S)))
    def inv(S):
        s, b = new(S); l = m.pv(s)
        # either nothing usable was found up to s, or the last start tried gave b
        return z3.And(s >= s0, s <= m.n, m.B(s), z3.Or(z3.And(b == brk, s == s0), z3.And(l >= s0, l < s, m.B(l), z3.If(b == NPOS, s == m.n, z3.And(m.F(l), b == m.bp(l), b <= m.n))) , z3.And(s == m.n, b == NPOS)),
            z3.Implies(z3.Or(b == NPOS, b < mn), z3.Implies(j < s, z3.Not(ok(j)))), z3.Implies(z3.And(b != NPOS, b >= mn, s > s0), z3.Implies(j < l, z3.Not(ok(j)))), z3.Implies(z3.And(s > s0, brk != NPOS), brk < mn))
    def gen(V, lv, st0, H): return [('searched so far', inv, 'inv')]
    V.cand_gens = [gen]
    def facts(V, lv, H):
        s, _ = new(H); return [m.valid(s), m.rx(s), z3.Implies(z3.And(m.B(j), s < j), j >= m.nx(s)), z3.Implies(z3.And(s <= j, z3.Not(m.F(s))), z3.Not(m.F(j)))]
    V.fact_gens = [facts]
    for k, s2, v in c.call('vp_update', [this, rp, app, mn, m.sp, pos], st):
        if k == 'throw': V.oblige(s2, False, 'never throws'); continue
        s, b = new(s2); l = m.pv(s); v = V.ival(v)
        V.oblige(s2, z3.Or(v == NPOS, z3.And(v >= mn, v <= m.n)), 'the result is a position from the minimum on, or none')
        V.oblige(s2, z3.And(v == b, z3.Implies(z3.And(brk != NPOS, brk >= mn), z3.And(v == brk, s == s0))), 'a position found before is kept while it is not passed')
        V.oblige(s2, z3.Implies(z3.And(v != NPOS, z3.Or(brk == NPOS, brk < mn)), z3.And(l >= s0, ok(l), v == m.bp(l))), 'a new position is where a match of the rule breaks')
        V.oblige(s2, z3.Implies(z3.And(v != NPOS, z3.Or(brk == NPOS, brk < mn), j < l), z3.Not(ok(j))), 'no earlier start gives such a position')
        V.oblige(s2, z3.Implies(v == NPOS, z3.Not(ok(j))), 'none only if no start gives such a position'); c.cover(s2, 'update')

class Cut(Base):
    """a cutter and its segmenter: breaking rules with the number of non-breaking ones before each"""
    def __init__(m, c):
        Base.__init__(m, c); V, st = m.V, m.st; I = z3.IntSort()
        RA = ElemSpec('SrxSentenceCutter::RuleApplication', 16, [(0, 8, 'int'), (8, 8, 'int')]); SP = ElemSpec('boost::shared_ptr<PCREWrapper>', 16, [(0, 8, 'int'), (8, 8, 'int')]); BR = ElemSpec('SrxSegmenter::BreakingRuleInfo', 24, [(0, 8, 'int'), (8, 8, 'int'), (16, 8, 'int')])
        for e in (RA, SP, BR): V.elemspecs[e.name if hasattr(e, 'name') else e.cls] = e
        m.rb, m.rn, m.nbr, m.br = (V.fresh(x, z3.SeqSort(e.sort(V))) for x, e in (('bapps', RA), ('napps', RA), ('nbrules', SP), ('brules', BR)))
        m.nb = z3.Length(m.br); m.k = lambda i: BR.sort(V).accessor(0, 2)(m.br[i])
        V.assume(st, z3.And(z3.Length(m.rb) == m.nb, z3.Length(m.rn) == z3.Length(m.nbr), m.nb < 2**31, z3.Length(m.nbr) < 2**31))
        m.seg = V.region(st, 'segmenter', {m.off[4]: (Vec(SP, m.nbr), 24), m.off[5]: (Vec(BR, m.br), 24)})
        m.this = V.region(st, 'cutter', {m.off[0]: (m.seg, 8), m.off[1]: (Vec(RA, m.rb), 24), m.off[2]: (Vec(RA, m.rn), 24)})
def check(c):
    """a break point is accepted exactly if none of the non-breaking rules listed before breaks there"""
    m = Cut(c); V, st = m.V, m.st; b, pos, n, i0 = (V.fresh_int(st, 64, x) for x in ('b', 'pos', 'nr', 'i0')); M = z3.Function('matches_at_b', z3.IntSort(), z3.BoolSort()); w = []
    V.assume(st, z3.And(pos < b, b <= m.n, n <= z3.Length(m.nbr), i0 < n, n >= 0, i0 >= 0))
    def upd(V, s, a, ins):     # contract of update, proved above: the first position of the rule from the minimum on
        i = V.ival(a[1]); V.oblige(s, z3.And(i >= 0, i < z3.Length(m.rn), V.ival(a[2]) == b, V.ival(a[4]) == pos), 'a rule that exists is asked for a position from the break point on'); r = V.fresh_int(s, 64, 'at')
        V.assume(s, z3.And(z3.Or(r == NPOS, z3.And(r >= b, r <= m.n)), (r == b) == M(i))); w.append(i); return r
    V.models.insert(0, (re.compile(r'(.* )?SrxSentenceCutter::updateNonBreakingRuleIndex_<'), upd))
    V.cand_gens = [lambda V, lv, st0, H: [('no rule so far breaks there', (lambda a: lambda S: z3.And(V.ival(a(S)) >= 0, V.ival(a(S)) <= n, z3.Implies(i0 < V.ival(a(S)), z3.Not(M(i0)))))(V.acc(l)), 'c') for l, k in V.intcells(lv)]]
    for k, s2, v in c.call('vp_check', [m.this, b, m.sp, pos, n], st):
        if k == 'throw': V.oblige(s2, False, 'never throws'); continue
        V.oblige(s2, z3.Implies(tb(v), z3.Not(M(i0))), 'accepted: no rule breaks there'); V.oblige(s2, z3.Or(tb(v), *[z3.And(x >= 0, x < n, M(x)) for x in w]), 'refused: some rule breaks there'); c.cover(s2, 'check')
def items(V):
    """assumed contract of the annotation item's constructor: it keeps the category and the fragment of the text; the fragment is recorded"""
    def frag(V, s, a, ins):
        s.ghost = dict(s.ghost or {}); s.ghost['frag'] = (V.ival(a[2]), V.ival(a[3])); return None
    def item(V, s, a, ins):
        s.ghost = dict(s.ghost or {}); s.ghost['items'] = s.ghost.get('items', ()) + ((s.ghost.get('frag'), V.read_abs(s, a[1], models.Str).seq),); return None
    V.models[0:0] = [(re.compile(r'StringFrag::StringFrag\(std::string const&, unsigned long, unsigned long\)'), frag), (re.compile(r'StringFrag::StringFrag\(StringFrag const&\)'), lambda V, s, a, ins: None), (re.compile(r'AnnotationItem::AnnotationItem\('), item), (re.compile(r'(AnnotationItem::~AnnotationItem|StringFrag::~StringFrag)\('), lambda V, s, a, ins: None)]
def wrap(c):
    """each rule is tried with its own state"""
    m = Cut(c); V, st = m.V, m.st; i, mn, pos = (V.fresh_int(st, 64, x) for x in ('i', 'mn', 'pos')); r = V.fresh_int(st, 64, 'r'); seen = []
    V.models[0:0] = [(re.compile(r'boost::detail::shared_count::~?shared_count\('), lambda V, s, a, ins: None)]
    for op, n, apps, offa, what in ((0, m.nb, m.rb, 1, 'breaking'), (1, z3.Length(m.nbr), m.rn, 2, 'non-breaking')):
        s = st.fork(); V.assume(s, z3.And(i >= 0, i < n))
        def upd(V, s, a, ins, op=op, offa=offa):
            a = a[1:]; p, q = a[0], a[1]; rx = V.load(s, p, U64); el = (m.br if op == 0 else m.nbr)[i]; srt = el.sort()
            V.oblige(s, V.ival(rx) == srt.accessor(0, 0)(el), 'the rule asked for is the one tried'); vp = V.dataptr(V.gep(s, m.this, m.off[offa], []), 0, 16)
            V.oblige(s, z3.BoolVal(q.rid == vp.rid), 'its own state is used'); V.oblige(s, z3.And(V.ival(q.idx) == i, q.off == 0), 'its own state is used'); V.oblige(s, z3.And(V.ival(a[2]) == mn, V.ival(a[4]) == pos), 'the minimum and the beginning are passed on'); return r
        V.models.insert(0, (re.compile(r'(.* )?SrxSentenceCutter::updatePosition_<'), upd))
        for k, s2, v in c.call('vp_rule', [m.this, op, i, mn, m.sp, pos], s):
            if k == 'throw': V.oblige(s2, False, 'never throws'); continue
            V.oblige(s2, V.ival(v) == r, 'its position is the result'); c.cover(s2, what)
        V.models.pop(0)
def index(e, seq):
    """the index i of seq[i] within a term"""
    w = [e]
    while w:
        x = w.pop()
        if x.decl().kind() == z3.Z3_OP_SEQ_NTH and x.arg(0).eq(seq): return x.arg(1)
        w += x.children()
class Tok(Base):
    """a rule set: the category, the name and the pattern of each rule, in the order they are tried"""
    def __init__(m, c):
        Base.__init__(m, c); V, st = m.V, m.st; I = z3.IntSort()
        R = ElemSpec('TPBasicTokenizerRuleSet::_regex', 80, [(0, 32, 'str'), (32, 32, 'str'), (64, 8, 'int'), (72, 8, 'int')]); V.elemspecs[R.name if hasattr(R, 'name') else R.cls] = R
        m.rules = V.fresh('rules', z3.SeqSort(R.sort(V))); m.nr = z3.Length(m.rules); m.cat = lambda i: R.sort(V).accessor(0, 0)(m.rules[i]); m.re = lambda i: R.sort(V).accessor(0, 2)(m.rules[i]); m.M = z3.Function('matches', I, I, z3.BoolSort()); m.C = z3.Function('consumes', I, I, I)
        m.set = V.region(st, 'ruleset', {m.off[8]: (Vec(R, m.rules), 24)}); m.this = V.region(st, 'cutter', {m.off[7]: (m.set, 8)}); V.assume(st, m.nr < 2**31)
    def consume(m, V, st, a, ins):
        """assumed contract of PerlRegExp::Consume: whether the pattern matches at the beginning of the piece, and how many bytes it consumes if so"""
        p, r = a[1], V.ival(a[2]); k = V.ival(st.cell(p.rid, p.off)[0].idx); M, C = m.M(r, k), m.C(r, k)
        V.assume(st, z3.Implies(M, z3.And(C >= 0, C <= m.n - k))); V.oblige(st, V.ival(V.load(st, V.gep(st, p, 8, []), U32)) == m.n - k, 'the rule is tried on the whole rest of the text')
        st.ghost = dict(st.ghost or {}); st.ghost['rule'] = index(r, m.rules)
        st.setcell(p.rid, p.off, V.gep(st, st.cell(p.rid, p.off)[0], 0, [(z3.If(M, C, 0), 1, 64)]), 8)
        V.store(st, V.gep(st, p, 8, []), m.n - k - z3.If(M, C, 0), U32); return M
def token(c):
    """a token is what the first rule with a non-empty match consumes; one character of category X where there is none"""
    m = Tok(c); V, st = m.V, m.st; pos, j = (V.fresh_int(st, 64, x) for x in ('pos', 'j')); items(V)
    V.assume(st, z3.And(pos < m.n, m.B(pos), m.valid(pos), j >= 0, j < m.nr)); ok = lambda i: z3.And(m.M(m.re(i), pos), m.C(m.re(i), pos) > 0)
    V.cand_gens = [lambda V, lv, st0, H: [('no rule so far has a match', (lambda a: lambda S: z3.And(V.ival(a(S)) >= 0, V.ival(a(S)) <= m.nr, z3.Implies(j < V.ival(a(S)), z3.Not(ok(j)))))(V.acc(l)), 'c') for l, k in V.intcells(lv)]]
    pp = V.region(st, 'pos', {0: (pos, 8)}); out = V.region(st, 'out')
    for k, s2, v in c.call('vp_token', [m.this, out, m.sp, pp], st):
        if k == 'throw': V.oblige(s2, False, 'never throws'); continue
        P = V.ival(s2.cell(pp.rid, 0)[0]); g = (s2.ghost or {}).get('items', ())
        V.oblige(s2, z3.And(P > pos, P <= m.n), 'a token has at least one byte and lies in the text')
        if not (len(g) == 1 and g[0][0] and g[0][1] is not None): V.oblige(s2, False, 'one token is made'); continue
        V.oblige(s2, z3.And(g[0][0][0] == pos, g[0][0][1] == P - pos), 'the token is the text from the position given to the one returned')
        cat, w = g[0][1], (s2.ghost or {}).get('rule'); d = z3.And(z3.Length(cat) == 1, cat[0] == 88, P == pos + m.ln(pos), z3.Not(ok(j)))
        V.oblige(s2, d if w is None else z3.Or(d, z3.And(ok(w), z3.Implies(j < w, z3.Not(ok(j))), cat == m.cat(w), P == pos + m.C(m.re(w), pos))), 'it is what the first rule with a match consumes, or one character of category X'); c.cover(s2, 'token')
def cut(c):
    """a segment ends at the first position where the first rule that breaks there is not refused"""
    m = Cut(c); V, st = m.V, m.st; pos, x0, i0 = (V.fresh_int(st, 64, x) for x in ('pos', 'x0', 'i0')); I = z3.IntSort(); items(V)
    BP = z3.Function('breaks', I, I, z3.BoolSort()); ACC = z3.Function('accepted', I, I, z3.BoolSort())
    V.assume(st, z3.And(pos < m.n, m.B(pos), m.valid(pos), x0 > pos, x0 <= m.n, i0 < m.nb, m.B(x0), z3.Implies(m.B(x0), x0 >= m.nx(pos))))
    def upd(V, s, a, ins):
        i, mn = V.ival(a[1]), V.ival(a[2]); V.oblige(s, z3.And(i >= 0, i < m.nb, mn > pos, V.ival(a[4]) == pos), 'a rule that exists is asked for a position after the beginning'); r = V.fresh_int(s, 64, 'at'); x, y = z3.Int('x!q'), z3.Int('y!q')
        V.assume(s, z3.Or(r == NPOS, z3.And(r >= mn, r <= m.n, m.B(r), m.valid(r), BP(i, r), z3.Implies(z3.And(m.B(x0), x0 > r), x0 >= m.nx(r)))))
        V.assume(s, z3.ForAll([x], z3.Implies(z3.And(BP(i, x), x >= mn, x <= m.n), z3.And(r != NPOS, r <= x)), patterns=[BP(i, x)])); return r
    def chk(V, s, a, ins):
        b, k = V.ival(a[1]), V.ival(a[4]); V.oblige(s, z3.And(V.ival(a[3]) == pos, b > pos, b <= m.n), 'a break point after the beginning is checked'); return ACC(b, k)
    V.models[0:0] = [(re.compile(r'(.* )?SrxSentenceCutter::updateBreakingRuleIndex_<'), upd), (re.compile(r'(.* )?SrxSentenceCutter::checkBreakPoint_<'), chk)]
    FI = z3.Function('first_rule', I, I); x, i = z3.Int('x!q'), z3.Int('i!q'); B8 = lambda l, S: S.cell(*l)[1] == 8
    V.assume(st, z3.ForAll([i, x], z3.Implies(z3.And(BP(i, x), i >= 0), z3.And(BP(FI(x), x), FI(x) <= i, FI(x) >= 0)), patterns=[BP(i, x)])); no = lambda x, i: z3.Implies(BP(i, x), z3.Not(ACC(x, m.k(FI(x)))))
    V.no_unroll = True
    def seqlen(V, s, a, ins):     # contract of sequence_length, used unreplaced in update above
        k = V.ival(a[0].idx); V.oblige(s, z3.And(k >= 0, k <= m.n), 'the length of a character of the text is asked for'); return z3.If(k < m.n, m.ln(k), 1)
    V.models.insert(0, (re.compile(r'(.* )?utf8::unchecked::sequence_length<'), seqlen))
    def gen(V, lv, st0, H):
        out = []; cs = [l for l, k in V.intcells(lv) if B8(l, st0)]; fl = [l for l, k in V.intcells(lv) if st0.cell(*l)[1] == 1]; A = lambda l: (lambda S, a=V.acc(l): V.ival(a(S)))
        # the search through the positions: everything below the minimum is decided
        for l in cs:
            for f in fl: out.append(('positions refused so far', (lambda l, f: lambda S: z3.And(l(S) > pos, f(S) == 0, l(S) <= m.n + 4, z3.Implies(x0 < l(S), no(x0, i0)), z3.Implies(x0 >= m.nx(pos), z3.Or(x0 >= l(S), no(x0, i0)))))(A(l), A(f)), 'outer'))
        # the search through the rules
        mins = [V.ival(c[0]) for r, cells in st0.mem.items() if r[2] == 'alloca' for o, c in cells.items() if o == 0 and isz(c[0]) and z3.is_int(c[0]) and c[1] == 8 and (r, o) not in lv.mod and V.holds(st0, z3.And(V.ival(c[0]) > pos, V.ival(c[0]) < 2**32))]
        for a in cs:
            for b in cs:
                for d in cs:
                    if len({a, b, d}) < 3: continue
                    for f in fl:
                        for mn in mins[:3]:
                            out.append(('nearest position of the rules so far', (lambda i_, nb, ni, f, mn: lambda S: z3.And(i_(S) >= 0, i_(S) <= m.nb, z3.Or(f(S) == 0, f(S) == 1), z3.Implies(f(S) == 1, z3.And(nb(S) >= mn, nb(S) <= m.n, ni(S) >= 0, ni(S) < i_(S), BP(ni(S), nb(S)), m.B(nb(S)), m.valid(nb(S)), z3.Implies(z3.And(m.B(x0), x0 > nb(S)), x0 >= m.nx(nb(S))))),
                                z3.ForAll([i, x], z3.Implies(z3.And(BP(i, x), i >= 0, i < i_(S), x >= mn, x <= m.n), z3.And(f(S) == 1, nb(S) <= x, z3.Implies(nb(S) == x, ni(S) <= i))), patterns=[BP(i, x)])))(A(a), A(b), A(d), A(f), mn), 'inner'))
        return out
    V.cand_gens = [gen]
    pp = V.region(st, 'pos', {0: (pos, 8)}); out = V.region(st, 'out')
    for k, s2, v in c.call('vp_cut', [m.this, out, m.sp, pp], st):
        if k == 'throw': V.oblige(s2, False, 'never throws'); continue
        P = V.ival(s2.cell(pp.rid, 0)[0]); g = (s2.ghost or {}).get('items', ())
        V.oblige(s2, z3.And(len(g) == 1, g[0][0][0] == pos, g[0][0][1] == z3.If(P == NPOS, m.n, P) - pos) if g and g[0][0] else False, 'the segment is the text from the position given to the one returned, or to the end')
        V.oblige(s2, z3.Or(P == NPOS, z3.And(P > pos, P <= m.n, BP(FI(P), P), ACC(P, m.k(FI(P))))), 'it ends where the first rule that breaks there is a breaking one')
        V.oblige(s2, z3.Implies(z3.Or(P == NPOS, x0 < P), no(x0, i0)), 'it does not end earlier only where each break is refused'); c.cover(s2, 'cut')
UNITS = [update, check, cut, wrap, token]
TRUSTED = ['PerlRegExp::Consume / FindAndConsume (PCRE): whether a pattern matches, how far the match reaches and how long its group is are functions of the pattern and the position; the piece is advanced past the match', 'StringFrag and AnnotationItem constructors: they keep the category and the fragment given', 'boost::shared_ptr reference counting']
ASSUMPTIONS = ['the text is valid UTF-8', 'SRX rules find non-empty matches, and a rule that has no match from some start has none from a later one', 'for one rule, a match that starts later does not break earlier (used where the cut-off relies on the nearest position of each rule)', 'the proofs are about the std::string instances of the templates; the StringFrag instances are the same text and are exercised by the bounded part']
BOUNDED = ['rule files, conditions, includes, language maps, cascading, limits, and lattice edges: generated files and texts of at most 24 pieces', 'rules whose before-part is at most two characters']
