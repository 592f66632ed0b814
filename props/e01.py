"""E01: encoding conversion keeps the text"""
from vc import *
LEVEL = 'proof'
HARNESS = 'h_e01.cpp'
BUDGET = 25
SOURCES = ['common/encoding_converter.cpp', 'common/logging.cpp', 'tiniconv/tiniconv.c', 'tiniconv/tiniconv_desc.c']
INC = ('tiniconv', 'uchardet/src', 'uchardet')
HOPTS = {'libs': ['-llog4cpp', '-lpthread'], 'extra_inc': list(INC)}
EXPLAIN = 'see DESIGN.md'
U32 = sym._FakeTy(32); U8 = sym._FakeTy(8); BV = z3.BitVecVal
def load(c, mode='bv'): return c.load([os.path.join(build.VERIF, 'drivers/p_e01.cpp')], mode=mode, extra_inc=INC), c.st
def utf8enc(c):
    """writing a code point as UTF-8 and reading it back gives the code point; no more than the room given is written"""
    V, st = load(c); wc = V.fresh_int(st, 32, 'wc'); n = V.fresh_int(st, 32, 'n'); V.assume(st, z3.And(n >= 0, n <= 6))
    out = V.region(st, 'out', {k: (V.fresh_int(st, 8, 'o%d' % k), 1) for k in range(8)}); o0 = [st.cell(out.rid, k)[0] for k in range(8)]; w = V.region(st, 'wcp', {0: (BV(0, 32), 4)})
    for k, s2, v in c.call('vp_u8enc', [NULL, out, wc, n], st):
        v = V.bvv(v, 32); need = z3.If(z3.ULT(wc, 0x80), BV(1, 32), z3.If(z3.ULT(wc, 0x800), BV(2, 32), z3.If(z3.ULT(wc, 0x10000), BV(3, 32), BV(4, 32)))); uni = z3.ULT(wc, 0x110000)
        V.oblige(s2, z3.Implies(uni, v == z3.If(n < need, BV(-2, 32), need)), 'a code point takes as many bytes as UTF-8 says, or too little room is reported')
        for k in range(8): V.oblige(s2, z3.Implies(z3.Or(n <= k, v <= k), V.bvv(s2.cell(out.rid, k)[0], 8) == o0[k]), 'nothing is written beyond the room or the result')
        s3 = s2.fork(); V.assume(s3, z3.And(v > 0, uni))
        if not V.feasible(s3, z3.BoolVal(True)): continue
        for k4, s4, x in c.call('vp_u8dec', [NULL, w, out, v], s3): V.oblige(s4, z3.And(V.bvv(x, 32) == v, V.bvv(s4.cell(w.rid, 0)[0], 32) == wc), 'what is written is read back as the same code point'); c.cover(s4, 'round trip')
def utf8dec(c):
    """reading UTF-8: what is read is written back as the same bytes (no overlong form is read), and nothing beyond the end is read"""
    V, st = load(c); n = V.fresh_int(st, 32, 'n'); V.assume(st, z3.And(n >= 1, n <= 6)); b = [V.fresh_int(st, 8, 'b%d' % k) for k in range(6)]
    s = V.region(st, 'in', {k: (b[k], 1) for k in range(6)}); w = V.region(st, 'wcp', {0: (BV(0, 32), 4)}); out = V.region(st, 'out', {k: (BV(0, 8), 1) for k in range(6)})
    for k, s2, v in c.call('vp_u8dec', [NULL, w, s, n], st):
        v = V.bvv(v, 32); V.oblige(s2, z3.And(v <= n, v != 0, v >= -2), 'what is read lies within the bytes given, or an error is reported'); s3 = s2.fork(); V.assume(s3, v > 0)
        if not V.feasible(s3, z3.BoolVal(True)): continue
        for k4, s4, x in c.call('vp_u8enc', [NULL, out, V.bvv(s2.cell(w.rid, 0)[0], 32), BV(6, 32)], s3):
            V.oblige(s4, z3.And(V.bvv(x, 32) == v, *[z3.Implies(v > k, V.bvv(s4.cell(out.rid, k)[0], 8) == b[k]) for k in range(6)]), 'what is read is written back as the same bytes'); c.cover(s4, 'round trip')
SB = 'ascii cp1250 cp1251 cp1252 cp1253 cp1254 cp1256 cp1257 iso8859_1 iso8859_2 iso8859_3 iso8859_4 iso8859_5 iso8859_6 iso8859_7 iso8859_8 iso8859_9 iso8859_10 iso8859_11 iso8859_13 iso8859_14 iso8859_15 iso8859_16 cp866 koi8_r koi8_ru koi8_u mac_cyrillic'.split()
def one(c, x):
    V, st = load(c); b = V.fresh_int(st, 8, 'byte'); wc = V.fresh_int(st, 32, 'wc'); w = V.region(st, 'wcp', {0: (BV(0, 32), 4)}); out = V.region(st, 'out', {0: (BV(0, 8), 1)})
    for k, s2, v in c.call('vp_d_' + x, [w, b], st.fork()):
        v = V.bvv(v, 32); V.oblige(s2, z3.Or(v == 1, v == -1), x + ': a byte is one character or none'); s3 = s2.fork(); V.assume(s3, v == 1)
        if not V.feasible(s3, z3.BoolVal(True)): continue
        for k4, s4, r in c.call('vp_e_' + x, [out, V.bvv(s2.cell(w.rid, 0)[0], 32)], s3): V.oblige(s4, z3.And(V.bvv(r, 32) == 1, V.bvv(s4.cell(out.rid, 0)[0], 8) == b), x + ': what a byte stands for is written back as that byte')
    for k, s2, v in c.call('vp_e_' + x, [out, wc], st.fork()):
        v = V.bvv(v, 32); V.oblige(s2, z3.Or(v == 1, v == -1), x + ': a character is one byte or none'); s3 = s2.fork(); V.assume(s3, v == 1)
        if not V.feasible(s3, z3.BoolVal(True)): continue
        for k4, s4, r in c.call('vp_d_' + x, [w, V.bvv(s2.cell(out.rid, 0)[0], 8)], s3): V.oblige(s4, z3.And(V.bvv(r, 32) == 1, V.bvv(s4.cell(w.rid, 0)[0], 32) == wc), x + ': the byte written for a character stands for that character'); c.cover(s4, x)
def mk(x):
    def f(c): one(c, x)
    f.__name__ = x; f.__doc__ = '%s: decoding and encoding are inverse to each other, for every byte and every code point' % x; return f
def loop(c):
    """tiniconv_convert: every character read is written, in order, from where the last one ended to where the last one ended; a character that cannot be written is not consumed; the counts are those of what was read and written"""
    V, st = load(c, 'int'); x, y = V.fresh_seq('inbytes'), V.fresh_seq('outbytes'); V.assume(st, z3.And(z3.Length(x) < 2**31, z3.Length(y) < 2**31)); dp = lambda n, q: V.dataptr(V.region(st, n, {0: (Str(q), 32)}), 0)
    pi, po = dp('in', x), dp('out', y); ni, no = z3.Length(x), z3.Length(y); i0, o0 = V.fresh_int(st, 32, 'istate'), V.fresh_int(st, 32, 'ostate'); rep = V.fresh_int(st, 8, 'replacement'); opt = 0x3F00
    # the converter's state, and (from 64 on) ghost state: where the decoder and the encoder are, their states, the character that waits to be written
    GI, GS, GO, GT, PEND, PWC, PLEN, PST = range(64, 128, 8)
    ctx = V.region(st, 'ctx', {0: (i0, 4), 4: (o0, 4), 8: (sym.FnPtr('vp_mb'), 8), 16: (NULL, 8), 24: (sym.FnPtr('vp_wc'), 8), 32: (NULL, 8), 40: (opt, 4), GI: (z3.IntVal(0), 4), GS: (i0, 4), GO: (z3.IntVal(0), 4), GT: (o0, 4), PEND: (z3.IntVal(0), 4), PWC: (z3.IntVal(0), 4), PLEN: (z3.IntVal(0), 4), PST: (z3.IntVal(0), 4)})
    g = lambda s, k: V.ival(s.cell(ctx.rid, k)[0]); put = lambda s, k, v: s.setcell(ctx.rid, k, v, 4); sg = lambda v: z3.If(v >= 2**31, v - 2**32, v); M = 2**32; HOLD = z3.Function('holds_a_character', z3.IntSort(), z3.IntSort()); hold = lambda t: z3.If(HOLD(t) > 0, 1, 0); left = lambda S: 2 * (ni - g(S, GI)) + hold(g(S, GS))
    def mb(V, s, a, ins):
        V.oblige(s, z3.BoolVal(a[0].rid == ctx.rid and a[2].rid == pi.rid), 'the decoder gets the input'); i, n = V.ival(a[2].idx), V.ival(a[3])
        V.oblige(s, z3.And(i == g(s, GI), n == ni - i, n > 0), 'reading goes on where it stopped, up to the end of the input, and only while something is left'); V.oblige(s, g(s, 0) == g(s, GS), 'the decoder keeps its state'); V.oblige(s, g(s, PEND) == 0, 'no character is read before the last one is written')
        r, w, ns = V.fresh_int(s, 32, 'read'), V.fresh_int(s, 32, 'wc'), V.fresh_int(s, 32, 'nist'); q = sg(r)
        V.assume(s, z3.And(q <= n, z3.Or(q >= -1, z3.And(-2 - q >= 0, -2 - q <= n)), z3.Implies(q == 0, z3.And(hold(g(s, 0)) == 1, hold(ns) == 0)))); put(s, PST, g(s, 0)); put(s, 0, ns); put(s, GS, ns); V.store(s, a[1], w, U32)
        got = q >= 0; put(s, PEND, z3.If(got, 1, 0)); put(s, PWC, w); put(s, PLEN, z3.If(got, q, 0)); put(s, GI, i + z3.If(got, q, z3.If(q <= -2, -2 - q, 0))); s.ghost = dict(s.ghost); s.ghost['mb'] = q; return r
    def wc(V, s, a, ins):
        V.oblige(s, z3.BoolVal(a[0].rid == ctx.rid and a[1].rid == po.rid), 'the encoder writes to the output'); o, n = V.ival(a[1].idx), V.ival(a[3])
        V.oblige(s, z3.And(o == g(s, GO), n == no - o, n > 0), 'writing goes on where it stopped, within the room left'); V.oblige(s, z3.And(g(s, PEND) == 1, V.ival(a[2]) == g(s, PWC)), 'what is written is the character just read'); V.oblige(s, g(s, 4) == g(s, GT), 'the encoder keeps its state')
        r, ns = V.fresh_int(s, 32, 'written'), V.fresh_int(s, 32, 'nost'); q = sg(r); V.assume(s, z3.And(q <= n, q >= -2, z3.Implies(q == -2, n < 16))); ok = q >= 0
        put(s, 4, z3.If(ok, ns, g(s, 4))); put(s, GT, z3.If(ok, ns, g(s, GT))); put(s, GO, o + z3.If(ok, q, 0)); put(s, PEND, z3.If(ok, 0, 1)); s.ghost = dict(s.ghost); s.ghost['wc'] = q; return r
    for f in ('vp_mb', 'vp_wc'): V.exact[f] = mb if f == 'vp_mb' else wc
    def gen(V, lv, st0, H):
        cs = [l for l, k in V.intcells(lv) if not (isinstance(l, tuple) and l[0] == ctx.rid)]; out = [('no character waits', lambda S: z3.And(g(S, PEND) == 0, g(S, GI) >= 0, g(S, GI) <= ni, g(S, GO) >= 0, g(S, GO) <= no, g(S, 0) == g(S, GS), g(S, 4) == g(S, GT), left(S) <= left(st0), z3.Implies(g(S, GO) > 0, left(S) < left(st0))), 'g')]
        for l in cs:
            for k, n in ((GI, 'read'), (GO, 'written')): out.append(('%s so far %s' % (n, l), (lambda a, k: lambda S: V.ival(a(S)) == g(S, k))(V.acc(l), k), None))
        return out
    V.measure_gens = [lambda V, lv: [('characters left or held', left)]]; V.cand_gens = [gen]; nc, mc = V.region(st, 'nc', {0: (z3.IntVal(0), 4)}), V.region(st, 'mc', {0: (z3.IntVal(0), 4)})
    for k, s, v in c.call('vp_tcv', [ctx, pi, ni, nc, po, no, mc], st):
        if k == 'throw': V.oblige(s, False, 'never throws'); continue
        r = sg(V.ival(v)); n, m = V.ival(s.cell(nc.rid, 0)[0]), V.ival(s.cell(mc.rid, 0)[0]); pend = g(s, PEND) == 1
        V.oblige(s, n == g(s, GI) - z3.If(pend, g(s, PLEN), 0), 'what is reported as consumed is what was read, without a character that was not written'); V.oblige(s, m == g(s, GO), 'what is reported as produced is what was written')
        V.oblige(s, g(s, 0) == z3.If(pend, g(s, PST), g(s, GS)), 'the state is the one after what is reported as consumed'); V.oblige(s, z3.And(r <= 0, r >= -4), 'a known code')
        V.oblige(s, z3.Implies(r == 0, z3.And(z3.Not(pend), z3.Or(n == ni, m == no))), 'success: all is consumed or the output is full'); V.oblige(s, pend == z3.Or(r == -2, r == -4), 'a character is left unwritten exactly if that is reported')
        V.oblige(s, z3.Implies(z3.Or(r == -1, r == -3), n < ni), 'an error in the input is reported only where there is some'); V.oblige(s, z3.Implies(ni == 0, r == 0), 'without input it succeeds'); V.oblige(s, z3.Implies(z3.And(z3.Or(r == 0, r == -2), no >= 16, ni > 0), 2 * (ni - n) + hold(g(s, 0)) < 2 * ni + hold(i0)), 'with 16 bytes of room it gets on'); c.cover(s, 'return')
def convert(c):
    """EncodingConverter::convert_: the whole text is given to tiniconv, in portions that follow each other, and everything produced is put together in order; it fails exactly if a portion does"""
    V = c.load([os.path.join(build.VERIF, 'drivers/p_e01c.cpp')], extra_inc=INC); st = c.st; x, xp = c.str_arg(st, 'text'); I = z3.IntSort(); out = V.region(st, 'output', {0: (z3.IntVal(-1), 8)}); LOG = z3.Function('then', I, I, I)      # the text so far and a piece give the text so far
    n = z3.Length(x); V.assume(st, n < 2**31); this = V.region(st, 'converter')
    fi, ti = V.fresh_int(st, 32, 'from'), V.fresh_int(st, 32, 'to'); sg = lambda v: z3.If(v >= 2**31, v - 2**32, v); E = z3.IntVal(0)
    gh = V.region(st, 'ghost', {0: (E, 8), 32: (z3.IntVal(0), 8), 40: (z3.IntVal(0), 4), 48: (z3.IntVal(0), 4)}); use = lambda s: V.ival(s.cell(gh.rid, 32)[0]); got = lambda s: V.ival(s.cell(gh.rid, 0)[0]); last = lambda s: V.ival(s.cell(gh.rid, 40)[0]); say = lambda s, **k: setattr(s, 'ghost', dict(s.ghost, **k))
    def init(V, s, a, ins):
        V.oblige(s, z3.And(V.ival(a[0]) == fi, V.ival(a[1]) == ti, V.ival(a[2]) == 0), 'tiniconv gets the two encodings and no option'); r = V.fresh_int(s, 32, 'init'); V.assume(s, z3.Or(r == 0, r == 2**32 - 1)); say(s, ctx=a[3].rid, init=r)
        for o in (8, 16, 24): s.setcell(a[3].rid, a[3].off + o, sym.FnPtr('vp_never'), 8)
        s.setcell(a[3].rid, a[3].off + 32, sym.FnPtr('vp_reset'), 8); return r
    def conv(V, s, a, ins):
        V.oblige(s, z3.BoolVal(s.ghost.get('ctx') == a[0].rid), 'the same conversion goes on'); i, k, cap = V.ival(a[1].idx), sg(V.ival(a[2])), sg(V.ival(a[5]))
        V.oblige(s, z3.And(i == use(s), i + k == n, k >= 0), 'the text goes on where the last portion ended, up to its end'); s.ghost.get('cap')
        V.oblige(s, z3.And(V.ival(a[4].idx) == 0, cap >= 1, cap <= V.ival(s.ghost.get('cap', z3.IntVal(100000)))), 'the portion fits the buffer')
        nc, mc, r = V.fresh_int(s, 32, 'nc'), V.fresh_int(s, 32, 'mc'), V.fresh_int(s, 32, 'r'); q = sg(r)
        V.assume(s, z3.And(nc <= k, mc <= cap, q <= 0, q >= -4, z3.Implies(q == 0, z3.Or(nc == k, mc == cap)))); V.store(s, a[3], nc, U32); V.store(s, a[6], mc, U32); pc = (V.fresh_int(s, 32, 'piece'), mc)
        h0, h1 = s.cell(gh.rid, 48)[0], V.fresh_int(s, 32, 'held'); V.assume(s, z3.And(h1 <= 1, h0 <= 1, h0 >= 0)); V.assume(s, z3.Implies(z3.And(z3.Or(q == 0, q == -2), cap >= 16, k > 0), 2 * (k - nc) + h1 < 2 * k + h0)); V.assume(s, z3.Implies(z3.And(cap >= 16, k == 0), q == 0)); s.setcell(gh.rid, 48, h1, 4)
        s.setcell(gh.rid, 32, i + nc, 8); s.setcell(gh.rid, 0, LOG(got(s), pc[0]), 8); s.setcell(gh.rid, 40, q, 4); say(s, piece=pc); return r
    def reset(V, s, a, ins):
        V.oblige(s, z3.BoolVal(s.ghost.get('ctx') == a[0].rid), 'the conversion that ended is reset'); r = V.fresh_int(s, 32, 'tail'); q = sg(r); V.assume(s, z3.And(q >= -2, q <= sg(V.ival(a[2])))); pc = (V.fresh_int(s, 32, 'tailp'), z3.If(q > 0, q, 0))
        s.setcell(gh.rid, 0, z3.If(q > 0, LOG(got(s), pc[0]), got(s)), 8); say(s, piece=pc, reset=1); return r
    def app(V, s, a, ins):
        b, e = V.ival(a[1].idx), V.ival(a[2].idx); pc = s.ghost['piece']; V.oblige(s, z3.And(b == 0, e == pc[1], z3.BoolVal(a[0].rid == out.rid)), 'all that was produced is taken, and nothing else'); s.setcell(out.rid, 0, LOG(V.ival(s.cell(out.rid, 0)[0]), pc[0]), 8); return a[0]
    V.exact['tiniconv_init'] = init; V.exact['tiniconv_convert'] = conv; V.exact['vp_reset'] = reset; V.exact['std::string::clear()'] = lambda V, s, a, ins: (V.oblige(s, z3.BoolVal(a[0].rid == out.rid), 'the result begins empty'), s.setcell(out.rid, 0, E, 8))[1]; V.models.insert(0, (re.compile(r'(.* )?std::string::append<__gnu_cxx::__normal_iterator'), app))
    UC = ElemSpec('unsigned char', 1, [(0, 1, 'int')]); V.elemspecs[UC.name if hasattr(UC, 'name') else UC.cls] = UC
    def room(V, s, a, ins):
        """the buffer: as many bytes as asked for"""
        q = V.fresh('buffer', z3.SeqSort(UC.sort(V))); V.assume(s, z3.Implies(V.ival(a[1]) > 0, z3.Length(q) > 0)); V.write_abs(s, a[0], Vec(UC, q)); say(s, cap=V.ival(a[1])); return None
    V.exact['std::vector<unsigned char>::size() const'] = lambda V, s, a, ins: s.ghost['cap']      # the length is kept apart from the (unused) contents
    V.models.insert(0, (re.compile(r'std::vector<unsigned char>::vector\(unsigned long, '), room)); V.models.insert(0, (re.compile(r'std::vector<unsigned char>::~vector\('), lambda V, s, a, ins: None))
    V.measure_gens = [lambda V, lv: [('what is left', lambda S: 2 * (n - use(S)) + V.ival(S.cell(gh.rid, 48)[0]))]]; V.own_cands = True; V.timeout = 3000
    V.cand_gens = [lambda V, lv, st0, H: [('what was produced so far', lambda S: z3.And(V.ival(S.cell(out.rid, 0)[0]) == got(S), use(S) >= 0, use(S) <= n, V.ival(S.cell(gh.rid, 48)[0]) >= 0, V.ival(S.cell(gh.rid, 48)[0]) <= 1), 'g')] + [('%s is what is used' % (l,), (lambda a: lambda S: V.ival(a(S)) == use(S))(V.acc(l)), None) for l, k in V.intcells(lv)] + [('%s is what is left' % (l,), (lambda a: lambda S: V.ival(a(S)) == n - use(S))(V.acc(l)), None) for l, k in V.intcells(lv)]]
    for k, s, v in c.call('vp_cv', [this, fi, ti, xp, out], st):
        if k == 'throw': V.oblige(s, False, 'never throws'); continue
        ok = tb(v); bad = z3.Or(s.ghost['init'] != 0, last(s) < -2)
        V.oblige(s, ok == z3.Not(bad), 'it fails exactly if a portion cannot be converted'); V.oblige(s, z3.Implies(ok, V.ival(s.cell(out.rid, 0)[0]) == got(s)), 'the result is all that was produced, in order')
        V.oblige(s, z3.Implies(ok, z3.Or(use(s) == n, last(s) == -1)), 'all of the text was converted, or its end is unfinished'); V.oblige(s, z3.Implies(ok, z3.BoolVal('reset' in s.ghost)), 'the encoder returns to its initial state'); c.cover(s, 'return')
def tb(v): return v if isz(v) and z3.is_bool(v) else (z3.BoolVal(bool(v)) if not isz(v) else v != 0)
UNITS = [utf8enc, utf8dec, loop, convert] + [mk(x) for x in SB]
TRUSTED = ['std::string and std::vector, by the engine\'s models; appending an iterator range to a std::string', 'the C library\'s iconv, the oracle of the bounded part']
ASSUMPTIONS = ['texts are shorter than 2^31 bytes', 'loop: a decoder returns the number of bytes it read (at most those given), -1 for an invalid sequence or -2-n for n bytes that yield no character; an encoder writes at most the bytes of room it is given, or returns -1 or -2: proved for UTF-8 (utf8enc, utf8dec) and the 28 single-byte encodings, assumed for the others', 'convert: the contract of tiniconv_convert is the one proved by the unit loop; a decoder returns 0 only to give out a character it held, a character takes fewer than 16 bytes', 'single-byte units: conversion between the byte and the character is shown to be one-to-one; that the character is the one the standard names is left to the harness, for every character']
BOUNDED = ['multi-byte encodings (CP936/GBK, GB-2312, Big5, ISO-2022-JP, UCS-2, UTF-7) and the stateful windows-1255/windows-1258: every character alone and texts of random characters, against the C library', 'EncodingConverter::convert (encoding names, unknown encodings, the detected encoding): harness only; detection itself (uchardet) is not part of the property', 'characters on which variants of an encoding differ are left out: 9 in KOI8-RU, 2 in MacCyrillic, those listed in e01_big5.inc, U+0385 in windows-1258, byte order marks']
