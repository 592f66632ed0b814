"""P01: native format round trip"""
from vc import *
LEVEL = 'exploration'
HARNESS = 'h_psi.cpp'
WHYNOT = 'the reader is a Boost.Spirit grammar: its compiled form is some ten thousand template functions, most of them not modelled; the quoter underneath is proved in Q01'
BUDGET = 25
SOURCES = ['common/' + f for f in 'lattice.cpp layer_tag_collection.cpp layer_tag_mask.cpp layer_tag_manager.cpp annotation_item.cpp annotation_item_manager.cpp string_frag.cpp string_helpers.cpp stream_lattice_reader.cpp lattice_worker.cpp processor_factory.cpp processor_file_fetcher.cpp file_fetcher.cpp configurator.cpp its_data.cpp ant_like_path_glob.cpp segment_glob.cpp  processor.cpp cutter.cpp zvalue.cpp psi_exception.cpp logging.cpp aligning_writer_worker.cpp psi_quoter.cpp utt_like_quoter.cpp quoter.cpp escaping.cpp'.split()] + ['formats/psi/psi_writer/psi_lattice_writer.cpp', 'formats/psi/psi_reader/psi_lattice_reader.cpp']
HOPTS = {'libs': ['-llog4cpp', '-lpthread', '-lboost_program_options', '-lboost_filesystem', '-lboost_system'], 'defs': ['-DOPT_LOOSE=0'], 'extra_inc': ['formats/psi/psi_writer', 'formats/psi/psi_reader']}
EXPLAIN = 'Random lattices are written by the real PsiLatticeWriter, read by the real PsiLatticeReader, and compared edge by edge.'
TRUSTED = []
ASSUMPTIONS = ['names hold none of the format\'s delimiters; no loose vertices; no edge is part of its own analysis']
BOUNDED = ['texts of at most 60 characters, at most 12 edges']
def is_escaped(c):
    """a character is taken to be escaped exactly when the run of backslashes before it is of odd length"""
    V = c.load([os.path.join(build.VERIF, 'drivers/p_p01.cpp'), 'common/escaping.cpp']); st = c.st
    s, sp = c.str_arg(st); n = z3.Length(s); pos = V.fresh('pos', z3.IntSort()); r = V.fresh('run', z3.IntSort()); k = z3.Int('k!run')
    V.assume(st, z3.And(0 <= pos, pos <= n, n < 2**31, 0 <= r, r <= pos, z3.ForAll([k], z3.Implies(z3.And(pos - r <= k, k < pos), s[k] == 92), patterns=[s[k]]), z3.Or(r == pos, s[pos - r - 1] != 92)))
    def gen(V, lv, st0, H):
        res = []
        for loc, kind in V.intcells(lv):
            a = V.acc(loc)
            for d, e in (('run', r), ('position', pos), ('position less run', pos - r)):
                for o in (0, 1): res += [(f'counter <= {d} less {o}', (lambda a, e, o: lambda S: V.ival(a(S)) <= e - o)(a, e, o), 'c'), (f'counter >= {d} less {o}', (lambda a, e, o: lambda S: V.ival(a(S)) >= e - o)(a, e, o), 'c')]
        return res
    V.cand_gens = [gen]
    for kd, s2, v in c.call('vp_escaped', [sp, pos], st):
        if kd == 'throw': V.oblige(s2, False, 'never throws'); continue
        V.oblige(s2, (v != 0 if not z3.is_bool(v) else v) == (r % 2 == 1), 'escaped iff the run of backslashes before it is odd'); c.cover(s2, 'return')
UNITS = [is_escaped]
