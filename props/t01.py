"""T01: edge lookup"""
from vc import *
LEVEL = 'exploration'
HARNESS = 'h_lat.cpp'
WHYNOT = 'the edges live in a boost::multi_index container with hashed and ordered indices; the engine has no model of it'
ASSUMPTIONS = ['no loose vertices; edges are added with vertices inside the text']
BOUNDED = ['random histories of up to about 40 operations on texts of up to about 40 bytes; every query is compared after every operation']
BUDGET = 25
SOURCES = ['common/' + f for f in 'lattice.cpp layer_tag_collection.cpp layer_tag_mask.cpp layer_tag_manager.cpp annotation_item.cpp annotation_item_manager.cpp string_frag.cpp string_helpers.cpp cutter.cpp zvalue.cpp psi_exception.cpp logging.cpp'.split()]
HOPTS = {'libs': ['-llog4cpp', '-lpthread'], 'defs': ['-DPROP=1']}
EXPLAIN = 'see DESIGN.md'
UNITS = []
