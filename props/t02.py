"""T02: edge lookup"""
from vc import *
LEVEL = 'exploration'
HARNESS = 'h_lat.cpp'
WHYNOT = 'as T01'
ASSUMPTIONS = ['as for T01']
BOUNDED = ['as for T01, with a small set of categories, tags and partitions so that equal edges are added often']
BUDGET = 25
SOURCES = ['common/' + f for f in 'lattice.cpp layer_tag_collection.cpp layer_tag_mask.cpp layer_tag_manager.cpp annotation_item.cpp annotation_item_manager.cpp string_frag.cpp string_helpers.cpp cutter.cpp zvalue.cpp psi_exception.cpp logging.cpp'.split()]
HOPTS = {'libs': ['-llog4cpp', '-lpthread'], 'defs': ['-DPROP=2']}
EXPLAIN = 'see DESIGN.md'
UNITS = []
