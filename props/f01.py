"""F01: pipelines run what the user asked for, with everything each processor needs before it"""
from vc import *
LEVEL = 'bounded'
HARNESS = 'h_f01.cpp'
WHYNOT = 'processors are held by shared_ptr in lists searched through virtual calls on a run-time registry of factories; the engine reaches neither the virtual dispatch over an open set nor the registry'
BUDGET = 25
SOURCES = ['tiniconv/tiniconv.c', 'tiniconv/tiniconv_desc.c', 'tests/test_extractor.cpp', 'tests/test_batch.cpp'] + ['framework/' + f for f in 'pipe_runner.cpp auto_completer.cpp factories_keeper.cpp aliaser.cpp shallow_aliaser.cpp split_pipeline.cpp console_help_formatter.cpp help_formatter.cpp'.split()] + ['common/' + f for f in 'lattice.cpp layer_tag_collection.cpp layer_tag_mask.cpp layer_tag_manager.cpp annotation_item.cpp annotation_item_manager.cpp string_frag.cpp string_helpers.cpp lattice_worker.cpp processor_factory.cpp processor_file_fetcher.cpp file_fetcher.cpp configurator.cpp its_data.cpp ant_like_path_glob.cpp segment_glob.cpp processor.cpp cutter.cpp zvalue.cpp psi_exception.cpp logging.cpp annotator.cpp annotator_factory.cpp processor_promise.cpp annotator_promise.cpp non_annotator_promise.cpp encoding_converter.cpp stream_helpers.cpp'.split()]
HOPTS = {'libs': ['-llog4cpp', '-lpthread', '-lboost_program_options', '-lboost_filesystem', '-lboost_system', '-lpcrecpp'], 'extra_inc': [os.path.join(build.VERIF, 'drivers/stub_perl'), 'framework', 'tests', 'tiniconv', 'uchardet/src', 'uchardet']}
EXPLAIN = 'see DESIGN.md'
UNITS = []
BOUNDED = ['pipelines of up to four elements over up to six made-up annotators with random needs, provisions, languages, scores, options and failures; compared with an independent reading of the completion rules', 'edit distance: all pairs of names over four letters up to length 4 (exhaustive), longer at random']
ASSUMPTIONS = ['needs of processors are not circular (completion may not end otherwise); circles are excluded from the worlds generated', 'repeated options and abbreviated options are left to boost::program_options']
