#include "segment_glob.hpp"
#include <cstddef>
extern "C" const unsigned long vp_glob_off[] = {offsetof(SegmentGlob, glob_), offsetof(SegmentGlob, isFixed_)};
extern "C" bool vp_matches(const SegmentGlob* g, const std::string& s) { return g->matches(s); }
extern "C" void vp_check(SegmentGlob* g) { g->checkIfFixed_(); }
#include "file_fetcher.hpp"
extern "C" const unsigned long vp_fetch_off[] = {offsetof(FileFetcher, params_)};
extern "C" void vp_params(std::string* out, const FileFetcher* f, const std::string& s) { *out = f->replaceParams_(s); }
