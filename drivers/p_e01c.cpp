// Entry points of the converter's own units: the code under contract is compiled from the sources in /repo.
#include <string>
#include <map>
#include <vector>
#include "encoding_converter.cpp"
extern "C" bool vp_cv(EncodingConverter* c, int from, int to, const std::string* in, std::string* out) { return c->convert_(from, to, *in, *out); }
