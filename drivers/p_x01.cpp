// entry points of the lexicon-store units: the code under contract is instantiated from the headers in /repo
#include "string_vector.hpp"
typedef MonotonicVector<unsigned int, unsigned short, 20> M;
typedef StringVector<> SV;
extern "C" {
unsigned int vp_size(const M* m) { return m->size(); }
unsigned int vp_at(const M* m, unsigned int i) { return m->at(i); }
void vp_push(M* m, unsigned int v) { m->push_back(v); }
unsigned int vp_len(const SV* v, unsigned int i) { return v->length(i); }
unsigned long vp_begin(const SV* v, unsigned int i) { return v->begin(i) - v->m_charArray.begin(); }
unsigned long vp_end(const SV* v, unsigned int i) { return v->end(i) - v->m_charArray.begin(); }
void vp_sadd(SV* v, const std::string* s) { v->push_back(*s); }
}
