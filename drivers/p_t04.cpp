// Entry points of the lattice text units: they only forward to the real operations.
#include <cstddef>
#include "lattice.hpp"
typedef Lattice L; typedef Lattice::EdgeDescriptor E;
extern "C" {
int vp_source(const L& l, const E& e) { return l.getEdgeSource(e); }
int vp_target(const L& l, const E& e) { return l.getEdgeTarget(e); }
int vp_begin(const L& l, const E& e) { return l.getEdgeBeginIndex(e); }
int vp_end(const L& l, const E& e) { return l.getEdgeEndIndex(e); }
int vp_length(const L& l, const E& e) { return l.getEdgeLength(e); }
void vp_text(const L& l, const E& e, std::string& out) { out = l.getEdgeText(e); }
int vp_prior(L& l, int v) { return l.priorVertex_(v); }
int vp_vertex(const L& l, int i) { return l.getVertexForRawCharIndex(i); }
void vp_append(L& l, const std::string& t) { l.appendString(t); }
void vp_symbols(L& l, int a, int b) { l.addSymbols(a, b); }
extern const size_t vp_lattice_off[] = {__builtin_offsetof(L, allText_), __builtin_offsetof(L, graph_), __builtin_offsetof(L, implicitOutEdges_), __builtin_offsetof(L, hiddenImplicitOutEdges_), __builtin_offsetof(L, visibleImplicitOutEdges_), __builtin_offsetof(E, implicitIndex), sizeof(E), sizeof(L), __builtin_offsetof(L, symbolTag_)};
}
