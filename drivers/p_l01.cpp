// Entry points for the layer-tag proofs: they only forward to the real public operations.
#include "layer_tag_collection.hpp"
#include "layer_tag_mask.hpp"
extern "C" {
void vp_union(LayerTagCollection& out, const LayerTagCollection& a, const LayerTagCollection& b) { out = createUnion(a, b); }
void vp_intersection(LayerTagCollection& out, const LayerTagCollection& a, const LayerTagCollection& b) { out = createIntersection(a, b); }
bool vp_subset(const LayerTagCollection& a, const LayerTagCollection& b) { return isSubset(a, b); }
bool vp_eq(const LayerTagCollection& a, const LayerTagCollection& b) { return a == b; }
bool vp_ne(const LayerTagCollection& a, const LayerTagCollection& b) { return a != b; }
bool vp_lt(const LayerTagCollection& a, const LayerTagCollection& b) { return a < b; }
bool vp_empty(LayerTagCollection& a) { return a.isEmpty(); }
bool vp_nonempty(LayerTagCollection& a) { return a.isNonempty(); }
unsigned long vp_hash(const LayerTagCollection& a) { return a.getHash(); }
}
