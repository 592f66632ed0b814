// Entry points for the layer-mask proofs: build a mask the way the tag manager does and ask it.
#include "layer_tag_collection.hpp"
#include "layer_tag_mask.hpp"
extern "C" {
bool vp_matches_alts(const LayerTagCollection& t, const std::vector<LayerTagCollection>& alts) { LayerTagMask m(alts); return matches(t, m); }
bool vp_matches_single(const LayerTagCollection& t, const LayerTagCollection& m) { LayerTagMask k(m); return matches(t, k); }
bool vp_matches_any(const LayerTagCollection& t) { LayerTagMask m(true); return matches(t, m); }
bool vp_matches_none(const LayerTagCollection& t) { LayerTagMask m(false); return matches(t, m); }
bool vp_mask_eq(const std::vector<LayerTagCollection>& a, const std::vector<LayerTagCollection>& b) { LayerTagMask m(a), k(b); return m == k; }
unsigned long vp_mask_hash(const std::vector<LayerTagCollection>& a) { LayerTagMask m(a); return m.getHash(); }
bool vp_mask_isany(const std::vector<LayerTagCollection>& a) { LayerTagMask m(a); return m.isAny(); }
bool vp_any_isany() { LayerTagMask m(true); return m.isAny(); }
bool vp_none_isany() { LayerTagMask m(false); return m.isAny(); }
}
