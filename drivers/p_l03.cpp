// Entry points of the tag-registry units: they only forward to the real public operations.
#include <cstddef>
#include "layer_tag_manager.hpp"
typedef LayerTagManager M;
extern "C" {
void vp_singleton(M& m, LayerTagCollection& out, const std::string& x) { out = m.createSingletonTagCollection(x); }
bool vp_is_there(M& m, const std::string& x, const LayerTagCollection& t) { return m.isThere(x, t); }
void vp_plane_tags(M& m, LayerTagCollection& out) { out = m.planeTags(); }
void vp_only_planes(M& m, LayerTagCollection& out, const LayerTagCollection& t) { out = m.onlyPlaneTags(t); }
bool vp_same_plane(M& m, const LayerTagCollection& a, const LayerTagCollection& b) { return m.areInTheSamePlane(a, b); }
void vp_none(M& m, LayerTagCollection& out) { out = m.createEmptyTagCollection(); }
void vp_manager(void* p) { new (p) M(); }
extern const size_t vp_manager_off[] = {__builtin_offsetof(M, m_), __builtin_offsetof(M, symbolTag_), __builtin_offsetof(M, planeTags_), sizeof(M)};
}
