// Entry points of the annotation-item units: they only forward to the real public operations.
#include <cstddef>
#include "annotation_item_manager.hpp"
typedef AnnotationItemManager M; typedef AnnotationItem I;
extern "C" {
void vp_set(M& m, I& i, const std::string& a, zvalue v) { m.setValue(i, a, v); }
zvalue vp_get(M& m, I& i, const std::string& a) { return m.getValue(i, a); }
zvalue vp_from_int(M& m, int i) { return m.from_int(i); }
bool vp_is_int(M& m, zvalue z) { return m.is_int(z); }
bool vp_is_string(M& m, zvalue z) { return m.is_string(z); }
int vp_to_int(M& m, zvalue z) { return m.to_int(z); }
extern const size_t vp_item_off[] = {__builtin_offsetof(M, m_), sizeof(M), __builtin_offsetof(I, values_), __builtin_offsetof(I, attributes_), sizeof(I), __builtin_offsetof(M, m_) + sizeof(M::StringBimap)};
}
