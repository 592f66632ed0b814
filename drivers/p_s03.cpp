// Entry points for the segment-splitting proofs: the two cut-point searches of the real Cutter.
#include "string_helpers.hpp"
#include "cutter.hpp"
#include "string_helpers.hpp"
struct PC : public Cutter {
    size_t hard, soft;
    virtual AnnotationItem doCutOff(const std::string& text, size_t& pos) { return AnnotationItem(std::string()); }
    virtual AnnotationItem doCutOff(const StringFrag& text, size_t& pos) { return AnnotationItem(std::string()); }
    virtual void doReset() {}
    virtual size_t doSegmentLengthHardLimit() { return hard; }
    virtual size_t doSegmentLengthSoftLimit() { return soft; }
    virtual std::list<std::string> doLayerTags() { return std::list<std::string>(); }
};
extern "C" {
size_t vp_hard(const std::string& t, size_t cut, size_t h) { PC c; c.hard = h; return c.findHardLimitCutPoint_<std::string>(t, cut); }
size_t vp_soft(const std::string& t, size_t cut, size_t s, size_t max) { PC c; c.soft = s; return c.findSoftLimitCutPoint_<std::string>(t, cut, max); }
bool vp_broken(size_t len, size_t h, size_t s) { PC c; c.hard = h; c.soft = s; return c.areLimitsBroken_(len); }
}
