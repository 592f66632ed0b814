#pragma once
#include "string_helpers.hpp"
#include "cutter.hpp"
#include "string_helpers.hpp"
// a cutter whose segments are given by the caller
struct StubCutter : public Cutter {
    size_t hard, soft; std::vector<size_t> ends; std::string cat; int resets;
    StubCutter(size_t h, size_t s) : hard(h), soft(s), cat("seg"), resets(0) {}
    template <class T> AnnotationItem cut(const T& text, size_t& pos) {
        size_t e = text.length();
        for (size_t x : ends) if (x > pos && x < e) e = x;
        size_t p = pos; pos = e == text.length() ? std::string::npos : e;
        return AnnotationItem(cat, StringFrag(std::string(text.substr(p, e - p))));
    }
    virtual AnnotationItem doCutOff(const std::string& text, size_t& pos) { return cut(text, pos); }
    virtual AnnotationItem doCutOff(const StringFrag& text, size_t& pos) { return cut(text, pos); }
    virtual void doReset() { ++resets; }
    virtual size_t doSegmentLengthHardLimit() { return hard; }
    virtual size_t doSegmentLengthSoftLimit() { return soft; }
    virtual std::list<std::string> doLayerTags() { return {"segment"}; }
};
