// entries for U01: UTF-8 coding and case conversion (calls only; the functions are /repo's)
#include "utf8/utf8.h"
#include "case_converter_factory.hpp"
#include <string>
typedef std::string::const_iterator It;
extern "C" uint32_t vp_next(const std::string& s, long* used) { It i = s.begin(); uint32_t c = utf8::unchecked::next(i); *used = i - s.begin(); return c; }
extern "C" void vp_append(uint32_t cp, std::string& out) { utf8::unchecked::append(cp, std::back_inserter(out)); }
extern "C" void vp_cappend(uint32_t cp, std::string& out) { utf8::append(cp, std::back_inserter(out)); }
extern "C" int vp_validate(const std::string& s, uint32_t* cp, long* used) { It i = s.begin(); int r = utf8::internal::validate_next(i, s.end(), cp); *used = i - s.begin(); return r; }
extern "C" uint32_t vp_cnext(const std::string& s, long* used) { It i = s.begin(); uint32_t c = utf8::next(i, s.end()); *used = i - s.begin(); return c; }
extern "C" uint32_t vp_lower(uint32_t cp) { RangeBasedCaseConverter c(LOWER_CASE_RANGES_SIZE, LOWER_CASE_RANGES); return c.convert(cp); }
extern "C" uint32_t vp_upper(uint32_t cp) { RangeBasedCaseConverter c(UPPER_CASE_RANGES_SIZE, UPPER_CASE_RANGES); return c.convert(cp); }
extern "C" uint32_t vp_title(uint32_t cp) { RangeBasedCaseConverter c(TITLE_CASE_RANGES_SIZE, TITLE_CASE_RANGES); return c.convert(cp); }
