// Entry points of the segmenter/tokenizer units: the code under contract is compiled from the sources in /repo.
#include "config.hpp"
#include "tp_token_cutter.cpp"
#include "tp_basic_tokenizer_rule_set.cpp"
#include "srx_segmenter.cpp"
typedef SrxSentenceCutter C;
extern "C" {
size_t vp_update(C* c, boost::shared_ptr<PerlRegExp>* r, C::RuleApplication* app, size_t min, const std::string* text, size_t pos) { return c->updatePosition_<std::string>(*r, *app, min, *text, pos); }
bool vp_check(C* c, size_t b, const std::string* text, size_t pos, size_t n) { return c->checkBreakPoint_<std::string>(b, *text, pos, n); }
void vp_cut(C* c, AnnotationItem* out, const std::string* text, size_t* pos) { new (out) AnnotationItem(c->performCutOff<std::string>(*text, *pos)); }
size_t vp_rule(C* c, int non, size_t i, size_t min, const std::string* text, size_t pos) { return non ? c->updateNonBreakingRuleIndex_<std::string>(i, min, *text, pos) : c->updateBreakingRuleIndex_<std::string>(i, min, *text, pos); }
void vp_token(TpTokenCutter* c, AnnotationItem* out, const std::string* text, size_t* pos) { new (out) AnnotationItem(c->performCutOff<std::string>(*text, *pos)); }
extern const size_t vp_cutter_off[] = {__builtin_offsetof(C, segmenter_), __builtin_offsetof(C, breakingRuleApplications_), __builtin_offsetof(C, nonBreakingRuleApplications_), sizeof(C), __builtin_offsetof(SrxSegmenter, nonBreakingRules_), __builtin_offsetof(SrxSegmenter, breakingRules_), sizeof(SrxSegmenter), __builtin_offsetof(TpTokenCutter, hardLimit_) - 8, __builtin_offsetof(TPBasicTokenizerRuleSet, regs)};
}
