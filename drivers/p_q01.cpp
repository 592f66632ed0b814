// Entry points for the Q01 proofs: they only construct the real objects and call their public API.
#include <string>
#include "psi_quoter.hpp"
extern "C" void vp_psi_escape(std::string& out, const std::string& in) { PsiQuoter q; out = q.escape(in); }
extern "C" void vp_psi_unescape(std::string& out, const std::string& in) { PsiQuoter q; out = q.unescape(in); }
