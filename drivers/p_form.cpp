#include "psi_server.hpp"
extern "C" void vp_urldecode(PsiServer* p, std::string& in, std::string& out) { out = p->urlDecode(in); }
