// W03: what a session holds
#include "session.hpp"
#include <cstddef>
extern "C" const unsigned long vp_session_off[] = {offsetof(Session, data)};
extern "C" void vp_set(Session* s, const std::string& k, const std::string& v) { s->setData(k, v); }
extern "C" std::string vp_get(Session* s, const std::string& k) { return s->getData(k); }
extern "C" bool vp_is(Session* s, const std::string& k) { return s->isData(k); }
extern "C" std::string vp_getset(Session* s, const std::string& k, const std::string& v) { return s->getDataOrSetIfNotExists(k, v); }
extern "C" void vp_clear(Session* s, const std::string& k) { s->clearData(k); }
