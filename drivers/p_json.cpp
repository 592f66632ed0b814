#include "json_lattice_writer_output.hpp"
#include "site/json_site.hpp"
extern "C" {
void vp_json(JSONLatticeWriterOutput* w, const std::string& in, std::string& out) { w->createEscapedJSONString_(in, out); }
void vp_site(JsonSite* w, const std::string& in, std::string& out) { out = w->escape_(in); }
}
