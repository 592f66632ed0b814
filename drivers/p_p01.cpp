// P01: is a character of a written text preceded by an odd number of backslashes
#include "escaping.hpp"
extern "C" bool vp_escaped(const std::string& s, size_t pos) { return Escaping::isEscaped(s, pos); }
