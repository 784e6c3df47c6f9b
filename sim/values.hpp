// Values an application may pass, of any content.
#pragma once
#include "app.hpp"
namespace sim {
enum { V_TOKEN = 1, V_BREAK = 2, V_WIDE = 4 };     // begins with a token; may contain CR, LF, NUL; may contain non-ASCII characters
std::string gen_value(Rng& r, int flags);
bool breaks(const std::string& s);
void no_evil(const std::vector<std::pair<bool, std::string>>& wire);
}
