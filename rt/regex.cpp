#include <string>
#include <wsym.h>
// whether a name matches a pattern is decided by the harness
bool (*rt_regex_hook)(const std::string&, const std::string&) = nullptr;
bool wsym_regex_match(const std::string& s, const std::string& re) { return rt_regex_hook ? rt_regex_hook(s, re) : false; }
