#include "sched.hpp"
namespace sched {
bool available() { return false; }
Run execute(const std::vector<std::string>&, const Script&) { return {}; }
} // namespace sched
