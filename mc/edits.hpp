// All one-token edits of the legal texts of every form.
#pragma once
#include <string>
#include <vector>

namespace edits {
using Join = std::string (*)(const std::vector<std::string>&);
std::string plain(const std::vector<std::string>& tokens);  // separated by spaces
std::string spread(const std::vector<std::string>& tokens); // over several lines, with tabs, after other instructions
// conform(text, what, kind) on all of them
void run_all(Join join, unsigned what, const char* kind);
const std::vector<std::string>& vocabulary(); // every word the source language knows, and some it does not
} // namespace edits
