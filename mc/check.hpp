#pragma once
#include "gen.hpp"
#include "impl.hpp"
#include "model.hpp"
#include "runner.hpp"
#include <string>
#include <string_view>

namespace check {

// Judges one text. accept: report legal texts that are not assembled to the right words;
// reject: report illegal texts that are not properly rejected; position: report diagnostics at a wrong place.
enum : unsigned { Accept = 1, Reject = 2, Position = 4 };
constexpr unsigned file(unsigned index) { return index << 8; } // under file_names()[index]
const std::vector<std::string>& file_names();
bool conform(std::string_view text, unsigned what, const char* kind = "wrong words");
void explain(std::string_view text, const model::Program& p, const impl::Result& r, const char* kind);
std::string hex(const std::vector<uint64_t>& v);
// position named by a diagnostic; false if there is none. count: how many diagnostics there are
bool diagnostic(std::string_view err, std::string_view file, model::Pos& pos, int& count);

void c01(); void c02(); void c03(); void c04(); void c05(); void c06(); void c07(); void c08(); void c09();
void c10(); void c11(); void c12(); void c13(); void c14(); void c15(); void c16(); void c17(); void c18();

void init_texts(const std::function<void(const std::string&)>& fn);

} // namespace check
