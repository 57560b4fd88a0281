// Texts of instructions, made from the instruction set description.
#pragma once
#include "model.hpp"
#include <functional>
#include <string>
#include <string_view>
#include <vector>

namespace gen {

// Ways to write one operand. [0] is the default; the first `core` of them are the ones that are combined freely.
struct Choices {
    std::vector<std::string> alt;
    size_t core = 1;
    bool modifier = false; // flags, modifiers, formats: everything that is not a register, predicate or number
};

// One list per operand of the form. Some operands depend on others and are filled in by text().
const std::vector<std::vector<Choices>>& choices(); // by form index

// pick[i]: chosen alternative of operand i
// at, custom: operand `at` is written as custom
std::string text(int form, const std::vector<uint32_t>& pick, std::string_view guard = {}, int at = -1,
                 std::string_view custom = {});
std::string simplest(int form, int at = -1, std::string_view custom = {}); // all defaults
const std::string& rich(int form); // as many operands away from their default as the form allows
// the same, as tokens that can be joined with or without white space
std::vector<std::string> split_tokens(std::string_view text);

// Calls fn(pick) for all picks that differ from the default in at most `depth` operands; at most `full` of
// them use all alternatives, the others only the core ones. Operand `first` (if >= 0) must be the first that differs.
void deviations(int form, int depth, int full, int first, const std::function<void(const std::vector<uint32_t>&)>& fn);

extern const std::vector<std::string> guards; // all guards, "" first
} // namespace gen
