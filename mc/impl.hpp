// The code under test, called in process. exit() is turned into a result, diagnostics are captured.
#pragma once
#include <cstdint>
#include <string>
#include <string_view>
#include <vector>

namespace impl {

// Whether there is a message, and not only the word "error:" with its colours.
inline bool says_something(std::string_view err)
{
    size_t at = err.find("error:");
    for (size_t i = at == std::string_view::npos ? 0 : at + 6; i < err.size(); ++i) {
        if (err[i] == '\33')
            while (i < err.size() && err[i] != 'm') ++i;
        else if (static_cast<unsigned char>(err[i]) > ' ')
            return true;
    }
    return false;
}

struct Result {
    enum Kind : uint8_t { Ok, Reject, Crash } kind = Ok;
    int status = 0;              // Reject: exit status
    std::vector<uint64_t> words; // Ok
    std::string err;             // everything written to stderr
    std::string what;            // Crash: how
    bool ok() const { return kind == Ok; }
    // a proper rejection: exit status 1 with a message
    bool rejected() const { return kind == Reject && status == 1 && says_something(err); }
};

void init();
// The reference stays valid until the next call.
const Result& assemble(std::string_view text, const char* filename = "file.sass");
// Without capturing anything; may be called by several threads.
bool raw(const std::string& text, std::vector<uint64_t>& words, std::string& error);
std::string describe(const Result& r);
// how many times the stack could not be unwound (memory is lost then)
uint64_t leaks();

} // namespace impl
