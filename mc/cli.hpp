// The command line tool as a process, in a scratch directory of its own, optionally with faults at its file operations.
#pragma once
#include <map>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

namespace cli {

struct Outcome {
    bool hang = false, exited = false;
    int status = 0; // exit status or signal
    std::string err;
    std::string describe() const;
};

std::string tool();                           // path of the executable
std::string scratch();                        // a directory of this process, created on first use; the working directory of the tool
void remove_scratch();
void write_file(const std::string& name, std::string_view content); // in scratch()
std::optional<std::string> read_file(const std::string& name);
std::map<std::string, std::string> snapshot(); // all regular files of scratch(), by name; directories end in '/'
std::string expected(std::string_view text, bool& ok); // bytes the output has to hold

Outcome run(const std::vector<std::string>& args);

// Faults
enum Fault : int {
    None,
    Err_EIO, Err_EINTR, Err_EACCES, Err_EMFILE, Err_ENOSPC, Err_ENOENT, Err_EISDIR, Err_EAGAIN,
    Short1, ShortHalf,   // transfers less than asked
    Lost_EIO, Lost_ENOSPC, // close or fsync of written data: the data is lost and the call says so
    Sticky_EIO, Sticky_ENOSPC, // this and all later operations of the kind fail
    ShortThenFull,         // transfers less than asked; all later ones fail with ENOSPC
};
const char* name(Fault f);

struct Step { // one file operation of the tool
    std::string call;
    bool output = false; // concerns the output (or anything but the input)
    std::vector<Fault> possible;
    Fault taken = None;
};

// script[i]: fault of the i-th file operation; operations beyond the script run undisturbed.
Outcome run_faulty(const std::vector<std::string>& args, const std::vector<Fault>& script, const std::string& input, std::vector<Step>& steps);

} // namespace cli
