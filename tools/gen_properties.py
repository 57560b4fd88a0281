#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit and diff)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

LIB = ["nxas::assemble(text, filename): returned words, or exit status and stderr"]
CLI = ["nxas <input> -o <output>: exit status, stderr, bytes of the output path"]

prop("C01", "Every legal instruction assembles to its exact ISA word",
 "For every supported mnemonic, every legal combination of guard predicate, modifiers, registers, predicates, constant-buffer, memory and named operands is accepted and yields one 64-bit word: the form's opcode bits plus each operand's value in that operand's own bit field. A modifier that is left out encodes as its default, and no operand disturbs bits that belong to another. When a mnemonic has several forms, the operands that were written decide which form is used.",
 ["inputs"], "all instruction forms x all combinations of operand and modifier choices",
 "The 1085 positive tests pin single sample words, mostly one per modifier; the joint space of modifiers, registers and operand kinds of ~330 forms is far beyond a sample, and interactions (two fields sharing a bit, a form shadowing another) only show in combinations.",
 ["src/table.h", "src/operand.h", "src/helper.cpp", "src/parse.cpp", "src/opcode.h"],
 [("instruction table: opcode bits and operand list of each form", "src/table.h"),
  ("operand encoders", "src/operand.h, src/helper.cpp"),
  ("form selection with restore on failure", "src/parse.cpp parse_instruction"),
  ("overlap assertion", "src/opcode.h opcode::add_bits")], LIB,
 [dict(name="opcode word", meaning="the instruction being assembled, filled field by field", where="src/opcode.h")])

prop("C02", "Integer operands are encoded exactly or rejected",
 "Every integer literal (C notation: decimal, hexadecimal, octal, optional sign) that fits the operand it is written for is encoded as exactly that value, in two's complement where the operand is signed. A literal outside the operand's range, or not a multiple of the alignment the operand requires, is rejected; it is never truncated, wrapped or allowed to spill into another field.",
 ["inputs"], "all integer operands of all forms x all literal values and spellings",
 "Tests use one or two values per field; off-by-one range limits, sign handling and truncation only fail at particular values.",
 ["src/helper.cpp", "src/operand.h", "src/context.cpp"],
 [("range check", "src/helper.cpp convert_integer"), ("signed 20-bit immediate", "src/helper.cpp assemble_signed_20bit_immediate"),
  ("memory offsets", "src/operand.h memory::address"), ("constant buffer offsets", "src/helper.cpp assemble_constant_buffer"),
  ("literal scanning", "src/context.cpp tokenize")], LIB)

prop("C03", "Floating-point operands are converted per IEEE and keep their sign",
 "A floating-point literal is read as the nearest binary32 value (ties to even) and stored in the operand's field: a 32-bit field holds all its bits, a shortened single or double field holds the sign and the leading bits of the binary32/binary64 value, a half-precision field holds the nearest binary16 value (ties to even; the short half field keeps sign and leading bits). The sign is kept for every literal including -0.0, and INF and QNAN with an optional sign encode infinity and quiet NaN. An integer literal in a single-precision operand is accepted only if binary32 represents it exactly.",
 ["inputs"], "all floating-point operands x all literal values",
 "Tests contain a few dozen literals, almost all small exact integers; rounding ties, subnormals, overflow, negative zero and the truncated bits are not sampled.",
 ["src/helper.cpp", "src/fp16.h", "src/context.cpp"],
 [("single immediates", "src/helper.cpp assemble_float_immediate"), ("double immediates", "src/helper.cpp assemble_double_immediate"),
  ("half immediates", "src/helper.cpp assemble_half_float_immediate"), ("rounding to half", "src/fp16.h"), ("literal scanning", "src/context.cpp tokenize")], LIB)

prop("C04", "Malformed instructions are always rejected",
 "Text that is not a legal instruction - a missing, extra, repeated, misplaced or unknown operand, modifier, mnemonic, separator or guard - is rejected with a diagnostic on stderr and exit status 1. It is never assembled into some word. This includes modifier combinations that the instruction cannot express. (A word followed by ':' is a label marker and reads as white space; a sign directly before a digit belongs to the number.)",
 ["inputs"], "all legal instructions with a token deleted, inserted, replaced, repeated or swapped",
 "There are 25 failure tests for about 330 forms; each form has thousands of one-token corruptions.",
 ["src/parse.cpp", "src/operand.h", "src/helper.cpp", "src/table.h"],
 [("token expectations", "src/helper.cpp confirm_type"), ("modifier lookup", "src/helper.cpp find_in_table"), ("terminating semicolon", "src/parse.cpp parse_insn"),
  ("combination checks", "src/operand.h texs_type, tlds_type, mirror_dgpr; NO_PRED in src/parse.cpp")], LIB)

prop("C05", "Branch targets resolve to the right displacement",
 "A branch-type instruction that names a label encodes the distance in bytes from the end of the branch to the instruction that follows the label's definition, for every position of branch and label, forward or backward, counting the scheduling word that precedes every three instructions. A label is a word followed by ':' at the start of a line, its first definition counts, and a numeric target is an absolute byte address. A target that is undefined or does not fit the signed 24-bit displacement is rejected.",
 ["programs"], "all programs: all positions of branches and labels, layouts of lines, and distances",
 "Two tests exist, both a one-instruction self loop.",
 ["src/context.cpp", "src/operand.h", "src/parse.cpp"],
 [("label collection pass", "src/context.cpp generate_labels"), ("program counter", "src/parse.cpp parse_instruction (pc)"), ("displacement and range", "src/operand.h label")], LIB,
 [dict(name="pc", meaning="byte address of the current instruction", where="src/context.h"), dict(name="labels", meaning="label name to address", where="src/context.h")])

prop("C06", "Instruction stream layout",
 "For every program of n instructions the code consists of groups of one scheduling word followed by three instruction words in source order; a last incomplete group is completed with NOP instructions whose scheduling entries are the idle value (no stall, no barriers). Every instruction appears exactly once, so the code has 4*ceil(n/3) words, and an empty program yields no words.",
 ["programs"], "all instruction counts and positions",
 "Tests only look at word 1 of a one-instruction program.",
 ["src/nxas.cpp"], [("interleaving and padding", "src/nxas.cpp assemble, generate_sched")], LIB)

prop("C07", "Scheduling annotations and reuse flags land in their own slot",
 "For every combination of @WAIT, @Y/@YIELD, @WB, @RB, @DEP annotations (in any order) and of .reuse flags, the instruction's 21-bit entry in its group's scheduling word holds exactly those values: stall cycles, yield, write and read barrier (7 when absent), mask of awaited barriers, and one reuse bit per source operand position. Entries of the other instructions of the group and the instruction word itself are not affected. Repeated or out-of-range annotations, and .reuse on a register that cannot be reused, are rejected.",
 ["programs", "inputs"], "all annotation combinations x all positions in a group x all reuse combinations",
 "No test looks at a scheduling word; tests only check that some bad annotations are rejected.",
 ["src/parse.cpp", "src/nxas.cpp", "src/helper.cpp", "src/opcode.h"],
 [("annotation parsing", "src/parse.cpp assemble_sched"), ("entry packing", "src/nxas.cpp generate_sched"), ("reuse flags", "src/helper.cpp try_reuse, src/opcode.h")], LIB)

prop("C08", "An instruction's word does not depend on its neighbours",
 "Assembling a sequence of instructions yields, for each instruction, the same word and the same scheduling entry as assembling that instruction alone, apart from the displacement of branches. Nothing carries over from one instruction to the next, whatever forms were tried before the matching one was found, and whatever the group position.",
 ["programs"], "all ordered pairs and triples of instruction forms",
 "Every test assembles a single instruction in a fresh process.",
 ["src/parse.cpp", "src/nxas.cpp", "src/context.cpp"],
 [("restore of parser state after a failed form", "src/parse.cpp parse_instruction (saved_context, saved_op)"), ("fresh opcode per instruction", "src/nxas.cpp")], LIB)

prop("C09", "White space and line layout do not change the result",
 "Spaces, tabs, carriage returns and newlines between the tokens of instructions, in any amount, never change the assembled words, and no white space is needed where tokens are already delimited. Only the start of a line for a label definition and the line a directive stands on are significant; a sign is part of the number whose digits directly follow it, and a word directly followed by ':' is a label marker.",
 ["inputs"], "all instruction forms x all white-space placements",
 "All tests use the same single-line layout.",
 ["src/context.cpp"], [("white-space skipping and token boundaries", "src/context.cpp tokenize, is_separator"), ("label scan by line", "src/context.cpp generate_labels")], LIB)

prop("C10", "The shader container describes its code exactly",
 "With the container directive for a compute program the output is a 256-byte control section followed by the code padded with zeros to 256 bytes; the header's magic, sizes, offsets, program type, entry point (byte offset of label main in the code), register count, work-group size, shared memory (rounded up to 256), local memory (rounded up to 16) and per-warp scratch size match the program and its directives. File length always equals control size plus code size as stated in the header. A container without main, or with main not at the start of a group, is rejected; without the directive the output is the bare code.",
 ["programs", "configurations"], "all programs x all directive combinations",
 "No test uses a directive.",
 ["src/dksh.cpp", "src/write.cpp", "src/options.cpp"],
 [("header construction", "src/dksh.cpp write_dksh"), ("padding", "src/write.cpp binary")], LIB)

prop("C11", "Directives are honoured or rejected, never ignored or misread",
 "A directive (program type, container, register count, work-group size, shared and local memory) takes effect the same way before any instruction of the program, each sets only its own value, the last of several settings wins, and the program type may be given once. An unknown directive, a missing, non-numeric or out-of-range value, or anything but a new line after a directive is rejected. Directives never change the code words.",
 ["programs", "configurations"], "all sequences of directives and their placements and arguments",
 "No test uses a directive.",
 ["src/options.cpp", "src/parse.cpp", "src/dksh.cpp"],
 [("directive parser", "src/options.cpp parse_option"), ("directive loop", "src/parse.cpp parse_instruction")], LIB)

prop("C12", "No text can crash, hang or corrupt the assembler",
 "For every byte string given as source, assembling terminates and either returns words or ends with exit status 1 and a diagnostic on stderr. It never reads outside the given text or any internal table, never trips an internal assertion, never has undefined behaviour, and never ends by a signal.",
 ["inputs"], "all byte strings",
 "Tests are ~1100 well-formed lines plus 25 simple errors, run without sanitizers.",
 ["src/context.cpp", "src/operand.h", "src/helper.cpp", "src/parse.cpp", "src/options.cpp", "src/nxas.cpp"],
 [("scanner bounds", "src/context.cpp tokenize, generate_labels, next"), ("table terminators", "src/helper.cpp find_in_table and the tables in src/operand.h"), ("overlap assertions", "src/opcode.h")], LIB)

prop("C13", "Diagnostics point at the offending token",
 "Every rejection that is caused by a token of the source text prints one diagnostic that starts with the given file name and the 1-based line and column of the token at which the first faulty instruction or directive stops being legal (columns count bytes, a tab counts four). When a mnemonic has several forms, the diagnostic comes from a form that follows the written operands as far as any other does. Errors about the program as a whole (a container without a usable main) carry no position. The position is right for every layout of the preceding text, and nothing is reported about instructions that precede or follow the faulty one.",
 ["inputs"], "all faulty tokens x all positions and preceding layouts",
 "Failure tests only check that the exit status is non-zero.",
 ["src/context.cpp", "src/error.cpp", "src/parse.cpp", "src/helper.cpp"],
 [("line and column tracking", "src/context.cpp next"), ("message prefix", "src/error.cpp"), ("choice of the best error", "src/parse.cpp parse_instruction")], LIB)

prop("C14", "The command line tool reports success only for a complete output",
 "Whatever file operation fails, is interrupted or transfers less than asked while reading the input or writing the output, exit status 0 means that the output file holds exactly the assembled words of the complete input (a NUL byte in the input ends its text). Otherwise the tool ends with exit status 1 and a message on stderr. If the input cannot be read or is rejected, the output path is left untouched.",
 ["fault_sequences"], "all sequences of up to two I/O faults at any file operation",
 "The tests never run the command line tool.",
 ["src/command_line.cpp"], [("reading and writing", "src/command_line.cpp read_file, main")], CLI)

prop("C15", "Assembling is a pure function, whatever ran before or runs alongside",
 "The result of assembling a text depends only on that text: it is the same on every call, in every environment and locale of the process, after any sequence of other successful calls in the process, and when other threads assemble other texts at the same time under any interleaving.",
 ["histories", "schedules"], "all call histories and all interleavings of concurrent calls",
 "Each test is one call in one process.",
 ["src/nxas.cpp", "src/context.cpp", "src/parse.cpp", "src/operand.h"],
 [("all state lives in a context created per call", "src/nxas.cpp assemble"), ("constant tables", "src/operand.h, src/table.h")], LIB)

prop("C16", "Different instructions never share an encoding",
 "Two accepted instructions that differ in mnemonic, operand kind or order, any register, predicate, modifier or numeric value (beyond spelling, explicitly written defaults and documented precision loss of floating-point literals) assemble to different words. Instructions that differ only in spelling or in writing a default out loud assemble to the same word. What was written can therefore always be recovered from the binary.",
 ["inputs"], "all pairs of accepted instructions",
 "A statement about pairs; tests compare single words with constants.",
 ["src/table.h", "src/operand.h"],
 [("opcode bits per form", "src/table.h"), ("field positions and values", "src/operand.h")], LIB)

prop("C17", "Register and predicate names denote exactly the architectural set",
 "In every register position exactly the names R0 to R254 (leading zeros allowed) and RZ (register 255) are accepted, and in every predicate position exactly P0 to P6 and PT (letters in either case, with ! where negation is allowed, and as guard @P or @!P); each is encoded as its own number. Every other spelling is rejected.",
 ["inputs"], "all short words in every register and predicate position",
 "Tests use about ten distinct registers and a few bad names.",
 ["src/context.cpp", "src/parse.cpp", "src/operand.h", "src/helper.cpp"],
 [("name scanning", "src/context.cpp tokenize"), ("guard", "src/parse.cpp assemble_predicate"), ("operands", "src/operand.h pred, inverted_pred; src/helper.cpp assemble_gpr")], LIB)

prop("C18", "The command line accepts exactly one input and one output",
 "For every argument list the tool succeeds only if it contains exactly one input path and exactly one -o with its path, in any order, the input is readable and legal and the output can be created; the output file then holds the words the library returns for the input's text, in little-endian order, replacing any previous content. Any other argument list ends with exit status 1, a message on stderr, and no file created or changed.",
 ["inputs", "configurations"], "all argument lists up to a bound x input and output path states",
 "The tests never run the command line tool.",
 ["src/command_line.cpp"], [("argument loop", "src/command_line.cpp main")], CLI)

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), max(len(p["title"]) for p in P))
