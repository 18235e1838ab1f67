#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand when properties change)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=("waterbear assemble: output file, exit code, messages",), state=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None))
    if state: d["anchors"]["state"] = state
    d["_t"] = technique; d["_n"] = note
    P.append(d)

prop("C01", "Instruction encodings match the documented bit patterns",
 "For every documented instruction form, every accepted operand value and every position of the instruction, the assembled bytes are exactly the documented bit pattern with the operand value (or, for relative and 12-bit forms, the value derived from target and position) in the documented bits. Relative forms encode the distance from the documented base address, 12-bit forms the low 12 bits, 16-bit absolute addresses high byte first and 16-bit relative ones low byte first.",
 ["inputs", "programs"], "all 70 instruction forms, all values of every operand field, all positions in the 64 KiB address space, operands written as arbitrary expressions",
 "The tests check a handful of programs; a wrong bit in one form at one operand value, or a wrong base address near a page edge, is not among their samples.",
 ["src/instruction.rs", "waterbear-instruction-derive/src/lib.rs", "src/asm.rs", "src/parser.rs"],
 [("bit patterns of each instruction", "src/instruction.rs enum Instr"), ("encoder generated from the patterns", "waterbear-instruction-derive/src/lib.rs"), ("relative and paged operand conversion", "src/instruction.rs Instr::eval and helpers")],
 "property-based testing: exhaustive operand sweep plus random programs against a reference encoder",
 "Every field value of every form is enumerated at chosen positions; combinations and positions beyond that are sampled. Trusts docs/instructions.md as transcribed in the harness.")
prop("C02", "Out-of-range operands and data values are rejected, in-range ones accepted",
 "An operand or data value is accepted exactly when it fits its documented field: immediates 0..255, direct addresses 0..511, bit numbers 0..7, 16-bit addresses 0..65535, 12-bit addresses in the same 4 KiB page as the next instruction, relative targets within the signed 8- or 16-bit distance, .byte -128..255, .word -32768..65535. A value that does not fit is reported as an error with exit status 1 and never silently truncated or wrapped.",
 ["inputs", "programs"], "all operand kinds, all 32-bit values, all positions, values given directly or through constants and expressions",
 "Tests try almost no out-of-range values; each bound has two sides per operand kind and position-dependent ones move with the program counter.",
 ["src/instruction.rs", "src/asm.rs"], [("range checks of operands", "src/instruction.rs eval helpers"), ("range checks of .byte and .word", "src/asm.rs generate_bytes")],
 "property-based testing: boundary-biased generation against a reference accept/reject decision",
 "Sampled with strong bias to both sides of every bound and to values congruent modulo the field size.")
prop("C03", "Undocumented instruction forms and malformed lines are rejected",
 "Every combination of mnemonic and operand kinds that the instruction reference does not list is rejected, and every listed one is accepted. A line that is not a well-formed statement (missing or extra operands, separators or tokens, unknown directive, unterminated string, bad literal) makes assembly fail with exit status 1 rather than being ignored or partly assembled.",
 ["inputs", "programs"], "all mnemonics x all operand-kind sequences of length 0..4; malformed lines of all generated kinds at any place of any program",
 "Tests hold only a few negative examples; acceptance of junk needs the negative space searched.",
 ["src/parser.rs", "src/lexer.rs", "src/asm.rs"], [("operand matching per mnemonic", "src/parser.rs"), ("trailing token rejection", "src/parser.rs parse")],
 "property-based testing: complete sweep of operand-kind sequences plus generated malformed lines", "Sweep is complete up to four operands; malformed lines are sampled from 24 kinds.")
prop("C04", "Expressions evaluate to their mathematical value",
 "An expression evaluates to the value given by the documented operators on 32-bit signed integers, with prefix operators binding tightest, then * and /, then + and -, then & | and ^, all left-associative, with < and > selecting the low and the next byte and division truncating. Literals of every radix with digit separators denote their number. Division by zero and results outside 32 bits are reported as errors.",
 ["inputs"], "all expression trees over all operators, literals in every radix, labels and constants, with and without redundant parentheses and spacing",
 "Tests evaluate a few fixed expressions; precedence, associativity, sign and overflow behaviour are over all trees.",
 ["src/expression.rs", "src/lexer.rs", "src/parser.rs"], [("precedence table", "src/parser.rs, src/expression.rs"), ("evaluation", "src/expression.rs Expr::eval"), ("number literals", "src/lexer.rs")],
 "property-based testing: random expression trees against a 64-bit reference evaluator", "Sampled trees; all operator pairs and a boundary grid are enumerated.")
prop("C05", "Directives place the documented bytes at the documented positions",
 "The output image is exactly what the sequence of .byte, .word, .text, .string, .org, .cnop, instructions and data denotes: words low byte first, .text padded with spaces and .string with zero bytes to the given length, .org moving the position forwards or backwards, .cnop aligning up and adding its offset, unwritten bytes zero. Its length is the highest position reached, and every label has the position at which it stands.",
 ["programs"], "all sequences of directives, instructions and labels with all parameter values up to the end of the 64 KiB address space",
 "Tests cover each directive once; layout is a history of position changes whose interactions (overwrites, alignment after odd data, gaps) they do not combine.",
 ["src/asm.rs", "src/ast.rs", "src/parser.rs"], [("position pass", "src/asm.rs compute_names/compute_labels"), ("output pass", "src/asm.rs generate_bytes")],
 "model-based property testing: random statement sequences against a reference layout", "Sampled programs plus grids over alignments and string lengths.")
prop("C06", "Names resolve by the documented scoping rules",
 "A global label or constant is visible in the whole program (a constant's own definition sees only labels and earlier constants), and a name starting with a dot belongs to the preceding global label and is visible only up to the next one. Names are case-insensitive; a reference to an undefined or out-of-scope name, or a second definition of a name in its scope, is reported as an error.",
 ["programs"], "all programs of several scopes that reuse local names, with forward and backward references and constants chained over labels",
 "Tests define a few names; scope leakage needs the same local name in several scopes with references across boundaries.",
 ["src/asm.rs", "src/env.rs"], [("label and constant tables", "src/asm.rs compute_names"), ("scoped lookup", "src/env.rs, src/asm.rs Names::as_env")],
 "model-based property testing: random scope structures against a reference resolver", "Sampled programs with one of several rule violations in about half of them.")
prop("C07", "Macro expansion equals writing the body out by hand",
 "A program that uses macros assembles to the same bytes as the program in which every call is replaced by the macro's body with its parameters replaced by the call's arguments as whole values, nested calls likewise, and its hygienic labels made unique per call. This holds for any number of calls, nesting depth, overloading by argument count, and a call before the definition.",
 ["programs"], "all macro definitions (operands, immediates, indirections, expressions, labels, nested calls) and all call patterns",
 "Tests expand two or three fixed macros; substitution into every operand place under nesting is over all programs.",
 ["src/asm.rs", "src/ast.rs", "src/expression.rs", "src/parser.rs"], [("macro expansion", "src/asm.rs expand_macros"), ("argument substitution", "src/ast.rs, src/expression.rs")],
 "property-based testing: differential against an independent inliner plus the reference assembler", "Sampled programs; two oracles (hand-inlined source through the tool and the reference bytes).")
prop("C08", "Macro misuse is rejected and macro names do not leak",
 "A call of an undefined macro or with a number of arguments no definition takes, two definitions with the same name and argument count, a repeated parameter, a macro named like an instruction, a use of an unknown parameter in a macro that is called, a macro label or parameter outside a macro, a macro without end, and a macro that calls itself directly or through others are each reported as an error. A hygienic label is visible only inside the call that made it, and a parameter only inside its macro.",
 ["programs"], "all placements of each kind of misuse in otherwise valid programs with macros",
 "Tests check hardly any macro error; misuse in nested or unused macros is not sampled.",
 ["src/asm.rs", "src/parser.rs"], [("macro table and checks", "src/asm.rs, src/parser.rs"), ("unique hygienic names", "src/asm.rs")],
 "property-based testing: misuse injected into generated macro programs, must-reject and must-accept twins", "Sampled; each rejected program has an accepted twin without the misuse.")
prop("C09", "Formatting, letter case, radix and comments never change the output",
 "Rewriting a source by changing white space, blank lines, comments, line ends (LF or CRLF), letter case of names, mnemonics and directives, the radix or digit grouping of literals, redundant parentheses, = versus EQU, or putting a label on its own line assembles to the same bytes. Text inside string literals is kept exactly.",
 ["inputs", "programs"], "all programs and all such rewritings",
 "Tests use one formatting per construct.",
 ["src/lexer.rs", "src/parser.rs"], [("token patterns", "src/lexer.rs"), ("line structure", "src/parser.rs lines")],
 "metamorphic property-based testing: two random renderings of one program", "Sampled.")
prop("C10", "The output of expand assembles to the same bytes",
 "For every program that assembles, the expand command succeeds and what it prints is itself a program that assembles, from any place, to the same bytes. For a program with an error in its macros or syntax, expand fails with exit status 1.",
 ["programs"], "all programs with macros, includes, strings, data and expressions",
 "No test reads expand's output back.",
 ["src/ast.rs", "src/expression.rs", "src/asm.rs", "src/lexer.rs"], [("printing of statements", "src/ast.rs Display"), ("printing of expressions", "src/expression.rs Display")],
 "property-based testing: round trip through expand", "Sampled programs covering every statement kind; the expanded text is assembled in another directory.",
 observe=("waterbear expand: stdout, exit code", "waterbear assemble of that output"))
prop("C11", "A tree of included files assembles like the flattened program",
 "A program spread over files by .include assembles to the same bytes as the single file in which every include is replaced by the included text, whatever the nesting, repetition, and directories. Paths are relative to the including file; a path that leads to no file from there but to one from the working directory means that one, and a warning says so. An include of a missing file or of a file that is being included already is reported as an error.",
 ["programs", "configurations"], "all ways of splitting a program over a directory tree, all depths and repetitions, started from any working directory",
 "Tests include one file from one directory.",
 ["src/asm.rs", "src/files.rs"], [("include replacement", "src/asm.rs replace_includes"), ("path resolution", "src/files.rs SourceFiles::path")],
 "property-based testing: random splitting into a file tree, differential against the flat program", "Sampled trees up to depth 5.")
prop("C12", "Included bytes are verbatim and C header constants keep their values",
 "A bytes include contributes exactly the bytes of the file, whatever they are. A C header include defines exactly the constants of its #define lines with their numeric values and is otherwise inert; redefining a name is reported as an error. A source, included file or header that is not UTF-8 text is rejected, never silently altered.",
 ["inputs"], "all byte contents, all positions; all headers of define lines, comments and blank lines",
 "Tests use one short file of each kind.",
 ["src/asm.rs", "src/cheader.rs", "src/files.rs"], [("bytes include", "src/asm.rs replace_byte_includes"), ("header lexer", "src/cheader.rs")],
 "property-based testing against the generated contents", "Sampled contents including all byte values and large files.")
prop("C13", "Disassembling and assembling again gives the original file",
 "For every file up to 64 KiB for which the disassembler reports success, assembling its output gives back the same bytes and length. The annotations option does not change this.",
 ["inputs"], "all byte strings up to 65536 bytes that disassemble, all file types",
 "No test disassembles anything; the inverse relation ranges over all byte strings.",
 ["src/disasm.rs", "src/lib.rs", "src/instruction.rs", "src/asm.rs"], [("statement emission", "src/disasm.rs disassemble"), ("decoder generated from the patterns", "waterbear-instruction-derive/src/lib.rs")],
 "property-based testing: round trip over generated code images and raw bytes", "Sampled images: structured code with branches, overlaps, data and gaps; random bytes; edges of the address space.",
 observe=("waterbear disassemble: output file", "waterbear assemble of that output"))
prop("C14", "Disassembly decodes exactly the code reachable from the entry points",
 "Every instruction reachable from the entry points of the chosen file type by following fall-through, branch, jump and call targets is decoded at its address as the documented instruction, with its operands (a hardware register or a bit of PSW by its documented name, register names only for direct addresses, names of PSW bits only for bits of PSW, labels only for code), and nothing else is decoded as an instruction; other non-zero bytes appear as data. Code after an unconditional jump or return is not followed, nor is a far jump that directly follows the switch of program memory (not1 ext,0); an undefined opcode or an instruction cut off by the end of the file in reachable code is reported as an error.",
 ["inputs", "configurations"], "all byte strings, all file types",
 "No test disassembles anything; reachability is over all control-flow graphs.",
 ["src/disasm.rs", "src/lib.rs"], [("flow tracing", "src/disasm.rs build_instruction_graph, targets"), ("entry points per type", "src/lib.rs disassemble_cmd")],
 "property-based testing: differential against an independent flow tracer and decoder", "Sampled images; positions and mnemonics of the listing are compared statement by statement.",
 observe=("waterbear disassemble -p: listing",))
prop("C15", "Labels, positions and arrival notes in a disassembly are right",
 "With positions on, each line of code or data carries the address at which its bytes stand in the input; each label stands at the address its name states; a branch, jump or call operand denotes the instruction's actual target; and with the arrival option each decoded instruction that something flows to lists exactly the addresses of the instructions that flow to it, in ascending order. Every entry point inside the file is marked, and instructions that overlap name each other. A run of data bytes that includes printable characters is followed by a comment that shows them, with \\t, \\n, \\r for these and a dot for any other byte. Positions and arrival notes off, no such annotation is printed.",
 ["inputs", "configurations"], "all byte strings that disassemble, all option combinations",
 "No test looks at a listing.",
 ["src/disasm.rs", "src/lib.rs"], [("names and labels", "src/disasm.rs compute_labels, lift_instr"), ("arrived-from comments", "src/disasm.rs disassemble")],
 "property-based testing: listing parsed and compared with an independent flow tracer", "Sampled images.",
 observe=("waterbear disassemble -p -a: listing",))
prop("C16", "The assembler never crashes or hangs, whatever the source",
 "On every input file, the assemble and expand commands end by themselves with exit status 0 or 1, in time and memory that do not blow up with the size of the program (as its includes and macro calls spell it out), and a failure prints an error message. No input makes them panic, overflow the stack, loop for ever or be killed.",
 ["inputs"], "all byte strings as source, including invalid UTF-8, mutated and truncated programs, deep nesting and extreme numbers",
 "Tests feed well-formed programs.",
 ["src/lexer.rs", "src/parser.rs", "src/asm.rs", "src/cheader.rs", "src/lib.rs", "src/files.rs"], [("error types instead of panics", "src/asm.rs AssemblyError"), ("expression depth limit, recursion checks", "src/parser.rs, src/asm.rs")],
 "fuzzing: grammar-aware mutation, token soup and raw bytes with crash/hang oracle", "Sampled; the release-independent overflow checks of the debug profile are on.")
prop("C17", "The disassembler never crashes or hangs, whatever the file",
 "On every input file of every length, with every option combination, the disassemble command ends by itself with exit status 0 and an output file, or with exit status 1, an error message and no output file. No input makes it panic or loop.",
 ["inputs", "configurations"], "all byte strings, all option combinations",
 "No test disassembles anything.",
 ["src/disasm.rs", "src/lib.rs"], [("bounds handling in tracing", "src/disasm.rs build_instruction_graph")],
 "fuzzing: structured and raw byte strings with crash/hang oracle", "Sampled.", observe=("waterbear disassemble: exit code, output file",))
prop("C18", "Image, icon and VMI commands never crash on bad input",
 "On every input file and option value, the image, icon and vmi commands end by themselves with exit status 0, or with a non-zero status of their own choosing and an error message. Truncated, corrupt, empty or missing image and VMS files and malformed option values never make them panic or hang.",
 ["inputs", "configurations"], "all files under every accepted extension, all option values",
 "No test runs these commands.",
 ["src/img.rs", "src/lib.rs"], [("load errors", "src/img.rs load_image"), ("command error handling", "src/lib.rs")],
 "fuzzing: mutated image and VMS files with crash/hang oracle", "Sampled mutations of generated PNG, GIF and BMP files and VMS files.", observe=("waterbear image, icon, vmi: exit code",))
prop("C19", "Diagnostics point at the offending source text",
 "The error message for a mistake in the program text names the file and line in which the mistake stands, with the columns of the offending text (counted from 0 in characters as a reader sees them), shows that line and marks those columns beneath it; where a second place matters (a name, label or macro declared twice) it is shown the same way. For a mistake in what a macro expands to, the calls that led to it are listed from the macro body outwards; a mistake in a call's argument is shown at that argument; one in an included file names that file with its own line numbers. A message about a file that is missing, includes itself or has the wrong content names that file.",
 ["programs"], "every kind of located mistake at every place of every program, in the main file, an included file, or a (nested) macro",
 "Tests do not look at messages; positions depend on everything that precedes the mistake.",
 ["src/lib.rs", "src/input.rs", "src/lexer.rs", "src/location.rs", "src/asm.rs"], [("span tracking", "src/input.rs, src/location.rs"), ("message printing", "src/lib.rs print_error, highlight_line")],
 "property-based testing: one mistake planted at a known place of a generated program", "Sampled placements; line and file are checked always, the column for kinds whose offending token is unambiguous.",
 observe=("stderr of waterbear assemble",))
prop("C20", "Commands succeed completely or fail without touching the output",
 "assemble and disassemble exit 0 exactly when they have written the complete output, and assemble then reports the number of bytes written and the file's name; an existing output file is replaced entirely. When the input has an error they exit 1, print an error, and neither create the output file nor change an existing one; an output that cannot be written is reported with exit status 1.",
 ["programs", "fault_sequences", "histories"], "all valid and invalid programs, all prior states of the output path (absent, longer, shorter, directory, unwritable)",
 "Tests call the library and never the command line with an existing output.",
 ["src/lib.rs"], [("output written only after success", "src/lib.rs assemble_cmd, disassemble_cmd")],
 "property-based testing: command histories over one output path with a model of its contents", "Sampled histories of several runs on the same output path.")
prop("C21", "Icon includes encode the image exactly",
 "An icon include emits the documented VMU icon header and data: frame count, animation speed (given or 10), eyecatch type, zeroed CRC, size and reserved fields, the 16-colour palette in order of first appearance as 4-bit ARGB, then each frame's pixels as palette indexes two to a byte, high nibble first, then the eyecatch in the representation its type states (16-colour, 256-colour or true colour). Every pixel of every frame decodes back to the source colour reduced to 4 bits per channel.",
 ["inputs"], "all 32x32 images of up to 16 colours and any number of frames, all 72x56 eyecatch images of any number of colours, all speeds, several file formats",
 "One test converts one image.",
 ["src/img.rs", "src/asm.rs"], [("icon encoding", "src/img.rs to_icon, Image::to_icon"), ("palette", "src/img.rs get_palette, scale_channels")],
 "property-based testing: generated images against a reference encoder and pixel decoding", "Sampled images through own PNG, APNG, GIF and BMP writers.")
prop("C22", "Sprite includes encode the image exactly",
 "A sprite include emits, for each frame, the width and height bytes unless header=\"no\", then for type=\"masked\" the mask rows with a 1 for each transparent pixel and for padding, then the rows with a 1 for each dark pixel and 0 for padding, each row starting on a byte, leftmost pixel in the highest bit. Dark means weighted luminance at most 127, transparent means alpha at most 127.",
 ["inputs", "configurations"], "all images of all sizes, frames, colours and alpha values; all option combinations",
 "No test converts a sprite.",
 ["src/img.rs", "src/asm.rs", "src/parser.rs"], [("1-bit rows", "src/img.rs Frame::to_1bit_asm"), ("options", "src/parser.rs, src/asm.rs")],
 "property-based testing: generated images against a reference encoder", "Sampled images, sizes 1..300.")
prop("C23", "Images that do not meet the icon or sprite limits are rejected",
 "An icon image that is not 32x32 or has more than 16 colours after reduction to 4 bits per channel, an eyecatch that is not 72x56, a sprite wider or taller than 255 with a header, and an unknown option value are each reported as an error with exit status 1, and images exactly at a limit are accepted.",
 ["inputs", "configurations"], "all image sizes, colour counts and option values around each limit",
 "No test uses a non-conforming image.",
 ["src/img.rs", "src/asm.rs", "src/parser.rs"], [("size and palette checks", "src/img.rs to_icon"), ("sprite header limits", "src/asm.rs replace_byte_includes")],
 "property-based testing: images on both sides of each limit", "Sampled with bias to the limits.")
prop("C24", "The icon and image commands agree with the corresponding includes",
 "What the icon command prints assembles to the same bytes as the icon include with the same image, speed and eyecatch, and the 1-bit output of the image command assembles to the same bytes as the sprite include of the same type. The JSON formats list every frame with every pixel's exact colour, row by row, compact and pretty form alike; with an output option the same text goes to the file.",
 ["inputs", "configurations"], "all images, formats and options",
 "No test runs these commands.",
 ["src/lib.rs", "src/img.rs", "src/ast.rs"], [("icon and image commands", "src/lib.rs run_command"), ("JSON form", "src/img.rs Serialize")],
 "property-based testing: differential between commands and includes, and against generated pixels", "Sampled images.", observe=("waterbear icon, image: stdout or output file",))
prop("C25", "A VMI file describes its VMS file",
 "The generated VMI file is 108 bytes: resource checksum (first four name bytes masked with SEGA), the VMS description (from the header at 0, or at 0x200 for a game), copyright text, current date and time, file number 1, resource name and file name cut to 8 and 12 bytes, the game flag, and the VMS file's size. Its default name is the VMS name with the extension replaced.",
 ["inputs", "configurations"], "all VMS contents and sizes, file names, copyright texts, with and without -g and -o",
 "No test generates a VMI file.",
 ["src/lib.rs"], [("VMI writer", "src/lib.rs generate_vmi")],
 "property-based testing: field-by-field reference, clock bracketed", "Sampled.", observe=("waterbear vmi: output file",))
prop("C26", "The same input always gives the same output",
 "Running a command twice on the same files gives identical output files and identical messages, whatever the earlier runs, the directory it is started from, the place of the files, and whether the messages go to a terminal (where colour is added); only the unique suffix of hygienic labels, the VMI time stamp, directory names in printed text and which of several faults in a command line is named may differ.",
 ["histories", "configurations"], "all commands and inputs, repeated in fresh processes from different directories",
 "Tests run each case once; unordered collections differ from process to process.",
 ["src/asm.rs", "src/disasm.rs", "src/img.rs", "src/lib.rs"], [("sorted output of unordered tables", "src/disasm.rs sorted_aliases, sorted_psw_bits"), ("palette order", "src/img.rs get_palette")],
 "metamorphic property-based testing: repeated runs compared", "Sampled; several process runs each, so hash-order effects show with high probability.")
prop("C27", "The C library entry point behaves like the command line",
 "A program that calls the library's C entry point with an argument vector has the same effects, output files, messages and exit status as running the command with those arguments.",
 ["inputs", "configurations"], "all argument vectors and inputs",
 "The tests do not build the C library.",
 ["libwaterbear/src/lib.rs", "libwaterbear/include/waterbear.h", "src/lib.rs"], [("C entry point", "libwaterbear/src/lib.rs")],
 "differential property-based testing: C driver against the command line", "Sampled argument vectors.", observe=("a C driver linked with the library",))

prop("C28", "Error messages state the right values and names",
 "The message for a mistake states the facts of that very mistake: for a value that does not fit, the value as it evaluates and the limit (width in bits, signed or unsigned; for a relative target its distance, for a 12-bit one target, position and the differing top bits); for text that is too long both lengths; for a bad position that position; for a division by zero its operands; for a missing or repeated name or macro that name; for wrong operands exactly the documented forms of the instruction; for an image its file and the size, colour count or option at fault; for a file that cannot be disassembled the address and the byte that stands there.",
 ["programs", "inputs"], "every kind of mistake with every value, at every position, written through any expression, symbol or macro argument",
 "Tests do not look at messages.",
 ["src/lib.rs", "src/asm.rs", "src/instruction.rs", "src/expression.rs", "src/parser.rs", "src/ast.rs", "src/img.rs"], [("message printing", "src/lib.rs print_error"), ("range errors of operands", "src/instruction.rs eval helpers"), ("allowed forms", "src/parser.rs, src/ast.rs ArgType")],
 "property-based testing: one mistake of known facts planted in a generated program, its message parsed for them", "Sampled mistakes; the wording of the messages is free, only numbers and names are looked for.",
 observe=("stderr of waterbear assemble, expand, icon, image and disassemble",))
prop("C29", "A result that cannot be delivered is an error; a message that cannot is not",
 "expand, icon and image print their result and exit 0 only when all of it was written to standard output; when it was not (the device is full, nobody reads the pipe, the file can grow no further) they exit 1 with a message. Likewise assemble, disassemble, image and vmi exit 1 with a message when their output file takes only a part of the output, or none. When it is the messages on standard error that cannot be written, exit status, printed result and output file are the same as otherwise.",
 ["inputs", "fault_sequences"], "all commands and inputs, a destination that fails at any byte",
 "No test runs the command line, let alone with a failing destination.",
 ["src/lib.rs", "src/asm.rs", "src/files.rs", "src/main.rs"], [("printing results", "src/lib.rs print_result, src/asm.rs expand_file"), ("writing files", "src/lib.rs write_file"), ("messages", "src/lib.rs ColorWriter, src/files.rs path")],
 "property-based testing with injected write faults: the same command with its streams and files failing at a generated byte", "Sampled commands and failing bytes; faults by /dev/full, an unread pipe and a file size limit.",
 observe=("exit status, standard output, output file",))

built = set(l.strip() for l in open(os.path.join(V, "tools/built.txt")) if l.strip())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps({k: v for k, v in d.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="./run.sh setup", checks=[], not_applicable=[],
  notes="No hooks: every check drives the real command-line tool built from /repo's working tree (the C library for C27). Repairs of defects are fix: commits in /repo, listed in known_findings.txt.")
for d in P:
    if d["id"] in built:
        m["checks"].append(dict(property=d["id"], quick_cmd="VERIF_TIER=quick ./run.sh " + d["id"], thorough_cmd="VERIF_TIER=thorough ./run.sh " + d["id"],
          evidence_file="evidence/%s.json" % d["id"], technique=d["_t"], level="exploration", level_note=d["_n"]))
    else:
        m["not_applicable"].append(dict(property=d["id"], reason="check not built yet"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
if len(sys.argv) > 1:
    import jsonschema
