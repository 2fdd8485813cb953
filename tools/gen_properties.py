#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe,
         "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
HOOK = "per-step event (FUNGE_MONITOR) before each instruction is executed"
ST = "the stored scripts in test/ run one fixed program each and compare its output"

prop("C01", "Arithmetic, comparison and stack instructions are exact",
 "The instructions + - * / % ! ` : \\ $ n and the literals 0-9 a-f compute exactly what Funge-98 defines on 64-bit two's-complement cells: wrapping on overflow, C-style truncating division, and 0 as the result of division or remainder by zero. Popping an empty stack yields 0 and never fails, and no instruction touches stack cells other than its operands.",
 ["inputs", "programs"], "all operand values in the 64-bit range, all stack depths (including empty), all sequences of these instructions",
 ST + "; the operand space (2^128) and stack histories are only sampled at a few small values",
 ["src/Unefunge93Strategy.cpp", "src/Unefunge98Strategy.cpp", "src/Stack.cpp"],
 [("instruction bodies", "src/Unefunge93Strategy.cpp"), ("empty pop yields 0", "src/Stack.cpp")],
 ["stack contents before each instruction", "standard output"], HOOK)

prop("C02", "Instruction-pointer motion, branching and Lahey-space wrapping",
 "In a Lahey-space program of any dimensionality, every movement, turn, branch, comparison, jump, trampoline, reflection, absolute-delta and random-direction instruction sends the IP exactly where Funge-98 says, and an IP leaving the bounding box re-enters on the opposite side along its own line, so that wrapping is reversible for any delta. Spaces and ;...; sections are crossed in zero time: they are never an instruction and cost no tick.",
 ["programs", "inputs"], "all programs, all start states, all deltas (flying ones included), all bounding boxes, 1 to N dimensions",
 ST + "; wrapping depends on the joint shape of bounding box, position and delta, and tests cover cardinal deltas on a handful of boxes",
 ["src/InstructionPointer.cpp", "src/Unefunge93Strategy.cpp", "src/Unefunge98Strategy.cpp", "src/Befunge93Strategy.cpp", "src/Befunge98Strategy.cpp", "src/Trefunge98Strategy.cpp", "src/Vector.cpp"],
 [("wrap by walking back", "src/InstructionPointer.cpp next()"), ("zero-time instructions", "src/FungeRunner.cpp tick()")],
 ["position and delta before each instruction"], HOOK)

prop("C03", "Dialect selection: instruction sets, Befunge-93 torus and cell size",
 "The dialect chosen by -std (or inferred from the file) determines exactly which instructions exist: an instruction that the dialect or the number of dimensions does not include is unimplemented, that is, it is reported and reflects the IP. With the 93 dialects the playfield is a fixed 80x25 torus (position 80 is position 0), cells are 8-bit, strings keep every space; -ftopo, -fcells and -fstrings override these choices independently.",
 ["configurations", "programs"], "all combinations of -std, -ftopo, -fcells, -fstrings and file extension, all programs",
 "the number of flag combinations times programs is far beyond the scripts, which use one fixed flag set per program",
 ["src/Funge.cpp", "src/FungeRunner.cpp", "src/InstructionPointer.cpp", "src/Field.cpp", "src/include/FungeConfig.h"],
 [("strategy selection", "src/FungeRunner.cpp loadStrategies()"), ("torus wrap", "src/InstructionPointer.cpp next()"), ("cell truncation", "src/Field.cpp put()/get()")],
 ["trace of executed instructions", "standard error", "final fungespace"], HOOK)

prop("C04", "String mode, character fetch and store",
 "Between two double quotes every cell crossed is pushed unchanged as a value, in crossing order, following the selected style: multispace pushes every space, SGML pushes one space per run of spaces in a single tick, C style replaces \\x escapes by their character (an escaped quote does not end the string). The fetch instruction pushes the following cell's full value and skips it, and the store instruction puts the popped value unchanged in the following cell and skips it.",
 ["programs", "inputs"], "all strings, all cell values including large and negative ones, all three styles, strings that wrap around the edge, strings shared between IPs",
 ST + "; they contain a few short ASCII strings in one style",
 ["src/FungeStateString.cpp", "src/Unefunge98Strategy.cpp"],
 [("string state machine", "src/FungeStateString.cpp execute()/escape()"), ("fetch/store", "src/Unefunge98Strategy.cpp")],
 ["stack contents and position before each instruction"], HOOK)

prop("C05", "Fungespace is a faithful unbounded memory",
 "Fungespace behaves as a map from N-dimensional coordinates (negative ones included) to 64-bit cells that are space until written: reading any coordinate returns the value last written there by any writer, get and put are relative to the storage offset, and no write changes another cell. The reported least and greatest points always bound every non-space cell and grow immediately when something is written outside; code written at run time executes like loaded code.",
 ["programs", "histories"], "all sequences of reads and writes at arbitrary coordinates, values and storage offsets, in any number of dimensions",
 "unit tests write a few hand-picked cells; correctness over arbitrary histories (including erasing on the edge of the box) cannot be sampled by a handful of cases",
 ["src/Field.cpp", "src/Vector.cpp", "src/Unefunge93Strategy.cpp"],
 [("cell map keyed by normalised vector", "src/Field.cpp put()/get()"), ("bounds maintenance", "src/Field.cpp put()"), ("vector hash/equality", "src/Vector.cpp")],
 ["values returned by get", "final fungespace and bounds", "public Field/Vector API"], HOOK,
 [("bounds", "least/greatest non-space coordinate per dimension", "src/Field.cpp mins/maxs")])

prop("C06", "k executes the next instruction exactly n times where it stands",
 "The iterate instruction pops n, finds the next instruction along the IP's path (skipping spaces and ;...; sections), and executes that instruction exactly n times as if it stood at the position of the iterate itself, all within one tick; n <= 0 executes it no times. After n = 0 the found instruction is skipped; otherwise execution resumes along the (possibly modified) path from the iterate's position.",
 ["programs", "inputs"], "all counts, all target instructions (including movement, strings, split, fetch, jumps, nested iterate), all paths from the iterate to its target",
 ST + "; two of them touch iterate with a fixed target",
 ["src/Unefunge98Strategy.cpp"],
 [("target search and repeated execution", "src/Unefunge98Strategy.cpp instructionIterate()")],
 ["trace of positions and stacks after each iterate"], HOOK)

prop("C07", "Stack stack: blocks transfer, isolate and restore",
 "The instructions { } and u move exactly the specified number of cells between the top two stacks in the order Funge-98 defines (zero-filling or discarding for negative counts), save and restore the storage offset on the stack below, and leave all deeper stacks untouched. } and u with only one stack reflect and change nothing; a balanced { } pair with matching counts returns the stacks and the storage offset to what they were.",
 ["programs", "histories"], "all sequences of block instructions interleaved with others, all counts (negative, zero, larger than the stack), any nesting depth, any number of dimensions",
 "unit tests push and pop single stacks; order and count of transfers over nested histories are not covered",
 ["src/Unefunge98Strategy.cpp", "src/StackStack.cpp", "src/Stack.cpp"],
 [("begin/end/under", "src/Unefunge98Strategy.cpp"), ("stack of stacks", "src/StackStack.cpp")],
 ["all stacks and the storage offset before each instruction"], HOOK)

prop("C08", "Program loading reproduces the source file",
 "Loading a program file puts every byte of it at the coordinate the documentation gives: lines separated by LF, CR or CRLF advance y, form feeds advance z, vertical tabs advance the fourth dimension (line ends directly after them being ignored), and spaces are not stored. The number of dimensions is the one the content needs unless fixed by -std; BeQunge files honour Dimensions, Origin, Coord and Lines, and funge-lib files place each =X plane at its own z and can be overlaid as fingerprints.",
 ["inputs"], "all byte contents and mixtures of line ends, form feeds, vertical tabs and control bytes, with and without final line end, all three formats",
 "tests load a fixed set of well-formed LF files; the line-end/plane state machine has to be right for every byte sequence",
 ["src/Field.cpp", "src/Funge.cpp"],
 [("text parser", "src/Field.cpp parse()"), ("BeQunge parser", "src/Field.cpp parseBeq()"), ("funge-lib parser", "src/Field.cpp parseFungeLib()")],
 ["initial fungespace, bounds and number of dimensions"], HOOK)

prop("C09", "File input and output instructions round-trip fungespace",
 "o writes to the named file exactly the cells of the given box (least point relative to the storage offset), row by row, in text mode dropping trailing spaces of each line; i reads the named file into fungespace at the given point as text or, with flag bit 0, verbatim as one line, and pushes the point and size that describe it. A file that cannot be opened makes the instruction reflect and leaves fungespace unchanged, and o followed by i in binary-compatible shape reproduces the cells.",
 ["inputs", "programs", "fault_sequences"], "all file contents, boxes, offsets, flags and missing/unwritable files",
 "the only smoke test for i/o uses one small file; contents, flags and failures are unbounded",
 ["src/Unefunge98Strategy.cpp", "src/Field.cpp"],
 [("file in/out", "src/Unefunge98Strategy.cpp instructionFileIn()/instructionFileOut()"), ("dump", "src/Field.cpp dump()")],
 ["files created in the working directory", "fungespace and stack after the instruction"], HOOK)

prop("C10", "System information (y) is truthful",
 "y with a non-positive argument pushes every information item in the order Funge-98 defines, and each is the actual current fact: capability flags, cell size, handprint, version, dimensions, IP id, position, delta, storage offset, bounds, date and time, number and sizes of stacks, arguments and environment. A positive argument n leaves exactly the n-th of those cells (or the n-th cell below them) in place of the argument and the rest of the stack unchanged.",
 ["configurations", "histories", "inputs"], "all arguments, command lines, environments, stack histories and bounding boxes",
 ST + "; they print the arguments once; the other items depend on the whole machine state",
 ["src/Unefunge98Strategy.cpp", "src/util/FungeUtilities.cpp"],
 [("system info", "src/Unefunge98Strategy.cpp pushSysInfo()")],
 ["stack after y compared with independently observed machine state"], HOOK)

prop("C11", "Console input and output are faithful",
 ". prints the whole 64-bit value in decimal followed by one space, and , prints the character (10 being a newline), in program order with nothing lost or reordered relative to other IPs and instructions. & consumes non-digits up to the next decimal number and yields that number even when it ends at end of input, ~ yields successive input bytes (a carriage return being skipped), and both reflect at end of input.",
 ["inputs", "programs"], "all cell values, all input byte sequences (including ends of input in every position), all interleavings of & and ~",
 ST + "; input tests use a single fixed input",
 ["src/Unefunge93Strategy.cpp"],
 [("number/char input and output", "src/Unefunge93Strategy.cpp")],
 ["standard input/output of the process", "stack trace"], HOOK)

prop("C12", "Cooperative concurrency: fair deterministic ticks, t, @ and q",
 "Without native threads the IPs of a universe execute strictly round-robin, one instruction per IP per round, each instruction atomically; t creates an IP with a fresh id, a copy of the whole stack stack, storage offset and loaded fingerprints, moving in the opposite direction, which first acts before its parent acts again. @ ends only its own IP, the program ends when the last IP ends with exit code 0, and q ends all IPs at once with the popped value as exit code.",
 ["schedules", "programs", "histories"], "all programs with any number of IPs, all interleavings of splits and stops",
 "tests run a couple of two-IP programs; ordering and isolation must hold for every spawn/stop history",
 ["src/FungeUniverse.cpp", "src/FungeRunner.cpp", "src/Unefunge98Strategy.cpp"],
 [("round-robin list", "src/FungeUniverse.cpp operator()()"), ("clone", "src/FungeRunner.cpp copy constructor")],
 ["global order of per-step events", "exit status", "standard output"], HOOK)

prop("C13", "Native threads: every IP runs to its end, race-free, program terminates",
 "With -fthreads=native every IP executes its own instruction sequence exactly as it would alone, concurrently with the others, with no data race on shared fungespace, IP lists or ids, and no lost or duplicated IP. The process terminates as soon as the last IP has ended (exit code 0) or one executes q (its value), under every schedule.",
 ["schedules", "programs"], "all schedules of all numbers of concurrently splitting, writing and ending IPs",
 "no test runs native threads at all; races and lost wake-ups depend on the schedule",
 ["src/FungeUniverse.cpp", "src/FungeRunner.cpp", "src/Field.cpp", "src/util/include/FungeSem.h"],
 [("thread list and wake-up", "src/FungeUniverse.cpp"), ("shared state synchronisation", "src/Field.cpp")],
 ["ThreadSanitizer reports", "exit status", "per-IP event sequences, final fungespace"], HOOK)

prop("C14", "Disabled capabilities stay disabled",
 "With -fno-filesystem no program creates, opens, changes or deletes any file or directory; with -fno-execute no program starts an external command; with -fno-concurrent no program gets a second IP in its universe. The attempt reflects, leaves no effect, and y reports the capability as absent; with the capability enabled (the default) the same attempt takes effect exactly as requested.",
 ["programs", "configurations"], "all programs, through any instruction or fingerprint, under every combination of the capability flags",
 "no test uses the -fno-* flags; an escape may come through any of the fingerprints",
 ["src/Unefunge98Strategy.cpp", "src/fingerprint/FingerprintDIRF.cpp", "src/fingerprint/FingerprintPERL.cpp", "src/StarfishStrategy.cpp", "src/fingerprint/FingerprintFISH.cpp"],
 [("capability checks", "src/Unefunge98Strategy.cpp"), ("flags", "src/Funge.cpp")],
 ["every file-system and process-creation call the interpreter makes"], HOOK)

prop("C15", "Fingerprint loading and unloading nest like a stack per instruction",
 "( with a known fingerprint binds all of its letters, pushes the fingerprint id and 1; ) undoes that binding so that each letter means what it meant before, in any nesting of overlapping fingerprints, per IP, and split IPs inherit what is loaded. Unknown or not-loaded fingerprints make ( and ) reflect without changing any binding, letters bound by nothing are unimplemented, -l loads at start, and FING can swap, drop, duplicate and move the binding of single letters.",
 ["histories", "programs"], "all sequences of loads, unloads (including unbalanced ones) and single-letter operations of all fingerprints, in any number of IPs",
 ST + "; each loads its fingerprint once and never unloads it",
 ["src/FingerprintStrategy.cpp", "src/Fingerprint.cpp", "src/FungeStateNormal.cpp", "src/fingerprint/FingerprintFING.cpp"],
 [("per-letter semantics stacks", "src/FungeStateNormal.cpp"), ("load/unload", "src/FingerprintStrategy.cpp")],
 ["trace: effect of each letter after each load/unload history"], HOOK)

prop("C16", "Integer fingerprints BOOL, BITW, FIXP, CPLI compute exactly",
 "Each instruction of BOOL, BITW, FIXP and CPLI pops exactly its operands and pushes the mathematically defined result on 64-bit cells (fixed point with four decimals and degrees for FIXP, complex integers for CPLI) for every operand, including zero divisors, negative values and extremes. No operand makes the interpreter fail.",
 ["inputs"], "all operand values and stack depths, all instructions of the four fingerprints",
 ST + " for BOOL only; the others have no test",
 ["src/fingerprint/FingerprintBOOL.cpp", "src/fingerprint/FingerprintBITW.cpp", "src/fingerprint/FingerprintFIXP.cpp", "src/fingerprint/FingerprintCPLI.cpp"],
 [("instruction bodies", "src/fingerprint/Fingerprint{BOOL,BITW,FIXP,CPLI}.cpp")],
 ["stack before and after each instruction", "standard output"], HOOK)

prop("C17", "Floating-point fingerprints FPSP and FPDP follow IEEE arithmetic",
 "FPSP and FPDP instructions treat a cell as an IEEE single or double bit pattern and compute the correctly rounded (or library-precision) result of add, subtract, multiply, divide, power, roots, logs, trigonometry, conversions to and from integers and strings, and printing, for every operand including zeros, infinities and NaN. Operands are popped in the documented order and nothing else on the stack changes.",
 ["inputs"], "all operand bit patterns, strings to convert and stack depths",
 "no test exercises either fingerprint",
 ["src/fingerprint/include/FingerprintFloat.h"],
 [("instruction bodies", "src/fingerprint/include/FingerprintFloat.h")],
 ["stack before and after each instruction", "standard output"], HOOK)

prop("C18", "Text fingerprints STRN, BASE, JSTR, FPRT, ROMA process text exactly",
 "STRN string operations (append, compare, search, slice, get/put in fungespace, number conversion, length, reverse, display, input), BASE number output and input in bases 2 and up, JSTR strided put and get of strings along arbitrary directions, FPRT formatted printing and ROMA numerals produce exactly the specified text, cells and stack for every argument. Arguments that have no result (positions outside the string, bases below 1 or impossible to read or print, malformed numbers) reflect instead of failing.",
 ["inputs", "programs"], "all strings, positions, lengths, bases, numbers, directions and formats",
 ST + " for BASE and ROMA; strings, bases and out-of-range arguments are unbounded",
 ["src/fingerprint/FingerprintSTRN.cpp", "src/fingerprint/FingerprintBASE.cpp", "src/fingerprint/FingerprintJSTR.cpp", "src/fingerprint/FingerprintFPRT.cpp", "fing/ROMA.fl"],
 [("instruction bodies", "src/fingerprint/Fingerprint{STRN,BASE,JSTR,FPRT}.cpp")],
 ["stack, fungespace and standard output"], HOOK)

prop("C19", "Utility fingerprints FRTH, SUBR, REFC, ORTH, HRTI, DIRF, PERL, TERM, MODU, NULL",
 "Each instruction of FRTH (stack manipulation), SUBR (calls and jumps with returns, absolute and relative), REFC (references to vectors), ORTH (easy fungespace, ramps and output), HRTI (timer marks), DIRF (directory make/change/remove), MODU (the modulus variants of the shipped library, with 0 for a zero modulus), TERM (terminal control), NULL (all letters reflect) has exactly its specified effect on stack, IP, fungespace, output and file system. Out-of-range arguments and failing operations reflect.",
 ["programs", "inputs", "histories"], "all argument values, call nestings, and orders of operations",
 ST + " for FRTH and HRTI; the rest is untested",
 ["src/fingerprint/FingerprintFRTH.cpp", "src/fingerprint/FingerprintSUBR.cpp", "src/fingerprint/FingerprintREFC.cpp", "src/fingerprint/FingerprintORTH.cpp", "src/fingerprint/FingerprintHRTI.cpp", "src/fingerprint/FingerprintDIRF.cpp", "fing/MODU.fl", "fing/TERM.fl", "fing/NULL.fl"],
 [("instruction bodies", "src/fingerprint/")],
 ["stack, position, fungespace, output and directory effects"], HOOK)

prop("C20", "TOYS block operations move exactly the named cells",
 "TOYS instructions that copy, move, fill or evacuate blocks, reduce or compute on the stack, read or write along rows and columns, change the delta or wait on a cell act exactly on the cells and operands their definition names, including overlapping source and destination in the defined direction. Everything else in fungespace and on the stack is unchanged.",
 ["inputs", "programs"], "all block positions, sizes (including zero and negative), overlaps and contents",
 "no smoke test loads TOYS",
 ["src/fingerprint/FingerprintTOYS.cpp"],
 [("instruction bodies", "src/fingerprint/FingerprintTOYS.cpp")],
 ["fungespace and stack after each instruction"], HOOK)

prop("C21", "MODE switches change stack and delta behaviour exactly as defined",
 "The MODE toggles affect every IP and stack of the universe from the next instruction on: hover makes direction changes add to the delta, invert makes pushes go to the bottom, queue makes pops come from the bottom, switch rewrites each executed [ ] { } ( ) into its partner; a second toggle restores normal behaviour. Combinations of modes compose, and newly created stacks and IPs obey the modes in force.",
 ["histories", "programs"], "all sequences of toggles interleaved with arbitrary instructions, splits and stack-stack operations",
 "no test toggles MODE in combination with stacks of stacks or several IPs",
 ["src/fingerprint/FingerprintMODE.cpp", "src/Stack.cpp", "src/StackStack.cpp", "src/InstructionPointer.cpp", "src/FungeUniverse.cpp"],
 [("mode bits", "src/FungeUniverse.cpp setMode()/toggleMode()"), ("queue/invert", "src/Stack.cpp")],
 ["stacks, delta and fungespace before each instruction"], HOOK)

prop("C22", "NFUN and N-dimensional operation",
 "In universes of any number of dimensions all vector instructions use vectors of that length, and the NFUN instructions send the IP along any axis, by themselves or depending on a popped condition, and raise the dimension count as far as needed, exactly as documented, including axes above the third. A program confined to a lower-dimensional subspace behaves as it does in that lower dimension.",
 ["programs", "configurations"], "all dimension counts, axes, deltas and programs",
 ST + " with one NFUN and two high-dimensional hello-world programs",
 ["src/fingerprint/FingerprintNFUN.cpp", "src/Vector.cpp", "src/util/FungeUtilities.cpp", "src/FungeUniverse.cpp"],
 [("NFUN instructions", "src/fingerprint/FingerprintNFUN.cpp"), ("vector push/pop", "src/util/FungeUtilities.cpp")],
 ["position, delta and stacks before each instruction"], HOOK)

prop("C23", "><> (Fish) programs run to the ><> definition",
 "A ><> program executes every ><> instruction (movement, mirrors, random, skip, conditional skip, jump, arithmetic with floating division, comparison, strings with both quotes, stack shifts and reversal, length, nested stacks, register, input and output, codebox get and put) with exactly the defined effect. Any error (unknown instruction, stack underflow where the language defines it, division by zero) prints \"something smells fishy...\" and ends the program with exit code 1.",
 ["programs", "inputs"], "all ><> programs, all stacks including empty, all inputs",
 ST + "; ten fixed fish programs",
 ["src/FishStrategy.cpp", "src/util/include/FishUtil.h"],
 [("instruction bodies", "src/FishStrategy.cpp")],
 ["stacks, position, delta before each instruction", "output and exit status"], HOOK)

prop("C24", "*><> (Starfish) and the FISH fingerprint",
 "Starfish adds to ><> exactly its documented instructions: call and return, the fisherman's hook and dive modes that ignore everything but the allowed instructions, file open/read/write with a single current file, and the time-of-day and sleep instructions. The FISH fingerprint gives Befunge the documented shifts, splits, mirrors and stack selection with integer cells, and leaves everything else in Befunge unchanged.",
 ["programs", "inputs", "histories"], "all programs mixing these instructions with the base language",
 ST + "; six starfish programs and two FISH programs",
 ["src/StarfishStrategy.cpp", "src/fingerprint/FingerprintFISH.cpp", "src/StackStack.cpp"],
 [("starfish instructions", "src/StarfishStrategy.cpp"), ("FISH fingerprint", "src/fingerprint/FingerprintFISH.cpp"), ("stack selection", "src/StackStack.cpp")],
 ["stacks, position, delta before each instruction", "files written"], HOOK)

prop("C25", "Debugger is transparent and truthful",
 "A program run under the debugger and merely stepped or continued performs exactly the same steps, output and exit code as without it; DBUG instructions do nothing outside the debugger. What the debugger prints (position, delta, storage, stacks, cells, backtrace, IP list, breakpoints, watchpoints) is the true state at that step, execution stops at every breakpoint and at every write to a watched cell, setpos and setdelta take effect, and end of command input never hangs the process.",
 ["programs", "inputs", "histories"], "all programs and all debugger command sequences",
 "the single debugger test replays one command script; command/program interleavings are unbounded",
 ["src/Defunge.cpp", "src/FungeDebugger.cpp", "src/fingerprint/FingerprintDBUG.cpp"],
 [("command loop", "src/Defunge.cpp debug()"), ("breakpoints/watchpoints", "src/FungeDebugger.cpp")],
 ["debugger output compared with the independent trace"], HOOK)

prop("C26", "Universes are isolated; MVRS moves IPs between them",
 "All universes of a multiverse file run, each with its own fungespace, IPs, arguments and dialect, and nothing one program does changes another's fungespace, stacks or output content except through MVRS; the process ends when all have ended, with the first universe's exit code. MVRS creates, names and counts universes and transfers an IP with its stacks intact, after which it executes in, reads and writes the target's fungespace only, and same-named universes get distinct names.",
 ["schedules", "programs", "configurations"], "all sets of universes, all transfer histories, all schedules of the universe threads",
 ST + "; two multiverse files and one MVRS program under whatever schedule happens",
 ["src/FungeMultiverse.cpp", "src/FungeUniverse.cpp", "src/fingerprint/FingerprintMVRS.cpp", "src/Funge.cpp"],
 [("universe registry", "src/FungeMultiverse.cpp"), ("transfer", "src/FungeUniverse.cpp transferRunner()"), ("multiverse file", "src/Funge.cpp parseFMV()")],
 ["per-universe event traces and final fungespaces", "ThreadSanitizer reports"], HOOK)

prop("C27", "IIPC: IPs find, share and exchange values",
 "IIPC reports the IP's own and its ancestor's id, lets an IP look at, take from and put values on the stack of any living IP in the universe, and suspend until something is put there, each exactly once and without affecting any other IP. Operations on ids that do not exist, and the ancestor of an original IP, reflect.",
 ["schedules", "histories", "programs"], "all spawn/stop histories and message sequences between any number of IPs",
 "no test uses IIPC",
 ["src/fingerprint/FingerprintIIPC.cpp", "src/FungeRunner.cpp", "src/FungeUniverse.cpp"],
 [("IIPC instructions", "src/fingerprint/FingerprintIIPC.cpp"), ("lookup by id", "src/FungeUniverse.cpp getRunner()")],
 ["stacks of all IPs before each instruction"], HOOK)

prop("C28", "Command line and exit status contract",
 "Options are honoured wherever they precede the file, later ones overriding earlier ones; a missing file argument or an unsupported option value ends with EINVAL without running anything, a file that cannot be opened ends with EIO, and every other run ends with the prime universe's q value (modulo 256) or 0. The file name and all arguments after it reach the program unchanged and in order.",
 ["configurations", "inputs"], "all argument vectors, including empty, repeated, unknown and malformed options, and all file names",
 "tests use well-formed command lines only",
 ["src/Funge.cpp"],
 [("option parsing", "src/Funge.cpp fungemain()")],
 ["exit status, standard error, program-visible arguments"], HOOK)

prop("C29", "No program or input corrupts memory or crashes the interpreter",
 "Whatever bytes the program file contains, whatever the input and the options, the interpreter never accesses memory out of bounds or after release, never invokes undefined behaviour, never ends by a signal or an uncaught exception: it runs, reflects on errors, or exits. (Programs that legitimately loop for ever or ask for more memory than exists are outside this.)",
 ["inputs", "programs", "configurations"], "all program bytes, dialects, fingerprints, inputs and option combinations",
 "tests run well-behaved programs without sanitizers; the space of hostile programs is unbounded",
 ["src", "src/fingerprint"],
 [("argument checks in instruction bodies", "src/*.cpp, src/fingerprint/*.cpp")],
 ["AddressSanitizer / UndefinedBehaviorSanitizer / standard-library assertion reports, termination signal"], HOOK)

prop("C30", "A failing instruction reflects the IP and costs one tick",
 "Whenever an instruction is unimplemented, unavailable or fails in a Befunge dialect, the IP's delta is reversed and the IP moves one step in the new direction in that same tick, no other IP is affected and execution continues. Unimplemented instructions are reported on standard error with their value and position, exactly once per attempt, and nothing appears on standard output.",
 ["programs", "fault_sequences"], "every unimplemented character code and every failing instruction, from every direction, at edges of the bounding box, with several IPs",
 "tests never provoke failures",
 ["src/FungeRunner.cpp", "src/Unefunge93Strategy.cpp"],
 [("error dispatch", "src/FungeRunner.cpp tick()"), ("error handler", "src/Unefunge93Strategy.cpp errorHandler()")],
 ["position and delta before each instruction", "standard error"], HOOK)

prop("C31", "Funge-lib and dynamic fingerprints run as instructions on the caller's stack",
 "A fingerprint stored as a funge-lib file in the fing directory is found before the built-in of the same name, and each of its letters runs the corresponding plane from its origin on the caller's stack until that IP ends, after which the caller continues with the results; letters without a plane keep their meaning, and the instructions libraries have for acting on their caller (reflect, skip, move, read and write its fungespace, stop it) do exactly that. The caller's own position, delta, fungespace and other IPs are unaffected while the library code runs.",
 ["programs", "histories"], "all library contents, letters, stacks and calling contexts",
 ST + " for ROMA; other libraries and contexts are not tried",
 ["src/fingerprint/FingerprintFungeLib.cpp", "src/fingerprint/FingerprintDynamic.cpp", "fing"],
 [("library lookup", "src/fingerprint/FingerprintFungeLib.cpp factory()"), ("call on shared stack", "src/fingerprint/FingerprintFungeLib.cpp execute()")],
 ["per-universe event trace, stacks and position of the caller"], HOOK)

prop("C32", "Random choices are uniform and independent",
 "? sends the IP along each of the 2N cardinal directions of an N-dimensional space with equal probability, the x of ><> and *><> and U of TOYS (up to three dimensions) likewise, and FIXP D returns every integer from 0 to n (or n to 0) with equal probability. Successive choices are independent, and so are the choices of different IPs and of different runs of the same program.",
 ["histories", "programs"], "all random instructions, all numbers of dimensions and limits, all sequences of choices by one IP, by several IPs and in repeated runs",
 "a test sees one choice at a time and cannot tell a fair choice from a fixed one; the guarantee is about the distribution over many runs",
 ["src/FungeStrategy.cpp", "src/include/FungeStrategy.h", "src/Unefunge93Strategy.cpp", "src/FishStrategy.cpp", "src/fingerprint/FingerprintFIXP.cpp", "src/fingerprint/FingerprintTOYS.cpp"],
 [("generator of each IP", "src/FungeStrategy.cpp random()"), ("generators of fingerprints", "src/fingerprint/Fingerprint{FIXP,TOYS}.cpp")],
 ["delta or value left by each random instruction"], HOOK)

prop("C33", "A terminal is read key by key and left as it was found",
 "When standard input is a terminal, & and ~ (and i of ><> and *><>) receive each key as it is typed, without waiting for the end of a line. Whenever the interpreter is not waiting for a key, and after it has ended, the terminal has exactly the settings it had before, also when several IPs read in native threads.",
 ["programs", "inputs", "schedules"], "all programs and keys, all ways a program ends normally, all interleavings of reading threads",
 "the tests feed standard input from a file or pipe; no test uses a terminal",
 ["src/util/ScopedTermios.cpp", "src/Unefunge93Strategy.cpp", "src/FishStrategy.cpp"],
 [("scoped terminal settings", "src/util/ScopedTermios.cpp"), ("readers", "src/Unefunge93Strategy.cpp instructionNumIn(), instructionCharIn(); src/FishStrategy.cpp instructionIn()")],
 ["terminal settings before each instruction and after the end", "values read"], HOOK)

prop("C34", "Output is written completely, in order and in time",
 "Everything a program writes to standard output arrives there in the order in which the instructions were executed (with native threads: in each IP's order), and all of it arrives however the program ends. Output written before an external command runs (=, PERL) is there before the command can write its own, and at a terminal output is visible before the program waits for a key.",
 ["programs", "inputs", "schedules"], "all interleavings of output with input, external commands, other threads and all ways a program ends",
 "the tests compare the whole output of programs after they have ended; none mixes it with commands or a terminal",
 ["src/Unefunge93Strategy.cpp", "src/Unefunge98Strategy.cpp", "src/FishStrategy.cpp", "src/fingerprint/FingerprintPERL.cpp"],
 [("output instructions", "src/Unefunge93Strategy.cpp instructionCharOut(), instructionNumOut()"), ("flush before a command", "src/Unefunge98Strategy.cpp instructionExecute(); src/fingerprint/FingerprintPERL.cpp perl()")],
 ["standard output at the end and when a command runs", "a terminal as standard output"], HOOK)

prop("C35", "Resources are given back: what repeats does not grow",
 "A program that comes back to the same state again and again (the same IPs, stacks, bindings, fungespace and files) runs for ever in bounded memory, with a bounded number of open files and threads, in either threading mode and in every dialect. Whatever an ended IP, a dropped stack or value, an unloaded or reloaded fingerprint, a file operation, a command or an instruction written in Funge used is given back when it is done, not at the end of the program.",
 ["programs", "histories", "schedules"], "all programs that repeat a state, for any number of repetitions, in both threading modes",
 "the tests run each program once and for a moment; what is lost in each round shows only after many rounds and in no output",
 ["src/FungeUniverse.cpp", "src/FungeRunner.cpp", "src/FungeStateNormal.cpp", "src/FingerprintStrategy.cpp", "src/StackStack.cpp", "src/fingerprint"],
 [("ended IPs", "src/FungeUniverse.cpp operator()(), finish(), reap()"), ("bindings", "src/FungeStateNormal.cpp pushSemantic(), popSemantic()"), ("loaded fingerprints", "src/FingerprintStrategy.cpp load(), unload()")],
 ["live heap bytes, open files, threads and address space whenever the first IP is at the origin"], HOOK)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
