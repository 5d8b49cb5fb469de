#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of every property lives here)."""
import json,os
L="lib/libloong/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":[os.path.normpath(L+f) for f in files],"mechanism":[{"name":n,"where":os.path.normpath(L+w)} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":os.path.normpath(L+w)} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Guest instructions cannot touch memory outside the guest's arena",
 "Whatever instruction a guest executes and whatever its register operands are, every load, store, atomic and vector access either touches only the guest's own memory arena or ends in a memory-protection exception. An access that starts inside the arena may extend into the library's own 64-byte guard tail behind it, nowhere else. Memory below the start of the guest's writable region is never modified by a guest instruction and memory below the readable region is never read. An access that is refused changes no guest memory and no register.",
 ["inputs","programs"],"every memory-accessing instruction, every base/offset/index operand around every region boundary (and wrapping around 2^64), every execution mode",
 "The tests perform accesses in the middle of the arena; the boundaries of each of the ~80 access instructions x region edges x modes are not sampled.",
 ["la_instr_impl.hpp","la_instr_atomic.hpp","bytecode_impl.cpp","memory_inline.hpp","memory.hpp"],
 [("range checks on every access","memory_inline.hpp"),("over-allocated arena tail","memory.cpp"),("protection fault exception","memory_rw.cpp")],
 ["Machine::simulate","Memory::read/write","guest memory and registers after the instruction"])
p("C02","Host-side memory API is bounds-checked for every address and length",
 "Every host-facing memory operation (copying in and out, filling, comparing, typed and string views, string length, stack pushes for calls) either works on exactly the requested guest range or throws a memory-protection exception with nothing modified. A range is accepted exactly when all of it lies inside the readable (for writes: writable) guest memory, for every start address and length including lengths and element counts that overflow 64 bits. Bytes outside the requested range are never read into the result or changed. (A typed read or write of one fixed-size value is checked by its start address and may extend into the library's 64-byte guard tail; an empty range outside memory may be accepted or refused.)",
 ["inputs"],"all combinations of start addresses and lengths drawn from every region edge +-1, 2^32, 2^63 and 2^64 edges, for every operation",
 "Tests copy small buffers at valid addresses; ranges that start inside and end outside, or whose end wraps, are never tried.",
 ["memory.hpp","memory_inline.hpp","memory_rw.cpp","memory.cpp","machine_vmcall.hpp"],
 [("bulk range checks","memory_rw.cpp"),("array views","memory_inline.hpp"),("string helpers","memory.cpp")],
 ["Memory::copy_to_guest, copy_from_guest, memset, memcmp, memarray, writable_memarray, memview, memstring, strlen"])
p("C03","Integer and bit-manipulation instructions compute what LoongArch specifies",
 "For every integer arithmetic, logic, shift, bit-field, multiply/divide, CRC, conditional-select, address-forming and count instruction the interpreter supports, the destination register receives exactly the value the LoongArch manual defines for the operands and nothing else changes. This holds for every register assignment (including equal source and destination), every immediate and every operand value, including division by zero and the most negative integer, which never crash the host.",
 ["inputs","programs"],"all instructions x operand-value grid of bit-pattern corners squared x register aliasing patterns x all immediates",
 "Unit tests check one or two values per instruction with distinct registers; corner operands, aliasing, full immediate ranges and rarely-used opcodes are untested.",
 ["la_instr_impl.hpp","la64.cpp","bytecode_impl.cpp","threaded_rewriter.cpp","threaded_bytecodes.hpp"],
 [("instruction handlers","la_instr_impl.hpp"),("fast-path bytecodes","bytecode_impl.cpp"),("operand packing","threaded_rewriter.cpp")],
 ["Machine::simulate on generated code","register file after the instruction"])
p("C04","Loads, stores and atomics move exactly the specified bytes",
 "Every scalar, indexed, pointer-sized, vector, load-linked/store-conditional and atomic read-modify-write instruction accesses exactly the effective address and width the LoongArch manual defines, sign- or zero-extends what it loads as specified, and leaves all other memory and registers unchanged. A store-conditional succeeds only when the matching reservation is still held, and atomics return the old memory value.",
 ["inputs","programs"],"all access instructions x all offset immediates at field corners x operand values x aliasing, and all LL/SC/store sequences up to a depth",
 "Tests exercise one aligned access each; extension, negative and maximal offsets, index registers, aliasing and reservation histories are not enumerated.",
 ["la_instr_impl.hpp","la_instr_atomic.hpp","bytecode_impl.cpp"],
 [("load/store handlers","la_instr_impl.hpp"),("atomic handlers","la_instr_atomic.hpp"),("reservation flag","cpu.hpp")],
 ["guest memory, registers after execution"])
p("C05","Branches, jumps and calls transfer control exactly as specified",
 "For every branch, jump and call instruction, every operand value and every offset the encoding can express, execution continues at exactly the address the LoongArch manual defines and the link register (if any) receives exactly the address of the next instruction. A target outside executable guest code raises an exception instead of running anything else.",
 ["inputs","programs"],"every branch kind x taken/not-taken operand pairs x offset corners up to the full field width x code-segment positions",
 "Tests branch a few instructions ahead or back; far offsets, boundaries of code segments and link/target register aliasing are not tried.",
 ["la_instr_impl.hpp","bytecode_impl.cpp","threaded_rewriter.cpp","decoder_cache.cpp","threaded_dispatch.cpp","threaded_inaccurate_dispatch.cpp","cpu.cpp"],
 [("branch handlers","la_instr_impl.hpp"),("branch bytecodes","bytecode_impl.cpp"),("segment switch","cpu.cpp")],
 ["cpu.pc(), RA, executed markers"])
p("C06","Scalar floating-point instructions follow IEEE 754 and the LoongArch manual",
 "Every scalar floating-point instruction the interpreter supports (arithmetic, fused multiply-add, compare, classify, convert, round, select, min/max, moves and condition-flag moves) yields the IEEE-754 result the LoongArch manual defines for every operand, including infinities, NaNs, signed zeros, subnormals and out-of-range conversions. No operand value crashes the host or raises an exception.",
 ["inputs"],"every FP instruction x all pairs/triples of an operand grid covering every class boundary, x rounding-relevant values",
 "Tests use a handful of ordinary values; special values and out-of-range conversions are where implementations differ.",
 ["la_instr_impl.hpp","bytecode_impl.cpp"],
 [("FP handlers","la_instr_impl.hpp")],
 ["floating-point registers, condition flags"])
p("C07","128- and 256-bit vector instructions compute every lane as specified",
 "For every 128-bit and 256-bit vector instruction the interpreter supports, every result lane equals what the LoongArch manual defines for the source lanes and immediate, and no other register or memory changes. This holds for every immediate, every lane position, every register aliasing pattern and extreme lane values.",
 ["inputs","programs"],"every vector instruction x all immediates x lane-value corner vectors x aliasing patterns",
 "Tests check a few vector opcodes with one pattern; lane order, immediates, saturation and aliasing are not enumerated.",
 ["la_instr_impl.hpp","bytecode_impl.cpp","la64.cpp"],
 [("vector handlers","la_instr_impl.hpp")],
 ["vector registers, condition flags"])
p("C08","Register zero always reads as zero",
 "No instruction, system call or library operation (guest calls, preemption, threads, signals, program start) ever makes the zero register observable as anything but zero: writing it is discarded, and side effects of the instruction (stores, jumps, exceptions) still happen.",
 ["programs","inputs"],"every instruction encoding with a general-register destination of zero, in every execution mode, followed by a read of register zero",
 "Compilers rarely emit writes to the zero register, so tests never look; the guarantee is per handler and per fast path.",
 ["la_instr_impl.hpp","bytecode_impl.cpp","threaded_rewriter.cpp","la64.cpp"],
 [("per-handler destination checks","la_instr_impl.hpp")],
 ["cpu.reg(0) and dependent instructions after each instruction"])
p("C09","All execution modes give the same result",
 "Running the same guest code with instruction counting, without instruction counting, by single-stepping, and in slices that are paused and resumed at any instruction gives the same registers, memory, exceptions and final program counter. Rewriting code into a faster internal form never changes what the program does.",
 ["programs","schedules"],"all short programs over an alphabet of instruction forms (each rewritten form included), all pause points, all modes",
 "Tests run one mode per program; fast-path selection depends on neighbouring instructions and operand shapes that no fixed program covers.",
 ["threaded_rewriter.cpp","bytecode_impl.cpp","threaded_dispatch.cpp","threaded_inaccurate_dispatch.cpp","decoder_cache.cpp","cpu.cpp"],
 [("bytecode rewriter","threaded_rewriter.cpp"),("two dispatch loops","threaded_dispatch.cpp"),("precise stepping","cpu.cpp")],
 ["registers, memory, pc, exceptions"])
p("C10","Instruction budgets stop any guest and resuming loses nothing",
 "A run with an instruction budget always ends within that budget plus at most one straight-line block (code reached without a taken jump), whatever the guest code does, and reports whether it was cut off. The instruction counter never decreases or undercounts, and resuming a cut-off run continues exactly where it stopped, so that any way of slicing a run executes the same instruction sequence. Stopping from a system call ends the run at that call.",
 ["programs","schedules"],"all small control-flow graphs and long straight-line blocks, every budget 0..N, all slicings",
 "Tests use a few budgets on loops; block lengths that overflow internal counters, zero budgets and slice boundaries at each instruction are not covered.",
 ["threaded_dispatch.cpp","instruction_counter.hpp","decoder_cache.cpp","decoder_cache.hpp","machine_inline.hpp"],
 [("block-wise counting","decoder_cache.cpp"),("limit check at branches","threaded_dispatch.cpp")],
 ["Machine::simulate return value, instruction_counter(), pc"])
p("C11","Calling guest functions follows the calling convention and is re-entrant",
 "A host call into a guest function passes every argument in the register or stack slot the LoongArch calling convention defines, with strings and structures copied intact to an aligned stack, and returns the function's result in the requested type. Repeated, nested, timed and preempted calls never corrupt each other: stack use is released, saved registers are restored when asked for, and a call that exceeds its instruction limit throws without leaving the machine unusable.",
 ["programs","histories"],"all argument lists up to a length over all argument kinds, all call nestings up to a depth, all instruction limits",
 "Tests call a few signatures once; argument-kind orders, nesting and interruption at each instruction are combinatorial.",
 ["machine_vmcall.hpp","machine_inline.hpp"],
 [("argument marshalling","machine_vmcall.hpp"),("stack push","machine_vmcall.hpp")],
 ["guest registers and stack at function entry, return values"])
p("C12","The ELF loader loads valid programs exactly and survives any file",
 "For every byte string offered as a program, loading either throws the library's exception or produces a machine whose memory holds exactly the file's loadable segments (zero-filled where the file says so) at their addresses, with the file's entry point and symbols. It never reads outside the file, writes outside guest memory, hangs or crashes the host. A program that is refused leaves no guest memory allocated, and memory the host provided stays the host's.",
 ["inputs"],"every single-field and every pairwise mutation of header, program-header, section-header and symbol fields over boundary values, and every truncation length, of well-formed images",
 "Tests load well-formed binaries; field combinations that wrap or point past the end are not tried.",
 ["elf_loader.cpp","memory.cpp","elf.hpp","decoder_cache.cpp"],
 [("header and segment validation","elf_loader.cpp"),("symbol table parsing","memory.cpp")],
 ["Machine construction, guest memory, address_of/lookup_symbol"])
p("C13","Shared execute segments are safe under all thread interleavings",
 "When several host threads create, run, query and destroy machines that share decoded code, every interleaving leaves each machine executing exactly the code of its own program, with no data race, no deadlock, no use of freed code and at most one live copy per distinct (address, content, configuration). Releasing the last user of a shared segment makes it reclaimable.",
 ["schedules","histories"],"all interleavings (up to a preemption bound) of 2-3 threads creating/running/evicting/destroying machines, and all operation sequences on the sharing cache",
 "The sharing tests run a few threads on the host scheduler, which visits a tiny part of the interleavings, and races rarely show.",
 ["shared_exec_segment.hpp","shared_exec_segment.cpp","memory.cpp","decoded_exec_segment.cpp"],
 [("cache mutexes","shared_exec_segment.hpp"),("double-checked creation","memory.cpp")],
 ["segment identity, use counts, guest results per thread"])
p("C14","The guest heap never hands out overlapping, misplaced or lost memory",
 "For every sequence of allocate, zero-allocate, reallocate and free calls, live blocks never overlap, are 16-byte aligned, lie inside the heap and have at least the requested size; reallocation keeps contents, failed requests change nothing, and an allocation fails only when no free range is large enough. Freed space is always coalesced and reusable, usage statistics equal the live blocks, and pointers that are not live blocks are rejected.",
 ["histories","inputs"],"all reachable heap layouts of small heaps with every operation from each (closed state space), all operation sequences up to a depth, oversize and overflowing requests",
 "Tests perform a few allocations in a large heap; fragmentation layouts, exhaustion and overflow requests are combinatorial.",
 ["native/heap.hpp","machine_accelerate.cpp"],
 [("chunk list with split/merge","native/heap.hpp"),("guest heap system calls","machine_accelerate.cpp")],
 ["Arena::malloc/realloc/free/size/bytes_used/bytes_free","guest malloc/calloc/realloc/free calls"])
p("C15","Accelerated C library functions behave like the C functions they replace",
 "Each natively accelerated memory and string function gives the guest the result the C standard defines for the same arguments (for comparisons, the same sign) and changes exactly the bytes the C function would change, for every content, length, alignment and overlap. Ranges that leave guest memory raise a protection exception with nothing outside the guest touched.",
 ["inputs"],"all string/buffer contents over a small alphabet up to a length, all lengths, offsets, overlaps, and ranges at memory edges",
 "Tests call each function on one or two buffers.",
 ["machine_accelerate.cpp","memory.cpp"],
 [("native memory and string handlers","machine_accelerate.cpp")],
 ["result register, guest memory"])
p("C16","Memory-mapping and break requests give disjoint ranges inside guest memory",
 "For every sequence of map, unmap, remap and break requests, every address range the guest is granted lies entirely inside its memory above the program's own data, is page-aligned, and does not overlap any other live range, the heap area or the stack; fresh anonymous mappings read as zero. Requests that cannot be satisfied report an error and change nothing, whatever the size.",
 ["histories","inputs"],"all sequences of map/unmap/remap/break calls up to a depth over sizes from 0 to 2^64-1 and granted/foreign addresses",
 "Tests map once or twice; exhaustion, huge sizes, reuse after unmapping and orders of unmapping are not enumerated.",
 ["memory.cpp","linux/syscalls.cpp","elf_loader.cpp"],
 [("mmap bump allocator","memory.cpp"),("mmap/munmap/mremap/brk system calls","linux/syscalls.cpp")],
 ["system-call results, guest memory"])
p("C17","Guest threads and futexes never lose wakeups, threads or register state",
 "For every interleaving point and every sequence of clone, yield, futex wait/wake, kill and exit by guest threads, each live thread is exactly one of running, ready or blocked, only live threads run, each resumes with exactly the registers it stopped with, a waiter blocks exactly when the futex word has the expected value, and a wake releases the requested number of waiters on that address. When a thread exits, the word it registered is cleared and its waiters are woken, and a state in which nothing can run is reported rather than looping or crashing.",
 ["histories","schedules"],"all sequences of thread operations up to a depth with up to 3-4 threads and 2 futex words, against a reference scheduler",
 "Tests run at most one fixed pthread program; orders of block/wake/exit are combinatorial.",
 ["posix/threads.cpp","posix/threads.hpp","linux/syscalls_threads.cpp"],
 [("thread lists and switch","posix/threads.cpp"),("futex and clone system calls","linux/syscalls_threads.cpp")],
 ["machine.threads(), registers after each system call"])
p("C18","Signal handlers run with the right arguments and return to the interrupted state",
 "Installing, querying, blocking and delivering signals follows the Linux LoongArch interface for every signal number and handler kind: the handler runs with the signal number, on the alternate stack when requested, and when it returns every register and the program counter are exactly as at delivery. Invalid signal numbers and pointers produce an error code or exception and never corrupt host or guest state.",
 ["histories","inputs"],"all sequences of sigaction/sigaltstack/kill/return up to a depth, all signal numbers and boundary values, nested delivery",
 "Only a single signal program exists and it is not part of the automated tests.",
 ["posix/signals.cpp","posix/signals.hpp","linux/syscalls.cpp","linux/syscalls_threads.cpp"],
 [("signal entry and return","posix/signals.cpp")],
 ["registers and memory at handler entry and after return"])
p("C19","System calls keep the guest confined and return Linux results",
 "Whatever arguments a guest passes to any system call the library installs, the call reads and writes only guest memory ranges it was given, never blocks forever or crashes the host, and either returns a Linux-style result or raises the library's exception. The guest cannot obtain host file contents, uninitialised host memory or effects on the host beyond writing to its own standard output and error.",
 ["inputs","fault_sequences"],"every installed system call x all combinations of boundary argument values (null, unaligned, region edges, wrapping lengths, bad descriptors)",
 "Tests only make the calls a C library start-up makes, with valid arguments.",
 ["linux/syscalls.cpp","linux/syscalls_threads.cpp"],
 [("system-call handlers","linux/syscalls.cpp")],
 ["A0 after the call, guest memory, host system calls made"])
p("C20","Every instruction word is executed as what it is, or refused",
 "For every 32-bit instruction word, decoding and disassembly terminate without touching memory they should not, and executing the word either has the effect of the instruction the LoongArch manual assigns to that encoding or raises an exception. An encoding that is reserved or unsupported is never executed as some other instruction.",
 ["inputs"],"all 2^22 opcode prefixes (every value of bits 31..10) with operand fields varied",
 "Tests decode the words compilers emit.",
 ["la64.cpp","la_instr_printers.hpp","decoder_cache.cpp"],
 [("decoder tables","la64.cpp"),("disassembly printers","la_instr_printers.hpp")],
 ["CPU::decode, instruction printing, executed effect"])
p("C21","Host views of guest containers stay consistent with guest memory",
 "Creating, growing, shrinking, clearing, assigning, moving and freeing guest C++ and Rust strings, vectors and scoped guest objects from the host always leaves a structure the guest's own library accepts, with exactly the elements a host container would hold after the same operations. Every guest heap block they use is released exactly once, and inconsistent structures supplied by a guest are refused with an exception rather than followed out of guest memory.",
 ["histories","inputs"],"all operation sequences up to a depth on each container kind, with lengths around the small-string and capacity limits, and boundary-value corruptions of the structures",
 "Tests push a few elements; capacity growth, move, empty and failure states are not enumerated.",
 ["guest_datatypes.hpp"],
 [("string/vector views","guest_datatypes.hpp"),("scoped ownership","guest_datatypes.hpp")],
 ["guest memory bytes, Arena accounting"])
p("C22","Binary translation gives the same results as interpretation",
 "With binary translation enabled, every program has the same registers, memory, exceptions, control flow and instruction-limit behaviour as with the interpreter.",
 ["programs","inputs"],"each translatable instruction form x operand grid, and all short programs over an alphabet of forms, translated and interpreted side by side",
 "The test suite never runs translated code here (the translator's compiler is fetched from the network).",
 ["tr_emit.cpp","tr_translate.cpp","tr_api.cpp","tr_compiler.cpp"],
 [("C code emission","tr_emit.cpp"),("block discovery","tr_translate.cpp")],
 ["registers and memory after execution"])
p("C23","Machines are isolated from each other, from the past and from stale code",
 "Creating, resetting, destroying or running one machine never changes the memory, registers, code or results of another, and a machine behaves the same whatever ran before it in the process. After a machine's code is replaced (new code installed at the same address, segments evicted, memory reset) execution uses the new code, never stale decoded instructions.",
 ["histories"],"all interleaved operation sequences up to a depth on two or three machines, including machines with equal addresses and different code, sizes or options",
 "Tests create machines one at a time; hidden process-wide state only shows in multi-machine histories.",
 ["memory.cpp","machine.cpp","cpu.cpp","shared_exec_segment.hpp","decoded_exec_segment.cpp"],
 [("segment cache key","shared_exec_segment.hpp"),("segment ownership","memory.cpp")],
 ["guest results per machine"])
p("C24","Masked-memory builds confine every guest access to the arena",
 "When the library is built with a power-of-two masked arena, every guest load, store, atomic and vector access at every address touches only the arena (and its guard tail), and accesses to in-range addresses behave exactly as in the checked build.",
 ["inputs","configurations"],"every access instruction x addresses at every power-of-two and arena edge, in every execution mode",
 "No test runs a masked build.",
 ["memory_inline.hpp","memory.hpp","memory.cpp","bytecode_impl.cpp"],
 [("address masking","memory_inline.hpp")],
 ["arena bytes, guard pages"])
p("C25","Programs start with the Linux process environment they were given",
 "For every list of arguments and environment strings, program start-up lays out argument count, pointers, strings, environment and auxiliary vector on a 16-byte aligned stack exactly as the Linux ABI defines, reading back to the same strings. When they do not fit in the guest's stack memory an exception is raised and nothing outside the stack is overwritten.",
 ["inputs"],"all lists of up to a few arguments/environment strings over all lengths around alignment boundaries, and all available stack sizes up to the exact requirement",
 "Tests pass one or two short arguments; alignment and size combinations are not enumerated.",
 ["machine.cpp","elf_loader.cpp"],
 [("initial stack construction","machine.cpp")],
 ["guest stack memory, SP"])
p("C26","An exception leaves the machine consistent and usable",
 "When an instruction or system call raises an exception, everything executed before it has taken full effect, the faulting instruction has not, and the program counter identifies the faulting instruction in every execution mode. Afterwards the host can inspect, redirect and run the machine again with correct results.",
 ["programs","fault_sequences"],"every kind of fault at every position of short programs, in every mode, followed by re-execution",
 "Tests only check that an exception type is thrown.",
 ["threaded_dispatch.cpp","threaded_inaccurate_dispatch.cpp","cpu.cpp","bytecode_impl.cpp"],
 [("exception exit of dispatch loops","threaded_dispatch.cpp")],
 ["pc, registers, memory after the exception"])
p("C27","The host can inspect any code: backtraces, symbols and disassembly are safe",
 "Looking up symbols, producing backtraces and disassembling code give the right symbol for every address and never read outside guest memory or fail to terminate, for every register state, symbol table and code content.",
 ["inputs"],"all small symbol tables x all query addresses, all return-address/stack states at region edges, all opcode prefixes",
 "Tests look up a couple of known functions.",
 ["machine_backtrace.cpp","memory.cpp","debug.cpp","la_instr_printers.hpp"],
 [("symbol search","memory.cpp"),("backtrace","machine_backtrace.cpp")],
 ["lookup_symbol, address_of, backtrace, to_string"])
p("C28","Code checksums agree on every machine",
 "The checksum used to identify code is the standard CRC-32C of the bytes for every content, length, alignment and initial value, and the hardware-assisted and portable implementations always agree.",
 ["inputs"],"all contents of short lengths over bit patterns, all lengths 0..N at all alignments, all single-bit contents (the checksum is linear)",
 "Tests compute a few checksums with whichever implementation the host selects.",
 ["util/crc32.hpp","util/crc32c.cpp"],
 [("CRC-32C implementations","util/crc32c.cpp")],
 ["util::crc32c results"])
p("C29","Programs run under the debug wrapper behave exactly as they do without it",
 "For every program, budget and history of earlier runs, running under the debug wrapper leaves the registers, memory, program counter, instruction count, exceptions and stop report that executing the same instructions one at a time leaves, whether or not it prints instructions or registers, and resuming continues where it stopped. Calling a guest function through the debug wrapper returns what a normal call returns, with aligned stack and intact text arguments, and stops at its instruction limit.",
 ["programs","inputs"],"all short programs over a representative alphabet x all budgets x resumption x earlier runs x printing, and all short sequences of debug calls over argument kinds and limits",
 "Tests use the debug wrapper on one or two programs, mostly to look at its output.",
 ["debug.cpp","debug.hpp"],
 [("debug simulation loop","debug.cpp"),("debug calls","debug.hpp")],
 ["registers, memory, pc, instruction counter and stop state after DebugMachine::simulate and vmcall"])
p("C30","Host-defined system calls receive exactly the guest's arguments and deliver exactly their results",
 "A handler that the host installs for a system call number is called exactly once per call of that number, in every execution mode and for both ways of calling, and receives for every signature of integers, enumerations, booleans, floating-point values, strings, views, structures and pointers exactly what the guest put in its argument registers: integers and pointers in a0-a7, a view in two of them, floating-point values in fa0-fa7, each counted on its own. Arguments that lie outside of guest memory raise a machine exception and are never handed over. A result is delivered as the LoongArch ABI says (32-bit values sign-extended, smaller ones according to their type, floating-point values in fa0), and nothing else in the guest changes. Numbers without a handler reach the unknown-call handler, registering out of range changes nothing, the host's clock reaches the register that asked, data pushed on the guest's stack is aligned and intact, and a machine placed in front of its guest memory does not overlap it.",
 ["inputs","programs"],"every signature of one and two arguments over 19 types, of three over six and long ones x argument values at the edges of types and memory x execution modes; every system call number",
 "Tests install one or two handlers with integers and a string; the register that each argument comes from depends on all those before it.",
 ["machine_inline.hpp","machine.hpp","machine.cpp","machine_vmcall.hpp"],
 [("argument and result passing","machine_inline.hpp"),("handler table","machine.cpp"),("stack pushes","machine_vmcall.hpp")],
 ["Machine::sysargs, sysarg, set_result, return_value, install_syscall_handler, stack_push; guest registers and memory after the call"])
p("C31","The emulator runs a program with the outcome the program has, whatever its options",
 "The laemu command runs any program file with exactly the output the program writes, reports its exit code (also as its own exit status, modulo 256), fault or exceeded limit, and stops at the given instruction limit and memory size and no earlier, for every combination of options and of their spellings; options that change reporting (silent, timing, statistics, verbose, precise) do not change the program's outcome. All arguments behind the program's name reach the program unchanged. Files that are not programs, sizes that cannot be had and wrong options are refused with an error and a failing status, never with a crash.",
 ["inputs","configurations"],"all programs of a list x all subsets of options and spellings x limits around the program's length; all lists of up to two arguments over difficult texts; memory sizes x accesses; all cut and mutated program files",
 "The emulator's command line has no tests.",
 ["../../emulator/src/main.cpp","machine_bytecode_stats.cpp","machine.cpp","machine_inline.hpp"],
 [("option parsing and reporting","../../emulator/src/main.cpp"),("statistics","machine_bytecode_stats.cpp")],
 ["stdout, stderr and exit status of laemu"])
P.sort(key=lambda x:x["id"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
