import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,obs=None,hook=None):
    if len(title)>80: print("LONG",title)
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=obs or [],hook_needed=hook)))
T="The only test in the tree checks seven values of two alignment helpers; nothing executes this code at all."
def m(n,w): return dict(name=n,where=w)

p("C01","Arithmetic, logic and shift instructions compute the right result and flags",
  "For every operand value, add, sub, and, or, xor, shl, asr, lsr, mul and div on byte and on wide registers write the exact result reduced to the operand width (mul: first destination the upper half, second the lower half; div: quotient, then remainder; shift amounts count modulo the operand width) and change no other register. Every operation but div sets zero and sign from the (lower half of the) result, carry and overflow to unsigned and signed out-of-range for add and sub, both to 'upper half is non-zero' for mul and both to clear for the rest; div leaves the flags alone. Division by zero is a zero-division trap that changes no destination register.",
  ["inputs"],"all opcodes of the group, all register operands including aliased ones, all operand values (bytes: all 65 536 pairs per operation)",
  T,["src/blf4/isa/handlers.rs","src/blf4/mod.rs"],
  [m("binop_b/binop_w pair an unsigned and a signed overflowing operation","src/blf4/isa/handlers.rs"),m("mul_*/div_*","src/blf4/isa/handlers.rs")],
  obs=["register file and flags after one executed instruction"])
p("C02","Byte and wide registers are consistent views of one register file",
  "Registers r1-r5 are each two independently writable byte registers (l, h), r6-r10 each have one byte view that reads the low byte and clears the high byte when written, and r0/r0b always read zero and ignore writes. Whatever sequence of byte and wide writes is executed, every later read of any view returns the last value written through any view of the same register, and no write changes another register.",
  ["histories","inputs"],"all sequences of byte/wide register writes and reads through executed instructions",
  T,["src/blf4/mod.rs","src/blf4/register_type.rs"],
  [m("read_br/write_br/read_wr/write_wr index mapping","src/blf4/mod.rs")],
  state=[dict(name="general purpose registers",meaning="20 bytes backing r1..r10",where="src/blf4/mod.rs")],obs=["all 16 byte views and 16 wide views after every step"])
p("C03","Jumps, calls and returns go exactly where the flags and operands say",
  "A conditional jump is taken exactly when its documented flag condition holds and otherwise execution continues with the next instruction; an unconditional jump goes to its immediate or register operand. A call stores the address of the following instruction in the link register and goes to its target; a return goes to the link register and adds its byte operand to the stack pointer. None of them changes any other register, any flag or memory, and addresses wrap modulo 65 536.",
  ["inputs","programs"],"all flag combinations, all jump opcodes, all targets and all code positions including the end of the address space",
  T,["src/blf4/isa/handlers.rs"],[m("jif and the j* condition functions","src/blf4/isa/handlers.rs"),m("call/ret/ldi_w","src/blf4/isa/handlers.rs")],obs=["program counter, link, stack pointer after one step"])
p("C04","Loads, stores, pushes and pops move exactly the addressed bytes",
  "A load or store accesses the byte or little-endian wide at base plus offset modulo 65 536 and touches no other memory; a push decrements the stack pointer by the operand size and then stores there, a pop loads from the stack pointer and then increments it by the operand size. In any sequence of these instructions, what is loaded or popped is what was last stored or pushed at those addresses, for every address including wrap-around at either end.",
  ["histories","inputs"],"all sequences of load/store/push/pop with arbitrary registers, offsets and stack pointers",
  T,["src/blf4/mod.rs","src/blf4/isa/handlers.rs"],[m("read_wide/write_wide/pushw/pushb/popw/popb","src/blf4/mod.rs"),m("load_*/store_*/push_*/pop_*","src/blf4/isa/handlers.rs")],obs=["registers and changed memory bytes per step"])
p("C05","Any byte sequence in any machine state executes or traps, never crashes",
  "From every register, flag and memory state, executing one instruction terminates and either completes or reports a defined trap; it never aborts the emulator. The opcode alone determines which operand bytes are consumed; opcodes without a meaning, and a non-zero unused operand nibble or an unknown ldi variant, raise the invalid-instruction trap without changing registers (other than the program counter), flags or memory.",
  ["inputs","programs"],"all 256 opcodes, all operand bytes, arbitrary machine states in direct and virtual mode",
  T,["src/blf4/mod.rs","src/blf4/isa/mod.rs","src/blf4/isa/handlers.rs"],[m("OP_HANDLERS table defaulting to the invalid handler","src/blf4/isa/handlers.rs"),m("wrapping address arithmetic","src/blf4/mod.rs")],obs=["outcome of each step, panics included"])
p("C06","Virtual addresses translate by the two-level page table, with exact faults",
  "With virtual memory on, every fetch, load and store of address A reaches exactly the physical byte that the two page-table entries selected by A's 4-bit and 5-bit page numbers designate, with A's 7-bit offset. A missing first- or second-level entry raises the level-1 or level-2 page fault, an entry without the needed execute, write or read permission at either level raises the matching illegal-access trap, and the access then does not happen; with virtual memory off addresses are physical. A multi-byte access translates each byte separately.",
  ["inputs","configurations"],"all page-table contents (all permission-bit combinations at both levels), all virtual addresses, all access kinds, both privilege modes",
  T,["src/blf4/mod.rs"],[m("addr_resolve and read_entry","src/blf4/mod.rs")],state=[dict(name="page tables",meaning="16-entry top level at rp, 32-entry second level",where="guest memory")],obs=["trap, registers and changed memory per step"])
p("C07","A virtual write marks both page-table entries dirty, and nothing else does",
  "After a store or push through virtual memory succeeds, the dirty bit is set in both page-table entries used to translate it, and those two bits and the stored bytes are all that changed in memory. Reads, fetches and faulting accesses never modify a page-table entry, and no access ever changes an entry's frame number or permission bits.",
  ["histories","configurations"],"all combinations of permission and dirty bits at both levels and all sequences of accesses",
  T,["src/blf4/mod.rs"],[m("dirty-bit write-back in addr_resolve","src/blf4/mod.rs")],obs=["changed memory bytes per step"])
p("C08","User mode cannot touch privileged state or memory not mapped for user mode",
  "While in user mode no instruction can read or write the page-table pointer or trap-handler pointer, switch virtual memory, access physical memory directly or set user mode again (each raises the illegal-operation trap and has no effect on that state), and no fetch, load or store succeeds on a page that lacks the user flag at either table level. User mode is left only by taking a trap, and a return from a handler never gives more privilege than was held when the trap was taken.",
  ["programs","configurations","histories"],"all instruction sequences executed in user mode, all page tables",
  T,["src/blf4/mod.rs","src/blf4/isa/handlers.rs"],[m("user_mode guards in read_wr/write_wr and privileged handlers","src/blf4/mod.rs, src/blf4/isa/handlers.rs"),m("U-bit check in read_entry","src/blf4/mod.rs")],obs=["mode flags, rp, rh and changed memory per step"])
p("C09","Traps save the interrupted context and handler return restores it exactly",
  "When a trap occurs and a trap handler is set, every register, the flags and the program counter as they were at the trap are pushed to the stack, the machine is in supervisor mode with the trap flag set, r1 holds the trap number and execution continues at the handler - whatever raised the trap, including a fault while fetching the instruction. A handler return with the trap flag set restores all of them, mode included, and clears the trap flag; without the trap flag it is an illegal-handler-return trap. With no handler set the step reports the trap to its caller.",
  ["histories","programs"],"all trap causes, all machine states, nested traps and handler bodies",
  T,["src/blf4/mod.rs","src/blf4/isa/handlers.rs"],[m("execute_instruction trap path, push_registers/pop_registers, reth","src/blf4/mod.rs")],obs=["full register state and stack memory after trap entry and after return"])
p("C10","Physical memory keeps every byte; ROM is read-only and I/O goes to ports",
  "The machine's 24-bit physical memory returns for every RAM address the last value written there (zero initially), never changes another address, ignores writes to the ROM range 0x80-0x7fff, and presents a raw boot image of any length up to the ROM size from 0x80 on, followed by zeros. Accesses below 0x80 go to the I/O ports with the accessed address and value, one port access per memory access and in order, and are never stored.",
  ["histories","inputs"],"all sequences of physical reads and writes over the whole 24-bit space; all raw image sizes",
  T,["src/mem.rs"],[m("LazyMain lazily allocated 64 KiB cells, ROM and ram0","src/mem.rs")],state=[dict(name="cells",meaning="64 KiB blocks allocated on first write",where="src/mem.rs")],obs=["values read back, port access log"])
p("C11","Loading maps exactly the segments, stack and heap, with the right permissions",
  "After an object is loaded, user mode sees every byte of every segment at its address, with execute-only text (readable too if the object asks), read-only rodata, read-write data and heap (the union where segments share a page); the stack area of the requested size at the top and the requested heap size from the heap segment's start are readable and writable. Every other page is unmapped, distinct pages never share a physical frame, page tables are not reachable by the program, and execution starts at the entry point in user mode with virtual memory on.",
  ["inputs","configurations"],"all segment offsets, sizes, overlaps within a page, stack and heap sizes and flag settings",
  T,["src/blf4/std_kernel.rs","src/blf4/std_kernel/load_user_binary.rs"],[m("MmapBuilder::add_segment/map/map_wr_pages, EKernel::allocate_page","src/blf4/std_kernel.rs"),m("load_user_binary","src/blf4/std_kernel/load_user_binary.rs")],obs=["translation of all 512 virtual pages and physical contents after load"])
p("C12","The kernel services system calls and traps and always resumes in user mode",
  "For a loaded program, system call 3 reads one input byte into r1l, 4 writes r2l to output, and 15 registers the address in r2 as error handler; each leaves all other registers alone and execution continues after the system call. Any other trap except halt resumes at the registered error handler with r1 holding the trap number, or stops the run reporting that trap if none is registered; halt and unknown system calls always stop the run with their own trap. Whenever the program continues it is in user mode with virtual memory on and the trap flag clear.",
  ["programs","histories"],"all user programs and all interleavings of system calls, faults and handler registrations",
  T,["src/blf4/std_kernel.rs","src/machine/mod.rs"],[m("EKernel::handle_trap, Machine::execute_once","src/blf4/std_kernel.rs, src/machine/mod.rs")],state=[dict(name="error handler",meaning="registered address, 0 for none",where="EKernel")],obs=["machine state and port log after every step"])
p("C13","Object files survive a write and re-read unchanged, at any file offset",
  "Writing an object and reading it back yields the same entry point, flags, stack size, heap size, segments (type, address, bytes), symbols (name, scope, segment, value, order) and relocations, whichever of these are present. When the object is written behind a prefix (such as a script header line) the prefix is preserved, the reader reports the prefix length as the object's offset, and the prefix's contents never keep the object from being found.",
  ["inputs"],"all objects within the format's 16-bit limits; all prefixes that do not contain the whole magic",
  T,["src/aalv/mod.rs","src/aalv/obj.rs","src/aalv/obj/sec_impl.rs"],[m("AalvWriter/AalvReader and Section implementations","src/aalv/mod.rs, src/aalv/obj/sec_impl.rs")],obs=["bytes of the written file, object read back"])
p("C14","Truncated or damaged object files are rejected, never half-read or crashed on",
  "Reading any strict prefix of a valid object file is reported as an error. Arbitrary damage (changed, removed or inserted bytes) makes the reader either return an object or report an error; it never crashes, and an object it returns is the one the file holds. A file whose sections are not those of an object - a reserved name without meaning, a section given twice, two segments of one type, a section too short for its content, a segment number or flag that does not exist - is an error. An object whose content does not fit the format's 16-bit section lengths is refused at write time instead of being written wrongly.",
  ["crash_points","inputs","fault_sequences"],"every truncation point of every valid file; single and multiple byte corruptions",
  T,["src/aalv/mod.rs","src/aalv/obj.rs","src/aalv/obj/sec_impl.rs"],[m("terminating zero byte, read windows, section header scan","src/aalv/mod.rs")],obs=["result of reading"])
p("C15","Tools report success only when their output file is complete",
  "If writing an output file fails at any point (no space, size limit, unwritable path), the assembler, linker, archiver and strip tool terminate with a failure status. Whenever one of them reports success the output file it wrote is complete and can be read back as exactly the intended object or archive.",
  ["fault_sequences","crash_points"],"every position at which a write to the output can fail",
  T,["src/aalv/mod.rs","src/bin/tc.rs","src/bin/tl.rs","src/bin/tar.rs","src/bin/tstrip.rs"],[m("AalvWriter::drop writing the terminator, error propagation in the tools","src/aalv/mod.rs, src/bin")],obs=["exit status and output file under a file-size limit"])
p("C16","Archives give back exactly the archived objects, in order",
  "Reading an archive made by the archiver yields the input object files' contents unchanged, in the order given, each exactly once, whatever prefixes the inputs have and however many there are. A file without the archive magic, or an archive cut off inside a member, is reported as an error.",
  ["inputs","crash_points"],"all sequences of valid object files (with and without script header prefix), all truncation points",
  T,["src/aalv/savn.rs","src/bin/tar.rs"],[m("archive iterator over consecutive objects","src/aalv/savn.rs")],obs=["objects yielded"])
p("C17","Linking against archives pulls in exactly the members that are needed",
  "Of the objects in the archives given, the linker includes exactly those reachable by repeatedly adding a not yet included member that defines a global symbol which the input objects or the members included so far mention and none of them defines, or that refers to a global symbol the input objects define. Members not so reachable contribute nothing to the output; included members are linked after the inputs in the order they were selected, each selection being the first such member.",
  ["inputs","configurations"],"all sets of input objects and archives with arbitrary definitions and references",
  T,["src/bin/tl.rs"],[m("read_archives fixpoint loop, DefinedMap","src/bin/tl.rs")],obs=["segments and symbols of the linked output"])
p("C18","Each assembly instruction and literal is encoded exactly as specified",
  "The assembler encodes every instruction form as its opcode byte followed by its registers packed two per byte in operand order (zero-filled) and then its immediate in little-endian order, choosing the byte or wide form from the operand registers; pseudo-forms (jmp, jump, ret without operand, aliases) encode as documented. Decimal, 0x, 0o, 0b, character and b/w-suffixed literals (a trailing b is always the byte suffix) and string escapes produce the denoted bytes, numbers being reduced to the operand width.",
  ["inputs","programs"],"all mnemonics with all operand combinations and literal spellings",
  T,["src/source/mod.rs","src/bin/tc.rs","src/blf4/isa/mod.rs","src/blf4/register_type.rs"],[m("parse_ins, DataOperand parsing, write_data_operand","src/source/mod.rs"),m("parse_number/parse_bytechar","src/source/mod.rs")],obs=["segment bytes of the object file"])
p("C19","Assembled labels, segments and relocations are mutually consistent",
  "In an assembled object each label's value is its segment's start plus the number of bytes emitted before it in that segment, segments start page-aligned without overlapping, and every place where a label was used holds that label's value and is listed in exactly one relocation naming that place and that label (and nothing else is listed). Labels made global, declared references, and undefined global labels appear in the symbol table with that scope, undefined ones without a segment; the entry directive's position becomes the entry point.",
  ["programs"],"all programs: any interleaving of segments, labels, uses before and after definition, includes and directives",
  T,["src/source/mod.rs","src/source/symbols.rs","src/bin/tc.rs"],[m("process, Symbols, label_reads and relocation construction","src/source/mod.rs, src/source/symbols.rs, src/bin/tc.rs")],obs=["symbols, relocations, segments and entry of the object file"])
p("C20","Invalid assembly source is always diagnosed and produces no output",
  "Source with an unknown instruction, directive or segment, wrong operands, a bad literal or escape, a label used but neither defined nor declared, a label defined twice, a second entry point, or code before any segment makes the assembler report an error naming the line of each faulty line, exit with failure and write no object for that file; a declared reference that is also defined and segments that do not fit are reported likewise, without a line. Source without such faults is accepted; no source text makes the assembler crash.",
  ["inputs","programs"],"all source texts",
  T,["src/source/mod.rs","src/source/err.rs","src/source/symbols.rs","src/bin/tc.rs"],[m("error accumulation in SourceLines and process","src/source/mod.rs, src/source/err.rs")],obs=["exit status, reported line numbers, presence of the output file"])
p("C21","Linked segments are the inputs' segments, moved, with every reference patched",
  "Each output segment is the concatenation of the inputs' segments of that type in link order, segments start at multiples of the requested alignment without overlapping, and only relocated places differ from the input bytes. Every relocated place holds the final address of the symbol it names (moved by exactly as much as the piece of segment the symbol lies in), every input relocation reappears moved with its place and naming the same symbol, and the entry point is the first input's entry point, moved, or the one requested.",
  ["inputs","configurations"],"all sets of objects with arbitrary segment sizes, symbols, relocations, entry points and alignments",
  T,["src/bin/tl.rs","src/lib.rs"],[m("layout by total length, running segment offsets, relocation patching","src/bin/tl.rs")],obs=["output object"])
p("C22","Linker symbol resolution: one definition per global name, locals stay separate",
  "References to a global name in any input resolve to the single definition of that name in whichever input defines it, before or after; local symbols of equal name in different inputs are never confused with each other or with globals. Two definitions of a global name, and for an executable any remaining undefined reference or a missing entry point or start symbol, make the linker fail without writing output; a non-executable link keeps undefined references for a later link.",
  ["inputs","configurations"],"all combinations of definitions, references and local symbols across inputs in every order",
  T,["src/bin/tl.rs"],[m("global_symbols map, undefined_references pass","src/bin/tl.rs")],obs=["exit status and output symbols, relocations, bytes"])
p("C23","Linking in stages or after stripping gives the same program as linking at once",
  "Linking some inputs into an intermediate object first and linking that with the rest later yields the same segments, entry point, global symbol values and resolved references as one link of all inputs in the same order. The same holds when internal symbols were erased from the inputs, the intermediate objects or the output, or when inputs come from an archive instead of being named.",
  ["histories","configurations"],"all input sets, all ways of grouping them into stages, with strip steps in between",
  T,["src/bin/tl.rs","src/bin/tstrip.rs","src/aalv/obj.rs"],[m("relocations and symbols retained in non-executable output","src/bin/tl.rs")],obs=["final output objects of both routes"])
p("C24","Disassembly shows the instruction that would execute, without side effects",
  "For every instruction the assembler can produce, at any address, the disassembly names the same operation, operand registers and immediate values (or the label at that address) as the encoding holds, shows its address and exactly its bytes, and reports the address of the following instruction and whether it ends the block. Opcodes without a meaning are never shown as an instruction; disassembling never crashes and leaves registers, flags and memory as they were (reading from I/O ports aside).",
  ["inputs"],"all opcodes and operand bytes at all addresses, with and without label lookup",
  T,["src/disassemble.rs","src/blf4/register_type.rs"],[m("disassemble_instruction's per-opcode decoding","src/disassemble.rs")],obs=["text and fields returned, machine state before and after"])
p("C25","Stripping keeps the program and removes only what was asked",
  "Stripping an object keeps its file prefix, entry point, flags, segments and sizes unchanged; the default erases exactly the names of internal symbols and keeps every symbol's scope, segment, value and position and every relocation, while -a removes all symbols and relocations. With -a an object without an entry point is refused and left untouched unless forced.",
  ["inputs"],"all valid objects and option combinations",
  T,["src/bin/tstrip.rs","src/aalv/obj.rs"],[m("inner_main of tstrip","src/bin/tstrip.rs")],obs=["object before and after"])
p("C26","The debugger runs the same execution and stops where the command says",
  "Under the debugger a program goes through the same states, with the same output, as when run directly. Stepping in stops at the very next instruction, next runs a called subroutine to its return before stopping (and at a return stops in the caller), step out stops after the current subroutine has returned; each stop shows the instruction about to execute, and register and memory queries show the machine's current values without changing them.",
  ["programs","histories"],"all programs, inputs and sequences of debugger commands",
  T,["src/bin/tdbg.rs","src/disassemble.rs"],[m("nesting counter in tdbg_loop","src/bin/tdbg.rs")],obs=["debugger output for piped commands"])
p("C27","Object dumps list every symbol and relocation and fail on unreadable input",
  "The object dump lists every symbol with its scope, name, value and segment (or undefined), in order, for each object or archive member given; its disassembly visits the entry point, every global symbol and everything it reaches by falling through or by a displayed label operand, and shows every relocation that lies in a shown instruction. If any input cannot be read the tool exits with a failure status.",
  ["inputs","programs"],"all valid objects and archives; unreadable inputs",
  T,["src/bin/tobjdump.rs","src/disassemble.rs"],[m("symbols(), disassembly() work list, read_objs","src/bin/tobjdump.rs")],obs=["tool output and exit status"])
p("C28","Assemble, link, load and run behave as the source says, however split",
  "Running an assembled and linked program produces the output, consumes the input and ends (with success for halt, otherwise a failure status naming the trap) exactly as the source program prescribes under the instruction set and system call rules. This does not depend on how the source is divided into files, on the order of those files, on the segment alignment (of a page or more, or any for programs that respect permissions), on symbol stripping, or on linking in stages or through an archive.",
  ["programs","configurations"],"all programs within the address space, all splits into files, all tool option combinations",
  T,["src/bin/t.rs","src/bin/tc.rs","src/bin/tl.rs","src/machine/mod.rs","src/blf4/std_kernel.rs"],[m("the whole pipeline","src/bin")],obs=["stdout, exit status, reported termination point"])
p("C29","A raw boot image runs on the bare machine",
  "t -r starts the processor at 0x0080 in supervisor and direct mode with the link register 0x0080 and no trap handler, the image occupying ROM from 0x0080 on (zeros after it, not writable), RAM zero, and the ports below 0x80 connected to standard input and output in program order. From there everything follows the instruction set: the image can build page tables, turn on virtual memory, enter user mode, handle traps itself and return from them; user code gets its privileges back only through the trap handler. The run ends exactly at the first trap that no handler takes, which is reported (success only for halt, otherwise a failure status naming the trap; with -t where it ended).",
  ["inputs","programs"],"all images up to the size of the ROM, all inputs",
  T,["src/bin/t.rs","src/mem.rs","src/machine/mod.rs","src/blf4/mod.rs","src/blf4/isa/handlers.rs"],[m("t -r, LazyMain::with_rom, StdIo, run_until_abort","src/bin/t.rs"),m("trap entry and return","src/blf4/mod.rs")],obs=["stdout, exit status, reported termination point"])
p("C30","The listing of the memory map tells the truth",
  "System call 0 writes the memory map: with translation on, one line for each page whose entries are present in both table levels, in address order, with its page address, its frame and its rights - a capital letter (U, X, W, R) where the second level grants the right, followed by an exclamation mark when the first level does not, a small letter where only the first level grants it, nothing where neither does - so that the capital letters without mark are exactly what user code may do there; with translation off the single line of the direct mapping. For a loaded program the pages listed are those of its segments, heap and stack with their permissions, each with a frame of its own. Listing changes no register, flag or memory, and the program goes on, with its other output before and after in order.",
  ["inputs","programs"],"all contents of the page tables, all modes, all loadable programs",
  T,["src/blf4/mod.rs","src/blf4/std_kernel.rs"],[m("print_mmap","src/blf4/mod.rs"),m("system call 0","src/blf4/std_kernel.rs")],obs=["stdout","machine state after the call"])
p("C31","The assembler warns of exactly the data literals that do not fit",
  "Assembling faultless source writes, for each .byte or .wide/.word whose operand is a number without size suffix, one warning if the number is above what the place holds without sign (255, 65535: overflow) or below what it holds with sign (-128, -32768: underflow), naming byte or wide, in the order in which the source is read through its includes; it warns of nothing else. The datum is then the number reduced to the place's width, and the object is written all the same; so a datum that is not warned of holds the number as written.",
  ["inputs","programs"],"all numbers in all spellings",
  T,["src/source/mod.rs","src/bin/tc.rs"],[m("parse_next_line: byte, wide","src/source/mod.rs"),m("parse_number","src/source/mod.rs")],obs=["stderr","segment bytes of the object file"])
p("C32","Tools refuse unreadable input and leave every file as it was",
  "If an input of the linker, emulator or debugger, or an archive given to the linker, is missing, a directory, no object (or archive), cut off or damaged against the format, the tool says so on standard error, ends with failure status without crashing, and has done nothing: no input and no file at the output's place is created or changed, and nothing is executed. The strip tool refuses such files one by one: they stay as they are, the other files are stripped all the same, and the status is failure. The object dump ends with failure status likewise.",
  ["inputs","fault_sequences"],"all contents of input files, any number of inputs and archives, whichever of them is unreadable",
  T,["src/bin/tl.rs","src/bin/tstrip.rs","src/bin/t.rs","src/bin/tdbg.rs","src/bin/tobjdump.rs","src/aalv/savn.rs","src/aalv/obj.rs"],[m("tl_main","src/bin/tl.rs"),m("read_archives","src/bin/tl.rs"),m("inner_main","src/bin/tstrip.rs"),m("read_objs","src/bin/tobjdump.rs"),m("Object::from_file","src/aalv/obj.rs")],obs=["exit status","stderr","stdout","input and output files"])
p("C33","The same inputs give the same result in all circumstances",
  "What the tools make is a function of their input files, options and standard input: run again, in another directory, with absolute paths, over an older output, among other files or with other environment variables, assembler, linker, archiver and strip tool end with the same status and write the same bytes, the object dump prints the same, and emulator and debugger print the same for a program that sets the registers it uses. The linker's and archiver's output does not depend on the names of the input files, only on their order.",
  ["inputs","configurations"],"all inputs and options, all circumstances of a run that are none of its inputs",
  T,["src/bin/tc.rs","src/bin/tl.rs","src/bin/tar.rs","src/bin/tstrip.rs","src/bin/tobjdump.rs","src/source/mod.rs","src/source/symbols.rs","src/aalv/mod.rs"],[m("tl_main","src/bin/tl.rs"),m("read_archives","src/bin/tl.rs"),m("Symbols","src/source/symbols.rs"),m("disassembly","src/bin/tobjdump.rs"),m("Object::write","src/aalv/obj.rs")],obs=["exit status","stdout","output files"])
p("C34","Each trap the processor does not take itself is put to the installed emulated kernel once",
  "A machine hands each trap that the processor does not take itself to the installed emulated kernel exactly once, with the trap's number and with processor and memory as the trap left them; execution goes on with what the kernel made of them or ends with the trap the kernel names, and without a kernel it ends with the trap itself. Installing a kernel replaces the one before and tells whether there was one. Running until the end is the same as stepping until the first such end, after which the machine can be stepped or run on, also with another kernel.",
  ["inputs","histories"],"all programs, all kernels of the user's own, all histories of installing, stepping and running",
  T,["src/machine/mod.rs","src/machine/ekernel.rs","src/blf4/cpu.rs"],[m("Machine::execute_once","src/machine/mod.rs"),m("Machine::run_until_abort","src/machine/mod.rs"),m("Machine::install_emulated_kernel","src/machine/mod.rs"),m("EmulatedKernel","src/machine/ekernel.rs")],obs=["calls to the kernel","returned trap","registers, flags, memory after each operation"])
p("C35","Access through the processor's context is access as by an instruction",
  "What an emulated kernel or other code around the processor does through the processor's context (reading, writing, fetching, pushing and popping bytes and words, reading and writing registers, saving and restoring all of them outside user mode) has the result, the effects on registers, memory and dirty marks, and the trap that an instruction doing the same would have in that state, also when it fails half way. Physical accesses bypass translation and mark nothing. Nothing but restoring changes the flags.",
  ["inputs","histories"],"all processor states, page tables and memory contents, all histories of such operations",
  T,["src/blf4/mod.rs"],[m("HandlerContext","src/blf4/mod.rs"),m("read_wr/write_wr/read_br/write_br","src/blf4/mod.rs"),m("push_registers/pop_registers","src/blf4/mod.rs")],obs=["value or trap returned","registers, flags, memory after each operation"])
p("C36","A container gives back exactly the sections that were put into it",
  "Sections of any kind written into a container can be read back by their names in any order, each with exactly its bytes: those of one name in the order they were written, none where there is none of that name (any more), the rest listed in order, and reading less or more than a section has neither reaches another section nor disturbs it. The container is found behind anything that is not its magic, and leaving it leaves the stream right behind it, so that containers can follow each other. What cannot be told apart from the format (a name that is empty or has a zero byte, more than 65535 bytes) is refused when written.",
  ["inputs","histories"],"all sequences of sections and surrounding bytes, all orders and ways of reading, all buffer sizes",
  T,["src/aalv/mod.rs"],[m("AalvReader","src/aalv/mod.rs"),m("ReadWindow","src/aalv/mod.rs"),m("AalvWriter::write_section","src/aalv/mod.rs"),m("CountedWriter","src/aalv/mod.rs")],obs=["bytes written","sections, names and stream position read"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import re
for x in P:
    n=len(re.findall(r'[.;](?= [A-Z])|\.$',x['statement']))
    print(x['id'],n,len(x['statement']))
