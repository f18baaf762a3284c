#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
import cpu
import machine
import files
import asm
import link
import dis
import system
import mapdrv
import tools
import container, hook

CHECKS = {"C01": cpu.c01, "C02": cpu.c02, "C03": cpu.c03, "C04": cpu.c04, "C05": cpu.c05,
          "C06": cpu.c06, "C07": cpu.c07, "C08": cpu.c08, "C09": cpu.c09,
          "C10": machine.c10, "C11": machine.c11,
          "C12": machine.c12, "C13": files.c13, "C14": files.c14,
          "C15": files.c15, "C16": files.c16, "C18": asm.c18, "C19": asm.c19, "C20": asm.c20, "C31": asm.c31,
          "C17": link.c17, "C21": link.c21, "C22": link.c22, "C23": link.c23, "C25": link.c25,
          "C24": dis.c24, "C26": dis.c26, "C27": dis.c27,
          "C28": system.c28, "C29": system.c29,
          "C30": mapdrv.c30,
          "C32": tools.c32, "C33": tools.c33, "C34": hook.c34, "C35": hook.c35, "C36": container.c36}

_CPU = ("The specification defines every instruction, translation and trap over the whole state space; the implementation is "
        "bound to it on the generated cases (seeded, counts in the evidence), not for all inputs, except where a part is "
        "marked exhaustive. Trusts TLC and the harness's projection of the register file and memory.")
_OBJ = ("The specification defines the file format byte for byte; the implementation is bound to it on generated objects "
        "(seeded, counts in the evidence) of every shape the format has, in both directions.")
_ASM = ("The specification takes the source as bytes and defines every line; the tool is bound to it on generated programs (seeded) and on all "
        "sequences of lines of a small alphabet up to a length (counts in the evidence). White space is ASCII only; the text of messages is not judged.")
_DIS = ("The specification decodes every byte sequence; the implementation is bound to it on all opcodes and first operand bytes with seeded further bytes, "
        "labels, positions and page tables. Instructions with non-zero unused nibbles are only required to be shown with their bytes and not to crash.")
_LINK = ("The specification defines layout, symbols, relocations and entry as a function of the inputs; the tools are bound to it on generated "
         "webs of objects (seeded) and on all small combinations of roles (counts in the evidence). Bytes of references left unbound are not judged.")
NOTES = {
    "C24": ("TLA+ specification of decoding, tied by TLC to the processor and assembler specifications; TLC validates recorded disassemblies of all opcodes and first operand bytes", _DIS),
    "C26": ("TLA+ specification of the debugger as a machine over the processor and kernel specification; TLC validates whole sessions, and that stops are where calls return",
            "The specification covers every command and program; the tool is bound to it on generated programs and command sequences (seeded, counts in the evidence). "
            "The text of complaints is not judged, nor what happens when the program reads beyond the end of the input."),
    "C27": ("TLA+ specification of the dump (symbol table, labels reached from entry and globals, instructions, relocations); TLC judges dumps of random and assembled objects", _DIS),
    "C28": ("TLA+ composition of the assembler, linker, loader, processor and kernel specifications runs each source program; TLC judges output, input, ending of every way of building and running it",
            "The specification runs one arrangement of every program; programs and arrangements are generated (seeded, counts in the evidence). Programs do not print addresses, end by themselves and have input enough."),
    "C29": ("TLA+ specification of the processor and memory map runs whole boot images, the privilege rule checked by TLC on each run; TLC judges output, input and ending of the tool on each",
            "Images are generated (seeded, counts in the evidence): page tables, modes, handlers, ports. Registers undefined at the start are set before use. Of images that do not end only the first 1500 instructions are followed."),
    "C30": ("TLA+ specification of the listing, tied by TLC to the translation specification; TLC judges listings of generated page tables and of running programs",
            "Page tables are generated (seeded; in the thorough run all pairs of flag values at both levels); the frames of a loaded program are not prescribed."),
    "C34": ("TLA+ specification of the machine around the processor with kernels as sequences of acts; TLC trace validation of steps, runs and installations",
            "Kernels and programs are generated (seeded, counts in the evidence); a kernel is taken for what it does each time it is asked."),
    "C35": ("TLA+ specification of the operations of the processor's context from the processor specification; TLC trace validation of histories of such operations",
            "States, page tables and histories are generated (seeded, counts in the evidence)."),
    "C36": ("TLA+ specification of the container format and of a reader as a machine over the sections not yet taken; TLC validates written bytes and recorded histories of reading",
            "Sections of ten names, contents and histories are generated (seeded, counts in the evidence)."),
    "C17": ("TLA+ specification of archive selection and linking; TLC computes the participants and the linked object for all small role combinations and random webs", _LINK),
    "C21": ("TLA+ specification of layout, moving and patching; TLC links each generated input list and judges the tool's object", _LINK),
    "C22": ("TLA+ specification of symbol resolution; TLC judges status and object of the tool for all small role combinations and random webs", _LINK),
    "C23": ("TLA+ specification of linking with the staging theorem checked by TLC; every grouping of the inputs into stages is run and judged as the same program", _LINK),
    "C25": ("TLA+ specification of stripping over the object format; TLC judges files before and after the tool", _LINK),
    "C01": ("TLA+ specification of the arithmetic instructions; TLC validates recorded result tables (byte operations exhaustive) and execution traces", _CPU),
    "C02": ("TLA+ register file specification; TLC trace validation of all register views after each executed instruction", _CPU),
    "C03": ("TLA+ specification of control transfer; TLC trace validation over all flag combinations and jump opcodes", _CPU),
    "C04": ("TLA+ memory and stack specification; TLC trace validation of load/store/push/pop sequences", _CPU),
    "C05": ("TLA+ specification total over all bytes and states; TLC trace validation of every opcode in random states", _CPU),
    "C06": ("TLA+ specification of the page-table walk; TLC trace validation over all permission combinations at both levels", _CPU),
    "C07": ("TLA+ specification of dirty marking; TLC trace validation over all flag bytes at both levels and access sequences", _CPU),
    "C08": ("TLA+ privilege specification, isolation checked by TLC on the model; trace validation of user-mode runs", _CPU),
    "C09": ("TLA+ trap entry/return specification, restore property checked by TLC on the model; trace validation of trap/handler/return runs", _CPU),
    "C10": ("TLA+ specification of the memory map; TLC trace validation of memory operation histories and of accesses by executed instructions", _CPU),
    "C11": ("TLA+ specification of the loaded address space over the page tables; TLC evaluates it on the memory found after each load", _CPU),
    "C12": ("TLA+ specification of the emulated kernel over the processor specification; TLC trace validation of runs of loaded programs", _CPU),
    "C13": ("TLA+ specification of the object format; TLC decodes files written by the library and encodes files for it to read", _OBJ),
    "C15": ("TLA+ model of buffered writing to a failing device, checked by TLC; tool runs with an output limit at many positions are judged against what it guarantees",
            "Failures are injected as a file size limit at each chosen byte position and as impossible output paths; failures of close or of hardware are not."),
    "C16": ("TLA+ specification of archives over the object format; TLC judges what is read from archives made by the tool and from their prefixes", _OBJ),
    "C18": ("TLA+ specification of the assembler's lines, literals and encodings; TLC assembles each program line by line and judges the tool's object", _ASM),
    "C19": ("TLA+ specification of the assembler as a machine over a stack of files; TLC judges symbols, relocations, segments of the tool's objects, an independent consistency theorem is checked on the specification", _ASM),
    "C31": ("TLA+ specification of the size of data literals inside the assembler specification; TLC judges the tool's warnings against it", _ASM),
    "C20": ("TLA+ specification of which lines are faults; TLC judges reported lines, status and output for enumerated, random and nonsense sources", _ASM),
    "C14": ("TLA+ specification of the object format; TLC judges the outcome of reading every truncation and damaged variants, and of writing at the format's limits", _OBJ),
    "C32": ("TLA+ process model of the tools (inputs, outputs, exit), checked by TLC for all damage combinations within bounds; TLC judges recorded runs of the tools over damaged inputs against it",
            "The model is checked for up to three inputs; the tools are bound to it on generated inputs and damages (seeded, counts in the evidence). Wording of the messages is not judged."),
    "C33": ("TLA+ specification of a tool's run as a function of its inputs; TLC judges recorded runs of the same inputs in different circumstances against it",
            "Generated inputs and circumstances (seeded, counts in the evidence): repetition, directory, path spelling, older outputs, neighbours, environment, input names. The tool is compared only with itself."),
}

if __name__ == "__main__":
    p = sys.argv[1]
    common.run_check(p, CHECKS[p])
