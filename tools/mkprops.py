#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

p("C01", "Conditional assembly takes exactly the right branch",
  "In every nest of IF/ELSEIF/ELSE/ENDIF blocks (all condition kinds: numeric, defined/undefined, blank/non-blank, identical/different with and without case), exactly the statements of the first branch whose condition holds are assembled, or of the ELSE branch if none holds; the conditions of skipped or already decided branches have no effect. Statements in skipped branches leave no bytes, no symbols, no redefinitions and no diagnostics, whatever nested conditionals they contain. An unbalanced ELSE/ELSEIF/ENDIF/unclosed IF, or an ELSE/ELSEIF after ELSE of the same block, is reported as an error.",
  ["programs", "inputs"],
  "all sequences of conditional directives, definitions and data statements, at any nesting depth up to the implementation limit, at top level and inside macros and loops",
  "Tests contain a few dozen fixed conditionals, mostly depth 1-2; the number of nestings, branch orders and truth assignments is unbounded.",
  ["condasm.c", "preproc.c", "tokenize.c", "expans.c"],
  [("three-state block status with skip nesting counter", "condasm.c:conditional_assembly_prepare, CondAsmDirective"), ("else-seen bit per level", "condasm.c:elseoccured")],
  ["bytes of the -bin output", "exit status and error lines"],
  [("CurrIfState/blocknestlevel/falseblocknestlevel", "status of the innermost open block, open blocks, open blocks inside skipped text", "condasm.c")])

p("C02", "Macro calls expand to exactly the body with arguments substituted",
  "Expanding a macro procedure or function assembles its body lines in order with every parameter (positional, named default, required, VARARG; plain or '&'-joined) replaced by the argument text, every LOCAL name replaced by a name not used by any other expansion, and with control directives inside it (EXITM, GOTO, nested conditionals, loops, nested and recursive macro calls, nested macro definitions) acting on that expansion only. A macro function call is replaced by the text its EXITM returns. A missing required argument or surplus argument is diagnosed; a purged or redefined macro behaves as the latest definition at each call.",
  ["programs", "inputs", "histories"],
  "all macro definitions, call nestings and argument lists",
  "Tests use fixed macros; nesting depth, argument shapes (empty, bracketed, with commas, '%' expressions), EXITM position and recursion combine without bound.",
  ["macro.c", "expans.c", "preproc.c", "input.c", "loop.c"],
  [("placeholder store and fill", "macro.c:StoreMacro, fill_placeholders"), ("expansion engine", "expans.c:RunMacro")],
  ["bytes of the -bin output", "error lines", "listing"],
  [("macro body lines with placeholders", "what an expansion replays", "macro.c struct macro_info"), ("local counter", "unique LOCAL names", "macro.c:MacroLocals")])

p("C03", "Loop blocks assemble their body once per iteration, in order",
  "REPEAT/REPT n assembles its body max(n,0) times; WHILE as long as its expression (re-evaluated before each iteration) is non-zero; FOR/IRP once per listed argument with the parameter bound to it (default and empty arguments included); FORC/IRPC once per character. EXITM ends the innermost loop only, GOTO moves within it, LOCAL names differ per iteration, and loops nest with each other, with conditionals and with macros.",
  ["programs", "inputs"],
  "all nestings of loop blocks, iteration counts, argument lists and strings",
  "Tests have a handful of loops each with one shape.",
  ["loop.c", "macro.c", "expans.c"],
  [("LoopDirective builds an anonymous macro and runs it per iteration", "loop.c:LoopDirective")],
  ["bytes of the -bin output", "error lines"])

p("C04", "Each use of an equate sees the definition in force at that point",
  "At every use in source order, a '=' variable has the value last assigned before that point, an EQU constant its only value, a text macro (EQU <text>, TEXTEQU, CATSTR, SUBSTR) the last text assigned, and SIZESTR/INSTR/SUBSTR/CATSTR and their @-function forms compute the standard string results; this holds in every assembly pass, so the values emitted are those of the source order, not of a later pass. Redefining a constant EQU with another value, or a symbol of another kind, is an error; assigning the same value is not.",
  ["programs", "histories"],
  "all interleavings of definitions, redefinitions and uses, with and without forward references that force additional passes",
  "Later passes replay saved lines from the first emitted byte on with variable values restored; tests cover few redefinition/forward-reference interleavings.",
  ["equate.c", "string.c", "fastpass.c", "expans.c", "symbols.c"],
  [("save and restore of assembly-time variables between passes", "fastpass.c:SaveVariableState, RestoreState"), ("text macro assignment", "string.c:CatStrDir, SetTextMacro")],
  ["bytes of the -bin output", "error lines"],
  [("saved equate list", "values of variables when the line store starts", "fastpass.c")])

p("C05", "Every branch reaches its label, in the shortest form that can",
  "For every program accepted, each JMP, Jcc, CALL, LOOPx and JxCXZ (direct or SHORT/NEAR-qualified) to a label of the same segment encodes a displacement that leads exactly to that label's final address, in 16-, 32- and 64-bit code; the short form is used whenever the final layout permits it and nothing pins the form, otherwise the near form (for 8086-80286 conditional jumps: an inverted short jump around a near jump). A branch that cannot reach in the only allowed form is an error, never wrong code, and assembly always terminates.",
  ["programs", "inputs"],
  "all sequences of labels, branches, data fillers and alignments; all distances around the short limit, including chains in which lengthening one branch pushes others out of range",
  "Sizes of branches and addresses of labels depend on each other over several passes; tests have about ten branch files with fixed distances.",
  ["branch.c", "backptch.c", "label.c", "assemble.c", "fastpass.c", "fixup.c"],
  [("optimistic first pass with backpatching", "backptch.c:DoPatch"), ("pass loop until no phase error and stable size", "assemble.c:AssembleModule")],
  ["bytes of the -bin output", "error lines"],
  [("Parse_Pass, PhaseError, sym->offset", "pass number, whether a label moved, label address", "assemble.c, label.c")])

p("C06", "Segment contents and label addresses follow the location counters",
  "Whatever the order in which segments are opened, nested, closed and reopened (full SEGMENT/ENDS and simplified directives), every emitted item goes to the segment current at that point, at that segment's own location counter, right after what was emitted there before; ALIGN/EVEN/ORG move the counter as specified; bytes skipped by ORG or reserved with ? keep what was put there before. The value of a label, of '$' and of label differences is the address at which the item stands in the final image, where segments are combined in the documented order with their alignment. Mismatched ENDS and segments left open are errors.",
  ["programs", "histories"],
  "all sequences of segment open/close/reopen, ORG/ALIGN/EVEN, data, and label uses",
  "Tests check a few fixed interleavings; the location-counter state is per segment and carried over several passes.",
  ["segment.c", "simsegm.c", "posndir.c", "label.c", "bin.c", "data.c"],
  [("segment stack and per-segment offset", "segment.c:push_seg, pop_seg, SetCurrSeg"), ("AlignDirective/OrgDirective", "posndir.c")],
  ["bytes of the -bin output", "map in listing", "error lines"],
  [("CurrSeg, seginfo->current_loc, max_offset", "current segment, its counter, its size", "segment.c")])

p("C07", "Data definitions emit exactly the declared bytes",
  "A data definition with any directive or type from BYTE to TBYTE-size integers, nested DUP, strings, '?' and expression initialisers emits the declared number of elements, each in little-endian two's-complement of its size and in source order, and nothing else; a value that does not fit the element is an error. TYPE, LENGTHOF/LENGTH and SIZEOF/SIZE of the label equal the element size, element count and byte count that were declared, and successive items do not overlap.",
  ["programs", "inputs"],
  "all nestings of DUP, initialiser lists, element types and boundary values",
  "Tests cover single shapes; nesting of DUP, mixes of strings and numbers, and range limits are unbounded.",
  ["data.c", "expreval.c", "types.c"],
  [("data_item recursion over initialisers", "data.c:data_item, data_dir")],
  ["bytes of the -bin output", "error lines"])

p("C08", "Structure, union and record layout matches declaration and use",
  "Each STRUCT/UNION field lies at the offset given by the declared field sizes, the structure's alignment and any ORG/ALIGN/nesting; the total size is padded to the effective alignment, and every way to see the layout (field offset as constant or in an address, SIZEOF, TYPE, LENGTHOF, instances, arrays and nested instances) agrees. An instance with an initialiser list emits each given value in its field, declared defaults in the others, and zero bytes in padding. RECORD fields occupy the declared widths from the most significant declared field down, with shift count, MASK, WIDTH and packed instances consistent.",
  ["programs", "inputs"],
  "all structure/union/record declarations with nesting, alignment values and (partial) initialiser lists",
  "Tests have fixed structures; combinations of alignment, nesting, anonymous members and partial initialisers are unbounded.",
  ["types.c", "data.c", "expreval.c"],
  [("CreateStructField/UpdateStructSize/AlignInStruct", "types.c"), ("InitStructuredVar", "data.c")],
  ["bytes of the -bin output", "error lines"])

p("C09", "Constant expressions follow the documented precedence and arithmetic",
  "Every constant integer expression built from the documented operators (+ - * / MOD SHL SHR AND OR XOR NOT EQ NE LT LE GT GE LOW HIGH LOWWORD HIGHWORD, unary signs, parentheses, all radix forms) evaluates to the value given by the documented precedence and left-to-right order on two's-complement integers, true being -1; the same expression has the same value wherever it is written (data item, equate, IF, DUP count, immediate operand, text-macro '%' expansion). Division by zero is an error and never yields a value.",
  ["inputs", "programs"],
  "all expressions over the documented operators, any nesting",
  "Tests evaluate a few dozen fixed expressions.",
  ["expreval.c", "tokenize.c", "equate.c"],
  [("operator-precedence evaluator", "expreval.c:evaluate, calculate, get_precedence")],
  ["bytes of the -bin output", "error lines"])

p("C10", "POPCONTEXT restores exactly what PUSHCONTEXT saved, last in first out",
  "After POPCONTEXT of ASSUMES, RADIX, LISTING, CPU, ALIGNMENT or ALL (alone or in lists), each named setting has the value it had at the matching PUSHCONTEXT of its kind, every setting not named keeps its current value, and the saved values of each kind nest last-in-first-out, whatever other kinds are pushed and popped in between. A POPCONTEXT of a kind of which nothing is saved is an error.",
  ["histories", "programs"],
  "all sequences of setting changes and PUSH/POPCONTEXT, in every pass",
  "Two tests push one or two contexts once.",
  ["context.c", "assume.c", "cpumodel.c", "listing.c", "option.c"],
  [("context stack", "context.c:ContextDirective")],
  ["bytes of the -bin output", "error lines", "listing"],
  [("ContextStack", "stack of saved settings", "context.c ModuleInfo.g.ContextStack")])

p("C11", "Memory operands use the segment that ASSUME makes addressable",
  "In segmented code, a memory operand that names a symbol gets a segment override prefix exactly when the symbol's segment (or its group) is not assumed to the default segment register of that operand but is assumed to another one, which is then the override used; an explicit override wins, and a symbol reachable through no segment register is an error. Every ASSUME takes effect from its statement on, replaces only the named registers, and NOTHING/ERROR cancel or forbid use.",
  ["programs", "histories"],
  "all sequences of ASSUME statements, segments, groups, symbols and addressing forms",
  "Tests use a few fixed ASSUME sequences.",
  ["assume.c", "parser.c", "codegen.c", "segment.c"],
  [("search_assume/GetAssume/check_assume", "assume.c, parser.c")],
  ["bytes of the -bin output", "error lines"],
  [("SegAssumeTable", "which segment or group each segment register holds", "assume.c")])

p("C12", "High-level control blocks run as written",
  "The code generated for .IF/.ELSEIF/.ELSE, .WHILE, .REPEAT/.UNTIL, .BREAK and .CONTINUE (with and without .IF), .FOR and .SWITCH/.CASE/.DEFAULT, with any nesting and any condition built from comparisons, sign choice, bit tests, flags, '!', '&&', '||' and parentheses, executes on every machine state the same sequence of user statements as the structured program means. It evaluates conditions left to right and changes no register or memory the program did not name (.SWITCH may use EAX/RAX, .UNTILCXZ counts (E/R)CX); under OPTION SWITCHSTYLE:CSTYLE a .CASE without .BREAK goes on with the next one.",
  ["programs", "inputs", "configurations"],
  "all nestings of blocks and conditions, all register values, 16-, 32- and 64-bit code",
  "Tests compare bytes of some fixed blocks and never run the code.",
  ["hll.c", "branch.c", "lqueue.c"],
  [("condition compiler emitting jumps and labels through the line queue", "hll.c:EvaluateHllExpression, GetExpression, GetAndExpression"), ("block stack", "hll.c:HllStartDir, HllEndDir, HllExitDir")],
  ["generated machine code, decoded and run on the model machine"],
  [("ModuleInfo.HllStack", "open blocks and their labels", "hll.c")])

p("C13", "INVOKE and PROC agree: arguments arrive, registers and stack survive",
  "For every procedure with parameters, locals and USES, and every INVOKE of it, in each supported calling convention, the callee sees each argument's value under its parameter name, locals occupy memory disjoint from each other, from the parameters, saved registers and the return address, and on return the stack pointer and every register that the convention or USES preserves have their value from before the call. Reading arguments never yields values clobbered by setting up other arguments without a diagnostic.",
  ["programs", "configurations", "inputs"],
  "all parameter lists, argument forms, local layouts, USES lists and calling conventions (C, STDCALL, PASCAL, FASTCALL in 16/32-bit where they exist; Win64 and System V in 64-bit) with their frame options",
  "Tests compare bytes of fixed signatures and never run them.",
  ["proc.c", "invoke.c", "lqueue.c", "simd.c"],
  [("prologue/epilogue writers", "proc.c:write_default_prologue, write_default_epilogue"), ("InvokeDirective and fastcall parameter handlers", "invoke.c")],
  ["generated machine code, decoded and run on the model machine"],
  [("CurrProc, procinfo (localsize, stored regs)", "frame of the open procedure", "proc.c")])

p("C14", "Win64 unwind data restore the caller from every prologue point",
  "For every PROC FRAME (explicit .PUSHREG/.ALLOCSTACK/.SETFRAME/.SAVEREG/.SAVEXMM128 or generated prologue), unwinding by the emitted unwind data from any instruction boundary at or after the procedure's start, up to the start of its epilogue, recovers the caller's stack pointer, return address and the values of all preserved registers changed so far. Each such procedure has exactly one function entry that covers exactly its code range.",
  ["programs", "crash_points"],
  "all frame procedures and all instruction boundaries at which an exception could hit",
  "An exception can hit any instruction; tests do not run unwinding at all and COFF outputs have no stored expectation.",
  ["proc.c", "coff.c", "fixup.c"],
  [("unwind code collection and .pdata/.xdata writer", "proc.c:ExcFrameDirective, WriteSEHData")],
  [".pdata/.xdata/.text of the -win64 object, replayed on the model machine"],
  [("unw_info, unw_code", "collected unwind operations", "proc.c")])

p("C15", "Relocations make every reference resolve to its symbol in every format",
  "After placing the sections of an object file at any addresses and applying its relocations, every field of the image that the source defined by a symbol reference (offset in data or immediate, RIP- or IP-relative operand, segment value, section- or image-relative value, with any addend) holds that symbol's address by the meaning of the reference, and all other bytes equal the source's. This holds for COFF32/64, ELF32/64, OMF and Mach-O, which thus all denote the same program as the flat binary.",
  ["programs", "configurations"],
  "all mixes of reference kinds, targets (same section, other section, external, group), addends, and output formats",
  "The COFF/OMF outputs have no expected files in the repository at all; the ELF/Mach-O ones are a few fixed files.",
  ["fixup.c", "coff.c", "elf.c", "omf.c", "omffixup.c", "macho64.c", "bin.c", "codegen.c", "data.c"],
  [("fixup creation", "fixup.c:CreateFixup, SetFixupFrame"), ("format writers", "coff.c:coff_write_fixups, elf.c:write_relocs32/64, omf.c")],
  ["object files, parsed and linked by the model linker"],
  [("segment fixup queue", "pending relocations of each segment", "fixup.c seginfo->FixupList")])

p("C16", "Object symbol tables state exactly what the source exports and imports",
  "Every symbol declared PUBLIC (or exported by PROC visibility or OPTION) appears exactly once as a global defined symbol at its address in its section; every EXTERN/EXTERNDEF/PROTO that is used or declared strongly appears exactly once as undefined, COMM items as common with their size; unused EXTERNDEF/PROTO and private symbols do not appear as globals. Names carry the decoration of the symbol's language and the case rule in force.",
  ["programs", "configurations"],
  "all combinations of declarations, order of declaration and definition, languages, and object formats",
  "Tests compare no object symbol tables for COFF/OMF and few for ELF.",
  ["extern.c", "mangle.c", "symbols.c", "coff.c", "elf.c", "omf.c", "macho64.c", "proc.c"],
  [("public/extern queues", "extern.c:PublicDirective, ExterndefDirective; assemble.c:PassOneChecks"), ("Mangle", "mangle.c")],
  ["symbol tables of the object files"])

p("C17", "Outcome of an assembly is consistent: status, output file, messages",
  "An assembly with no error exits with status zero and leaves the output file; with at least one error it exits non-zero, leaves no output file (also not one from an earlier run), and reports every erroneous statement of the pass under its own file and line number. Warnings alone never prevent output unless they are made errors; the warning level and quiet options only filter messages; the reported counts equal the messages written, the error file holds exactly these messages and does not exist when there are none, and a run over several modules fails if any module failed.",
  ["programs", "histories", "configurations"],
  "all placements and mixes of erroneous and correct statements, warning options and multi-module runs",
  "Tests compare message files of some fixed erroneous sources; exit status and leftover outputs are not checked at all.",
  ["errmsg.c", "assemble.c", "main.c", "cmdline.c"],
  [("error counting and limits", "errmsg.c:EmitErr, EmitWarn, Fatal"), ("deletion of output on error", "assemble.c:close_files")],
  ["exit status, files left, stdout, .err file"],
  [("error_count/warning_count", "messages so far", "globals.h ModuleInfo.g")])

p("C18", "The listing tells the truth about the output",
  "Replaying the listing's (offset, bytes) columns in order, with its segment changes, yields the contents that the output file has at these places, for every emitted statement including generated code and macro lines when these are listed; listed symbol values equal the symbols' addresses or values. Listing options and the presence of a listing never change the output file.",
  ["programs", "configurations"],
  "all programs and listing controls",
  "No test produces a listing.",
  ["listing.c", "assemble.c", "symbols.c"],
  [("LstWrite", "listing.c")],
  ["listing file and -bin output"])

p("C19", "A module's result does not depend on other modules or on repetition",
  "Assembling a source gives the same output, messages and status (time stamps aside) every time, whether it is assembled alone or in one run before or after any other modules, successful or failing, and regardless of what those modules defined or set. Command-line options apply from their position on to the files that follow.",
  ["histories", "configurations"],
  "all orders and mixes of modules in one run; all repetitions",
  "Every test is a single-module run in a fresh process.",
  ["assemble.c", "main.c", "cmdline.c", "symbols.c", "reswords.c", "macro.c", "option.c"],
  [("per-module init/fini", "assemble.c:AssembleInit, AssembleFini, AssembleModule")],
  ["output files of multi-module runs"],
  [("static state of all modules", "anything that survives AssembleModule", "all files")])

p("C20", "Machine code decodes to the instruction and operands written",
  "For every accepted instruction with register, immediate and memory operands (any base, index, scale, displacement, operand and address size, segment override) in 16-, 32- and 64-bit mode, the emitted bytes are a complete encoding that an x86 decoder reads back as the same operation with the same operands, and are followed immediately by the next instruction. Operand combinations with no encoding are rejected.",
  ["inputs", "programs", "configurations"],
  "all operand combinations of the general-purpose instruction set (arithmetic, moves, shifts, bit and string operations, stack, conversion) and the register/memory forms of SSE/AVX instructions",
  "Expected files cover selected operand combinations per instruction.",
  ["codegen.c", "codegenv2.c", "parser.c", "reswords.c"],
  [("table match and ModRM/SIB/REX emission", "codegen.c:codegen, parser.c:idata, memory_operand")],
  ["bytes of the -bin output"])

p("C21", "Instructions are accepted exactly while the selected CPU allows them",
  "At every point of the source an instruction or register is accepted exactly if it belongs to the processor and coprocessor set selected by the last CPU directives in force (including privileged variants), and rejected with an error otherwise; selecting a CPU changes nothing already assembled and the predefined @Cpu value reflects the selection.",
  ["histories", "programs"],
  "all sequences of CPU/FPU/extension directives and instructions",
  "Tests select one CPU per file.",
  ["cpumodel.c", "parser.c", "reswords.c", "codegen.c"],
  [("SetCPU", "cpumodel.c"), ("cpu check per instruction", "parser.c, codegen.c")],
  ["accept/reject per line", "@Cpu value in output"],
  [("ModuleInfo.curr_cpu", "selected cpu and extension bits", "cpumodel.c")])

p("C22", "Names resolve to the one visible definition",
  "Every reference to a code or data label, parameter, local or anonymous label (@@, @B, @F) denotes the definition visible at that point: labels local to the enclosing procedure before global ones, the nearest anonymous label in the given direction, and names compared under the CASEMAP in force. A second definition of a name in the same scope (a label or parameter inside a procedure shares the scope of the global names defined before it), or a reference with no visible definition, is an error; equal names in different procedures are independent.",
  ["programs"],
  "all arrangements of procedures, scoped and global labels, anonymous labels and references before and after definition",
  "Tests have fixed small arrangements.",
  ["symbols.c", "label.c", "proc.c", "expreval.c"],
  [("local symbol table switched at PROC/ENDP", "symbols.c:SymSetLocal, SymClearLocal, SymFind"), ("anonymous label counter", "label.c:GetAnonymousLabel")],
  ["bytes of the -bin output", "error lines"],
  [("gsym/lsym tables, ModuleInfo.anonymous_label", "global and local names, number of @@ so far", "symbols.c, label.c")])

p("C23", "Source positions follow INCLUDE and macro nesting exactly",
  "Lines of INCLUDE files are assembled in place of the INCLUDE statement, nested to any depth, found relative to the including file and the include path in order; INCBIN inserts exactly the selected byte range. Diagnostics and line-number debug records name the file and the line in which the statement stands, also after returning from includes, macros, loops and continued lines, in every pass.",
  ["programs", "histories"],
  "all nestings of include files, macros, loops and continued lines, with statements and errors at any line",
  "Tests use almost no include files and check no line-number records.",
  ["input.c", "preproc.c", "directiv.c", "linnum.c", "errmsg.c", "expans.c"],
  [("source stack", "input.c:PushSrcItem, SearchFile, GetTextLine"), ("line store with file and line", "fastpass.c:StoreLine")],
  ["bytes of the output", "file(line) in messages", "COFF line number records"],
  [("src_stack", "open files and macros", "input.c")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
