"""The properties: one entry each; gen.py writes properties.jsonl and MANIFEST.json."""
NOTE = """Bounded: holds for every value of the symbolic variables in the listed program templates, and only for those
templates. Trusted: clang's front end and -O1 pipeline (Win64 target), the executor in engine/ (cross-checked on every run by
replaying a model of up to 250 paths on the real uasm.exe), Z3, and the reference semantics in lib/ and checks/."""

PROPS = [
 dict(id="P01", title="Constant expressions have the value the language defines",
  statement="""An integer constant expression evaluates to the value the documented operators and precedences give in
   64-bit two's-complement arithmetic, whether its operands are literals, = or EQU symbols, redefinitions or forward
   references. An expression with an undefined operation (such as a division by zero) is rejected with an error and never
   crashes the assembler.""",
  quant="every 64-bit operand value (4 to 16 bits where multiplications or divisions nest) for every operator, pair of operators and parenthesisation",
  why="Operand values are unbounded: the regression sources use a handful of constants per operator.",
  files=["expreval.c", "assign.c", "equate.c", "tokenize.c"],
  mech=[("evaluate/calculate", "expreval.c"), ("get_precedence", "expreval.c"), ("CreateVariable, CreateConstant", "equate.c")],
  note="1072 templates over all operators, ordered operator pairs and random trees of depth 3."),
 dict(id="P02", title="A numeric literal denotes the number it spells in its radix",
  statement="""A numeric literal is the number its digits spell in the radix given by its suffix or prefix (h, 0x, t, d, o, q, y, b),
   or by .RADIX when it has none. A literal with a digit that is not valid in its radix, or one that does not fit the data item it
   initialises, is an error and is never truncated silently.""",
  quant="every digit string up to the stated lengths, every suffix and every .RADIX from 2 to 16",
  why="Literals form an unbounded set of strings; tests use a few in radix 10 and 16.",
  files=["tokenize.c", "atofloat.c", "expreval.c", "data.c"],
  mech=[("get_number", "tokenize.c"), ("myatoi128", "tokenize.c"), ("data_item magnitude check", "data.c")],
  note="Digits symbolic: all of them for short literals and power-of-two radixes, windows of them for long ones."),
 dict(id="P03", title="Data definitions emit exactly the declared bytes",
  statement="""Data directives (DB to DT, OWORD, YMMWORD, ZMMWORD, REALn and their typed synonyms) emit the initializers in order, little-endian, each at the
   declared size, with DUP repeating its list the stated number of times, strings stored byte by byte (or as one little-endian item,
   or as 16-bit characters under OPTION LITERALS:ON), and labels standing for their offsets. An integer or string that does not
   fit its item is an error. LENGTHOF, SIZEOF and TYPE report the number of items, bytes and bytes per item.""",
  quant="every initializer value, every string, every repeat count within the bounds, random nestings of lists and DUPs",
  why="Values, strings and nestings are unbounded; tests use a few.",
  files=["data.c", "expreval.c", "tokenize.c", "types.c"],
  mech=[("data_item", "data.c"), ("little_endian, OutputDataBytes", "data.c"), ("sizlen_op, type_op", "expreval.c")],
  note="398 templates (single values of every type, wide literals, strings, random lists, LENGTHOF/SIZEOF, label arithmetic)."),
 dict(id="P04", title="A memory operand is encoded as the address it denotes",
  statement="""The bytes emitted for an instruction with a memory operand decode, by the architecture's rules for the code's word
   size, to that instruction with the operand size, segment, base, index, scale and displacement written in the source, in
   whichever order and grouping they are written; a combination the architecture cannot encode is rejected and no object is written.""",
  quant="every register in each role, every scale and every 64-bit displacement",
  why="Base, index, scale, displacement, size and mode multiply to millions of forms; tests have a few hundred fixed lines.",
  files=["parser.c", "codegen.c", "codegenv2.c", "expreval.c"],
  mech=[("memory_operand, SetModRM", "parser.c"), ("output_opc, output_data", "codegen.c"), ("CodeGenV2", "codegenv2.c")],
  note="632 templates; register names symbolic by characters, displacement symbolic over 64 bits; oracle: the decoder in lib/x86.py."),
 dict(id="P05", title="An immediate operand is encoded with its value",
  statement="""The bytes emitted for an instruction with an immediate operand decode to that instruction, its destination and an
   immediate that equals the source value modulo the operand size, whichever short form is chosen; a value that does not fit the
   operand is an error, and no object is written. (A 32-bit pattern such as 0FFFFFF80h may stand for a negative value, and
   a 64-bit operation sign-extends the 32-bit pattern it is given.)""",
  quant="every 64-bit immediate value",
  why="The choice between imm8, sign-extended imm8, imm16, imm32 and imm64 forms depends on the value; tests have fixed values.",
  files=["parser.c", "codegen.c", "codegenv2.c"],
  mech=[("idata_nofixup", "parser.c"), ("check_operand_2, match_phase_*", "codegen.c"), ("CodeGenV2", "codegenv2.c")],
  note="370 templates: ALU, TEST, MOV, IMUL, shifts, BT, SHLD, PUSH, RET, INT, IN, OUT on 8- to 64-bit registers and memory in three modes."),
 dict(id="P06", title="A branch reaches its target, in the shortest allowed form",
  statement="""Every JMP, CALL, Jcc, LOOPcc and JCXZ is encoded so that the address of the next instruction plus the encoded displacement is
   the offset of its target label, forwards or backwards and across anything between them, also when several branches depend on
   each other's size. The short form is used when the displacement fits a signed byte; a forced SHORT or a byte-only branch that
   cannot reach is an error; a conditional jump out of range is extended as the target CPU requires.""",
  quant="every distance between branch and target within the bounds, chains of interdependent branches, all condition codes",
  why="The size choice iterates over passes and depends on all the distances at once; tests have a few fixed distances.",
  files=["branch.c", "assemble.c", "label.c", "parser.c"],
  mech=[("process_branch", "branch.c"), ("jumpExtend", "branch.c"), ("AssembleModule pass loop", "assemble.c")],
  note="189 templates; distances symbolic (via DUP counts), decoded with lib/x86.py."),
 dict(id="P07", title="ALIGN, EVEN, ORG and segments place code and data where stated",
  statement="""After ALIGN n (or EVEN) the location counter is the smallest multiple of n at or above its old value, the gap holding
   no-operation instructions in code and zeros in data; ORG sets the location counter; $ and labels report it; a segment's contents
   appear at its stated alignment, reopened segments continue where they ended. Arguments that are not powers of two or exceed the
   offset range are errors; nothing is taken modulo a word size.""",
  quant="every offset and alignment argument within the bounds, interleaved segments",
  why="Offsets, alignments and interleavings are unbounded; tests use a few.",
  files=["posndir.c", "segment.c", "bin.c", "assemble.c"],
  mech=[("AlignDirective, fill_in_objfile_space", "posndir.c"), ("OrgDirective", "posndir.c"), ("SetCurrOffset", "segment.c"), ("CalcOffset", "bin.c")],
  note="132 templates in three modes."),
 dict(id="P08", title="Structures, unions and records are laid out and initialized as declared",
  statement="""A STRUCT field is placed at the next multiple of the smaller of the structure's alignment and the field's own size (for a nested
   type: its largest member), or where ALIGN or ORG puts it; a UNION's fields share offset 0; the size is rounded up accordingly.
   An instance holds, field by field, the given initializer or else the declared default, with zeros in the gaps; a RECORD packs its
   fields from the most significant down. SIZEOF, TYPE, MASK, WIDTH and member offsets agree with that layout. A value
   that does not fit its record field, and an impossible width, alignment or ORG, is an error.""",
  quant="every value of every field, every alignment and width, random nestings of structures, unions, records and arrays",
  why="Layouts compose without bound, and initializers nest; tests fix a few types and values.",
  files=["types.c", "data.c", "expreval.c", "posndir.c"],
  mech=[("CreateStructField, EndstructDirective", "types.c"), ("InitStructuredVar", "data.c"), ("RecordDirective", "types.c"), ("GetRecordField", "data.c")],
  note="337 templates: random type declarations and instances, 31 record field positions, all widths, alignment and ORG arguments."),
 dict(id="P09", title="Object files hold the contents, symbols and relocations the source states",
  statement="""In every object format, each section holds the bytes its source emits at its declared alignment and size, and the symbol
   table lists exactly the public, external, communal and absolute symbols with their names, sections, offsets, sizes and values.
   Every reference to a relocatable symbol has one relocation, of the right kind and at the right place, which together with the stored bytes
   yields the target's address plus the displacement written; nothing else is relocated. OMF records carry valid lengths and checksums.""",
  quant="every displacement, gap and absolute value in random modules of up to five sections in five formats",
  why="What matters is the combination of symbol kinds, reference kinds, displacements, name lengths and formats; tests byte-compare some fixed objects.",
  files=["coff.c", "elf.c", "omf.c", "omffixup.c", "fixup.c", "codegen.c", "codegenv2.c", "data.c"],
  mech=[("coff_write_module", "coff.c"), ("elf_write_module, write_relocs64", "elf.c"), ("omf_write_module", "omf.c"), ("store_fixup", "fixup.c")],
  note="631 modules; the objects are read back by the parsers in lib/objfile.py. Known finding F02 (ELF64 explicit addends)."),
 dict(id="P10", title="Macros, conditional assembly and loops expand as the language defines",
  statement="""Exactly the branch of IF.../ELSEIF.../ELSE whose condition holds (as a 64-bit value, a definition, a blank or identical text) is
   assembled; WHILE, REPEAT, FOR and FORC repeat their bodies the stated number of times with the stated arguments; a macro call
   substitutes its arguments, defaults and LOCAL names; EXITM and GOTO leave the innermost macro or loop; recursion, nesting
   and redefinition compose; .ERR directives and missing required arguments raise an error and no object is written.""",
  quant="every value of the conditions, counts and arguments, in random programs nested up to five levels",
  why="Control flow at assembly time composes without bound; tests have a few fixed programs.",
  files=["condasm.c", "loop.c", "macro.c", "expans.c", "input.c"],
  mech=[("CondAsmDirective, ErrorDirective", "condasm.c"), ("LoopDirective", "loop.c"), ("RunMacro", "expans.c"), ("StoreMacro", "macro.c")],
  note="284 jobs; 160 random programs against a reference interpreter, and families for recursion, EXITM, nesting depth, quoting, redefinition."),
 dict(id="P11", title="Text macros and text operators yield the text they denote",
  statement="""TEXTEQU, CATSTR, SUBSTR, INSTR, SIZESTR and the predefined functions (@CatStr, @SubStr, @InStr, @SizeStr) yield exactly the text, length
   or 1-based position their arguments denote; positions and counts outside the text are errors; % expands an expression in the
   current radix; substitution of text macros, & and ! work as documented, recursively.""",
  quant="every character of the symbolic texts, every 64-bit position and count",
  why="Texts, positions and nestings are unbounded; tests use a few.",
  files=["string.c", "macro.c", "expans.c", "equate.c"],
  mech=[("CatStrDir, SubStrDir, InStrDir, SizeStrDir", "string.c"), ("SubStrFunc, InStrFunc", "string.c"), ("ExpandText, ExpandToken", "expans.c")],
  note="160 jobs; 130 random programs against a reference interpreter, and families for expansion and 64-bit positions."),
 dict(id="P12", title="High-level control flow directives execute the path the source states",
  statement="""The machine code generated for .IF/.ELSEIF/.ELSE, .WHILE, .REPEAT with .UNTIL and .UNTILCXZ, .FOR, .SWITCH, .BREAK and .CONTINUE, run from
   any register, memory and flag contents, executes the blocks whose conditions hold: comparisons are signed or unsigned as the operand
   types say, && and || combine in any parenthesisation, flag conditions read the flags, .FOR performs its initializer, condition and step, .SWITCH reaches
   exactly the block of the matching .CASE or .DEFAULT whatever the distribution of the case values. A comparison constant that no compare
   instruction can hold is an error. No register or variable changes that the
   source does not change (the accumulator excepted in .SWITCH and memory steps of .FOR).""",
  quant="every register, variable and flag content at run time, every comparison constant, all and/or trees of up to four conditions, random nested programs",
  why="The generated jumps depend on the nesting of conditions, the construct and the distribution of case values, and are right only if every run-time value takes the right path; tests compare a few fixed encodings.",
  files=["hll.c"],
  mech=[("GetExpression, GetAndExpression, GetSimpleExpression", "hll.c"), ("HllStartDir, HllEndDir, HllExitDir", "hll.c"), ("ForInitAndNext", "hll.c")],
  note="1321 jobs; the emitted code is executed by lib/x86run.py over symbolic machine states against a reference interpreter."),
]
NA = []
