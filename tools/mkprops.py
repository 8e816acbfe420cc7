#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script because the lines are long)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


T17 = 'The 17 stable tests compare the SREC output of a few fixed sources; '

prop('C01', 'Every mnemonic and addressing mode gets its documented opcode',
     'For the selected instruction set (6809 or 6309), every mnemonic in every addressing mode it supports assembles to exactly the opcode bytes the processor documentation assigns, with any operand value. '
     'A mode the mnemonic does not support, a 6309 mnemonic under the 6809 set, and an unknown mnemonic are diagnosed as errors.',
     ['inputs', 'configurations'], 'all mnemonics x addressing modes x instruction sets, all operand values',
     T17 + 'they reach a fraction of the mnemonic/mode pairs and a single operand value for each.',
     ['src/opcode.c', 'src/assemble.c', 'src/instr.c'],
     [('opcode tables', 'src/opcode.c: opcodes_6809, opcodes_6309'), ('mode dispatch', 'src/assemble.c: assemble_prog')],
     observe=['bytes appended to the current section', 'error level after the line'])
prop('C02', 'Indexed operands encode the written address in the smallest form',
     'An indexed operand (constant offset, accumulator offset, auto-increment/decrement, program-counter relative, indirect, and the 6309 forms) assembles to the postbyte and offset bytes whose hardware meaning is the address written in the source, for every offset value and base register. '
     'Without a size prefix the shortest encoding able to represent the offset is chosen; <<, < and > force the 5, 8 and 16 bit forms, which hold the low bits of the offset; a combination the processor does not have is diagnosed.',
     ['inputs'], 'every offset value, base register, offset register, increment form, size prefix, indirection, instruction set and location counter',
     T17 + 'indexed tests use a handful of offsets and cannot show the choice is right at every boundary and location.',
     ['src/instr.c', 'src/node.c'],
     [('mode table and search', 'src/instr.c: indexed_modes, off_type_compatible, instr_indexed2'), ('1-argument forms', 'src/instr.c: instr_indexed')])
prop('C03', 'Branches reach exactly the written target',
     'A short branch whose target lies within -128..+127 of the following instruction, and every long branch, assembles to an offset which added to the address of the following instruction gives the target (modulo 65536). '
     'A short branch whose target is out of that range is diagnosed as an error, whatever the target and location.',
     ['inputs'], 'every branch mnemonic, every target value and every location counter value',
     T17 + 'only a few distances are sampled, and none at the wrap-around of the address space.',
     ['src/instr.c', 'src/opcode.c'], [('relative offsets', 'src/instr.c: instr_rel, to_rel16')])
prop('C04', 'Register operands encode the right postbyte',
     'Transfers and exchanges, inter-register arithmetic, stack pushes and pulls, block transfers and register-bit operations encode exactly the registers (and bits, increments, direct address) written in the source into the postbyte and opcode the hardware expects, for every register list and pair. '
     'Registers the operation cannot use, and a stack register pushed onto itself, are diagnosed as errors; a size mismatch gives a warning only.',
     ['inputs', 'configurations'], 'every register pair, every register list, every mnemonic of these classes, both instruction sets',
     T17 + 'a few pairs and lists are sampled out of hundreds.',
     ['src/instr.c', 'src/register.c'],
     [('register tables', 'src/register.c: reg_tfr_nibble, reg_tfr_size, reg_stack_bit'), ('encoders', 'src/instr.c: instr_pair, instr_stack, instr_tfm, instr_reg_mem')])
prop('C05', 'Immediate and direct/extended operands hold the written value',
     'An immediate operand assembles to the low 8, 16 or 32 bits of its value, most significant byte first, and a memory operand to its 16-bit address. '
     'Direct addressing is chosen when forced with <, or when the address lies in the page declared as the direct page and the instruction has a direct form; > forces extended addressing; with no declared direct page extended addressing is used.',
     ['inputs', 'configurations'], 'every operand value, direct page setting, size prefix and instruction with such a mode',
     T17 + 'they cannot cover all values of operand and direct page.',
     ['src/instr.c', 'src/assemble.c', 'src/section.c'],
     [('mode choice', 'src/instr.c: instr_address'), ('immediates', 'src/instr.c: instr_immediate, instr_imm8_mem'), ('direct page', 'src/assemble.c: pseudo_setdp')],
     state=[('direct page', 'assumed DP of the current section, negative when undefined', 'src/section.h: struct section dp')])
prop('C06', 'Operators compute the documented values',
     'For all integer, floating point and string operands every operator yields the documented result: 64-bit integer arithmetic, floating point when either operand of * + - is floating, division always floating, bitwise and modulo on integers, comparisons and logical operators 0 or 1, strings taken as big-endian bytes. '
     'An operation with no defined result (modulo by zero, shift count outside 0..63, operands of an unusable kind) is diagnosed and never crashes or silently yields a value.',
     ['inputs'], 'every operator, every operand kind combination, every 64-bit integer value and every double',
     T17 + 'they use a few small constants.',
     ['src/eval.c'], [('evaluation', 'src/eval.c: eval_node, eval_node_oper_1, eval_node_oper_2, eval_node_oper_3')])
prop('C07', 'Operator precedence and associativity follow the documented table',
     'Any expression parses as the documented precedence table prescribes: unary operators bind tightest, then * / %, + -, shifts, relational, equality, &, ^, |, &&, || and ?:, with binary operators of equal precedence grouping left to right and parentheses overriding.',
     ['inputs'], 'every pair (and, since the parser is LR with precedence, hence every nesting) of operators',
     T17 + 'two or three operator combinations are used.',
     ['src/grammar.y'], [('precedence declarations and rules', 'src/grammar.y')])
prop('C08', 'An operand of an unusable kind never assembles silently',
     'A source line whose operand count or operand kinds the instruction or directive cannot use (a register, string, list or nothing where a value is needed; a value where a register is needed; missing or extra operands) leaves the assembly with an error diagnostic. '
     'An operand that refers to an undefined symbol likewise never leads to a successful assembly.',
     ['inputs'], 'every instruction class and directive, every operand position, every operand kind',
     T17 + 'no test contains an erroneous line.',
     ['src/instr.c', 'src/assemble.c', 'src/eval.c'],
     [('argument checks', 'src/assemble.c: verify_num_args, have_int_required, have_int_optional'), ('operand checks', 'src/instr.c')])
prop('C09', 'Exit status, diagnostics and output files agree',
     'The program exits with status 0 only if no error diagnostic was issued and every requested output, listing, exports and symbols file was opened and written completely; otherwise it prints at least one error message to standard error and exits with a non-zero status. '
     'When assembly itself fails no output, listing, exports or symbols file is created.',
     ['inputs', 'fault_sequences', 'configurations'], 'every error class raised by assembly or reporting, every combination of requested outputs and formats, every failing open, write or close',
     T17 + 'the tests never make a file operation fail and never look at the exit status of a failing run.',
     ['src/asm6809.c', 'src/output.c', 'src/error.c', 'src/program.c', 'src/listing.c'],
     [('error gating', 'src/asm6809.c: main'), ('writers', 'src/output.c'), ('error list', 'src/error.c: verror, error_print_list')])
prop('C10', 'Success only after a pass in which nothing changed',
     'A run succeeds only if in its last pass every symbol, local label and section had the same value and end address as in the pass before and no symbol was undefined; otherwise further passes are made up to the limit, and reaching the limit is an error (a symbol whose definition is skipped in a pass keeps the value of the last pass that defined it). '
     'The decision to make another pass depends only on the set of diagnostics of the pass, not on their order, and an out-of-range condition in a pass that is still changing does not end the assembly.',
     ['inputs', 'histories'], 'every sequence of per-pass diagnostics, every pair of old and new values, every pass limit',
     T17 + 'their sources settle in two or three passes and never reach the limit.',
     ['src/asm6809.c', 'src/symbol.c', 'src/section.c', 'src/error.c'],
     [('pass loop', 'src/asm6809.c: main'), ('change detection', 'src/symbol.c: symbol_set, symbol_local_set; src/section.c: section_finish_pass'), ('severity order', 'src/error.c: verror')])
prop('C11', 'SREC output is well formed and carries exactly the data',
     'Every data record of the SREC output is an S1 record with correct byte count, 16-bit address and checksum and at most 32 data bytes, and the records together carry each assembled byte exactly once at its load address, in order. '
     'The file ends with one S9 record with a correct checksum holding the execution address, or zero if there is none.',
     ['inputs'], 'every span count, span address, span length and byte content, every execution address',
     T17 + 'they fix a few lengths below two records and contents.',
     ['src/output.c'], [('writer', 'src/output.c: output_motorola_srec')])
prop('C12', 'Intel HEX output is well formed and carries exactly the data',
     'Every data record of the HEX output is a type 00 record with correct length, 16-bit address and checksum and at most 32 data bytes, and the records together carry each assembled byte exactly once at its load address, in order. '
     'The file ends with exactly one type 01 end record with correct checksum, carrying the execution address when there is one.',
     ['inputs'], 'every span count, span address, span length and byte content, every execution address',
     'No test produces HEX output.',
     ['src/output.c'], [('writer', 'src/output.c: output_intel_hex')])
prop('C13', 'Raw, DragonDOS and CoCo containers carry exactly the data',
     'Raw output is exactly the assembled bytes from the lowest to the highest load address with gaps zero-filled; DragonDOS output is that image after a 9-byte header giving load address, length and execution address; CoCo output has one length- and address-prefixed segment per contiguous block and a trailer with the execution address. '
     'The execution address defaults to the load address of the first block.',
     ['inputs'], 'every span count, address, length, content and execution address',
     'No test produces these formats.',
     ['src/output.c', 'src/section.c'], [('writers', 'src/output.c: output_binary, output_dragondos, output_coco')])
prop('C14', 'Merging of data blocks preserves every byte at its address',
     'Before output, blocks of data are ordered by load address and adjacent ones joined, gaps being zero-filled only for formats that need a single block, so that every assembled byte stays at its load address and none is lost, duplicated or invented. '
     'Blocks that overlap are diagnosed as an error.',
     ['inputs'], 'every number of blocks up to three, in every order, with every address and length',
     T17 + 'nearly all tests have a single block.',
     ['src/section.c'], [('coalescing', 'src/section.c: section_coalesce, section_coalesce_all, span_cmp')])
prop('C15', 'Bytes land where ORG, PUT, RMB, ALIGN and sections say',
     'Each assembled byte is placed at the load address given by the last ORG or PUT plus the bytes emitted or reserved since, while the location counter follows ORG independently of PUT; RMB and ALIGN advance both by exactly the requested amount. '
     'A section continues where it stopped, or on first use follows the section before it; addresses outside 0..65535 and negative counts are diagnosed and never wrap silently.',
     ['inputs', 'histories'], 'every sequence of up to four placement directives and emissions with any operand values, every section switch',
     T17 + 'few of them move the location counter.',
     ['src/section.c', 'src/assemble.c'],
     [('emission', 'src/section.c: section_emit, section_skip, section_set'), ('directives', 'src/assemble.c: pseudo_org, pseudo_put, pseudo_rmb, pseudo_align')],
     state=[('location counter', 'address assumed for the next byte', 'src/section.h: struct section pc'), ('put address', 'load address of the next byte', 'src/section.h: struct section put')])
prop('C16', 'Data directives emit exactly the documented bytes',
     'FCB/FCC, FCN, FCS, FCV, FCI, FDB, FQB, RZB and its aliases, FILL and INCLUDEBIN emit, for every operand value and string content, exactly the documented bytes in operand order: truncated big-endian numbers, string characters, terminator, top bit, display-code translation, fill count and file content.',
     ['inputs'], 'every operand value, every string character, every operand count and order up to three, every file content',
     T17 + 'a few values of some directives are sampled.',
     ['src/assemble.c'], [('emitters', 'src/assemble.c: emit_formatted, ascii_to_vdg, pseudo_fcb .. pseudo_fill, pseudo_includebin')])
prop('C17', 'Conditional assembly selects exactly the documented lines',
     'Within IF / ELSIF / ELSE / ENDIF, at any nesting, exactly the lines of the first branch whose condition is non-zero (or of ELSE when none is) are assembled; skipped lines define nothing, emit nothing and expand nothing, and undefined symbols in conditions count as zero. '
     'Unbalanced or repeated directives are diagnosed.',
     ['inputs', 'programs'], 'every condition value and every arrangement of conditional directives up to two nested levels with up to three branches each',
     T17 + 'only simple IF/ELSE is used.',
     ['src/assemble.c'], [('conditional state', 'src/assemble.c: assemble_prog')])
prop('C18', 'Macro expansion substitutes the actual arguments',
     'Using a macro assembles its recorded body with every positional variable replaced by the corresponding argument of the innermost expansion, pasted into names and strings or passed by value; body lines are not assembled while being defined, and expansion returns to the outer arguments afterwards. '
     'References to missing arguments, redefinition, ENDM without MACRO, an unfinished MACRO and unbounded recursion are diagnosed.',
     ['inputs', 'programs'], 'every argument value, count and position, nested expansion and nested definition',
     T17 + 'one fixed macro is used.',
     ['src/assemble.c', 'src/interp.c', 'src/program.c', 'src/eval.c'],
     [('argument stack', 'src/interp.c'), ('definition', 'src/assemble.c: pseudo_macro, pseudo_endm'), ('pasting', 'src/eval.c: eval_string')])
prop('C19', 'Symbols hold their one definition',
     'A symbol evaluates to the value given by its label, EQU, latest SET (before the first SET of a pass: the value left by the previous pass), or command line definition, for any value and kind; names are case sensitive and distinct names never interfere. '
     'Defining a symbol twice in one pass other than by SET is diagnosed and does not alter the first value.',
     ['inputs', 'histories'], 'every value, every sequence of up to three definitions and uses, across two passes',
     T17 + 'no test redefines a symbol.',
     ['src/symbol.c', 'src/assemble.c'], [('symbol table', 'src/symbol.c: symbol_force_set, symbol_try_get, symbol_get')])
prop('C20', 'Local label references find the nearest occurrence',
     'A back reference evaluates to the occurrence of that number at the highest earlier or same line of the current section, and a forward reference to the occurrence at the lowest later line, for any number and placement of occurrences; labels in other sections or with other numbers are never found. '
     'A reference with no such occurrence is diagnosed.',
     ['inputs'], 'every line number of the reference and every placement of up to eight occurrences, inserted in any order',
     T17 + 'a few fixed placements are used.',
     ['src/symbol.c'], [('search order', 'src/symbol.c: symbol_local_backref, symbol_local_fwdref, symbol_local_set')])
prop('C21', 'The listing shows the bytes actually emitted',
     'For every source line that emits code or data, the listing line shows the address assigned to the line and exactly the bytes emitted for it, followed by the source text; lines that emit nothing show no bytes.',
     ['inputs'], 'every kind of line, after any ORG, PUT, RMB or section change, with any addresses',
     'No test produces a listing.',
     ['src/listing.c', 'src/assemble.c'], [('recording', 'src/assemble.c: assemble_prog'), ('printing', 'src/listing.c: listing_print')])
prop('C22', 'Exports and symbols files re-assemble to the same definitions',
     'The symbols file lists every defined non-local symbol and the exports file every exported symbol and macro, in a form which, when assembled again, defines each with the same value and meaning; internal bookkeeping symbols never appear. '
     'Exporting an undefined symbol is an error.',
     ['inputs'], 'every symbol value and kind, every operator and operand form in a macro body',
     'No test produces these files.',
     ['src/program.c', 'src/node.c', 'src/symbol.c'], [('printing', 'src/program.c: print_symbol, print_exported; src/node.c: node_print')])
prop('C23', 'No operand makes the assembler crash, hang or corrupt memory',
     'For every source line, whatever its directive or instruction and the kinds and values of its operands, assembling it terminates without invalid memory access, arithmetic fault, use of uninitialised data, failed internal assertion or endless loop; problems end in diagnostics.',
     ['inputs'], 'every mnemonic and directive x operand kind combinations x all operand values, and all interactions of two consecutive placement lines',
     T17 + 'only valid lines with ordinary values are assembled.',
     ['src/assemble.c', 'src/instr.c', 'src/eval.c', 'src/section.c', 'src/node.c', 'src/symbol.c'],
     [('whole line processing', 'src/assemble.c: assemble_prog')])
prop('C24', 'Command line options have their documented effect',
     'Every documented option, in short and long form, sets exactly the setting it documents from its argument: output format and file, execution address, instruction set, symbol definition, direct page, pass limit, listing, exports, symbols, verbosity. '
     'Unusable option arguments and missing source files are diagnosed with a non-zero exit status.',
     ['configurations', 'inputs'], 'every option in every form, any numeric argument value, later options overriding earlier ones',
     T17 + 'the tests only use the SREC, instruction set and output options.',
     ['src/asm6809.c'], [('option table and loop', 'src/asm6809.c: main, simple_parse_int, define_symbol')])
prop('C25', 'Numbers and characters in source denote their written value',
     'Every numeric literal of up to 63 bits in every form (decimal, @ or leading-0 octal, % or 0b binary, $ or 0x hexadecimal, quoted character) denotes the value its digits spell, in operands and labels, and every operand form (#, <<, <, >, register increments, indirection, local references, strings, positional variables) is recognised as what the documentation says. '
     'A line whose label or instruction field does not fit the syntax is diagnosed with its line number and the lines after it are still read (text after complete operands is a comment, as documented).',
     ['inputs'], 'every literal form with any digits, every operand form, every delimiter context',
     T17 + 'they contain a small sample of literals.',
     ['src/lex.l', 'src/grammar.y'], [('scanner rules', 'src/lex.l'), ('argument rules', 'src/grammar.y')])
prop('C26', 'INCLUDE and END take effect exactly where written',
     'An included file is assembled in place of its INCLUDE line, in the state at that point, with the section restored afterwards; a missing file, or inclusion nested beyond the limit, is diagnosed. '
     'END stops reading of its file, records the given execution address, and an address given on the command line overrides it.',
     ['inputs', 'programs'], 'any contents of the included file, any execution address, nesting to any depth',
     T17 + 'no test uses them.',
     ['src/assemble.c', 'src/program.c', 'src/grammar.y', 'src/asm6809.c'],
     [('inclusion', 'src/assemble.c: pseudo_include, assemble_prog'), ('end', 'src/grammar.y: check_end_opcode; src/assemble.c: pseudo_end; src/output.c: get_exec_addr')])
prop('C90', 'Every program with a stable layout settles within the pass limit',
     'Any source for which some assignment of symbol values is consistent is assembled successfully within the documented number of passes.',
     ['programs', 'histories'], 'all programs', 'Tests sample a few programs.',
     ['src/asm6809.c'], [('pass loop', 'src/asm6809.c: main')])
prop('C91', 'Floating point literals denote the nearest double',
     'A floating point literal denotes the double nearest to its written decimal value, whatever the locale.',
     ['inputs', 'configurations'], 'all literals and locales', 'Tests use no floating point literal.',
     ['src/lex.l'], [('scanner', 'src/lex.l')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
