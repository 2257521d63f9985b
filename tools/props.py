"""The properties: text for properties.jsonl and MANIFEST.json."""

P = [
 dict(id='P02', title='No malformed or truncated source makes the compiler read past the last token',
  statement="""However a source file, header or command-line macro ends - in the middle of a directive, of a macro call,
   of an expression, of a declaration or of a statement - the preprocessor and the parser never step beyond the
   end-of-input token: they diagnose the input or accept it, and do not crash.
   The end-of-input token has no successor, and no operation takes the successor of a token that can be the end of input.""",
  over=['inputs'], quant='every token sequence, including every proper prefix of every program and every directive',
  why="""The suite feeds complete programs and a handful of error cases; a lookahead that assumes one more token fails only on
   input that stops exactly there.""",
  files=['preprocess.c', 'parse.c', 'tokenize.c', 'main.c'],
  mech=[('end-of-input tests before stepping', 'preprocess.c, parse.c'), ('skip/consume/equal on tokens', 'tokenize.c'),
        ('directive line splitting', 'preprocess.c preprocess2, split_line, copy_line')],
  obs=['exit status and diagnostics of slimcc on truncated input'],
  how="""Abstract value: how many tokens are known to follow a token pointer (its depth). Kind and spelling tests that exclude end of input raise it, taking a successor lowers it; summaries give, per function, the depth it requires of its arguments and guarantees for its results and output parameters. Obligation: each field read through a successor needs depth.""",
  technique='interprocedural lookahead-depth dataflow over LLVM IR',
  note="""Sound for the token accesses analysed under the stated aliasing assumptions: every use of a token's successor or
   kind in the parser and preprocessor is an obligation, proved by depth facts propagated through summaries. Stack depth
   and memory exhaustion are outside."""),
 dict(id='P07', title='Values saved while an expression is evaluated are restored exactly once',
  statement="""In the generated code every intermediate value that is set aside while another operand is
   evaluated is taken back exactly once, in last-in first-out order and in the register class it was saved in, on every
   path of code generation and for every nesting of expressions.
   After each statement no saved value is left over and none has been taken twice.""",
  over=['programs'], quant='every expression tree: all operand kinds, types, nesting depths, statement expressions, deferred actions, inline assembly',
  why='Tests sample a few hundred operator/type/nesting combinations; an unbalanced path corrupts only programs that combine that operand kind with a pending temporary.',
  files=['codegen.c'],
  mech=[('push/pop of temporary slots', 'codegen.c push_tmpstack, pop_tmpstack and their wrappers'),
        ('slots kept in callee-saved registers', 'codegen.c reg/slot reservation, clobber_gp')],
  state=[('temporary stack', 'slots pushed and not yet popped, with their class and place', 'codegen.c tmp_stack')],
  obs=['generated assembly'],
  how="""See the explanation in the evidence file: primitives are found by their effect on the depth of the temporary stack; slots carry a class (integer, SSE, x87) and place; each recursive generator function must have one net effect on every path.""",
  technique='typestate analysis of the temporary stack over LLVM IR',
  note="""Decides balance, class and order of slots on all paths of the code generator, by summaries per outcome to a fixpoint. Trusts
   that a node is not changed while code is generated for it."""),
 dict(id='P12', title="Each construct leaves the parser's context as it found it",
  statement="""After a statement, declaration, expression or type has been parsed, the current scope, the
   innermost break/continue/switch target, the pending scope-exit actions of an enclosing block and the modes of the constant evaluator and of
   initializers are what they were before it, whichever path was taken through the construct.
   A name declared inside a block, prototype, loop header or statement expression is never visible after it.""",
  over=['programs'], quant='every construct nested in every other construct, on every path through the parser',
  why='A missed restore on one early-return path is visible only to code that follows that particular construct; tests hold few such sequences.',
  files=['parse.c'],
  mech=[('scope entry and exit', 'parse.c enter_scope, leave_scope, new_block_scope, leave_block_scope'),
        ('saved jump context, evaluation mode and initializer mode', 'parse.c loop_body, stmt, is_const_expr, declaration2'),
        ('arena switching', 'parse.c func_definition, parse')],
  state=[('scope', 'innermost scope', 'parse.c scope'), ('jump context', 'targets of break/continue/case', 'parse.c jump_ctx'),
         ('pending actions', 'cleanup/defer actions to run at scope exit', 'parse.c current_defr')],
  obs=['name lookup, jump targets and generated cleanup code after the construct'],
  how="""Entry values of the context variables are symbols; summaries say what each function leaves in each. Uniform changes (enter_scope) are substituted at call sites; anything path-dependent is reported where it happens.""",
  technique='save/restore dataflow of context variables over LLVM IR',
  note="""Every function that can change a context variable is interpreted on all paths with the entry values as symbols. Error paths that
   end the process are excluded."""),
 dict(id='P14', title='A reported error always ends in a failing exit status',
  statement="""Once slimcc has written a diagnostic to standard error, it ends with a non-zero exit status.
   The only diagnostics after which it may still succeed are warnings given while -Werror is off.
   Functions that are declared not to return never return.""",
  over=['inputs'], quant='every diagnostic, on every path from where it is written to the end of the process',
  why='Tests trigger a few dozen errors; whether every one of several hundred error sites ends in failure depends on all paths from it.',
  files=['tokenize.c', 'main.c', 'parse.c', 'preprocess.c'],
  mech=[('diagnostic functions', 'tokenize.c error, error_at, error_tok, warn_tok, verror_at'), ('process ends', 'main.c, parse.c, tokenize.c')],
  obs=['exit status'],
  how="""Taint of the control state: writing to stderr marks the path; the mark flows through returns by summaries (which diagnostics a function may return after). At every exit() the status must be non-zero modulo 256, and main() must not return 0, on a marked path. The mark is dropped only where the path has established that -Werror is off, or that -### asks for a dump. Noreturn functions must end in a noreturn call on all paths, and exit handlers must not end the process.""",
  technique='interprocedural path-sensitive dataflow over LLVM IR (diagnostic written, process end)',
  note='Decides all paths of all functions from which a write to stderr or an exit is reachable. The usage text (exit status chosen by the caller) is exempt.'),
 dict(id='P15', title='A failing sub-process makes the driver fail',
  statement="""When a child process of the driver (compilation, assembler, linker) cannot be started, exits with any
   non-zero status or is killed by any signal, the driver does not go on as if it had succeeded.
   A child process never returns into the driver's own control flow.""",
  over=['inputs', 'fault_sequences'], quant='every wait status (all exit codes and signals) and every failure of fork, exec and wait',
  why='Tests see children that succeed or exit with status 1; signals, other exit codes and failing system calls are not provoked.',
  files=['main.c'],
  mech=[('creating and waiting for children', 'main.c run_subprocess, run_cc1')],
  obs=['exit status when a child fails'],
  how="""For each function that forks, all paths are followed with the result of fork as a symbol. At a return the path must be the parent's, wait must have been called with a status buffer, the path facts must exclude that wait failed, and each of the 383 failing wait statuses (exit codes 1-255, signals 1-64, with and without core dump) is substituted into the path facts and must contradict them. After exec only exits with a non-zero status may follow.""",
  technique='typestate and path-fact analysis over LLVM IR, with enumeration of the failing status words',
  note='Finite and complete in the status word. Assumes the usual encoding of the wait status (Linux).'),
 dict(id='P16', title='Exit status 0 means that every output was written completely',
  statement="""If opening, writing, flushing or closing an output of the compiler (assembly, preprocessed text, dependencies; a file or
   standard output) fails, the failure is reported and the exit status is not 0.""",
  over=['inputs', 'fault_sequences'], quant='every output stream, on every path, for a failure of every operation on it',
  why='No test runs on a full device or an unwritable path.',
  files=['main.c'],
  mech=[('opening and closing outputs', 'main.c open_file, close_file'), ('writers', 'main.c print_tokens, print_dependencies, cc1')],
  obs=['exit status and diagnostics when the output device is full'],
  how="""Typestate of output streams (opened for writing, or standard output): at each return of the function that opened it, and at each exit that may have status 0, the stream must be known to be non-NULL, to have had its error indicator read as clear after the last write, and to have been closed or flushed with success; 'known' means that the path facts contradict failure. Small static helpers are inlined first.""",
  technique='typestate analysis of output streams over LLVM IR',
  note='Covers the streams the driver opens. Output of the assembler and linker is their own; the text buffers in memory are not streams in this sense.'),
 dict(id='P17', title='Temporary files are removed whenever the driver ends',
  statement="""Every temporary file the driver creates is removed when the driver ends, on success and after every error
   it diagnoses, in itself or in a sub-process.
   A child process that succeeds does not remove them.""",
  over=['inputs', 'histories'], quant='every path from the creation of a temporary file to the end of the process',
  why='Tests do not look for files left behind, least of all after failures.',
  files=['main.c'],
  mech=[('creation and registration', 'main.c create_tmpfile'), ('removal', 'main.c cleanup, registered with atexit in main')],
  state=[('tmpfiles', 'paths to remove at exit', 'main.c')],
  obs=['contents of /tmp after a run'],
  how="""On every return of a function that creates a file, its path is in the list read by an exit handler; the handler is registered before anything that may create one; its loop starts at the first entry, ends at the list's length and removes on every path of an iteration; nothing else changes the list; only a child process uses _exit, and no child that succeeds runs the exit handlers.""",
  technique='typestate and structural loop analysis over LLVM IR',
  note='A driver that is killed by a signal leaves its files: that is outside the statement. Loops of an unknown form in the handler are only checked for removing on every path.'),
 dict(id='P22', title='No command line makes the driver read past its arguments',
  statement="""Whatever the sequence of command line options, the argument vector is never read beyond its end.
   An option whose argument is missing is diagnosed, and its absent argument is never used.""",
  over=['inputs'], quant='every sequence of options, in particular every option as the last one',
  why='Tests use options with their arguments; each of the options with an argument has its own last-position case.',
  files=['main.c'],
  mech=[('option parsing', 'main.c parse_args, take_arg, take_arg_s')],
  obs=['diagnostic for a missing argument'],
  how="""Each element read from argv is a symbol of its index; it is known to be present if the index is below argc or if it has been compared with NULL on this path. Reading element i needs i below argc or element i-1 present; any use of an element (dereference, storing it, passing it to a function) needs it present. Static helpers that take the vector are inlined; joins and loop headers keep the relation between index and presence.""",
  technique='non-null and index dataflow over LLVM IR',
  note='Decides all reads of argv in main() and the functions it is passed to.'),
 dict(id='P04', title='What a lookup does not find is never used as if it had been found',
  statement="""For every input, the result of a lookup that can find nothing (a name, tag, member, macro, macro argument, hash entry,
   file or substring) is tested before the compiler looks into it. The same holds for the optional parts of its own data: a scope entry's variable,
   type or enumeration, a member's name, a variable's initial image, section, assembler name, visibility and relocations, a token's origin and attributes, a loop's init and step, a switch's default.
   Absence leads to another branch or to a diagnostic, never to a null dereference.""",
  over=['inputs'], quant='every input, in particular those in which a name, file or optional part is missing',
  why='Each of the several hundred uses has its own missing case; tests exercise almost only the successful one.',
  files=['parse.c', 'preprocess.c', 'tokenize.c', 'codegen.c', 'main.c', 'hashmap.c'],
  mech=[('lookups', 'parse.c find_var/find_tag/get_struct_member, preprocess.c find_macro/find_arg/search_include_*, hashmap.c hashmap_get2, tokenize.c read_file'),
        ('optional parts', 'slimcc.h struct Obj, Node, Member, VarScope, Token')],
  obs=['diagnostics for missing names and files', 'compiler crash'],
  how="""Which functions can return NULL, and which parameters a function dereferences without testing, is computed bottom-up over the call graph. In every function the value of a lookup, or of an optional field, is a symbol that is possibly null until a branch on it (or on anything derived from it) excludes that; reading or writing through it, pointer arithmetic on it, passing it to a function that uses it, or printing it by %s is a violation. Small static helpers are inlined, so a test made in a helper counts.""",
  technique='interprocedural null-ness dataflow over LLVM IR',
  note='Optional fields are those listed in lib/nulls.py; fields whose presence follows from the node kind (e.g. the operands of an operator) are not decided. A result that is stored in some other field and read back from there is not followed. localtime() is taken not to fail for the current time.'),
 dict(id='P19', title='Text is printed through constant formats that fit their arguments',
  statement="""In all output of the compiler (assembly, preprocessed text, dependency lists, diagnostics) each printf-style format is a constant of the program, never text from the input.
   Its conversions agree in number, kind and width with the arguments passed, through all wrappers, so no value is truncated or misread on its way into the text.""",
  over=['inputs'], quant='every value printed, in particular wide constants, sizes and offsets, and text containing per cent signs',
  why='A conversion of the wrong width prints small values correctly; only values beyond it, which tests rarely have, come out wrong.',
  files=['codegen.c', 'main.c', 'preprocess.c', 'tokenize.c', 'strings.c'],
  mech=[('assembly output', 'codegen.c Printf, Printftn, Printfts'), ('diagnostics', 'tokenize.c error_tok, verror_at'), ('strings', 'strings.c format')],
  obs=['assembly text', 'diagnostics', 'preprocessed text'],
  how="""printf-like wrappers are found from the IR: functions that hand a format parameter on to a va_list function. At every call of one, the possible formats are collected through phis, selects, constant tables and parameters; each must be a constant. Each conversion is compared with the IR type of its argument (i32, i64, double, x86_fp80, pointer). The format diagnostics of clang on the source are a second opinion on signedness and typedefs.""",
  technique='format/argument type query over LLVM IR and compiler diagnostics',
  note='The width passed is what is compared: an argument truncated by a cast before the call is a different fact and is not decided.'),
 dict(id='P03', title='Constant expressions get the value their operators prescribe',
  statement="""For every operator of a constant expression the value the compiler computes is the one C prescribes for the values of its operands:
   integer arithmetic, shifts, comparisons and conversions follow the width and signedness of the types, floating-point results are rounded to their type,
   && || ?: evaluate only the operands they should, and bit-fields and elements of constant objects are read with their own width and sign.
   No operand values make the evaluator itself divide by zero or overflow a division.""",
  over=['programs'], quant='every constant expression: operators, operand types and operand values, including extreme ones',
  why='Tests compare a few hundred constants; one operator with one type and extreme operands is a different path each time.',
  files=['parse.c'],
  mech=[('integer evaluation', 'parse.c eval2, eval_sign_extend'), ('floating-point evaluation', 'parse.c eval_double, eval_fp_cast'),
        ('constant objects', 'parse.c eval_constexpr_data, read_buf')],
  obs=['values of array sizes, enumerators, case labels, static initializers, _Static_assert', 'compiler crash'],
  how="""The evaluators are found by what they are: functions over a node that call themselves for the operands and return an integer or a long double. Every return path carries the node kinds and types it is taken for and the value as a term over the operands' evaluations; terms are brought to a normal form (polynomials modulo two to the width, extensions, comparisons with signedness) and compared with a table of C's operators. Each division instruction must be guarded against zero and against the minimum divided by minus one.""",
  technique='value-term dataflow over LLVM IR against an operator table',
  note='Decides one operator given its operands, hence whole expressions by induction; that the right tree is built is not decided. Arithmetic on long double is taken as exact before the final rounding (double rounding is not decided).'),
 dict(id='P28', title='Code emitted for an operator computes that operator',
  statement="""For every arithmetic, shift, comparison, logical, conditional, conversion, assignment (plain, compound, post-increment), member, dereference, address and atomic exchange
   operator, for every scalar operand type, bit-field width and position, constant operand and with or without -O0, the instructions the code generator emits compute the value
   C prescribes for the values of the operands; an assignment changes exactly the bits of the object assigned; every operand that must be evaluated is evaluated once and the operands
   that && || ?: skip are not; a conditional jump is taken for the right truth value; saved temporaries, the stack pointer and the floating-point control word are restored.
   Function calls, inline assembly, variable arguments and statements are outside this property.""",
  over=['programs'], quant='every operator, operand type, bit-field shape, constant operand and operand value; the specialised code for constants and memory operands included',
  why='Each operator has many emitted forms, chosen by operand type, constant value, bit-field width and whether an operand is in memory; tests execute a few of them with a few values.',
  files=['codegen.c'],
  mech=[('operators', 'codegen.c gen_expr2, gen_expr_opt, gen_cast'), ('folded forms', 'codegen.c gen_*_opt_gp, memop_arith, gen_cmp_opt_gp'), ('lvalues and stores', 'codegen.c gen_addr, load, store, gen_bitfield_*'), ('conditions', 'codegen.c gen_cond')],
  obs=['wrong result, wrong store or wrong branch in the compiled program, which compiles without a message'],
  how="""The functions of the code generator are interpreted abstractly (LLVM IR, path-sensitive) on a node of one kind and one choice of operand types; what they print is not run but parsed and applied to an abstract x86-64 machine whose registers, memory and x87 stack hold terms over the operands' values. Code for an operand is a contract: its value is left where it belongs and every scratch register is lost. At every return path the term for the result (stored bytes, branch condition, address) is compared with C's operator by value numbering with random interpretation: both sides are evaluated under consistent choices of types and values that satisfy the path's facts, and only a choice on which they differ is reported.""",
  technique='abstract interpretation of the code generator over LLVM IR with an abstract machine for the emitted text; value numbering by random interpretation',
  note='A reported difference is a real one for the operand values shown. Equality is established up to random interpretation on up to 14 choices per path, not proved; the evidence counts the paths left undecided. Register allocation of temporaries (P07), folding (P03) and the evaluators is_const_expr and eval_var_opt are assumed here; the contracts of the other helpers are checked by interpreting the helpers themselves.'),
 dict(id='P31', title='Calls, parameters, results and va_arg follow the System V x86-64 ABI',
  statement='''For every list of parameter types (integers, pointers, bool, float, double, long double, structures and unions of them with aligned members), result type, prototype
   (fixed or variadic) and kind of argument expression, with or without -O0: a call leaves every argument in the register or stack slot the System V x86-64 ABI prescribes, evaluates every argument
   and the called pointer once, sets %al to a number of vector registers that suffices for a variadic call, calls with the stack pointer aligned to 16, restores it, and takes the result from where the
   ABI returns it; a function finds every parameter where the ABI passes it, keeps it in its own aligned part of the frame, returns its result where the ABI says and restores %rbp, %rbx and the
   stack pointer; va_start and va_arg read the variable arguments in the order they were passed.''',
  over=['programs'], quant='every parameter list, result type and kind of argument expression; position of each argument relative to the end of the registers',
  why='Where an argument goes depends on all the arguments before it and on the fields of every structure; a mistake is symmetric between a caller and a callee compiled by the same compiler, so most tests cannot see it, and each test fixes one list.',
  files=['codegen.c'],
  mech=[('classification', 'codegen.c calling_convention, has_flonum'), ('calls', 'codegen.c gen_funcall, gen_funcall_args, place_reg_arg, prepare_funcall'), ('prologue and epilogue', 'codegen.c emit_text'), ('results', 'codegen.c copy_ret_buffer, copy_struct_reg, copy_struct_mem'), ('variable arguments', 'codegen.c gen_expr2 ND_VA_START, ND_VA_ARG, gen_vaarg_reg_copy')],
  obs=['wrong argument values or results, in particular when linked with code of another compiler', 'crash from a misaligned stack'],
  how='''The functions that emit calls, function prologues and epilogues and va_arg are interpreted abstractly (LLVM IR, path-sensitive, calls followed) for one list of types at a time; the text they print is parsed and applied to an abstract x86-64 machine whose registers and memory hold, byte by byte, which byte of which argument, parameter or result they carry.
   At the call instruction, at the start of the body, at ret and after va_start the places are compared with a classification of the ABI written independently of the compiler. va_arg is applied to all register counts left. The lists are: every scalar type and about forty structures alone, in pairs, in runs, at every distance from the end of the registers, as results, plus a fixed random set (larger in the thorough tier).''',
  technique='abstract interpretation of the code generator over LLVM IR with an abstract machine tracking byte provenance, against an ABI classifier',
  note='The lists are a finite selection; within one list all paths of the code generator are covered, including every kind of argument expression for short lists. The layout of the structures is given (P32), the value of an argument expression is P28. Evaluating an argument is assumed to leave the stack pointer alone: a variable-length array created inside an argument is not decided. Three unusual kinds of structures are known findings.'),
 dict(id='P32', title='Types are laid out as the System V x86-64 ABI and gcc prescribe',
  statement='''The size and alignment of every scalar type, pointer, array, structure and union, and the offset and bit position of every member, are the ones the System V x86-64 ABI (and gcc for its
   extensions) prescribes: for members of every scalar and aggregate type, bit-fields of every type and width, unnamed and zero-width bit-fields, anonymous members, empty structures and zero-length arrays,
   packed structures and alignments asked for a member or for the whole definition.''',
  over=['programs'], quant='every list of members of a structure or union, with every combination of bit-field, packed and alignment',
  why='Where a member goes depends on every member before it; code compiled by one compiler agrees with itself whatever the layout is, so a test only sees a mistake when it names the offset it expects.',
  files=['parse.c', 'type.c'],
  mech=[('structures and unions', 'parse.c struct_decl, union_decl'), ('arrays and pointers', 'type.c array_of, pointer_to'), ('scalars', 'type.c ty_char, ty_int, ty_long, ty_ldouble and the other constants')],
  obs=['data exchanged with code of another compiler is read at the wrong place', 'members overlap or lie outside the object'],
  how='''struct_decl and union_decl are interpreted abstractly (LLVM IR, calls followed) on a list of members, each given by its type, bit-field width, name and alignment; the list they leave in the type and the offsets, bit positions, size and alignment they store are compared
   with a layout algorithm written from the ABI. The lists are: every member of a catalogue of about 240 alone with every packed and alignment setting, every second pair of them (all in the thorough tier), triples of a smaller catalogue and random longer lists. The constants for the scalar types are read from the IR, array_of and pointer_to are interpreted for every element type.''',
  technique='abstract interpretation of the layout functions over LLVM IR against an ABI layout algorithm',
  note='The lists are a finite selection, interpreted one by one. Recognising the attributes in the source text, objects larger than the int in which bits are counted, and the choice of an enumeration type are not decided. A packed structure whose member of structure type is given an alignment below that of its type is a known finding.'),
 dict(id='P30', title='Statements run in the order C prescribes, whatever they contain',
  statement='''For every if, for, while, do, switch, block, goto, label, return and statement expression, the code emitted evaluates conditions, bodies, increments and initializations in the order and as often as C prescribes
   and continues at the statement C prescribes; a switch goes to the case that contains the value, for every set of case values and ranges, every integer type and every value, else to default, else past its body; and what is deferred
   (defer statements, cleanup functions, the release of variable-length arrays) is run exactly once, innermost first, whenever a block is left, with the value of a return or statement expression preserved.''',
  over=['programs'], quant='every nesting of statements; every set of case ranges and every value of the controlling expression; every list of deferred actions',
  why='The order of branches depends on which parts of a statement are present and which conditions are constant; the dispatch of a switch is a search tree whose shape depends on the set of cases, so a wrong boundary shows for one value of one set.',
  files=['codegen.c'],
  mech=[('statements', 'codegen.c gen_stmt, gen_cond, gen_expr2 ND_STMT_EXPR'), ('switch dispatch', 'codegen.c gen_stmt ND_SWITCH'), ('deferred actions', 'codegen.c gen_defr')],
  obs=['a branch taken or a body run that should not be', 'a cleanup run twice, never or in the wrong order', 'a return value overwritten by a cleanup'],
  how='''gen_stmt, gen_defr and the statement expression of gen_expr2 are interpreted abstractly (LLVM IR, path-sensitive, calls followed) for one statement node at a time, with nested statements and expressions as opaque events; the assembly printed is turned into a graph of events, labels and branches, and every path through that graph,
   with conditions that are unknown, always true or always false, is compared with the sequences of events C allows for the statement. For a switch the comparisons emitted are evaluated on every boundary value of the cases, of the type and one to either side of each, and the label reached compared with the case containing the value; for deferred actions all kinds in lists up to length three are tried.''',
  technique='abstract interpretation of the statement generator over LLVM IR, comparing the emitted control-flow graph with the semantics of the statement',
  note='One statement at a time: bodies and expressions are opaque, so the result carries over to every nesting. Sets of cases are a finite selection (all of a catalogue and random ones, more in the thorough tier); between the values tried the emitted comparisons cannot change their outcome. That the parser builds the right node is P33.'),
 dict(id='P33', title='Labels, cases, jumps and scopes are resolved as C prescribes',
  statement='''The parser attaches every statement, label and jump to what C says it belongs to: conditions, bodies, increments and initializations to their statement; break and continue, with or without a label name, to the innermost loop or switch (or the one so named) and
   goto to the label of that name in the function; a case or default to the innermost switch, with its value converted to the promoted type of the controlling expression and every value of every range leading to its own label, adjacent ranges merged or not.
   Duplicate or empty cases, case labels and gotos that would enter the scope of a deferred statement, cleanup or variable-length array, and jumps without a target are rejected, and nothing else is. What is deferred in a scope is run by the block, the loop round, the return, and every break, continue or goto that leaves that scope, and by nothing else.''',
  over=['programs'], quant='every nesting of statements and deferred actions; every sequence of case labels and ranges of every type; every pair of a jump and a label',
  why='Which deferred actions a jump runs depends on the nesting at both ends; whether case ranges overlap, touch or wrap depends on type and values, and -O merges them; a test fixes one nesting and a few values.',
  files=['parse.c', 'type.c'],
  mech=[('statements', 'parse.c stmt, loop_body, secondary_block, leave_block_scope, compound_stmt'), ('labels and cases', 'parse.c label_stmt, less_eq'), ('jumps', 'parse.c resolve_labeled_jump, resolve_goto_labels, asm_labels'), ('promotion', 'type.c int_promotion')],
  obs=['a switch goes to the wrong case or rejects valid cases', 'cleanups skipped, run twice or run for variables that do not exist', 'break or continue leaves the wrong statement'],
  how='''stmt, compound_stmt, secondary_block, label_stmt, asm_labels and resolve_goto_labels are interpreted abstractly (LLVM IR, path-sensitive, calls followed) on token lists in which an expression, a declaration (which may leave something deferred or not) or a nested statement is one token; the tree, the scopes, the chain of loops and switches and the list of deferred actions
   they leave are compared with C's rules written independently. Inputs: every statement form in nestings of loops and switches with names and with up to three deferred actions around; blocks of up to four items of every kind; all pairs of chains of deferred actions at a goto and its label; for each of four types the boundary values, all mutual positions of two ranges at the ends of the type, and random sequences of cases (more in the thorough tier), optimized or not.''',
  technique='abstract interpretation of the statement parser over LLVM IR on token lists with opaque expressions, against the rules of C',
  note='The token lists and case values are a finite selection; the contents of expressions, declarations and nested statements are opaque, so the result carries over to every nesting. The code emitted for these trees is P30. Duplicate label names in one function are not decided.'),
 dict(id='P34', title='Operators convert their operands to, and have, the types C prescribes',
  statement='''For every arithmetic operator and every pair of arithmetic operand types, plain, qualified or bit-fields of any width, the expression has the type C gives it and its operands are converted to the type C prescribes:
   integer promotions (a bit-field by its width), then the usual arithmetic conversions, with the rank and signedness rules for types of the same size (long and long long, signed and unsigned) and float, double and long double.
   Shifts and unary operators promote their operand, comparisons and logical operators give int, the conditional operator the common type of its branches, and an assignment converts to the type of the object. No conversion on the way changes a value the final one would keep.''',
  over=['programs'], quant='every operator, every pair of arithmetic operand types, every bit-field width, qualified or not',
  why='There are some ten thousand combinations of operators, types and widths; a wrong common type shows only in sign, overflow, _Generic or sizeof of that combination.',
  files=['type.c'],
  mech=[('types of operators', 'type.c add_type'), ('usual arithmetic conversions', 'type.c get_common_type, usual_arith_conv, int_rank, to_unsigned'), ('integer promotions', 'type.c int_promotion, is_bitfield2')],
  obs=['an operation is done in the wrong width or signedness', '_Generic or typeof selects the wrong type', 'a value is truncated by a conversion in between'],
  how='''add_type is interpreted abstractly (LLVM IR, path-sensitive, calls followed) on a node of every operator with opaque operands of every pair of arithmetic types and bit-field widths. The type of the node and the chain of conversions put
   on each operand are compared with the rules of C written independently; a violation names operator, operand types and the wrong type.''',
  technique='abstract interpretation of the type checker over LLVM IR on operands of every type, against the conversion rules of C',
  note='Complete over the arithmetic types; bit-field widths and the ways to reach a bit-field are a selection. Pointer operands, the removal of redundant casts in new_cast and the folding of constant operands are outside.'),
]

NA = [
 dict(id='P90', title='Compiled programs behave as the C abstract machine prescribes',
  statement='For every valid C program the executable produced has exactly the observable behaviour that the C standard prescribes for it.',
  over=['programs', 'inputs'], quant='every valid program and every input of it',
  why='The suite runs a finite set of programs.', files=['parse.c', 'type.c', 'codegen.c'],
  mech=[('the whole compiler', 'parse.c, codegen.c')],
  reason="""Whole-program semantic preservation compares runtime behaviour of two languages; no dataflow or typestate rule in reach decides it.
   Structural clauses of it are claimed separately (P07, P12 and others)."""),
 dict(id='P91', title='The compiler compiles itself to a fixed point',
  statement='The compiler built by itself produces output identical to that of the compiler built by the host compiler, for every source file.',
  over=['programs'], quant='every input to the two compilers', why='Only the stage comparison of one tree is made.', files=['Makefile'],
  mech=[('self-hosting stages', 'Makefile')],
  reason='A round-trip equality of two executions; it can only be decided by running both stages, which is a different technique.'),
 dict(id='P92', title='Floating-point constants are converted exactly',
  statement='Every floating constant in every notation is converted to the nearest representable value of its type, and arithmetic on constants is bit-exact with execution.',
  over=['inputs'], quant='all floating literals', why='Numerical results over an infinite domain.', files=['tokenize.c', 'parse.c'],
  mech=[('literal conversion', 'tokenize.c convert_pp_number'), ('constant evaluation', 'parse.c eval_double')],
  reason="Depends on the host's strtold and on rounding: a numerical property that static rules over the source cannot bound."),
 dict(id='P93', title='Macro expansion equals that of other C preprocessors',
  statement='For every input the token sequence after preprocessing equals the one prescribed by the C standard, including the order of argument pre-expansion and rescanning.',
  over=['inputs'], quant='all macro definitions and invocations', why='Tests cover listed macro cases.', files=['preprocess.c'],
  mech=[('macro expansion', 'preprocess.c expand_macro, subst')],
  reason='Equality of a rewriting process with a reference over all inputs; needs an executable oracle. The structural clauses (no over-read, locks balanced) are claimed separately.'),
 dict(id='P95', title='Compilation time stays near linear in the size of the source',
  statement='Compilation time grows near-linearly with source size for every input.',
  over=['inputs'], quant='all inputs', why='No timing tests.', files=['hashmap.c', 'preprocess.c'],
  mech=[('hash tables', 'hashmap.c')], reason='Timing is a runtime quantity that static analysis of the source does not bound.'),
]
