#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

LEX="src/parser/lexer.rs"; GR="src/parser/parser.lalrpop"; EM="src/simplified_representation/emitter.rs"
TY="src/type.rs"; CO="src/contract.rs"; VI="src/ast/visitor.rs"; NO="src/ast/nodes.rs"; CV="src/ast/converting.rs"; ER="src/error.rs"

prop("C01","No source text crashes the parser",
 "For every source text, and for every token sequence a source text can produce, parsing a contract ends with a contract or an error value: it never panics, overflows, indexes out of range or loops forever, and its types and errors can be printed. (Sources nested so deeply that the call stack itself is exhausted are not meant.)",
 ["inputs","programs"],"every UTF-8 source text / every token sequence the grammar accepts or rejects",
 "The tests parse about twenty well-formed ASCII contracts and a few fragments; no test feeds truncated, malformed, non-ASCII or unusual-but-grammatical type expressions, where slicing, look-ahead, stack pops and unwraps can fail.",
 [LEX,GR,EM,TY,CO],
 [("byte/char arithmetic of the tokenizer","src/parser/lexer.rs Lexer::next"),("stack discipline of the interface emitter","src/simplified_representation/emitter.rs SrEmitter"),("conversion of a declared type","src/type.rs impl From<SrType> for Type")],
 ["Contract::from_str","Iterator for Lexer","parser::*Parser::parse","SrEmitter::emit"])
prop("C02","Tokens cover the source exactly",
 "Tokenizing any source yields tokens whose spans are non-empty, in order and non-overlapping, and whose carried text (or fixed spelling) is exactly the source text of the span, also after turning the token into a string. Everything between and around the spans is only whitespace and comments, so no source character is dropped, duplicated or attributed to another token.",
 ["inputs"],"every source text, including multi-byte characters, unterminated strings and comments",
 "Tests look only at the final interface of valid ASCII contracts; a token span that is off, or swallowed text after a multi-byte string, is invisible to them.",
 [LEX],[("span computation and iterator advancement","src/parser/lexer.rs Lexer::next (chars.nth, with_end)")],["Iterator for Lexer"],
 [("chars","cursor of characters still to be read",LEX+" struct Lexer")])
prop("C03","Tokens are classified by Scilla's lexical rules",
 "Every token is the longest match of Scilla's lexical rules at its position and has the right kind: keywords only when the whole word is the keyword, names by their first character (lower case, upper case, underscore, quote), ByStrN sized byte strings, signed decimal numbers, hex literals of 0x or 0X and pairs of hex digits, double-quoted strings with escapes, and the fixed punctuation. A character that starts no token is reported as unknown, never merged into or hidden by a neighbour.",
 ["inputs"],"every source text",
 "Tests exercise the handful of spellings in sample contracts; prefix/suffix cases (keyword plus letter, signs, odd hex digits, escapes, ByStr names, look-ahead at end of input) form an unbounded input space.",
 [LEX],[("keyword match and regular expressions","src/parser/lexer.rs Lexer::next")],["Iterator for Lexer"])
prop("C04","Reported lines and columns are the true source coordinates",
 "For every token, the start position's byte offset, line and column and the end position's offset agree with the source text: line is the number of newlines before the token, and column is the distance in bytes from the last newline, also after comments, strings and blank lines that span lines.",
 ["inputs"],"every source text",
 "No test inspects line or column; only the byte offsets influence anything the tests see.",
 [LEX],[("line/column bookkeeping","src/parser/lexer.rs Lexer::next, SourcePosition::with_end")],["Iterator for Lexer","start/end of AST nodes"],
 [("line, character, last_position","current coordinates",LEX+" struct Lexer")])
prop("C05","Whitespace and comments never change the result",
 "Replacing the gap between two tokens of a source by any other non-empty mix of whitespace and comments (or by nothing where the two tokens cannot merge) leaves the token sequence, the accept/reject verdict and the parsed contract unchanged.",
 ["inputs","programs"],"every program and every placement and content of whitespace and comments",
 "Tests fix one layout per sample contract.",
 [LEX],[("skipping of whitespace and (* *) comments","src/parser/lexer.rs Lexer::next")],["Iterator for Lexer","Contract::from_str"])
prop("C06","Reported types mirror the declared types",
 "The type reported for a contract parameter, field or transition parameter has the structure written in the source at every depth: primitive types, ByStr and ByStrN with their width, maps with key and value in place, pairs, lists, options with their arguments in order, address types with their kind and fields in order, and any other type by its name. Parentheses do not change a type, and a type that the interface cannot express is an error rather than a different type.",
 ["programs","inputs"],"every type expression the grammar accepts, at any nesting",
 "Tests cover a few dozen concrete types; the combinations of nesting, position (argument, map key, map value) and width are unbounded and handled by separate code paths.",
 [EM,TY,GR,"src/simplified_representation/primitives.rs"],
 [("type emission per grammar position","src/simplified_representation/emitter.rs emit_scilla_type, emit_type_argument, emit_type_map_*"),("name to Type mapping","src/type.rs impl From<SrType> for Type")],
 ["Contract.init_params","Contract.fields","Contract.transitions[].params"],
 [("stack","intermediate results of the emitter",EM+" struct SrEmitter")])
prop("C07","The contract interface is complete, exact and in order",
 "A parsed contract has the declared name, exactly the declared deployment parameters, fields and transitions with their declared names and parameters, each in source order and none missing, repeated or moved to another list. Procedures never appear.",
 ["programs"],"every accepted program: any number and mix of parameters, fields, transitions and procedures",
 "Tests sample fixed contracts; mixes such as procedures between transitions, same names, zero or many items, address-typed parameters are handled through shared mutable state that a few samples do not cover.",
 [EM,CO,GR,"src/field.rs","src/transition.rs"],
 [("collection of parameters, fields and transitions","src/simplified_representation/emitter.rs emit_contract_definition, emit_component_parameters, emit_contract_field, emit_transition_definition")],
 ["Contract fields"],[("contract","interface being assembled",EM+" struct SrEmitter")])
prop("C08","Only declarations determine the interface",
 "Two accepted programs whose contract headers, field declarations and transition signatures are the same have the same parsed interface: imports, libraries, contract constraints, field initialisers, transition and procedure bodies, and the version number have no influence on it.",
 ["programs"],"every accepted program and every statement, expression, pattern, library definition and import in it",
 "Each sample contract has one fixed set of bodies; no test varies the body under a fixed header.",
 [EM,VI,GR],[("skipping of bodies, expressions and procedures","src/simplified_representation/emitter.rs emit_full_expression, emit_component_body, emit_procedure_definition, emit_with_constraint")],
 ["Contract::from_str"])
prop("C09","The accepted language is the documented Scilla grammar",
 "A token sequence is accepted for a construct (program, type, expression, statement, pattern, parameter list, library definition, import, address type ...) exactly when the documented grammar of that construct derives it: nothing more is accepted and nothing derivable is rejected.",
 ["inputs","programs"],"every finite token sequence, per grammar construct",
 "Parser tests feed a few positive samples and hardly any negative ones per rule; the language is infinite and the LR tables are generated.",
 [GR],[("LALRPOP grammar","src/parser/parser.lalrpop")],["parser::*Parser::parse"])
prop("C10","The syntax tree mirrors the source tokens",
 "For every accepted token sequence the tree contains each name, literal, operand and clause once, in its grammatical role and in source order, so that printing the tree back with the grammar's punctuation gives the same token sequence. Every tree node's start and end positions are those of the first and last token it was built from, and a name, address or byte-string node prints as its source text.",
 ["programs","inputs"],"every accepted token sequence",
 "Parser tests only assert that parsing succeeds; they never look at which operand went into which slot, nor at node positions.",
 [GR,NO],[("semantic actions of the grammar","src/parser/parser.lalrpop")],["AST returned by parser::*Parser::parse"])
prop("C11","Tree traversal visits everything once, in order, and obeys the visitor",
 "Visiting a node calls its enter callback, then its children left to right, then its exit callback; asking to skip suppresses exactly that node's children and exit, and an error from any callback stops the traversal at once and is the result of the visit. Source positions announced and withdrawn around nodes are balanced and properly nested whenever no error occurs.",
 ["programs","histories"],"every tree and every sequence of visitor answers (continue, skip, error)",
 "The only visitor in the tests never fails and skips nearly everything below declarations, so most of the traversal code is never executed with a skip or an error answer.",
 [VI,CV,NO],[("per-node visit implementations","src/ast/visitor.rs impl AstVisitor for ...")],["AstVisitor::visit with a user AstConverting"])
prop("C12","Printed types are Scilla types that read back the same",
 "Printing any type of the interface gives Scilla syntax that, declared as a field or parameter type, parses to the same type again.",
 ["inputs"],"every representable interface type of any nesting",
 "Two concrete types are printed in the tests; maps and address types are never printed.",
 [TY],[("Display for Type","src/type.rs impl Display for Type"),("name to Type mapping","src/type.rs impl From<SrType> for Type")],["Type::to_string","Contract::from_str"])
prop("C13","Parsing a file equals parsing its content, and I/O failures surface",
 "Parsing a path returns exactly what parsing the file's text returns, however the operating system splits or interrupts the reads. A file that cannot be opened or read, or is not UTF-8, gives an I/O error, the one the system reported, and never a contract or a panic.",
 ["inputs","fault_sequences"],"every file content and every sequence of read sizes and I/O errors",
 "Tests read a few existing files from a working disk in single reads; faults, short reads and non-UTF-8 content never occur.",
 [CO,ER],[("file reading and error conversion","src/contract.rs Contract::parse, src/error.rs From impls")],["Contract::parse"])
prop("C14","Syntax errors point at the first offending token",
 "When a token sequence is rejected, the reported token and its position are the first token that no continuation could make acceptable, or the end of input if every proper prefix was viable; and every token listed as expected could stand there; the list is not empty where a program could go on. The error a caller gets for a source text names that token, its place and the expected tokens.",
 ["inputs","programs"],"every rejected token sequence",
 "No test looks at the content of a parse error.",
 [GR,ER,CO],[("LR error detection and ParseError conversion","generated parser; src/error.rs From<ParseError>")],["Err value of parser::*Parser::parse"])
prop("C15","Parsing is a pure function of the source",
 "The result of a parse depends only on its input: any history of earlier successful or failing parses in the same process leaves later results unchanged, and parsing the same input twice gives equal results.",
 ["histories","inputs"],"every sequence of parses of arbitrary inputs",
 "Tests run each sample once from a fresh start and compare single results.",
 [CO,LEX,EM],[("absence of shared mutable state","src/contract.rs from_str creates lexer, parser and emitter per call")],["Contract::from_str"])
prop("C16","Interface values compare, clone and build faithfully",
 "Types, fields, transitions and contracts compare equal exactly when they have the same structure, clones equal their originals, and the list containers keep what is pushed, in order, and expose it unchanged.",
 ["inputs"],"every pair of interface values and every push sequence",
 "Tests compare equal values with equal values; a wrong equality that ignores a component would make every comparison-based test pass.",
 [TY,"src/field.rs","src/transition.rs",CO],[("derived PartialEq/Clone and list wrappers","src/type.rs, src/field.rs, src/transition.rs, src/contract.rs")],["==, clone, push, deref on interface values"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(p) + "\n" for p in P))
