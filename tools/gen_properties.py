import json
def P(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    return d
L=[]
L.append(P("C01","Accepted input is in the grammar's language",
 "Whenever a generated parser returns a value for an entry non-terminal, the whole token sequence it was given is derivable from that non-terminal with the productions written in the grammar. No grammar accepted by the macro, including one whose shift/reduce conflicts were resolved by shifting, yields a parser that accepts anything else.",
 ["programs","inputs"],"every grammar the macro accepts and every finite token sequence",
 "The tests feed a few dozen short valid sentences to nine grammars and feed almost no invalid ones; the claim ranges over all grammars and all token sequences.",
 ["src/lr1.rs","src/lr_common.rs","src/lr_codegen.rs","src/lower.rs","src/grammar.rs"],
 [("LR(1) closure, goto and item-set automaton","src/lr1.rs: compute_lr1_closure, compute_lr1_goto, generate_lr1_automaton"),("action/goto table construction","src/lr1.rs: build_lr1_table"),("table-driven parse loop","src/lr_codegen.rs: parse_generic template in generate_lr1_parser")],
 [("state stack","path in the automaton spelling the symbols recognised so far","src/lr_codegen.rs: parse_generic")],["result of <Entry>::parse"]))
L.append(P("C02","Every sentence of a conflict-free grammar is accepted",
 "If a grammar has no LR(1) conflict, then for every entry non-terminal and every token sequence derivable from it, the generated parser returns a value. It never rejects such a sentence, whichever empty, recursive or mutually recursive productions the derivation goes through and in whichever order the non-terminals are declared.",
 ["programs","inputs"],"every grammar without LR(1) conflicts, every derivable token sequence",
 "Tests sample a few sentences of grammars where empty productions barely matter; a wrong lookahead or first set only shows on particular combinations of nullable non-terminals and declaration order.",
 ["src/first.rs","src/lr1.rs","src/lr_common.rs","src/lr_codegen.rs"],
 [("first sets","src/first.rs: generate_first_table"),("lookahead computation","src/lr1.rs: compute_lr1_closure"),("automaton fixpoint","src/lr1.rs: generate_lr1_automaton"),("table construction","src/lr1.rs: build_lr1_table")],
 None,["result of <Entry>::parse"]))
L.append(P("C03","Result is the bottom-up evaluation of the parse tree",
 "The value returned for an accepted input is obtained by evaluating each production's action exactly once per parse-tree node, children before parents and left to right, with every binder bound to the value of its own right-hand-side symbol (a non-terminal's value or a token's payload). Values of unbound symbols are discarded and never shift what other binders see.",
 ["programs","inputs"],"every accepted grammar, every choice of bound and unbound right-hand-side symbols, every accepted input",
 "Tests check a few arithmetic results; mixtures of bound, unbound, mutable and payload-carrying symbols at every position and length are unbounded.",
 ["src/codegen.rs","src/lr_codegen.rs","src/lower.rs"],
 [("semantic action functions popping the value stack in reverse","src/codegen.rs: generate_semantic_action_table"),("value stack discipline of the parse loop","src/lr_codegen.rs: parse_generic template"),("token value function","src/codegen.rs: token_value_fn"),("binder lowering","src/lower.rs: add_symbol")],
 [("value stack","one value per symbol on the state stack, in order","src/lr_codegen.rs: parse_generic")],["Ok value of <Entry>::parse","side effects of actions"]))
L.append(P("C04","Reduce conflicts are rejected; shift/reduce never picks reduce",
 "If two different reductions, or a reduction and acceptance, are both possible in one parser state on the same lookahead, macro expansion fails instead of choosing one. A shift/reduce conflict either makes expansion fail or is resolved by shifting, never by reducing. A grammar without any conflict is never rejected as conflicting.",
 ["programs"],"every grammar, whatever the order of its declarations",
 "No test feeds a conflicting grammar to the macro; the outcome depends on the order in which items of a state are visited.",
 ["src/lr_common.rs","src/lr1.rs"],
 [("conflict checks on insertion","src/lr_common.rs: LRTableBuilder::add_shift, add_reduce, add_accept"),("rules 2.a-2.c","src/lr1.rs: build_lr1_table")],
 [("action table","at most one action per state and lookahead","src/lr_common.rs: LRTable.action")],["macro expansion succeeds or panics"]))
L.append(P("C05","Syntax errors are reported at the first offending token, accurately",
 "When a generated parser built from a conflict-free grammar, all of whose non-terminals derive some token sequence, reports a syntax error, the tokens before the reported one are a prefix of some sentence of the entry non-terminal, and followed by the reported token (or by the end of input) they are not. The reported found text is that token's declared name, or end-of-input, and the expected text lists, in declaration order and separated by comma and space, exactly the terminals that can come next in a sentence starting with those tokens.",
 ["programs","inputs"],"every conflict-free grammar without unproductive non-terminals and every token sequence outside its language",
 "No test checks the contents of a syntax error.",
 ["src/codegen.rs","src/lr_codegen.rs","src/lr1.rs"],
 [("expected and found text tables","src/codegen.rs: generate_expected_state_tokens, generate_token_to_text"),("error branch of the parse loop","src/lr_codegen.rs: parse_generic template"),("canonical (unmerged) lookaheads","src/lr1.rs: compute_lr1_closure")],
 None,["ParseError::ParserError { found, expected }"]))
L.append(P("C06","Input is pulled lazily, lexer errors pass through unchanged",
 "A generated parser asks its input for one token at a time, never more than one beyond the tokens it has consumed, and never asks again after the input has ended, after the input has yielded an error, or after it has reported a syntax error. If the next item of the input is an error, the parser returns exactly that error; a syntax error on an earlier token is reported without reaching it.",
 ["programs","inputs","histories"],"every accepted grammar and every sequence of tokens and lexer errors",
 "No test makes the token iterator fail or counts how often it is polled.",
 ["src/lr_codegen.rs"],
 [("token fetch and lexer-error branch","src/lr_codegen.rs: parse_generic template")],
 [("token","the single lookahead item","src/lr_codegen.rs: parse_generic")],["calls to the input iterator's next","ParseError::LexerError"]))
L.append(P("C07","Generated parsers never panic",
 "For every grammar the macro accepts and every input, a generated parser never panics and what it returns is a value or an error: no table lookup is out of bounds, no stack underflows, no goto is missing and no value of the wrong kind is extracted. Panics raised by the user's own actions are the only exception.",
 ["programs","inputs"],"every accepted grammar, every sequence of tokens and lexer errors",
 "Absence of panics on all inputs cannot be sampled; tests run only a few well-formed inputs.",
 ["src/lr_codegen.rs","src/codegen.rs","src/lr1.rs","src/lr_common.rs"],
 [("parse loop","src/lr_codegen.rs: parse_generic template"),("table dimensions","src/lr_codegen.rs: action_table_vec, generate_goto_vec, generate_action_array"),("value variants and extraction","src/codegen.rs: semantic_action_result_type, generate_semantic_action_table"),("goto entries","src/lr1.rs: generate_lr1_automaton, build_lr1_table")],
 None,["termination of <Entry>::parse without unwinding"]))
L.append(P("C08","Tokens are classified by the first matching declared pattern",
 "Each input token is treated as the terminal of the first pattern in the token declaration that matches it, and the payload made available to actions consists of exactly the values selected in that same pattern, in the order they are written. This holds for enum, struct, tuple, literal, wildcard and nested patterns and for token types with lifetimes.",
 ["programs","inputs"],"every token declaration and every token value",
 "Tests use one overlapping pair of patterns and payloads of one field.",
 ["src/codegen.rs","src/ast.rs"],
 [("token to terminal index","src/codegen.rs: token_terminal_idx_fn, pattern_ignore"),("token payload extraction","src/codegen.rs: token_value_fn, generate_pattern_syn_with_idents_, pattern_types_")],
 None,["terminal chosen and payload seen by actions"]))
L.append(P("C09","Each public non-terminal is an independent entry point",
 "For every non-terminal declared public, and for no other, a parser is generated that recognises exactly that non-terminal's own language and yields that non-terminal's own value type. Declaring further non-terminals public, or referring to public non-terminals from other productions, does not change what any of the entry points accepts or returns.",
 ["programs","inputs","configurations"],"every grammar and every subset of its non-terminals declared public",
 "One test has several entry points, with four inputs.",
 ["src/lower.rs","src/lr1.rs","src/lr_codegen.rs"],
 [("entry-point wrapping","src/lower.rs: lower"),("one initial state per public non-terminal","src/lr1.rs: generate_lr1_automaton"),("parser structs","src/lr_codegen.rs: generate_lr1_parser")],
 None,["set of generated parsers and their results"]))
L.append(P("C10","First sets and nullability are exact",
 "For every grammar, the generator's first-set table marks a non-terminal as possibly empty exactly when it derives the empty sequence, and lists for it exactly the terminals that can begin a sentential form derived from it. The result does not depend on the order of declarations.",
 ["programs"],"every grammar",
 "No test inspects the table; errors only appear for particular nullable non-terminals and declaration orders.",
 ["src/first.rs"],
 [("fixpoint iteration","src/first.rs: generate_first_table")],
 [("first table","per non-terminal: empty flag and set of terminals","src/first.rs: FirstTable")],["first-set table; lookaheads of generated parsers"]))
L.append(P("C11","The automaton is the canonical LR(1) collection",
 "For every grammar the generated automaton has one start state per entry point, its states' item sets are exactly the closures of the start items and of all transitions from them, no item set occurs twice and no unreachable or empty state exists. Each state has a transition on exactly the symbols that follow the dot in one of its items, leading to the closure of the advanced items.",
 ["programs"],"every grammar",
 "One unit test compares eight states of one textbook grammar.",
 ["src/lr1.rs"],
 [("closure","src/lr1.rs: compute_lr1_closure"),("goto","src/lr1.rs: compute_lr1_goto"),("state allocation and transition fixpoint","src/lr1.rs: generate_lr1_automaton")],
 [("automaton states","item set and transitions per state","src/lr1.rs: LR1Automaton, LR1State")],["number of states and transitions; emitted tables"]))
L.append(P("C12","Emitted tables agree with the computed actions and gotos",
 "The tables in the generated code have one row per automaton state, one action column per terminal in declaration order plus a last one for end of input, and one goto column per non-terminal. Every cell holds exactly the computed shift target, reduction (left-hand side, right-hand-side length and action), acceptance or absence, for any number of states, terminals, non-terminals and production lengths, and numbers that do not fit their table encoding abort expansion instead of wrapping.",
 ["programs"],"every grammar, of any size",
 "Tests only have small tables; a column or row mix-up, truncation or off-by-one shows only at particular sizes and cells.",
 ["src/lr_codegen.rs","src/codegen.rs","src/lr1.rs"],
 [("dense tables","src/lr_codegen.rs: action_table_vec, generate_goto_vec"),("array code","src/lr_codegen.rs: generate_action_array, generate_goto_array"),("action rows from items","src/lr1.rs: build_lr1_table")],
 None,["ACTION and GOTO arrays of the generated code"]))
L.append(P("C13","Grammars are lowered faithfully or rejected",
 "Every production written in the grammar becomes exactly one production of the same non-terminal with the same symbols, binders and action in the same order. A reference to an undeclared terminal or non-terminal, a terminal or non-terminal declared twice, a missing or repeated token declaration, a repeated state declaration, and repetition or fallible-action syntax make expansion fail; they are never silently ignored or reinterpreted.",
 ["programs"],"every grammar text that parses as Rust tokens",
 "Tests contain only well-formed grammars of at most four productions per non-terminal.",
 ["src/lower.rs","src/grammar.rs","src/lib.rs","src/ast.rs"],
 [("lowering","src/lower.rs: lower, add_symbol"),("grammar builder","src/grammar.rs: add_non_terminal, new_terminal, add_production"),("item collection","src/lib.rs: parser"),("grammar syntax","src/ast.rs: Parse impls")],
 None,["macro expansion result"]))
L.append(P("C14","Macro expansion terminates",
 "For every finite grammar, first-set computation, closure computation, automaton construction and table construction all terminate, so macro expansion always finishes with code or a diagnostic. This includes left-, right- and mutually recursive, cyclic, unproductive and ambiguous grammars.",
 ["programs"],"every finite grammar",
 "Non-termination on an untested grammar shape cannot be excluded by running tests.",
 ["src/first.rs","src/lr1.rs","src/grammar.rs"],
 [("fixpoint loops over finite sets","src/first.rs: generate_first_table; src/lr1.rs: compute_lr1_closure, generate_lr1_automaton"),("index iterators","src/grammar.rs: NonTerminalIndicesIter, NonTerminalProductionIndicesIter")],
 None,["macro expansion finishes"]))
L.append(P("C15","Generated parsers terminate on every finite input",
 "For every grammar the macro accepts and every finite input, a generated parser performs finitely many steps between two consecutive tokens and therefore returns. In particular no sequence of reductions by empty or single-symbol productions repeats forever.",
 ["programs","inputs"],"every accepted grammar and every finite input",
 "An endless reduction loop needs a particular cyclic or empty-production grammar and lookahead that no test has.",
 ["src/lr_codegen.rs","src/lr1.rs","src/lr_common.rs"],
 [("parse loop","src/lr_codegen.rs: parse_generic template"),("conflict rejection","src/lr_common.rs: LRTableBuilder")],
 None,["<Entry>::parse returns"]))
L.append(P("C16","Macro expansion is deterministic",
 "Expanding the same grammar text again, in the same or another process, yields token-for-token the same generated code. No iteration order of an internal hash table can influence the emitted tables, states or action numbering.",
 ["programs","histories"],"every grammar, every pair of expansions of it",
 "Each test expands its grammar once.",
 ["src/lr_codegen.rs","src/lr1.rs","src/collections.rs","src/codegen.rs"],
 [("fixed-seed hashing and index-ordered table emission","src/collections.rs; src/lr_codegen.rs: action_table_vec, generate_goto_vec")],
 None,["generated token stream"]))
with open('/verif/properties.jsonl','w') as f:
    for x in L: 
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
