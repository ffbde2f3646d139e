"""planted bugs (see seed.py)"""
def G(tok, body, main, pre=""):
    return "#![allow(dead_code, unused_variables, unused_mut)]\nuse parsegen::parser;\n" + pre + "\nparser! {\n" + tok + "\n" + body + "\n}\nfn main() {\n" + main + "\n}\n"
def tn(n):
    return n.upper() if n.islower() else n + "_"
def toks(names):
    """enum Tok with one unit variant per terminal name"""
    pre = "#[derive(Debug, Clone, PartialEq)]\npub enum Tok { " + ", ".join("T" + tn(n) for n in names) + " }\n"
    pre += "fn toks(s: &str) -> impl Iterator<Item = Result<Tok, ()>> + '_ { s.chars().map(|c| Ok(match c { " + \
        ", ".join("'%s' => Tok::T%s" % (n, tn(n)) for n in names) + ", _ => panic!() })) }\n"
    decl = "enum Tok { " + ", ".join('"%s" => Tok::T%s' % (n, tn(n)) for n in names) + ", }"
    return pre, decl
def simple(names, body, main):
    pre, decl = toks(names)
    return G(decl, body, main, pre)

BUGS = []
def bug(id, property, edits, main, needs, breaks, kind="run"):
    BUGS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, breaks=breaks, kind=kind))

LC, L1, LG, CG, LO, FI, GR, LIB, AST, COL = ("src/%s.rs" % x for x in
    "lr_common lr1 lr_codegen codegen lower first grammar lib ast collections".split())

bug("c04-reduce-over-shift", "C04", [(LC, '''                LRAction::Shift(s) => {
                    panic!(
                        "({}, {:?}): Overriding Shift({}) with Reduce({}, {})",
                        state.0,
                        token.map(|t| grammar.get_terminal(t)),
                        s.0,
                        non_terminal_idx.0,
                        production_idx.0
                    )
                }
''', '''                LRAction::Shift(_) => {
                    // shift/reduce conflicts are allowed, see add_shift
                }
''')], simple("ab", '''    pub X: u32 = { "a" <y:Y> => y };
    Y: u32 = { E "b" => 1, Y "b" => 2 };
    E: u32 = { "b" => 3, => 4 };''', '''
    let r = X::parse(toks("ab"));
    assert!(r.is_err(), "the shift was dropped");'''),
    "an item that shifts a terminal visited before the item that reduces on it (declaration order)",
    "a shift/reduce conflict is silently resolved by reducing", "run_or_reject")

bug("c04-same-nt-rr", "C04", [(LC, '''                LRAction::Reduce(nt_, p_, _) => {
                    panic!(
                        "({}, {:?}): Overriding Reduce({}, {}) action with Reduce({}, {})",''',
'''                LRAction::Reduce(nt_, _, _) if nt_ == non_terminal_idx => {
                    // alternatives of one non-terminal: the last one wins
                }
                LRAction::Reduce(nt_, p_, _) => {
                    panic!(
                        "({}, {:?}): Overriding Reduce({}, {}) action with Reduce({}, {})",''')],
    simple("ab", '''    pub X: u32 = { A "b" => 1 };
    A: u32 = { "a" E => 1, "a" F => 2, "a" => 3, B => 4, "a" "a" => 5 };
    E: u32 = { "b" "b" => 1 };
    F: u32 = { "b" "a" => 1 };
    B: u32 = { "b" => 1, "b" => 2 };''', "let _ = X::parse(toks(\"ab\"));"),
    "two alternatives of the same non-terminal that become complete in one state on one lookahead",
    "a reduce/reduce conflict between alternatives of one non-terminal is resolved silently", "reject")

bug("c11-lookahead-lost", "C11", [(L1, '''                    match &item.lookahead {
                        Some(lookahead) => first.add(*lookahead),
                        None => first.set_empty(),
                    }''', '''                    match &item.lookahead {
                        Some(lookahead) => first.add(*lookahead),
                        None if !first.terminals().is_empty() && item.cursor > 1 => {}
                        None => first.set_empty(),
                    }''')],
    simple("abc", '''    pub X: u32 = { "a" "b" <y:Y> Z => y };
    Y: u32 = { "c" => 7 };
    Z: u32 = { "a" => 1, => 2 };''', '''
    assert_eq!(X::parse(toks("abc")), Ok(7));
    assert_eq!(X::parse(toks("abca")), Ok(7));'''),
    "a non-terminal at position two or later, followed only by nullable symbols with a non-empty first set, at end of input",
    "the end-of-input lookahead is lost in the closure")

bug("c12-wide-rhs", "C12", [(LG, """                            let n_symbols: u16 = u16::try_from(
                                grammar
                                    .get_production(*non_terminal_idx, *production_idx)
                                    .symbols()
                                    .len(),
                            )
                            .unwrap();""", """                            let n_symbols = grammar
                                .get_production(*non_terminal_idx, *production_idx)
                                .symbols()
                                .len() as u8;"""),
    (LG, """            Reduce {
                non_terminal_idx: u16,
                n_symbols: u16,""", """            Reduce {
                non_terminal_idx: u16,
                n_symbols: u8,""")],
    simple("ab", "    pub X: u32 = { <y:Y> => y };\n    Y: u32 = { " + " ".join(['"a"'] * 260) + " => 5 };", """
    let s = "a".repeat(260);
    assert_eq!(X::parse(toks(&s)), Ok(5));
    assert!(X::parse(toks("aaaa")).is_err());"""),
    "a production with more than 255 symbols", "the right-hand-side length in the emitted table wraps at 256")

bug("c12-goto-width", "C12", [(LG, """        for non_terminal in 0..n_non_terminals {
            let non_terminal_idx = NonTerminalIdx::from_usize(non_terminal);""", """        for non_terminal in 0..n_non_terminals {
            let non_terminal_idx = NonTerminalIdx::from_usize(non_terminal & 0x3f);""")],
    simple("ab", "    pub X: u32 = { <y:N70> => y };\n" + "\n".join('    N%d: u32 = { %s };' % (i, '"a" => 1' if i == 0 else '<n:N%d> "%s" => n + 1' % (i - 1, "ab"[i % 2])) for i in range(71)), """
    let s: String = (0..71).map(|i| if i == 0 { 'a' } else { ['a', 'b'][i % 2] }).collect();
    assert_eq!(X::parse(toks(&s)), Ok(71));"""),
    "a grammar with more than 64 non-terminals", "goto columns beyond the 64th hold the entries of other non-terminals")

bug("c03-shared-actions", "C03", [(CG, """        let mut decls: Vec<TokenStream> = vec![];
    let mut fn_names: Vec<syn::Ident> = vec![];""".replace("        let", "    let", 1), """    let mut decls: Vec<TokenStream> = vec![];
    let mut fn_names: Vec<syn::Ident> = vec![];
    // Actions of the previous alternatives, to share functions of repeated alternatives
    let mut seen: Vec<(usize, usize, syn::Expr)> = vec![];"""),
    (CG, """                        let fn_idx = decls.len();
""", """                        let fn_idx = decls.len();
                        if let Some(i) = seen
                            .iter()
                            .position(|s| s.0 == nt_i && s.1 == symbols.len() && s.2 == action)
                        {
                            return Production {
                                symbols,
                                action: SemanticActionIdx(u16::try_from(i).unwrap()),
                            };
                        }
                        seen.push((nt_i, symbols.len(), action.clone()));
""")],
    G('enum Tok { "n" => Tok::N(<u32>), "-" => Tok::Minus, "~" => Tok::Rev, }', """    pub X: u32 = { <a:N> "-" <b:N> => a - b, <b:N> "~" <a:N> => a - b };
    N: u32 = { <n:"n"> => n };""", """
    let p = |v: Vec<Tok>| X::parse(v.into_iter().map(Ok::<Tok, ()>));
    assert_eq!(p(vec![Tok::N(5), Tok::Minus, Tok::N(3)]), Ok(2));
    assert_eq!(p(vec![Tok::N(3), Tok::Rev, Tok::N(5)]), Ok(2));""", "#[derive(Debug, Clone, PartialEq)]\npub enum Tok { N(u32), Minus, Rev }"),
    "two alternatives of one non-terminal of the same length with the same action expression but binders in different places",
    "the second alternative runs the first one's action function and binds the wrong values")

bug("c05-shift-only", "C05", [(CG, """            if lr_table
                .get_action(StateIdx(state_idx), Some(terminal_idx))
                .is_some()
            {""", """            if let Some(LRAction::Shift(_)) =
                lr_table.get_action(StateIdx(state_idx), Some(terminal_idx))
            {"""), (CG, "use crate::lr_common::{LRTable, StateIdx};", "use crate::lr_common::{LRAction, LRTable, StateIdx};")],
    simple("abc", """    pub X: u32 = { Y "b" => 1, Y "c" => 2 };
    Y: u32 = { "a" => 1 };""", """
    match X::parse(toks("aa")) {
        Err(ParseError::ParserError { found, expected }) => { assert_eq!(found, "a"); assert_eq!(expected, "b, c"); }
        _ => panic!(),
    }"""), "an error in a state that only reduces", "the expected text omits terminals on which the state reduces")

bug("c06-repoll", "C06", [(LG, """                let terminal_idx = match &token {
                    None => #n_terminals,""", """                if token.is_none() {
                    // The input may have more tokens after a pause
                    token = input.next();
                }
                let terminal_idx = match &token {
                    None => #n_terminals,""")],
    simple("ab", """    pub X: u32 = { <l:L> => l };
    L: u32 = { <l:L> "a" => l + 1, => 0 };""", """
    struct It(usize, usize);
    impl Iterator for It {
        type Item = Result<Tok, ()>;
        fn next(&mut self) -> Option<Result<Tok, ()>> {
            self.1 += 1;
            assert!(self.1 <= 3, "asked again after the end");
            if self.0 == 0 { None } else { self.0 -= 1; Some(Ok(Tok::TA)) }
        }
    }
    assert_eq!(X::parse(It(2, 0)), Ok(2));"""), "an input iterator that notices polls after it has ended", "the parser polls its input again after end of input")

bug("c06-drain-on-error", "C06", [(LG, """                        let found = TERMINAL_STRS[terminal_idx];
                        let expected = EXPECTED_TERMINALS[state];""", """                        let found = TERMINAL_STRS[terminal_idx];
                        let expected = EXPECTED_TERMINALS[state];
                        // A lexer error right after the token is the likely cause of the error
                        if let Some(Err(err)) = input.next() {
                            return Err(ParseError::LexerError(err));
                        }""")],
    simple("ab", """    pub X: u32 = { "a" "b" => 1 };""", """
    let v: Vec<Result<Tok, u32>> = vec![Ok(Tok::TA), Ok(Tok::TA), Err(7)];
    match X::parse(v.into_iter()) {
        Err(ParseError::ParserError { .. }) => {}
        _ => panic!("lexer error reported although an earlier token is wrong"),
    }"""), "a syntax error followed by a lexer error", "a syntax error pulls one more item and reports its lexer error instead")

bug("c07-token-value-order", "C07", [(CG, """        Pattern::Enum(path, pats) => {
            let pats: Vec<TokenStream> = pats
                .iter()
                .map(|pat| generate_pattern_syn_with_idents_(pat, idents))
                .collect();

            quote!(#path(#(#pats),*))
        }
""", """        // No values to bind in constant arguments
        Pattern::Enum(path, pats) if pattern_types(pat).is_empty() && pats.len() > 1 => {
            quote!(#path(..))
        }

        Pattern::Enum(path, pats) => {
            let pats: Vec<TokenStream> = pats
                .iter()
                .map(|pat| generate_pattern_syn_with_idents_(pat, idents))
                .collect();

            quote!(#path(#(#pats),*))
        }
""")],
    G('enum Tok { "x" => Tok::P(1, 2), "p" => Tok::P(<u32>, <u32>), }', """    pub X: u32 = { <a:P> <b:P> => a * 10 + b };
    P: u32 = { <p:"p"> => p.0 + p.1, "x" => 0 };""", """
    let p = |v: Vec<Tok>| X::parse(v.into_iter().map(Ok::<Tok, ()>));
    assert_eq!(p(vec![Tok::P(3, 4), Tok::P(1, 2)]), Ok(70));
    assert_eq!(p(vec![Tok::P(1, 2), Tok::P(1, 3)]), Ok(4));""", "#[derive(Debug, Clone, PartialEq)]\npub enum Tok { P(u32, u32) }"),
    "a constructor with two or more constant arguments declared before a pattern that binds them, and a token of the latter",
    "the token is classified as one terminal but carries the value variant of another, so extraction panics")

bug("c08-ignore-literals", "C08", [(CG, """        Pattern::Lit(lit) => quote!(#lit),

        Pattern::Choose(_) => quote!(_),""", """        Pattern::Lit(syn::Lit::Bool(_)) => quote!(_),

        Pattern::Lit(lit) => quote!(#lit),

        Pattern::Choose(_) => quote!(_),""")],
    G('enum Tok { "t" => Tok::B(true), "f" => Tok::B(false), }', """    pub X: u32 = { <a:P> <b:P> => a * 10 + b };
    P: u32 = { "t" => 1, "f" => 2 };""", """
    let p = |v: Vec<Tok>| X::parse(v.into_iter().map(Ok::<Tok, ()>));
    assert_eq!(p(vec![Tok::B(true), Tok::B(false)]), Ok(12));""", "#[derive(Debug, Clone, PartialEq)]\npub enum Tok { B(bool) }"),
    "a token pattern with a boolean literal", "boolean literals in token patterns are ignored when classifying tokens")

bug("c08-nested-ignore", "C08", [(CG, """        Pattern::Enum(path, pats) => {
            let pats: Vec<TokenStream> = pats.iter().map(pattern_ignore).collect();
            quote!(#path(#(#pats,)*))
        }""", """        Pattern::Enum(path, pats) if matches!(pats.last(), Some(Pattern::Choose(_))) => {
            // Only the constructor matters
            quote!(#path(..))
        }

        Pattern::Enum(path, pats) => {
            let pats: Vec<TokenStream> = pats.iter().map(pattern_ignore).collect();
            quote!(#path(#(#pats,)*))
        }""")],
    G('enum Tok { "one" => Tok::P(1, <u32>), "any" => Tok::P(<u32>, _), }', """    pub X: u32 = { <a:P> => a };
    P: u32 = { <n:"one"> => n, <n:"any"> => n + 100 };""", """
    let p = |v: Vec<Tok>| X::parse(v.into_iter().map(Ok::<Tok, ()>));
    assert_eq!(p(vec![Tok::P(1, 7)]), Ok(7));
    assert_eq!(p(vec![Tok::P(2, 7)]), Ok(102));""", "#[derive(Debug, Clone, PartialEq)]\npub enum Tok { P(u32, u32) }"),
    "a constructor pattern whose last argument is selected and an earlier one is constant", "a token is classified by its constructor only")

bug("c13-repeat-once", "C13", [(LO, """        ast::Symbol::Repeat(_) => {
            todo!("Repeat symbol not supported yet");
        }""", """        ast::Symbol::Repeat(repeat) => {
            add_symbol(nt_indices, t_indices, symbols, binder, repeat.symbol)
        }""")],
    simple("ab", """    pub X: u32 = { "a" "b"* => 1 };""", "let _ = X::parse(toks(\"ab\"));"),
    "a repetition in a grammar", "repetition syntax is silently treated as a single occurrence", "reject")

bug("c13-state-twice", "C13", [(LIB, """                    if state_type.replace(typedef.ty).is_some() {
                        panic!("`type State` is declared multiple times");
                    }""", """                    if let Some(old) = state_type.replace(typedef.ty.clone()) {
                        if old != typedef.ty {
                            panic!("`type State` is declared multiple times");
                        }
                    }""")],
    G('enum Tok { "a" => Tok::TA, }', """    type State = u32;
    type State = u32;
    pub X: u32 = { "a" => 1 };""", "", "#[derive(Debug, Clone, PartialEq)]\npub enum Tok { TA }"),
    "a state declaration repeated with the same type", "a repeated state declaration is accepted", "reject")

bug("c15-unit-rr", "C15", [(LC, """                LRAction::Reduce(nt_, p_, _) => {
                    panic!(
                        "({}, {:?}): Overriding Reduce({}, {}) action with Reduce({}, {})",""",
"""                LRAction::Reduce(_, _, _)
                    if grammar
                        .get_production(non_terminal_idx, production_idx)
                        .symbols()
                        .len()
                        == 1 =>
                {
                    // unit productions do not change the recognised input
                }
                LRAction::Reduce(nt_, p_, _) => {
                    panic!(
                        "({}, {:?}): Overriding Reduce({}, {}) action with Reduce({}, {})",""")],
    simple("ab", """    pub X: u32 = { "a" <a:A> => a };
    A: u32 = { "b" => 1, <a:A> => a };""", """
    let _ = X::parse(toks("ab"));""").replace("fn main", "fn main"),
    "a non-terminal with a production that is itself", "a cycle of unit reductions is accepted and the parser loops forever", "run_or_reject")

bug("c02-eps-lookahead", "C02", [(L1, """            for (production_idx, _) in grammar.non_terminal_production_indices(next) {
                for t in first.terminals() {""", """            for (production_idx, production) in grammar.non_terminal_production_indices(next) {
                // One lookahead is enough to reduce an empty production after a closure item
                let one = production.symbols().is_empty() && item.cursor == 0;
                let n = if one { 1 } else { usize::MAX };
                for t in first.terminals().iter().take(n) {""")],
    simple("abc", """    pub X: u32 = { E F => 1 };
    E: u32 = { => 0 };
    F: u32 = { "a" => 1, "b" => 2, "c" "a" => 3 };""", """
    assert_eq!(X::parse(toks("a")), Ok(1));
    assert_eq!(X::parse(toks("b")), Ok(1));
    assert_eq!(X::parse(toks("ca")), Ok(1));"""),
    "an empty production reachable with two different lookaheads in one state", "only one lookahead of an empty production is kept, so sentences are rejected")

bug("c02-long-tail", "C02", [(L1, """                for symbol in &production.symbols()[item.cursor + 1..] {""", """                // Only the symbols that can still matter, long tails of empty non-terminals are
                // not worth visiting
                for symbol in production.symbols()[item.cursor + 1..].iter().take(3) {""")],
    simple("abcdefg", """    pub X: u32 = { "a" Y N M O "d" => 1 };
    Y: u32 = { "c" => 1, Y "e" => 2 };
    N: u32 = { "b" => 0, => 1 };
    M: u32 = { "f" => 0, => 1 };
    O: u32 = { "g" => 0, => 1 };""", """
    assert_eq!(X::parse(toks("acd")), Ok(1));
    assert_eq!(X::parse(toks("aced")), Ok(1));"""),
    "a non-terminal followed by three nullable non-terminals and then something not empty, all of them absent from the input",
    "the lookahead after three empty non-terminals is lost, so a sentence is rejected")

bug("c08-choose-first", "C08", [(CG, """            let mut pats: Vec<TokenStream> = fields
                .iter()
                .map(
                    |FieldPattern {
                         field_name,
                         pattern,
                     }| {
                        let pattern = generate_pattern_syn_with_idents_(pattern, idents);
                        quote!(#field_name: #pattern,)
                    },
                )
                .collect();

            if *dots {""", """            // Selected fields first, then the fields with patterns of their own
            let (selected, nested): (Vec<&FieldPattern>, Vec<&FieldPattern>) = fields
                .iter()
                .partition(|field| matches!(field.pattern, Pattern::Choose(_)));

            let mut pats: Vec<TokenStream> = selected
                .into_iter()
                .chain(nested)
                .map(
                    |FieldPattern {
                         field_name,
                         pattern,
                     }| {
                        let pattern = generate_pattern_syn_with_idents_(pattern, idents);
                        quote!(#field_name: #pattern,)
                    },
                )
                .collect();

            if *dots {""")],
    G('enum Tok { "p" => Tok::P { a: (<u32>, _), b: <u32> }, }', """    pub X: u32 = { <p:"p"> => p.0 * 10 + p.1 };""", """
    let p = |v: Vec<Tok>| X::parse(v.into_iter().map(Ok::<Tok, ()>));
    assert_eq!(p(vec![Tok::P { a: (1, 9), b: 2 }]), Ok(12));""", "#[derive(Debug, Clone, PartialEq)]\npub enum Tok { P { a: (u32, u32), b: u32 } }"),
    "a struct pattern with a value selected inside a nested pattern written before a directly selected field of the same type",
    "the payload values come in another order than written")

bug("c10-update-reset", "C10", [(FI, """                            updated |= table.add_first(non_terminal_idx, *terminal);
                            continue 'production_loop;""", """                            updated = table.add_first(non_terminal_idx, *terminal);
                            continue 'production_loop;""")],
    simple("abcd", """    A: u32 = { B "a" => 1 };
    B: u32 = { C "a" => 1 };
    C: u32 = { D "a" => 1 };
    D: u32 = { "d" => 1, => 2 };
    Y: u32 = { "c" => 1 };
    pub X: u32 = { "c" Y <a:A> => a, "b" "b" => 3 };""", """
    assert_eq!(X::parse(toks("ccdaaa")), Ok(1));
    assert_eq!(X::parse(toks("ccaaa")), Ok(1));"""),
    "a chain of left corners declared before their definitions, longer than two, with a production starting with a terminal declared last",
    "first-set iteration stops before the fixpoint")

bug("c10-nullable-prefix", "C10", [(FI, """                            for terminal in terminals.clone() {
                                updated |= table.add_first(non_terminal_idx, terminal);
                            }""", """                            if *nt == non_terminal_idx {
                                // Nothing new in the set of the non-terminal itself
                                continue 'production_loop;
                            }
                            for terminal in terminals.clone() {
                                updated |= table.add_first(non_terminal_idx, terminal);
                            }""")],
    simple("abc", """    pub X: u32 = { "c" Z <l:L> "c" => l };
    Z: u32 = { "b" => 1 };
    L: u32 = { <l:L> "a" => l + 1, => 0 };""", """
    assert_eq!(X::parse(toks("cbc")), Ok(0));
    assert_eq!(X::parse(toks("cbaac")), Ok(2));"""),
    "a left-recursive non-terminal that is also nullable, following another non-terminal",
    "the first set of a left-recursive nullable non-terminal misses the terminal after the recursion")

bug("c11-packed-order", "C11", [(L1, '''#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
struct LR1Item {''', '''#[derive(Debug, Hash, Clone)]
struct LR1Item {'''), (L1, '''    fn advance(&self) -> LR1Item {''', '''    /// Items are ordered by non-terminal, production and position, then by lookahead
    fn sort_key(&self) -> (usize, Option<TerminalIdx>) {
        (
            (self.non_terminal_idx.as_usize() << 32)
                + (self.production_idx.as_usize() << 4)
                + self.cursor,
            self.lookahead,
        )
    }

    fn advance(&self) -> LR1Item {'''), (L1, '''fn compute_lr1_closure<A>(''', '''impl PartialEq for LR1Item {
    fn eq(&self, other: &LR1Item) -> bool {
        self.sort_key() == other.sort_key()
    }
}

impl Eq for LR1Item {}

impl PartialOrd for LR1Item {
    fn partial_cmp(&self, other: &LR1Item) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for LR1Item {
    fn cmp(&self, other: &LR1Item) -> std::cmp::Ordering {
        self.sort_key().cmp(&other.sort_key())
    }
}

fn compute_lr1_closure<A>(''')],
    simple("ab", "    pub X: u32 = { " + " ".join(['"a"'] * 16) + """ <x:X> => x + 1, "b" => 7 };""", """
    assert_eq!(X::parse(toks("b")), Ok(7));
    assert_eq!(X::parse(toks("aaaaaaaaaaaaaaaab")), Ok(8));"""),
    "a production of more than 16 symbols that is recursive, followed by another one of the same non-terminal",
    "two different items compare equal in the sorted item set, so one of them is lost")

bug("c11-fingerprint", "C11", [(L1, """    let mut state_indices: Map<BTreeSet<LR1Item>, StateIdx> = Default::default();""", """    //
    // The sets are large, so they are looked up by a fingerprint instead of kept twice.
    let mut state_indices: Map<u64, StateIdx> = Default::default();"""),
    (L1, """            state_indices.insert(i0_items.clone(), i0_state_idx);""", """            state_indices.insert(fingerprint(&i0_items), i0_state_idx);"""),
    (L1, """                match state_indices.get(&goto) {""", """                match state_indices.get(&fingerprint(&goto)) {"""),
    (L1, """                        new_states.push(new_state);
                        state_indices.insert(goto, next_state_idx);""", """                        new_states.push(new_state);
                        state_indices.insert(fingerprint(&goto), next_state_idx);"""),
    (L1, """pub fn generate_lr1_automaton<A>(""", """/// A number that identifies an item set
fn fingerprint(items: &BTreeSet<LR1Item>) -> u64 {
    items
        .iter()
        .map(|item| {
            let lookahead = item.lookahead.map_or(0, |t| t.as_usize() as u64 + 1);
            let key = (u64::from(item.non_terminal_idx.0) << 40)
                | (u64::from(item.production_idx.0) << 20)
                | ((item.cursor as u64) << 5)
                | (lookahead & 0x1f);
            let mixed = (key ^ (key >> 23)).wrapping_mul(0x2127_599b_f432_5c37);
            mixed ^ (mixed >> 47)
        })
        .fold(0, u64::wrapping_add)
}

pub fn generate_lr1_automaton<A>(""")],
    simple("abxABCDEFGHIJKLMNOPQRSTUVWYZcdefghijklmnopqrstuvwyz", """    pub S: u32 = { "a" P "A" => 1, "b" P "h" => 2 };
    P: u32 = { "x" => 1 };""".replace('"h"', '"H"').replace('"H"', '"%s"' % "abxABCDEFGHIJKLMNOPQRSTUVWYZcdefghijklmnopqrstuvwyz"[35]), """
    assert_eq!(S::parse(toks("axA")), Ok(1));
    assert_eq!(S::parse(toks("bx%s")), Ok(2));""" % "abxABCDEFGHIJKLMNOPQRSTUVWYZcdefghijklmnopqrstuvwyz"[35]),
    "more than 32 terminals and two item sets that differ only in lookaheads 32 apart",
    "two different item sets share one state")

bug("c13-dup-production", "C13", [(GR, """        let prod_idx = non_terminal.productions.len();
        non_terminal
            .productions
            .push(Production { symbols, action });""", """        let prod_idx = non_terminal.productions.len();
        if symbols.len() > 1 {
            // The same right-hand side again would only add conflicts
            let old = non_terminal.productions.iter().position(|p| {
                p.symbols.len() == symbols.len()
                    && p.symbols.iter().zip(&symbols).all(|(a, b)| a.symbol == b.symbol)
            });
            if let Some(old) = old {
                return ProductionIdx(old as u32);
            }
        }
        non_terminal
            .productions
            .push(Production { symbols, action });""")],
    simple("ab", """    pub X: u32 = { "a" <y:Y> => y };
    Y: u32 = { "b" "a" => 1, "a" => 2, "b" "a" => 3 };""", "let _ = X::parse(toks(\"aba\"));"),
    "two alternatives of one non-terminal with the same symbols", "the second of two equal alternatives is dropped silently", "reject")

bug("c13-fallible", "C13", [(LO, """                ast::Action::Fallible(_) => todo!("Fallible actions not supported yet"),""", """                // A literal cannot fail
                ast::Action::Fallible(expr @ (syn::Expr::Lit(_) | syn::Expr::Path(_))) => expr,
                ast::Action::Fallible(_) => todo!("Fallible actions not supported yet"),""")],
    simple("ab", """    pub X: u32 = { "a" <y:Y> =>? y };
    Y: u32 = { "b" => 1 };""", "let _ = X::parse(toks(\"ab\"));"),
    "a fallible action that is a plain variable or literal", "a fallible action is treated as an infallible one", "reject")

bug("c14-repush", "C14", [(L1, '''                if first.has_empty() {
                    let item = LR1Item {
                        non_terminal_idx: next,
                        production_idx,
                        cursor: 0,
                        lookahead: None,
                    };
                    if closure.insert(item.clone()) {''', '''                if first.has_empty() {
                    let item = LR1Item {
                        non_terminal_idx: next,
                        production_idx,
                        cursor: 0,
                        lookahead: None,
                    };
                    if closure.insert(item.clone()) || first.terminals().len() > 2 {''')],
    simple("abcd", '''    pub X: u32 = { <l:L> => l };
    L: u32 = { <l:L> O => l + 1, "c" => 0 };
    O: u32 = { "a" "c" => 1, "b" "c" => 2, "a" "a" => 3, "d" "d" => 6, => 4 };''', '''
    let _ = X::parse(toks("c"));'''), "a left-recursive production whose tail is nullable with three or more first terminals, at end of input",
    "closure computation never terminates", "finish")

bug("c09-one-action", "C09", [(LG, """                grammar
                    .get_production(non_terminal_idx, ProductionIdx(0))
                    .action
                    .as_u16(),""", """                // All entry points have the same action
                grammar
                    .non_terminals()
                    .iter()
                    .find(|nt| nt.public)
                    .unwrap()
                    .get_production(ProductionIdx(0))
                    .action
                    .as_u16(),""")],
    simple("ab", """    pub X: u32 = { "a" => 1 };
    pub Y: bool = { "b" => true };""", """
    assert_eq!(X::parse(toks("a")), Ok(1));
    assert_eq!(Y::parse(toks("b")), Ok(true));"""),
    "two public non-terminals of different types", "the second entry point runs the first one's entry action")

bug("c01-nt-byte", "C01", [(LG, """                            let non_terminal_idx: u16 =
                                u16::try_from(non_terminal_idx.as_usize()).unwrap();""", """                            let non_terminal_idx = non_terminal_idx.as_usize() as u8;"""),
    (LG, """                non_terminal_idx: u16,
                n_symbols: u16,""", """                non_terminal_idx: u8,
                n_symbols: u16,""")],
    simple("pqxy", """    pub X: u32 = { A "x" => 1, B "x" "y" => 2 };
    A: u32 = { "p" => 1 };
""" + "".join("    F%d: u32 = { \"p\" => 1 };\n" % i for i in range(255)) + """    B: u32 = { "q" => 1 };""", """
    assert_eq!(X::parse(toks("px")), Ok(1));
    assert!(X::parse(toks("qx")).is_err());"""),
    "two non-terminals 256 apart that can stand in the same place", "a reduction to one non-terminal continues as if it were another, so wrong input is accepted")

bug("c01-skip-repeat", "C01", [(LG, """                    Some(LRAction::Shift { next_state }) => {
                        state_stack.push(next_state);""", """                    Some(LRAction::Shift { next_state }) => {
                        if state == next_state as usize && n_loops(&state_stack) > 3 {
                            // No need to keep more than a few copies of a state that loops
                            token = input.next();
                            continue;
                        }
                        state_stack.push(next_state);"""), (LG, """        fn parse_generic<#(#token_lifetimes,)* R, E: Clone>(""", """        fn n_loops(stack: &[u32]) -> usize {
            stack.iter().rev().take_while(|s| Some(*s) == stack.last()).count()
        }

        fn parse_generic<#(#token_lifetimes,)* R, E: Clone>(""")],
    simple("ab", """    pub X: u32 = { "a" <x:X> "b" => x + 1, => 0 };""", """
    assert_eq!(X::parse(toks("aabb")), Ok(2));
    assert_eq!(X::parse(toks("aaaaaabbbbbb")), Ok(6));
    assert!(X::parse(toks("aaaaaabbbbb")).is_err());"""),
    "nesting deeper than four by a terminal that directly repeats itself", "tokens of deep nesting are dropped, so unbalanced input is accepted")

bug("c13-empty-again", "C13", [(AST, """                productions.push(contents.parse::<Production>()?);
                let _ = contents.parse::<syn::token::Comma>();""", """                let production = contents.parse::<Production>()?;
                let _ = contents.parse::<syn::token::Comma>();
                // A second empty alternative adds nothing to the language
                let empty = |p: &Production| p.symbols.is_empty();
                if !(empty(&production) && productions.iter().any(empty)) {
                    productions.push(production);
                }""")],
    simple("ab", """    pub X: u32 = { "a" <y:Y> "b" => y };
    Y: u32 = { "a" => 1, => 2, "b" "b" => 3, => 4 };""", "let _ = X::parse(toks(\"ab\"));"),
    "two empty alternatives in one non-terminal", "the second empty alternative and its action are dropped silently, hiding the ambiguity", "reject")

bug("c08-rest-literal", "C08", [(AST, """                let mut fields: Vec<Pattern> = vec![];
                for pair in pats.into_pairs() {
                    fields.push(pair.into_value());
                }
                Ok(Pattern::Enum(path.path, fields))""", """                let mut fields: Vec<Pattern> = vec![];
                for pair in pats.into_pairs() {
                    fields.push(pair.into_value());
                    if let Some(Pattern::DotDot) = fields.last() {
                        // `..` covers the rest
                        break;
                    }
                }
                Ok(Pattern::Enum(path.path, fields))""")],
    G('enum Tok { "one" => Tok::T(.., 1), "two" => Tok::T(.., 2), "n" => Tok::T(<u8>, _), }',
      'pub X: u32 = { "one" "two" => 1, "two" "one" => 2, <n:"n"> => n as u32 };',
      '''
    assert_eq!(X::parse(vec![Ok::<_, ()>(Tok::T(9, 2)), Ok(Tok::T(8, 1))].into_iter()).ok(), Some(2));
    assert_eq!(X::parse(vec![Ok::<_, ()>(Tok::T(9, 7))].into_iter()).ok(), Some(9));''',
      "#[derive(Debug, Clone, PartialEq)]\npub enum Tok { T(u8, u8) }\n"),
    "a tuple-like token pattern with another pattern after `..`", "sub-patterns after `..` are dropped, so tokens are classified as an earlier terminal")

bug("c13-or-pattern", "C13", [(AST, """        let field_name = input.parse::<syn::Ident>()?;
        input.parse::<syn::token::Colon>()?;
        let pattern = input.parse::<Pattern>()?;""", """        let field_name = input.parse::<syn::Ident>()?;
        input.parse::<syn::token::Colon>()?;
        let mut pattern = input.parse::<Pattern>()?;
        // `f: x | y`: alternatives, the first one is the one that binds
        while input.peek(syn::token::Or) {
            input.parse::<syn::token::Or>()?;
            input.parse::<Pattern>()?;
            if let Pattern::Lit(_) = pattern {
                pattern = Pattern::Underscore;
            }
        }""")],
    G('enum Tok { "a" => Tok::T { n: 1 | 2 }, "b" => Tok::T { n: <u8> }, }',
      'pub X: u32 = { "a" => 1, <n:"b"> => n as u32 };', "    let _ = X::parse(vec![Ok::<_, ()>(Tok::T { n: 7 })].into_iter());",
      "#[derive(Debug, Clone, PartialEq)]\npub enum Tok { T { n: u8 } }\n"),
    "an or-pattern in a field of a token pattern", "unsupported pattern alternatives are silently read as `_`", "reject")

# ---- third round -------------------------------------------------------------------------------

bug("c05-case-dedup", "C05", [(CG, '''        strs.push(expected_terminals.join(", "));''', '''        expected_terminals.dedup_by(|a, b| a.eq_ignore_ascii_case(b));
        strs.push(expected_terminals.join(", "));''')],
    G('enum Tok { "select" => Tok::A, "SELECT" => Tok::B, ";" => Tok::C, }',
      'pub X: u32 = { "select" ";" => 1, "SELECT" ";" => 2 };', '''
    match X::parse(vec![Ok::<_, ()>(Tok::C)].into_iter()) {
        Err(ParseError::ParserError { found, expected }) => {
            assert_eq!(found, ";");
            assert_eq!(expected.matches("select").count() + expected.matches("SELECT").count(), 2, "{}", expected);
        }
        _ => panic!(),
    }''', "#[derive(Debug, Clone, PartialEq)]\npub enum Tok { A, B, C }\n"),
    "two neighbouring terminals whose names differ in letter case only", "the expected text of a syntax error omits one of them")

bug("c05-long-list", "C05", [(CG, '''        for terminal_idx in 0..n_terminals {
            let terminal_idx = TerminalIdx::from_usize(terminal_idx);
            if lr_table
                .get_action(StateIdx(state_idx), Some(terminal_idx))
                .is_some()
            {''', '''        for terminal_idx in 0..n_terminals {
            let terminal_idx = TerminalIdx::from_usize(terminal_idx);
            if expected_terminals.len() >= 16 {
                expected_terminals.push("...");
                break;
            }
            if lr_table
                .get_action(StateIdx(state_idx), Some(terminal_idx))
                .is_some()
            {''')],
    simple("abcdefghijklmnopqrstuv", "pub X: u32 = { " + ", ".join('"%s" "v" => 1' % c for c in "abcdefghijklmnopqrstu") + " };", '''
    match X::parse(toks("v")) {
        Err(ParseError::ParserError { expected, .. }) => for c in "abcdefghijklmnopqrstu".chars() {
            assert!(expected.contains(c), "{} misses {}", expected, c);
        },
        _ => panic!(),
    }'''),
    "a state in which more than sixteen terminals have an action", "the expected text of a syntax error is cut short")

bug("c07-arg-truncate", "C07", [(CG, '''                        let fn_name = syn::Ident::new(
                            &format!("nt{}p{}_action", nt_i, p_i),''', '''                        if symbols.len() > 3 && symbols.iter().all(|s| s.binder.is_none()) {
                            // nothing is bound: drop the values in one go
                            let n = symbols.len() - 1;
                            pop_code = vec![quote!(value_stack.truncate(value_stack.len().saturating_sub(#n)))];
                        }

                        let fn_name = syn::Ident::new(
                            &format!("nt{}p{}_action", nt_i, p_i),''')],
    simple("abcd", '''pub X: u32 = { "a" <p:P> "b" => p, <q:Q> <p:P> => q + p };
    P: u32 = { "c" "c" "c" "d" => 5, "d" => 6 };
    Q: u32 = { "b" => 10 };''', '''
    assert_eq!(X::parse(toks("adb")).ok(), Some(6));
    assert_eq!(X::parse(toks("bd")).ok(), Some(16));
    assert_eq!(X::parse(toks("acccdb")).ok(), Some(5));
    assert_eq!(X::parse(toks("bcccd")).ok(), Some(15));'''),
    "an alternative of four or more symbols that binds none of them, with a bound value to its left",
    "one value stays on the stack and a later action takes a value of the wrong kind and panics")

bug("c09-entry-u8", "C09", [(LG, '''            let parser_state = u32::try_from(parser_state.as_usize()).unwrap();''',
     '''            let parser_state = u32::from(parser_state.as_usize() as u8);''')],
    simple("ab", "\n".join('pub N%d: u32 = { "a" => %d, "b" "a" => %d };' % (i, i, i + 1000) for i in range(260)), '''
    assert_eq!(N0::parse(toks("a")).ok(), Some(0));
    assert_eq!(N255::parse(toks("a")).ok(), Some(255));
    assert_eq!(N256::parse(toks("a")).ok(), Some(256));
    assert_eq!(N259::parse(toks("ba")).ok(), Some(1259));'''),
    "more than 256 public non-terminals", "the entry points after the 256th start in the state of another one")

bug("c12-goto-mask", "C12", [(LG, '''                    let next_state: u32 = u32::try_from(next_state.as_usize()).unwrap();
                    quote!(Some(#next_state))''', '''                    let next_state: u32 = (next_state.as_usize() & 0x1ff) as u32;
                    quote!(Some(#next_state))''')],
    simple("abc", 'pub Y: u32 = { "a" <z:Z> ' + '"b" ' * 560 + '=> z, ' + '"b" ' * 540 + '<z:Z> "a" => z };\n    Z: u32 = { "c" => 1, "a" => 2 };', '''
    let s: String = "b".repeat(540) + "ca";
    assert_eq!(Y::parse(toks(&s)).ok(), Some(1));
    let s: String = "ac".to_string() + &"b".repeat(560);
    assert_eq!(Y::parse(toks(&s)).ok(), Some(1));'''),
    "a goto to a state numbered 512 or more", "the emitted goto table holds another state")

bug("c13-name-escape", "C13", [(AST, '''        Ok(Conversion {
            span,
            from: from.value(),''', '''        Ok(Conversion {
            span,
            from: from.value().replace("\\\\n", "\\n"),''')],
    G('enum Tok { "\\\\n" => Tok::A, "x" => Tok::B, }', 'pub X: u32 = { "\\\\n" "x" => 1 };', '''
    assert_eq!(X::parse(vec![Ok::<_, ()>(Tok::A), Ok(Tok::B)].into_iter()).ok(), Some(1));
    match X::parse(vec![Ok::<_, ()>(Tok::B)].into_iter()) {
        Err(ParseError::ParserError { expected, .. }) => assert!(expected.contains("\\\\n")),
        _ => panic!(),
    }''', "#[derive(Debug, Clone, PartialEq)]\npub enum Tok { A, B }\n"),
    "a terminal whose name contains a backslash followed by n", "the terminal is read under another name than written")

bug("c04-eof-same-action", "C04", [(LC, '''        let action = self.table.action.entry(state).or_default();

        let old_action = action.insert(
            token,''', '''        let action = self.table.action.entry(state).or_default();

        if token.is_none() && matches!(action.get(&None), Some(LRAction::Reduce(_, p, _)) if *p == production_idx) {
            return;
        }

        let old_action = action.insert(
            token,''')],
    simple("abc", '''pub X: u32 = { "c" <a:A> => a, "c" <b:B> => b };
    A: u32 = { "a" "a" => 1, "b" => 2 };
    B: u32 = { "a" "b" => 3, "b" => 4 };''', "let _ = X::parse(toks(\"cb\"));"),
    "a reduce/reduce conflict at end of input between alternatives with the same number in their non-terminals",
    "the conflict is resolved silently in favour of the first", "reject")

bug("c14-selfloop-spin", "C14", [(L1, '''            updated |= old.is_none();''', '''            // a state that leads to itself is looked at once more
            updated |= old.is_none() || state == next && n_gotos > 400;'''), (L1, '''        automaton.states.extend(new_states.into_iter());''', '''        let n_gotos = new_gotos.len();
        automaton.states.extend(new_states.into_iter());''')],
    simple("abcdefghijklmnopqrstuvw", "pub X: u32 = { " + ", ".join('"%s" <x:X> => x' % c for c in "abcdefghijklmnopqrstuv") + ', "w" => 1 };', '''
    assert_eq!(X::parse(toks("aabw")).ok(), Some(1));'''),
    "a grammar with more than four hundred transitions and a state that leads to itself", "table generation never terminates", "run")

bug("c06-poll-on-error", "C06", [(LG, '''                    Some(Err(err)) => return Err(ParseError::LexerError(err.clone())),''', '''                    Some(Err(err)) => {
                        let err = err.clone();
                        if state_stack.len() > 6 {
                            // let a lexer that nests close its modes
                            let _ = input.next();
                        }
                        return Err(ParseError::LexerError(err));
                    }''')],
    G('enum Tok { "(" => Tok::L, ")" => Tok::R, }', 'pub X: u32 = { "(" <x:X> ")" => x + 1, "(" ")" => 1 };', '''
    use std::cell::Cell;
    for depth in 0..12 {
        let polls = Cell::new(0);
        let n = depth;
        let it = std::iter::from_fn(|| {
            let i = polls.get();
            polls.set(i + 1);
            if i < n { Some(Ok(Tok::L)) } else { Some(Err("bad")) }
        });
        assert_eq!(X::parse(it), Err(ParseError::LexerError("bad")));
        assert_eq!(polls.get(), n + 1, "nothing is asked for after the error");
    }''', "#[derive(Debug, Clone, PartialEq)]\npub enum Tok { L, R }\n"),
    "a lexer error at a nesting depth of six or more", "the parser asks its input for another item after the lexer error")

bug("c03-empty-actions", "C03", [(CG, '''                        let fn_idx = decls.len();

''', '''                        let fn_idx = if symbols.is_empty() {
                            // actions without arguments are shared
                            let text = quote!(#action).to_string();
                            *empty_actions.entry((non_terminal_action_variant_name[nt_i], text.len())).or_insert(decls.len())
                        } else {
                            decls.len()
                        };

'''), (CG, '''    let mut fn_names: Vec<syn::Ident> = vec![];

''', '''    let mut fn_names: Vec<syn::Ident> = vec![];
    let mut empty_actions: Map<(usize, usize), usize> = Default::default();

''')],
    simple("ab", '''pub X: u32 = { <p:P> "a" <q:Q> => p * 100 + q };
    P: u32 = { "b" => 7, => 1 };
    Q: u32 = { "b" => 8, => 2 };''', '''
    assert_eq!(X::parse(toks("bab")).ok(), Some(708));
    assert_eq!(X::parse(toks("a")).ok(), Some(102));'''),
    "two empty alternatives of non-terminals of the same type whose actions have the same length",
    "the second one runs the first one's action")

bug("c10-few-rounds", "C10", [(FI, '''    let mut updated = true;
    while updated {
        updated = false;
''', '''    let mut updated = true;
    let mut rounds = 0;
    // information travels at least one non-terminal per round
    while updated && rounds <= grammar.non_terminals().len() / 2 + 2 {
        updated = false;
        rounds += 1;
''')],
    simple("ab", "pub X: u32 = { <p:P> <a:N0> \"b\" => a + p };\n    P: u32 = { => 0, \"b\" => 10 };\n" + "\n".join('N%d: u32 = { <x:N%d> => x };' % (i, i + 1) for i in range(12)) + '\nN12: u32 = { M "a" => 3 };\nM: u32 = { => 1 };', '''
    assert_eq!(X::parse(toks("ab")).ok(), Some(3));'''),
    "a long chain of non-terminals declared before the ones they start with",
    "first sets are incomplete, so empty productions are not reduced", "run")

bug("c08-tuple-swap", "C08", [(CG, '''            if *dots {
                pats.push(quote!(..));
            }

            quote!(#path { #(#pats)* })
        }

        Pattern::Tuple(pats) => {
            let pats: Vec<TokenStream> = pats
                .iter()
                .map(|pat| generate_pattern_syn_with_idents_(pat, idents))
                .collect();
''', '''            if *dots {
                pats.push(quote!(..));
            }

            quote!(#path { #(#pats)* })
        }

        Pattern::Tuple(pats) => {
            let mut pats: Vec<TokenStream> = pats
                .iter()
                .map(|pat| generate_pattern_syn_with_idents_(pat, idents))
                .collect();
            if pats.len() > 2 && idents.len() == pats.len() {
                pats.sort_by_key(|p| p.to_string());
                pats.rotate_left(1);
                pats.rotate_right(2);
            }
''')],
    G('enum Tok { "t" => Tok::T((<u8>, <u8>, <u8>)), }', 'pub X: (u8, u8, u8) = { <t:"t"> => t };', '''
    assert_eq!(X::parse(vec![Ok::<_, ()>(Tok::T((1, 2, 3)))].into_iter()).ok(), Some((1, 2, 3)));''',
      "#[derive(Debug, Clone, PartialEq)]\npub enum Tok { T((u8, u8, u8)) }\n"),
    "a tuple of three bound fields inside a token pattern", "the payload values are bound to the wrong fields")

bug("c15-empty-first", "C15", [(LC, '''                LRAction::Reduce(_nt_, _p_, _) => {
''', '''                LRAction::Reduce(nt_, p_, a) if grammar.get_production(nt_, p_).symbols().is_empty() => {
                    // an empty production takes nothing from the input: reduce it first, shift
                    // afterwards
                    action.insert(Some(token), LRAction::Reduce(nt_, p_, a));
                }
                LRAction::Reduce(_nt_, _p_, _) => {
''')],
    simple("ab", '''E: u32 = { => 1 };
    pub X: u32 = { E <x:X> => x + 1, "a" => 5 };''', '''
    assert_eq!(X::parse(toks("a")).ok(), Some(5));'''),
    "an empty non-terminal in front of a recursive alternative, declared before it",
    "the conflict is resolved by reducing, so the parser reduces the empty production for ever", "run_or_reject")

def multi(names, body):
    return simple(names, body, "").replace("fn toks", "#[allow(dead_code)] fn toks")
ENTRIES = multi("abc", """    pub X: u32 = { "a" <y:Y> => y };
    pub Y: u32 = { "b" => 1, <z:Z> "b" => z };
    pub Z: u32 = { "c" => 3, "c" <z:Z> => z };
    pub W: u32 = { "c" "a" => 3, <x:X> => x };""")
ONE = multi("abcdefg", """    pub X: u32 = { <y:Y> "a" => y, <z:Z> "b" => z as u32, "c" <w:W> "d" => w.len() as u32 };
    Y: u32 = { "c" => 1, "e" <y:Y> => y, "f" <z:Z> "g" => 1 };
    Z: u8 = { "d" => 3, "d" <z:Z> => z, "e" "f" => 1 };
    W: String = { => String::new(), "e" => "x".to_string(), "g" <w:W> => w };
    V: Vec<u8> = { "a" <w:W> => vec![] };
    U: Option<u8> = { "b" <v:V> => None };""")
bug("c16-random-state", "C16", [(L1, """) -> (LR1Automaton, Map<NonTerminalIdx, StateIdx>) {
    // Maps existing item""", """) -> (LR1Automaton, std::collections::HashMap<NonTerminalIdx, StateIdx>) {
    // Maps existing item"""), (L1, "    let mut non_terminal_state_indices: Map<NonTerminalIdx, StateIdx> = Default::default();",
    "    let mut non_terminal_state_indices: std::collections::HashMap<NonTerminalIdx, StateIdx> =\n        Default::default();")], ENTRIES,
    "a grammar with several public non-terminals", "the generated parsers stand in another order each time the macro is expanded", "same")
bug("c16-type-order", "C16", [(CG, """    let mut non_terminal_ty_indices: Map<syn::Type, usize> = Default::default();
    let mut i: usize = 0;

    for non_terminal in grammar.non_terminals().iter() {
        match""", """    // Every distinct type gets a variant
    let distinct_tys: std::collections::HashSet<&syn::Type> = grammar
        .non_terminals()
        .iter()
        .map(|non_terminal| &non_terminal.return_ty)
        .collect();
    let mut non_terminal_ty_indices: Map<syn::Type, usize> = Default::default();
    let mut i: usize = 0;

    for pattern_ty in distinct_tys {
        let variant_id = syn::Ident::new(&format!("NonTerminal{}", i), Span::call_site());
        variants.push(quote!(#variant_id(#pattern_ty)));

        let method_id = syn::Ident::new(&format!("non_terminal_{}", i), Span::call_site());
        extraction_fns.push(quote!(
            fn #method_id(self) -> #pattern_ty {
                match self {
                    Self::#variant_id(f) => f,
                    _ => unreachable!("{:?}", self),
                }
            }
        ));
        non_terminal_ty_indices.insert(pattern_ty.clone(), i);
        i += 1;
    }

    for non_terminal in grammar.non_terminals().iter() {
        match"""), (CG, """            None => {
                let variant_id = syn::Ident::new(&format!("NonTerminal{}", i), Span::call_site());

                let pattern_ty = &non_terminal.return_ty;
                variants.push(quote!(#variant_id(#pattern_ty)));

                let method_id = syn::Ident::new(&format!("non_terminal_{}", i), Span::call_site());
                extraction_fns.push(quote!(
                    fn #method_id(self) -> #pattern_ty {
                        match self {
                            Self::#variant_id(f) => f,
                            _ => unreachable!("{:?}", self),
                        }
                    }
                ));

                non_terminal_action_variant_names.push(i);

                non_terminal_ty_indices.insert(non_terminal.return_ty.clone(), i);
                i += 1;
            }
""", """            None => unreachable!(),
""")], ONE, "a grammar whose non-terminals have several types", "the variants of the value type are numbered differently each time the macro is expanded", "same")
NS = """            for symbol in grammar
                .non_terminal_indices()
                .map(|(nt, _)| Symbol::NonTerminal(nt))
                .chain(grammar.terminal_indices().map(Symbol::Terminal))
            {
                let goto"""
bug("c16-state-order", "C16", [(L1, NS, """            // In large grammars few symbols have a transition from a state
            let all_symbols = grammar
                .non_terminal_indices()
                .map(|(nt, _)| Symbol::NonTerminal(nt))
                .chain(grammar.terminal_indices().map(Symbol::Terminal));
            let symbols: Vec<Symbol> = if grammar.n_terminals() + grammar.n_non_terminals() < 12 {
                all_symbols.collect()
            } else {
                let next_symbols: std::collections::HashSet<Symbol> = state
                    .items
                    .iter()
                    .filter_map(|item| item.next_symbol(grammar).cloned())
                    .collect();
                next_symbols.into_iter().collect()
            };
            for symbol in symbols {
                let goto""")], ONE, "a state with transitions on two symbols to new states", "the states are numbered differently each time the macro is expanded", "same")
bug("c16-fx-state-order", "C16", [(L1, NS, """            // In large grammars few symbols have a transition from a state
            let all_symbols = grammar
                .non_terminal_indices()
                .map(|(nt, _)| Symbol::NonTerminal(nt))
                .chain(grammar.terminal_indices().map(Symbol::Terminal));
            let symbols: Vec<Symbol> = if grammar.n_terminals() + grammar.n_non_terminals() < 12 {
                all_symbols.collect()
            } else {
                let next_symbols: Set<Symbol> = state
                    .items
                    .iter()
                    .filter_map(|item| item.next_symbol(grammar).cloned())
                    .collect();
                next_symbols.into_iter().collect()
            };
            for symbol in symbols {
                let goto""")], ONE, "a state with transitions on two symbols to new states, and another iteration order of the hash tables (another target or version of the hash function)",
    "the numbers of the states depend on the iteration order of a hash set", "permute")
bug("c16-expected-order", "C16", [(CG, """        let mut expected_terminals: Vec<&str> = vec![];

        for terminal_idx""", """        let mut expected_terminals: std::collections::HashSet<&str> = Default::default();

        for terminal_idx"""), (CG, "                expected_terminals.push(grammar.get_terminal(terminal_idx));", "                expected_terminals.insert(grammar.get_terminal(terminal_idx));"),
    (CG, """        strs.push(expected_terminals.join(", "));""", """        let expected_terminals: Vec<&str> = expected_terminals.into_iter().collect();
        strs.push(expected_terminals.join(", "));""")], ONE,
    "a state with several expected terminals", "the expected terminals of a state are listed in another order each time the macro is expanded", "same")
bug("c16-fx-action-rows", "C16", [(CG, """        let mut expected_terminals: Vec<&str> = vec![];

        for terminal_idx in 0..n_terminals {
            let terminal_idx = TerminalIdx::from_usize(terminal_idx);
            if lr_table
                .get_action(StateIdx(state_idx), Some(terminal_idx))
                .is_some()
            {
                expected_terminals.push(grammar.get_terminal(terminal_idx));
            }
        }
""", """        // Only look at the terminals with an action
        let expected_terminals: Vec<&str> = match lr_table.get_action_table().get(&StateIdx(state_idx)) {
            Some(actions) => actions
                .keys()
                .filter_map(|terminal| *terminal)
                .filter(|terminal| terminal.as_usize() < n_terminals)
                .map(|terminal| grammar.get_terminal(terminal))
                .collect(),
            None => vec![],
        };
""")], ONE, "a state with several expected terminals, and another iteration order of the hash tables", "the order of the expected terminals depends on the iteration order of a hash map", "permute")
bug("c16-counter", "C16", [(CG, """    let semantic_action_result_type_name =
        syn::Ident::new("SemanticActionResult", Span::call_site());

    let mut variants""", """    let semantic_action_result_type_name =
        syn::Ident::new("SemanticActionResult", Span::call_site());

    // Parameters of the extraction functions do not shadow each other
    static NEXT_FIELD: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

    let mut variants"""), (CG, """            .map(|(i, _)| syn::Ident::new(&format!("f{}", i), Span::call_site()))
            .collect();

        extraction_fns""", """            .map(|_| NEXT_FIELD.fetch_add(1, std::sync::atomic::Ordering::Relaxed))
            .map(|i| syn::Ident::new(&format!("f{}", i), Span::call_site()))
            .collect();

        extraction_fns""")], """#![allow(dead_code, unused_variables, unused_mut)]
#[derive(Debug, Clone)]
pub enum Tok { A(u32), B }
mod a { use crate::Tok; parsegen::parser! { enum Tok { "a" => Tok::A(<u32>), "b" => Tok::B, } pub X: u32 = { "a" "b" => 1 }; } }
mod b { use crate::Tok; parsegen::parser! { enum Tok { "a" => Tok::A(<u32>), "b" => Tok::B, } pub X: u32 = { "a" "b" => 1 }; } }
mod c { }
fn main() {}
""", "the same grammar expanded twice in one compilation", "the second expansion of a grammar yields code with other names", "twice")
bug("c03-underscore-binder", "C03", [(LO, """        ast::Symbol::NamedSymbol(binder, sym) => {
            add_symbol(nt_indices, t_indices, symbols, Some(binder), *sym)""", """        ast::Symbol::NamedSymbol(name, sym) => {
            // Names that start with an underscore are not used
            let unused = name.name.to_string().starts_with('_');
            add_symbol(nt_indices, t_indices, symbols, Some(name).filter(|_| !unused), *sym)""")],
    simple("ab", """    pub X: u32 = { <_y:Y> <z:Y> "b" => _y * 10 + z };
    Y: u32 = { "a" => 3, "b" => 4 };""", """
    assert_eq!(X::parse(toks("abb")), Ok(34));"""), "a bound name that starts with an underscore", "a symbol bound to a name that starts with an underscore is not bound")

bug("c03-type-last-segment", "C03", [(CG, """        match non_terminal_ty_indices
            .get(&non_terminal.return_ty)
            .copied()
        {""", """        // Types are compared by name
        let ty_key = match &non_terminal.return_ty {
            syn::Type::Path(path) if path.path.segments.len() == 2 => {
                syn::Type::Path(syn::TypePath { qself: None, path: path.path.segments[1].clone().into() })
            }
            ty => ty.clone(),
        };
        match non_terminal_ty_indices.get(&ty_key).copied() {"""), (CG, """                non_terminal_ty_indices.insert(non_terminal.return_ty.clone(), i);""", """                non_terminal_ty_indices.insert(ty_key, i);""")],
    simple("ab", """    pub X: (u32, u32) = { <y:Y> <z:Z> => (y.0, z.0) };
    Y: p::V = { "a" => p::V(1) };
    Z: q::V = { "b" => q::V(2) };""", """
    assert_eq!(X::parse(toks("ab")), Ok((1, 2)));""").replace("parser! {", "mod p { #[derive(Clone, Debug)] pub struct V(pub u32); }\nmod q { #[derive(Clone, Debug)] pub struct V(pub u32); }\nparser! {", 1),
    "two non-terminals whose result types have the same last path segment", "values of different types share a result variant: the generated code does not compile")

bug("c05-found-quote", "C05", [(CG, """        .map(|terminal_idx| grammar.get_terminal(TerminalIdx::from_usize(terminal_idx)))
        .chain""", """        .map(|terminal_idx| grammar.get_terminal(TerminalIdx::from_usize(terminal_idx)))
        .map(|name| name.strip_prefix('\\'').and_then(|name| name.strip_suffix('\\'')).unwrap_or(name))
        .chain""")],
    G("enum Tok { \"'x'\" => Tok::A, \"y\" => Tok::B, }", """    pub X: u32 = { "y" "'x'" => 1 };""", """
    match X::parse(vec![Ok::<Tok, ()>(Tok::A)].into_iter()) {
        Err(ParseError::ParserError { found, expected }) => { assert_eq!(found, "'x'"); assert_eq!(expected, "y"); }
        _ => panic!(),
    }""", "#[derive(Debug, Clone, PartialEq)]\npub enum Tok { A, B }\n"), "a terminal whose declared name is in quotes", "the found text is not the declared name")

bug("c06-first-65536", "C06", [(LG, """let mut token = input.next();""", """let mut input = input.by_ref().take(1usize << 16).fuse();
            let mut token = input.next();""")],
    simple("ab", """    pub X: u32 = { <l:L> => l };
    L: u32 = { <l:L> "a" => l + 1, => 0 };""", """
    assert_eq!(X::parse((0..70_000).map(|_| Ok::<Tok, ()>(Tok::TA))), Ok(70_000));"""), "an input of more than 65536 tokens", "the parser stops asking for tokens after 65536")

bug("c10-quiet-round", "C10", [(FI, """    let mut updated = true;
    while updated {
        updated = false;
""", """    let mut updated = true;
    let mut n_firsts = usize::MAX;
    while updated {
        // Large grammars: done when no set has grown
        let size = table.0.iter().map(|set| set.terminals.len()).sum::<usize>();
        if size == n_firsts && table.0.len() > 12 {
            break;
        }
        n_firsts = if size == 0 { usize::MAX } else { size };
        updated = false;
""")],
    simple("abcd", """    pub X: u32 = { M <a:N1> "a" => a };
    M: u32 = { => 0 };
    N1: u32 = { N3 N2 => 1 };
    N3: u32 = { N4 => 1 };
    N4: u32 = { N5 => 1 };
    N5: u32 = { N6 => 1 };
    N6: u32 = { N7 => 1 };
    N7: u32 = { N8 => 1 };
    N8: u32 = { N9 => 1 };
    N9: u32 = { N10 => 1 };
    N10: u32 = { N11 => 1 };
    N11: u32 = { N12 => 1 };
    N12: u32 = { N13 => 1 };
    N13: u32 = { => 1 };
    N2: u32 = { "b" => 1, "c" "c" => 2 };""", """
    assert_eq!(X::parse(toks("ba")), Ok(1));"""), "more than 12 symbols, and a round in which only empty flags change", "the first-set computation stops before the fixed point")

bug("c02-visits", "C02", [(L1, """    while let Some(item) = work_list.pop() {
        if let Some(next) = item.next_non_terminal(grammar) {
""", """    // Productions of a non-terminal are added to the closure with every lookahead they can have
    let mut n_visits: Vec<usize> = vec![0; grammar.non_terminals().len()];
    while let Some(item) = work_list.pop() {
        if let Some(next) = item.next_non_terminal(grammar) {
            n_visits[next.as_usize()] += 1;
            if n_visits[next.as_usize()] > 32 {
                continue;
            }
""")],
    simple("abcdefghijklmnopqrstuvwxyz", """    pub X: u32 = { <l:L> => l };
    L: u32 = { <l:L> A => l + 1, => 0 };
    A: u32 = { PRODS };""".replace("PRODS", ", ".join('B "%s" => 1' % c for c in "abcdefghijklmnopqrstuvwxyz") + ", " + ", ".join('B "%s" "%s" => 1' % (c, d) for c in "abcd" for d in "wxyz")) + """
    B: u32 = { => 0 };""", """
    for c in "abcdefghijklmnopqrstuvwxyz".chars() {
        for d in "abcdefghijklmnopqrstuvwxyz".chars() {
            let s: String = vec![c, d].into_iter().collect();
            let n = if "abcd".contains(c) && "wxyz".contains(d) { continue } else { 2 };
            assert_eq!(X::parse(toks(&s)), Ok(n), "{}", s);
        }
    }"""), "a state with more than 32 items in front of one non-terminal", "items are missing from the states, and sentences are rejected")
