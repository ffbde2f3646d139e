//! In-process replay of the generator on concrete grammars, compared with the independent oracle.
//! Every finding names a property and the grammar that shows it.
use oracle::*;
use proc_macro2::TokenStream;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
#[cfg(feature = "lowered")]
use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}
fn find(prop: &str, gram: &str, what: &str) {
    let mut w = what.to_string();
    w.truncate(w.char_indices().nth(1500).map(|x| x.0).unwrap_or(w.len()));
    let mut g = gram.to_string();
    g.truncate(g.char_indices().nth(4000).map(|x| x.0).unwrap_or(g.len()));
    println!("FIND {{\"property\":\"{}\",\"grammar\":\"{}\",\"what\":\"{}\"}}", prop, esc(&g), esc(&w));
}

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}
fn expand(text: &str) -> Result<TokenStream, String> {
    let ts: TokenStream = text.parse().map_err(|e| format!("lex error {:?}", e))?;
    let r: TokenStream = guarded(|| gen::parser(ts))?.into();
    if r.to_string().contains("compile_error") {
        return Err(format!("diagnostic: {}", r));
    }
    Ok(r)
}

// ------------------------------------------------------------------ emitted tables
#[derive(Clone, Debug, PartialEq, Eq)]
enum Cell {
    Shift(usize),
    Reduce { nt: usize, n: usize, act: usize },
    Accept,
}
struct Emitted {
    action: Vec<Vec<Option<Cell>>>,
    goto: Vec<Vec<Option<usize>>>,
    expected: Option<Vec<String>>,
    terms: Option<Vec<String>>,
    /// name, start state, final action
    entries: Vec<(String, usize, usize)>,
    action_fns: Option<Vec<String>>,
}
fn int(e: &syn::Expr) -> Option<usize> {
    match e {
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Int(i) => i.base10_parse().ok(),
            _ => None,
        },
        syn::Expr::Paren(p) => int(&p.expr),
        syn::Expr::Group(p) => int(&p.expr),
        _ => None,
    }
}
fn last(p: &syn::Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}
fn opt(e: &syn::Expr) -> Option<Option<&syn::Expr>> {
    match e {
        syn::Expr::Path(p) if last(&p.path) == "None" => Some(None),
        syn::Expr::Call(c) => match &*c.func {
            syn::Expr::Path(p) if last(&p.path) == "Some" && c.args.len() == 1 => Some(Some(&c.args[0])),
            _ => None,
        },
        _ => None,
    }
}
fn cell(e: &syn::Expr) -> Option<Option<Cell>> {
    Some(match opt(e)? {
        None => None,
        Some(e) => Some(match e {
            syn::Expr::Struct(s) => {
                let f: HashMap<String, usize> = s
                    .fields
                    .iter()
                    .filter_map(|f| match &f.member {
                        syn::Member::Named(n) => Some((n.to_string(), int(&f.expr)?)),
                        _ => None,
                    })
                    .collect();
                match last(&s.path).as_str() {
                    "Shift" => Cell::Shift(*f.get("next_state")?),
                    "Reduce" => Cell::Reduce { nt: *f.get("non_terminal_idx")?, n: *f.get("n_symbols")?, act: *f.get("semantic_action_idx")? },
                    _ => return None,
                }
            }
            syn::Expr::Path(p) if last(&p.path) == "Accept" => Cell::Accept,
            _ => return None,
        }),
    })
}
fn strs(a: &syn::ExprArray) -> Option<Vec<String>> {
    a.elems
        .iter()
        .map(|e| match e {
            syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(s.value()),
            _ => None,
        })
        .collect()
}
struct CallFinder(Option<(usize, usize)>);
fn walk_calls(ts: TokenStream, f: &mut CallFinder) {
    // parse_generic(input, SemanticActionResult::x, STATE, ACTION)
    let v: Vec<proc_macro2::TokenTree> = ts.into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        if let proc_macro2::TokenTree::Group(g) = t {
            if i > 0 {
                if let proc_macro2::TokenTree::Ident(id) = &v[i - 1] {
                    if id == "parse_generic" {
                        let c: Result<syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>, _> =
                            syn::parse::Parser::parse2(syn::punctuated::Punctuated::parse_terminated, g.stream());
                        if let Ok(c) = c {
                            let ns: Vec<usize> = c.iter().filter_map(int).collect();
                            if ns.len() == 2 {
                                f.0 = Some((ns[0], ns[1]));
                            }
                        }
                    }
                }
            }
            walk_calls(g.stream(), f);
        }
    }
}
fn decode(ts: &TokenStream) -> Option<Emitted> {
    let file: syn::File = syn::parse2(ts.clone()).ok()?;
    let mut action = None;
    let mut goto = None;
    let (mut expected, mut terms, mut action_fns) = (None, None, None);
    let mut entries = vec![];
    for it in &file.items {
        match it {
            syn::Item::Static(s) => {
                let arr = match &*s.expr {
                    syn::Expr::Array(a) => a,
                    _ => continue,
                };
                match s.ident.to_string().as_str() {
                    "ACTION" => {
                        let mut rows = vec![];
                        for r in &arr.elems {
                            if let syn::Expr::Array(r) = r {
                                rows.push(r.elems.iter().map(cell).collect::<Option<Vec<_>>>()?);
                            } else {
                                return None;
                            }
                        }
                        action = Some(rows);
                    }
                    "GOTO" => {
                        let mut rows = vec![];
                        for r in &arr.elems {
                            if let syn::Expr::Array(r) = r {
                                rows.push(
                                    r.elems
                                        .iter()
                                        .map(|e| match opt(e)? {
                                            None => Some(None),
                                            Some(e) => Some(Some(int(e)?)),
                                        })
                                        .collect::<Option<Vec<_>>>()?,
                                );
                            } else {
                                return None;
                            }
                        }
                        goto = Some(rows);
                    }
                    "EXPECTED_TERMINALS" => expected = strs(arr),
                    "TERMINAL_STRS" => terms = strs(arr),
                    "SEMANTIC_ACTIONS" => {
                        action_fns = arr
                            .elems
                            .iter()
                            .map(|e| match e {
                                syn::Expr::Path(p) => Some(last(&p.path)),
                                _ => None,
                            })
                            .collect::<Option<Vec<_>>>()
                    }
                    _ => {}
                }
            }
            syn::Item::Impl(im) => {
                let name = match &*im.self_ty {
                    syn::Type::Path(p) => last(&p.path),
                    _ => continue,
                };
                use quote::ToTokens;
                let has_parse = im.items.iter().any(|i| matches!(i, syn::ImplItem::Method(m) if m.sig.ident == "parse"));
                if has_parse {
                    let mut f = CallFinder(None);
                    walk_calls(im.to_token_stream(), &mut f);
                    let (s, a) = f.0?;
                    entries.push((name, s, a));
                }
            }
            _ => {}
        }
    }
    Some(Emitted { action: action?, goto: goto?, expected, terms, entries, action_fns })
}

// ------------------------------------------------------------------ index maps expected from lowering
/// oracle nt -> (lowered index, entry index if public)
fn lowered_index(g: &Gram) -> Vec<(usize, Option<usize>)> {
    if let Some(v) = NUMBERED.with(|c| c.borrow().clone()) {
        if v.len() == g.nts.len() {
            return v;
        }
    }
    static_index(g)
}
thread_local! {
    /// how the grammar at hand was really numbered
    static NUMBERED: std::cell::RefCell<Option<Vec<(usize, Option<usize>)>>> = const { std::cell::RefCell::new(None) };
}
/// the numbers the lowering really gave: the order in which an item and its entry point are created is its
/// own affair. None where that cannot be told, or is the usual order
#[cfg(feature = "lowered")]
fn numbered(g: &Gram, ts: &TokenStream) -> Option<Vec<(usize, Option<usize>)>> {
    let (got, _) = guarded(|| gen::probe_lowered::lowered(ts.clone())).ok()?;
    let mut used = HashSet::new();
    let mut v = vec![];
    let mut named: HashMap<(&str, bool), Vec<usize>> = HashMap::new();
    for (i, (name, public, _)) in got.iter().enumerate() {
        named.entry((name.as_str(), *public)).or_default().push(i);
    }
    for (n, nt) in g.nts.iter().enumerate() {
        let tagged = |i: usize| {
            let (_, public, prods) = &got[i];
            !*public
                && prods.len() == nt.prods.len()
                && nt.prods.iter().enumerate().zip(prods).all(|((p, pr), (_, action))| {
                    let (tn, tp) = pr.tag(n, p);
                    action.replace(' ', "").contains(&format!("node({},{},", tn, tp))
                })
        };
        let (own, entry) = if nt.public {
            let e = match named.get(&(nt.name.as_str(), true)).map(|v| v.as_slice()) {
                Some([e]) => *e,
                _ => return None,
            };
            match got[e].2.as_slice() {
                [(ss, _)] if ss.len() == 1 && ss[0].0 && ss[0].1 < got.len() => (ss[0].1, Some(e)),
                _ => return None,
            }
        } else {
            let o = match named.get(&(nt.name.as_str(), false)).map(|v| v.as_slice()) {
                Some([o]) => *o,
                _ => return None,
            };
            (o, None)
        };
        if !tagged(own) || !used.insert(own) || entry.map(|e| !used.insert(e)).unwrap_or(false) {
            return None;
        }
        v.push((own, entry));
    }
    if used.len() != got.len() {
        return None;
    }
    Some(v)
}
#[allow(unused_variables)]
fn find_numbers(g: &Gram, ts: &TokenStream) {
    NUMBERED.with(|c| *c.borrow_mut() = None);
    #[cfg(feature = "lowered")]
    {
        let v = numbered(g, ts);
        NUMBERED.with(|c| *c.borrow_mut() = v);
    }
}
fn static_index(g: &Gram) -> Vec<(usize, Option<usize>)> {
    let mut k = 0;
    g.nts
        .iter()
        .map(|nt| {
            if nt.public {
                k += 2;
                (k - 2, Some(k - 1))
            } else {
                k += 1;
                (k - 1, None)
            }
        })
        .collect()
}

/// compares an automaton-like table with the oracle's automaton; Err(None): cannot be mapped
fn compare_emitted(g: &Gram, l: &Lr1, e: &Emitted) -> Result<(), String> {
    let nterm = g.terms.len();
    if e.action.len() != l.states.len() {
        return Err(format!("{} states emitted, canonical collection has {}", e.action.len(), l.states.len()));
    }
    if e.goto.len() != e.action.len() {
        return Err(format!("{} goto rows for {} action rows", e.goto.len(), e.action.len()));
    }
    for (i, r) in e.action.iter().enumerate() {
        if r.len() != nterm + 1 {
            return Err(format!("action row {} has {} columns for {} terminals", i, r.len(), nterm));
        }
    }
    let ncols = e.goto.first().map(|r| r.len()).unwrap_or(0);
    let idx = lowered_index(g);
    let total = g.nts.len() + g.publics().len();
    if ncols != total {
        return Err(format!("goto rows have {} columns for {} non-terminals", ncols, total));
    }
    let mut map: Vec<Option<usize>> = vec![None; l.states.len()];
    let mut inv: HashMap<usize, usize> = HashMap::new();
    let mut q: VecDeque<usize> = VecDeque::new();
    let mut assoc = |map: &mut Vec<Option<usize>>, q: &mut VecDeque<usize>, o: usize, s: usize, why: String| -> Result<(), String> {
        if s >= e.action.len() {
            return Err(format!("{}: target state {} does not exist", why, s));
        }
        match map[o] {
            None => {
                if let Some(p) = inv.insert(s, o) {
                    return Err(format!("{}: emitted state {} stands for two different item sets ({} and {})", why, s, p, o));
                }
                map[o] = Some(s);
                q.push_back(o);
                Ok(())
            }
            Some(t) if t == s => Ok(()),
            Some(t) => Err(format!("{}: item set {} emitted as both state {} and {}", why, o, t, s)),
        }
    };
    let mut es: BTreeSet<String> = e.entries.iter().map(|x| x.0.clone()).collect();
    for (nt, st) in &l.starts {
        let name = &g.nts[*nt].name;
        es.remove(name);
        match e.entries.iter().find(|x| x.0 == *name) {
            None => return Err(format!("no parser for public non-terminal {}", name)),
            Some((_, s, _)) => assoc(&mut map, &mut q, *st, *s, format!("start state of {}", name))?,
        }
    }
    if !es.is_empty() {
        return Err(format!("parsers generated for non-public names {:?}", es));
    }
    let mut act_of: HashMap<(usize, usize), usize> = HashMap::new();
    let mut act_inv: HashMap<usize, (usize, usize)> = HashMap::new();
    while let Some(o) = q.pop_front() {
        let s = map[o].unwrap();
        for t in 0..=nterm {
            let key = if t == nterm { None } else { Some(t) };
            let tn = key.map(|t| g.terms[t].clone()).unwrap_or("end of input".into());
            let want = l.acts[o].get(&key).map(|v| v.iter().find(|a| matches!(a, Act::Shift(_))).unwrap_or(&v[0]));
            let got = &e.action[s][t];
            let at = format!("state {} on {}", s, tn);
            match (want, got) {
                (None, None) => {}
                (Some(Act::Accept), Some(Cell::Accept)) => {}
                (Some(Act::Shift(j)), Some(Cell::Shift(k))) => assoc(&mut map, &mut q, *j, *k, at)?,
                (Some(Act::Reduce(n, p)), Some(Cell::Reduce { nt, n: k, act })) => {
                    if *nt != idx[*n].0 {
                        return Err(format!("{}: reduces to non-terminal {} instead of {}", at, nt, idx[*n].0));
                    }
                    if *k != g.nts[*n].prods[*p].rhs.len() {
                        return Err(format!("{}: pops {} symbols for a right-hand side of {}", at, k, g.nts[*n].prods[*p].rhs.len()));
                    }
                    let q = *act_inv.entry(*act).or_insert((*n, *p));
                    let shared = q.0 == *n && g.nts[*n].prods[*p].same(&g.nts[*n].prods[q.1]);
                    if *act_of.entry((*n, *p)).or_insert(*act) != *act || !(q == (*n, *p) || shared) {
                        return Err(format!("{}: action {} used for different productions", at, act));
                    }
                    if let Some(f) = &e.action_fns {
                        if *act >= f.len() {
                            return Err(format!("{}: action {} of {}", at, act, f.len()));
                        }
                    }
                }
                (w, g2) => return Err(format!("{}: expected {:?}, emitted {:?}", at, w, g2)),
            }
        }
        for n in 0..g.nts.len() {
            let want = l.trans[o].get(&Sym::N(n));
            let got = e.goto[s][idx[n].0];
            match (want, got) {
                (None, None) => {}
                (Some(j), Some(k)) => assoc(&mut map, &mut q, *j, k, format!("goto of state {} on {}", s, g.nts[n].name))?,
                (w, g2) => return Err(format!("goto of state {} on {}: expected {:?}, emitted {:?}", s, g.nts[n].name, w, g2)),
            }
            if let Some(c) = idx[n].1 {
                if e.goto[s][c].is_some() {
                    return Err(format!("goto of state {} on entry non-terminal {}", s, g.nts[n].name));
                }
            }
        }
        if let Some(x) = &e.expected {
            let w: Vec<String> = (0..nterm).filter(|t| l.acts[o].contains_key(&Some(*t))).map(|t| g.terms[t].clone()).collect();
            if x.get(s).map(|v| *v != w.join(", ")).unwrap_or(true) {
                return Err(format!("EXPECTED state {}: {:?} instead of {:?}", s, x.get(s), w.join(", ")));
            }
        }
    }
    if map.iter().any(|m| m.is_none()) {
        return Err("an item set of the canonical collection has no state".into());
    }
    if let Some(x) = &e.terms {
        let mut w = g.terms.clone();
        w.push("end-of-input".into());
        if *x != w {
            return Err(format!("EXPECTED terminal names {:?}", x));
        }
    }
    Ok(())
}

#[cfg(feature = "automaton")]
fn check_automaton(g: &Gram, l: &Lr1, ts: &TokenStream) -> Result<(), String> {
    let (states, starts) = gen::lr1::probe_automaton(ts.clone());
    let idx = lowered_index(g);
    // oracle item set -> lowered item set
    let conv = |s: &BTreeSet<Item>| -> BTreeSet<(usize, usize, usize, Option<usize>)> {
        s.iter()
            .map(|i| if i.nt >= START { (idx[i.nt - START].1.unwrap(), 0, i.dot, i.la) } else { (idx[i.nt].0, i.prod, i.dot, i.la) })
            .collect()
    };
    let sets: Vec<BTreeSet<_>> = states.iter().map(|s| s.0.iter().copied().collect()).collect();
    let mut pos: HashMap<BTreeSet<_>, usize> = HashMap::new();
    for (i, s) in sets.iter().enumerate() {
        if let Some(j) = pos.insert(s.clone(), i) {
            return Err(format!("states {} and {} have the same item set", j, i));
        }
        if s.is_empty() {
            return Err(format!("state {} is empty", i));
        }
    }
    let mut to: Vec<usize> = vec![];
    for (o, s) in l.states.iter().enumerate() {
        match pos.get(&conv(s)) {
            Some(i) => to.push(*i),
            None => return Err(format!("no state with the item set {:?} (set {} of the canonical collection)", conv(s), o)),
        }
    }
    if states.len() != l.states.len() {
        let i = (0..states.len()).find(|i| !to.contains(i)).unwrap();
        return Err(format!("state {} with items {:?} is not in the canonical collection", i, sets[i]));
    }
    for (o, tr) in l.trans.iter().enumerate() {
        let want: BTreeSet<(bool, usize, usize)> = tr
            .iter()
            .map(|(x, j)| match x {
                Sym::N(n) => (true, idx[*n].0, to[*j]),
                Sym::T(t) => (false, *t, to[*j]),
            })
            .collect();
        let got: BTreeSet<(bool, usize, usize)> = states[to[o]].1.iter().copied().collect();
        if want != got {
            return Err(format!("transitions of state {}: expected {:?}, found {:?}", to[o], want, got));
        }
    }
    let want: BTreeMap<usize, usize> = l.starts.iter().map(|(n, s)| (idx[*n].1.unwrap(), to[*s])).collect();
    let got: BTreeMap<usize, usize> = starts.iter().copied().collect();
    if want != got || starts.len() != got.len() {
        return Err(format!("start states: expected {:?}, found {:?}", want, got));
    }
    Ok(())
}
#[cfg(feature = "table")]
fn check_emission(g: &Gram, ts: &TokenStream, e: &Emitted) -> Result<(), String> {
    let t = gen::lr1::probe_table(ts.clone());
    let idx = lowered_index(g);
    let total = g.nts.len() + g.publics().len();
    let mut len: HashMap<(usize, usize), usize> = HashMap::new();
    for (n, nt) in g.nts.iter().enumerate() {
        for (p, pr) in nt.prods.iter().enumerate() {
            len.insert((idx[n].0, p), pr.rhs.len());
        }
        if let Some(c) = idx[n].1 {
            len.insert((c, 0), 1);
        }
    }
    let nterm = g.terms.len();
    if e.action.len() != t.len() || e.goto.len() != t.len() {
        return Err(format!("{} action rows and {} goto rows for {} states", e.action.len(), e.goto.len(), t.len()));
    }
    let mut act_of: HashMap<(usize, usize), usize> = HashMap::new();
    let mut act_inv: HashMap<usize, (usize, usize)> = HashMap::new();
    for (i, (acts, gotos)) in t.iter().enumerate() {
        if e.action[i].len() != nterm + 1 {
            return Err(format!("action row {} has {} columns for {} terminals", i, e.action[i].len(), nterm));
        }
        if e.goto[i].len() != total {
            return Err(format!("goto row {} has {} columns for {} non-terminals", i, e.goto[i].len(), total));
        }
        let mut am: HashMap<usize, (u8, usize, usize)> = HashMap::new();
        for (k, kind, a, b) in acts {
            am.insert(k.unwrap_or(nterm), (*kind, *a, *b));
        }
        for c in 0..=nterm {
            let ok = match (am.get(&c), &e.action[i][c]) {
                (None, None) => true,
                (Some((0, a, _)), Some(Cell::Shift(k))) => a == k,
                (Some((1, a, b)), Some(Cell::Reduce { nt, n, act })) => {
                    nt == a
                        && len.get(&(*a, *b)) == Some(n)
                        && *act_of.entry((*a, *b)).or_insert(*act) == *act
                        && {
                            let q = *act_inv.entry(*act).or_insert((*a, *b));
                            let o = (0..g.nts.len()).find(|n| idx[*n].0 == *a);
                            q == (*a, *b) || q.0 == *a && o.map(|o| g.nts[o].prods[*b].same(&g.nts[o].prods[q.1])).unwrap_or(false)
                        }
                }
                (Some((2, _, _)), Some(Cell::Accept)) => true,
                _ => false,
            };
            if !ok {
                return Err(format!(
                    "ACTION[{}][{}] is {:?}, computed (kind, a, b) {:?}, production length {:?}",
                    i, c, e.action[i][c], am.get(&c), am.get(&c).and_then(|x| len.get(&(x.1, x.2)))
                ));
            }
        }
        let gm: HashMap<usize, usize> = gotos.iter().copied().collect();
        for c in 0..total {
            if gm.get(&c).copied() != e.goto[i][c] {
                return Err(format!("GOTO[{}][{}] is {:?}, computed {:?}", i, c, e.goto[i][c], gm.get(&c)));
            }
        }
    }
    Ok(())
}
#[cfg(feature = "first")]
fn check_first(g: &Gram, ts: &TokenStream) -> Result<(), String> {
    let f = first(g);
    let got = gen::probe_first::first_sets(ts.clone());
    let idx = lowered_index(g);
    for (n, nt) in g.nts.iter().enumerate() {
        let mut want: Vec<String> = f.first[n].iter().map(|t| g.terms[*t].clone()).collect();
        want.sort();
        for i in [Some(idx[n].0), idx[n].1].into_iter().flatten() {
            match got.get(i) {
                None => return Err(format!("non-terminal {} missing", nt.name)),
                Some((_, _, e, ts)) => {
                    if *e != f.null[n] {
                        return Err(format!("{}: may be empty: {} in the table, {} in the grammar", nt.name, e, f.null[n]));
                    }
                    if *ts != want {
                        return Err(format!("{}: first set {:?} in the table, {:?} in the grammar", nt.name, ts, want));
                    }
                }
            }
        }
    }
    Ok(())
}
#[cfg(feature = "lowered")]
fn check_lowered(g: &Gram, ts: &TokenStream) -> Result<(), String> {
    let (got, terms) = gen::probe_lowered::lowered(ts.clone());
    if terms != g.terms {
        return Err(format!("terminals {:?} instead of {:?}", terms, g.terms));
    }
    let idx = lowered_index(g);
    if got.len() != g.nts.len() + g.publics().len() {
        return Err(format!("{} non-terminals after lowering", got.len()));
    }
    for (n, nt) in g.nts.iter().enumerate() {
        let (name, public, prods) = &got[idx[n].0];
        if *public || prods.len() != nt.prods.len() {
            return Err(format!("{} ({}) has {} productions, public {}", nt.name, name, prods.len(), public));
        }
        for (p, pr) in nt.prods.iter().enumerate() {
            let (ss, action) = &prods[p];
            let want: Vec<(bool, usize, Option<String>, bool)> = pr
                .rhs
                .iter()
                .enumerate()
                .map(|(k, x)| {
                    let b = pr.binder(k);
                    let m = pr.bound[k] && pr.mutable[k];
                    match x {
                        Sym::N(j) => (true, idx[*j].0, b, m),
                        Sym::T(t) => (false, *t, b, m),
                    }
                })
                .collect();
            if *ss != want {
                return Err(format!("{} production {}: symbols {:?} instead of {:?}", nt.name, p, ss, want));
            }
            let (tn, tp) = pr.tag(n, p);
            let key = format!("node({},{},", tn, tp);
            if !action.replace(' ', "").contains(&key) {
                return Err(format!("{} production {}: action {}", nt.name, p, action));
            }
        }
        if let Some(c) = idx[n].1 {
            let (name, public, prods) = &got[c];
            if *name != nt.name || !*public || prods.len() != 1 || prods[0].0.len() != 1 || !prods[0].0[0].0 || prods[0].0[0].1 != idx[n].0 {
                return Err(format!("entry point of {}: {} {:?}", nt.name, name, prods));
            }
        }
    }
    Ok(())
}

fn check_grammar(g: &Gram, stats: &mut Stats) {
    let text = render_macro_body(g);
    let shown = g.show();
    let ts: TokenStream = text.parse().unwrap();
    find_numbers(g, &ts);
    let l = lr1(g, 4000);
    let out = expand(&text);
    stats.grammars += 1;
    // C10, C13, C11: the stages before conflict detection
    #[cfg(feature = "first")]
    match guarded(|| check_first(g, &ts)) {
        Ok(Ok(())) => stats.first += 1,
        Ok(Err(m)) => find("C10", &shown, &m),
        Err(p) => find("C10", &shown, &format!("first-set computation panics: {}", p)),
    }
    #[cfg(feature = "ast")]
    match check_reads(&text, &text) {
        Ok(()) => stats.read += 1,
        Err(m) => find("C13", &shown, &m),
    }
    #[cfg(feature = "lowered")]
    match guarded(|| check_lowered(g, &ts)) {
        Ok(Ok(())) => stats.lowered += 1,
        Ok(Err(m)) => find("C13", &shown, &m),
        Err(p) => find("C13", &shown, &format!("lowering panics on a well-formed grammar: {}", p)),
    }
    let l = match l {
        Some(l) => l,
        None => return,
    };
    #[cfg(feature = "automaton")]
    match guarded(|| check_automaton(g, &l, &ts)) {
        Ok(Ok(())) => stats.automata += 1,
        Ok(Err(m)) => find("C11", &shown, &m),
        Err(p) => find("C11", &shown, &format!("automaton construction panics: {}", p)),
    }
    let conflict = if l.rr {
        Some("a reduce/reduce conflict")
    } else if l.ra {
        Some("a reduce/accept conflict")
    } else {
        None
    };
    match (&out, conflict) {
        (Ok(_), Some(c)) => find("C04", &shown, &format!("accepted although it has {}", c)),
        (Err(m), None) if !l.sr => find("C04", &shown, &format!("rejected although it has no conflict: {}", m)),
        _ => stats.verdicts += 1,
    }
    if let Ok(o) = &out {
        match decode(o) {
            None => stats.undecodable += 1,
            Some(e) => {
                #[cfg(feature = "table")]
                match guarded(|| check_emission(g, &ts, &e)) {
                    Ok(Ok(())) => stats.emissions += 1,
                    Ok(Err(m)) => find("C12", &shown, &m),
                    Err(_) => {}
                }
                if conflict.is_some() {
                    run_accepted_conflict(g, &l, &e);
                }
                if conflict.is_none() {
                    match compare_emitted(g, &l, &e) {
                        Ok(()) => stats.tables += 1,
                        Err(m) => {
                            if !cfg!(feature = "table") {
                                find("C12", &shown, &m);
                            }
                            if !cfg!(feature = "automaton") && m.contains("item set") {
                                find("C11", &shown, &m);
                            }
                            // shift/reduce resolved as reduce
                            if l.sr && m.contains("expected Some(Shift") {
                                find("C04", &shown, &format!("shift/reduce conflict not resolved by shifting: {}", m));
                            }
                            run_emitted(g, &l, &e, &m);
                        }
                    }
                }
            }
        }
        // C16
        if stats.grammars % 2 == 0 || g.nts.len() > 2 {
            if g.terms.len() < 100 && g.nts.len() < 100 {
                for _ in 0..2 {
                    let again = expand(&text).map(|t| t.to_string());
                    if again.as_ref().ok() != Some(&o.to_string()) {
                        find("C16", &shown, "expanding the same text twice in one process gives different code");
                    }
                }
                stats.twice += 1;
                // with the tables of the generator permuted; the order of the emitted items is left out
                if let Some(want) = if PERMUTE.load(std::sync::atomic::Ordering::Relaxed) { code_set(&o.to_string()) } else { None } {
                    for start in [1usize, 0x9e37_79b9_7f4a_7c15, 0x1234_5678_9abc_def1] {
                        fxhash::START.store(start, std::sync::atomic::Ordering::Relaxed);
                        let other = expand(&text);
                        fxhash::START.store(0, std::sync::atomic::Ordering::Relaxed);
                        let other = match other {
                            Ok(x) => code_set(&x.to_string()),
                            Err(_) => Some(vec![]),
                        };
                        if other.as_ref() != Some(&want) {
                            find("C16", &shown, "the iteration order of the generator's hash tables influences the generated code");
                            break;
                        }
                    }
                    stats.permuted += 1;
                }
                println!("HASH {} {:016x}", g.name, code_hash(&o.to_string()));
            }
        }
    }
}

fn code_hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
static PERMUTE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// the items of the emitted code, sorted
fn code_set(text: &str) -> Option<Vec<String>> {
    let f: syn::File = syn::parse_str(text).ok()?;
    let mut v: Vec<String> = f.items.iter().map(|i| i.to_token_stream().to_string()).collect();
    v.sort();
    Some(v)
}

// ------------------------------------------------------------------ the emitted tables, run
enum Run {
    Ok,
    Err(usize, usize),
    Stuck(String),
    Endless,
}
/// what the emitted parser does with these tables
fn run_tables(g: &Gram, e: &Emitted, start: usize, toks: &[usize]) -> Run {
    let mut st = vec![start];
    let mut i = 0;
    for _ in 0..200_000 {
        let c = toks.get(i).copied().unwrap_or(g.terms.len());
        let s = *st.last().unwrap();
        let cell = match e.action.get(s).and_then(|r| r.get(c)) {
            None => return Run::Stuck(format!("no cell ACTION[{}][{}]", s, c)),
            Some(x) => x,
        };
        match cell {
            None => return Run::Err(i, s),
            Some(Cell::Shift(j)) => {
                if i >= toks.len() {
                    return Run::Stuck("shifts the end of input".into());
                }
                st.push(*j);
                i += 1;
            }
            Some(Cell::Reduce { nt, n, .. }) => {
                if *n >= st.len() {
                    return Run::Stuck("pops from an empty stack".into());
                }
                st.truncate(st.len() - n);
                let s = *st.last().unwrap();
                match e.goto.get(s).and_then(|r| r.get(*nt)) {
                    Some(Some(j)) => st.push(*j),
                    _ => return Run::Stuck(format!("no goto from state {} on non-terminal {}", s, nt)),
                }
            }
            Some(Cell::Accept) => return if i == toks.len() { Run::Ok } else { Run::Stuck("accepts before the end".into()) },
        }
    }
    Run::Endless
}
/// a conflicting grammar was accepted: whatever the parser prefers, it must return and may accept
/// nothing but sentences
fn run_accepted_conflict(g: &Gram, l: &Lr1, e: &Emitted) {
    let shown = g.show();
    let mut seen: BTreeSet<&'static str> = BTreeSet::new();
    for (entry, _) in &l.starts {
        let start = match e.entries.iter().find(|x| x.0 == g.nts[*entry].name) {
            Some(x) => x.1,
            None => continue,
        };
        let mut rng = Rng::new(13 + *entry as u64);
        for toks in inputs(g, *entry, &mut rng, 60) {
            let (p, m) = match run_tables(g, e, start, &toks) {
                Run::Endless => ("C15", "the emitted parser reduces for ever".to_string()),
                Run::Stuck(m) => ("C07", format!("the emitted parser gets stuck: {}", m)),
                Run::Ok => {
                    let ea = earley(g, *entry, &toks);
                    if ea.len() == toks.len() + 1 && ea[toks.len()].1 {
                        continue;
                    }
                    ("C01", "accepted, but not derivable".to_string())
                }
                Run::Err(..) => continue,
            };
            if seen.insert(p) {
                let names: Vec<String> = toks.iter().map(|t| g.terms[*t].clone()).collect();
                find(p, &shown, &format!("entry {}, tokens [{}]: {} (the grammar's conflict was accepted)", g.nts[*entry].name, names.join(" "), m));
            }
        }
    }
}
/// the tables differ from the reference: look for an input on which the parser goes wrong
fn run_emitted(g: &Gram, l: &Lr1, e: &Emitted, why: &str) {
    let shown = g.show();
    let productive = productive(g);
    let multi = g.publics().len() > 1;
    let mut seen: BTreeSet<&'static str> = BTreeSet::new();
    for (entry, _) in &l.starts {
        let start = match e.entries.iter().find(|x| x.0 == g.nts[*entry].name) {
            Some(x) => x.1,
            None => {
                find("C09", &shown, &format!("no parser for public non-terminal {}", g.nts[*entry].name));
                continue;
            }
        };
        let mut rng = Rng::new(11 + *entry as u64);
        let began = std::time::Instant::now();
        let mut all = inputs(g, *entry, &mut rng, 150);
        all.extend(oracle::cell_inputs(g, l, *entry, 3000, &mut rng));
        for toks in all {
            if began.elapsed().as_secs() > 10 {
                break;
            }
            let want = lr_run(g, l, *entry, &toks, 20_000);
            if want == Err(usize::MAX) {
                continue;
            }
            let ran = run_tables(g, e, start, &toks);
            if let (Run::Ok, Ok(_)) = (&ran, &want) {
                continue;
            }
            let ea = earley(g, *entry, &toks);
            let sentence = ea.len() == toks.len() + 1 && ea[toks.len()].1;
            let mut bad: Vec<(&'static str, String)> = vec![];
            match (ran, &want) {
                (Run::Stuck(m), _) => bad.push(("C07", format!("the emitted parser gets stuck: {}", m))),
                (Run::Endless, _) => bad.push(("C15", "the emitted parser reduces for ever".into())),
                (Run::Ok, w) => {
                    if !sentence {
                        bad.push(("C01", "accepted, but not derivable".into()));
                    } else if l.sr && w.is_err() {
                        bad.push(("C04", "differs from preferring shifts in the shift/reduce conflict".into()));
                    }
                }
                (Run::Err(..), Ok(_)) => bad.push((if l.sr { "C04" } else { "C02" }, "sentence rejected".into())),
                (Run::Err(i, s), Err(j)) => {
                    if !l.sr && productive {
                        if i != *j {
                            bad.push(("C05", format!("syntax error reported at token {} instead of {}", i, j)));
                        } else if e.terms.as_ref().map(|x| x.get(toks.get(i).copied().unwrap_or(g.terms.len())).map(|x| &x[..]) != Some(toks.get(i).map(|t| &g.terms[*t][..]).unwrap_or("end-of-input"))).unwrap_or(false) {
                            bad.push(("C05", format!("found text {:?} for token {}", e.terms.as_ref().unwrap().get(toks.get(i).copied().unwrap_or(g.terms.len())), i)));
                        } else if let Some(x) = &e.expected {
                            let w: Vec<String> = ea[i].0.iter().map(|t| g.terms[*t].clone()).collect();
                            if x.get(s).map(|v| *v != w.join(", ")).unwrap_or(true) {
                                bad.push(("C05", format!("expected text {:?} instead of {:?}", x.get(s), w.join(", "))));
                            }
                        }
                    }
                }
            }
            let names: Vec<String> = toks.iter().map(|t| g.terms[*t].clone()).collect();
            for (p, m) in bad {
                let at = format!("entry {}, tokens [{}]: {} (tables: {})", g.nts[*entry].name, names.join(" "), m, why);
                let mut ps = vec![p];
                if !l.sr && (p == "C01" || p == "C02") {
                    ps.push("C05");
                }
                if multi && p != "C04" && p != "C15" {
                    ps.push("C09");
                }
                for p in ps {
                    if seen.insert(p) {
                        find(p, &shown, &at);
                    }
                }
            }
        }
    }
}

#[derive(Default, Debug)]
struct Stats {
    grammars: usize,
    first: usize,
    lowered: usize,
    automata: usize,
    emissions: usize,
    tables: usize,
    verdicts: usize,
    undecodable: usize,
    twice: usize,
    permuted: usize,
    rejects: usize,
    read: usize,
}

/// the tokens of a text without its commas
#[cfg(feature = "ast")]
fn flat(ts: TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    _ => ("", ""),
                };
                out.push(a.into());
                flat(g.stream(), out);
                out.push(b.into());
            }
            proc_macro2::TokenTree::Punct(p) if p.as_char() == ',' => {}
            t => out.push(t.to_string()),
        }
    }
    out.retain(|x| !x.is_empty());
}
/// what was read, written down again, is the text (productions in braces)
#[cfg(feature = "ast")]
fn check_reads(text: &str, braced: &str) -> Result<(), String> {
    let ts: TokenStream = text.parse().unwrap();
    let r = guarded(|| gen::probe_ast::unparse(ts)).map_err(|p| format!("reading it panics: {}", p))?;
    let r = r.map_err(|e| format!("not read: {}", e))?;
    let (mut a, mut b) = (vec![], vec![]);
    flat(braced.parse().unwrap(), &mut a);
    flat(r.parse().map_err(|e| format!("{:?}", e))?, &mut b);
    if a == b {
        return Ok(());
    }
    let k = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    Err(format!("read as {} (different from token {} on: {:?} is read as {:?})", r.trim(), k, a.get(k), b.get(k)))
}
/// grammar texts with everything the concrete syntax has
#[cfg(feature = "ast")]
fn reading_cases() -> Vec<(String, String)> {
    let one = |t: &str| (t.to_string(), t.to_string());
    let mut v = vec![
        one("enum Tok { }"),
        one("enum Tok { \"a\" => Tok::A, \"b\" => Tok::B(<u32>) }"),
        one("enum Tok<'a, 'b> { \"a\" => Tok::A(<&'a str>, _, <&'b str>), }"),
        one("enum Tok<'a> { \"x\" => (<u8>, _, (1, 'c', \"s\", true, -1, 2.5)), \"y\" => _, \"z\" => A, \"w\" => a::b::C, }"),
        one("enum Tok { \"p\" => A { x: 1, y: <u8>, z: B(_, ..), .. }, \"q\" => A { }, \"r\" => A { .. }, \"s\" => A { f: _ }, \"t\" => A { f: (), g: X { h: 1 } }, }"),
        one("enum Tok { \"p\" => A(B(C(<u8>), <u16>), D { e: <u32>, f: <u64> }, ..), \"q\" => A(), \"r\" => (), \"s\" => .., }"),
        one("type State = Vec<Option<u8>>; enum T { } pub S: () = { };"),
        one("enum T { } pub S: Vec<(u8, T)> = { => vec![], }; A: () = { => {}, }; pub B: u8 = { => 1, \"x\" => 2, A B => 3, };"),
        one("enum T { } S: u8 = { <x: \"a\"> <mut y: B> <z: C+> D* \"e\"? F+*? => x + y, <x: \"a\"> =>? Ok(x), };"),
        one("enum T { } S: u8 = { \"a\" \"\" \"a b\" \"\\n\" => 1, <a: \"a\"> <b: \"a\"> <c: A> <d: A> => f(a, b)(c)[d], };"),
        one("enum T { } S: u8 = { <mut x: <mut y: \"a\">> => 1, <x: <y: A>+>* => 2, };"),
        one("S: u8 = { A => a, B => b, C => c, }; enum T { \"a\" => A } pub U: u8 = { S => s, }; type State = u8; pub V: u8 = { U S => t, };"),
        one("enum T { } S: u8 = { A => match a { 1 => 2, _ => 3 }, B => |x| x, C => if a { b } else { c }, };"),
        ("enum T { } S: u8 = \"a\" <x: B> => x, pub U: u8 = => 1, V: u8 = =>? Ok(1), W: u8 = { => 1 };".into(),
         "enum T { } S: u8 = { \"a\" <x: B> => x, }; pub U: u8 = { => 1, }; V: u8 = { =>? Ok(1), }; W: u8 = { => 1 };".into()),
    ];
    let actions = [
        "{ }", "{ 1 }", "{ let x = 1; x }", "P { a: 1, b: 2 }", "P { a }", "P {}", "x.y(|a, b| a + b)", "f::<A, B>(1, 2)", "|x, y| { x }", "(1, 2,)", "[1, 2, 3]", "vec![1, 2; 3]", "m!{ a => b, c }",
        "if a { 1 } else { 2 }", "if let Some(x) = y { x } else { z }", "match (a, b) { (1, _) => { 2 } _ => 3, }", "unsafe { f() }", "a as u8", "a < b", "a > b && c == d", "*x", "&mut x", "-x", "!x", "x?", "x..y", "..=3",
        "return x", "loop { break 1 }", "a[1]", "\"s\"", "b'c'", "1.5e3", "async { 1 }", "move || 1", "<A as B>::c(1)", "x + y * z", "x = y", "{ P { a: 1 } }.a", "A::B::<C>::D { e, ..f }", "r#\"x\"#", "|&x: &u8| -> u8 { x }",
        "for x in y { }", "'l: loop { break 'l }", "a => b",
    ];
    for (i, a) in actions.iter().enumerate() {
        if *a == "a => b" {
            continue;
        }
        let b = actions[(i * 7 + 3) % (actions.len() - 1)];
        v.push(one(&format!("S: u8 = {{ \"a\" => {a}, B => {b}, => {a}, C =>? {b} }};")));
        v.push((format!("S: u8 = \"a\" => {a}, T: u8 = => {b},"), format!("S: u8 = {{ \"a\" => {a}, }}; T: u8 = {{ => {b}, }};")));
    }
    let types = [
        "u8", "()", "!", "(u8,)", "(u8, Vec<u8>)", "[u8; 3]", "&'static str", "&'a mut T", "Box<dyn A + Send>", "Box<dyn Fn(u8, u16) -> u32 + 'a>", "fn(u8) -> u8", "impl A + B", "dyn A + B + 'static", "<A as B>::C", "a::b::C<D, E>", "*const u8",
        "HashMap<String, Vec<(u8, u8)>>", "Option<Option<u8>>", "[[u8; 2]; 3]", "for<'a> fn(&'a u8)", "A<'a, B, { 3 }>", "A<3>", "m!(a)", "(u8)", "&[u8]", "A<B = C>",
    ];
    for (p, q) in [("_", "1"), ("<u8>", "_"), ("1", "<u8>"), ("_", "_"), ("<u8>", "<u8>"), ("B", "C(<u8>)")] {
        // fields named twice are rustc's to reject: they are read as they stand
        v.push(one(&format!("enum T {{ \"1\" => P {{ a: {p}, a: {q} }}, \"2\" => P {{ a: {p}, b: {q}, a: {q}, b: {p}, .. }}, \"3\" => P {{ b: {q}, a: {q} }}, \"4\" => P {{ z: {p}, y: {q}, x: _ }}, }}")));
    }
    for (i, t) in types.iter().enumerate() {
        let u = types[(i * 5 + 2) % types.len()];
        v.push(one(&format!("S: {t} = {{ \"a\" => 1, }}; pub T: {u} = {{ S => s, }}; type State = {t};")));
        v.push(one(&format!("enum T<'a, 'ab, 'b, 'aa> {{ \"a\" => P(<{t}>, _), \"b\" => Q {{ x: <{u}>, y: <{t}>, }}, }}")));
    }
    for l in ["'a", "'a,", "'a, 'b", "'ab, 'a", "'a, 'ab", "'b, 'a, 'abc, 'ab,", "'_x, 'x, 'X", "'static"] {
        v.push(one(&format!("enum Tok<{l}> {{ \"x\" => A }}")));
    }
    for l in ["1u8", "1_000u64", "0x1F", "0b1010_1010u8", "0o17i16", "1.5f32", "2.0", "1e9", "b'a'", "b'\\n'", "b\"a\\0\"", "\"\\t\"", "\"a\\u{e9}\\\"\"", "r\"a\\b\"", "r#\"a\"b\"#", "br\"x\"", "'\\''", "'\\u{1f600}'", "true", "false", "-1", "-1i64", "-2.5", "340282366920938463463374607431768211455u128", "\"a\"suffix"] {
        v.push(one(&format!("enum T {{ \"1\" => {l}, \"2\" => P({l}, <u8>, {l}), \"3\" => P {{ a: {l}, b: ({l}, _), .. }}, \"4\" => ({l},), }}")));
        v.push(one(&format!("S: u8 = {{ \"a\" => f({l}, {l}), }};")));
    }
    let pats = ["_", "..", "1", "'c'", "\"s\"", "true", "A", "A::B", "<u8>", "<Vec<u8>>", "(A, <u8>, _)", "A(<u8>, B(<u16>, _))", "A { f: <u8>, g: _ }", "A { f: B(<u8>), .. }"];
    for p in pats {
        for q in pats {
            v.push(one(&format!("enum T<'a> {{ \"1\" => P({p}, {q}), \"2\" => ({q}, {p}, ({p})), \"3\" => P {{ a: {p}, b: {q} }}, \"4\" => P {{ b: {p}, a: {q}, .. }}, }}")));
        }
    }
    let syms = ["\"a\"", "A", "<x: A>", "<mut x: \"a\">", "A+", "\"a\"*", "A?+", "<x: A*>", "<x: A>?"];
    for p in syms {
        for q in syms {
            v.push(one(&format!("S: u8 = {{ {p} {q} => 1, {q} => 2, {q} {p} {p} =>? 3, }};")));
        }
    }
    v
}

/// (what, text, must be rejected)
fn lowering_cases() -> Vec<(&'static str, String, bool)> {
    let tok = r#"enum Tok { "a" => Tok::A, "b" => Tok::B(<u32>), }"#;
    let mut v: Vec<(&'static str, String, bool)> = vec![
        ("well-formed", format!("{tok} pub S: u32 = {{ \"a\" => 1, <x:\"b\"> => x, }};"), false),
        ("undeclared terminal", format!("{tok} pub S: u32 = {{ \"c\" => 1, }};"), true),
        ("undeclared terminal in a second production", format!("{tok} pub S: u32 = {{ \"a\" => 1, \"a\" \"zz\" => 2, }};"), true),
        ("undeclared terminal under a binder", format!("{tok} pub S: u32 = {{ <x:\"q\"> => 1, }};"), true),
        ("undeclared terminal in an unreachable non-terminal", format!("{tok} pub S: u32 = {{ \"a\" => 1, }}; Z: u32 = {{ \"nope\" => 1, }};"), true),
        ("empty terminal name undeclared", format!("{tok} pub S: u32 = {{ \"\" => 1, }};"), true),
        ("terminal differing in case", format!("{tok} pub S: u32 = {{ \"A\" => 1, }};"), true),
        ("undeclared non-terminal", format!("{tok} pub S: u32 = {{ X => 1, }};"), true),
        ("undeclared non-terminal under a binder", format!("{tok} pub S: u32 = {{ <x:X> => 1, }};"), true),
        ("undeclared non-terminal in an unreachable non-terminal", format!("{tok} pub S: u32 = {{ \"a\" => 1, }}; Z: u32 = {{ Q => 1, }};"), true),
        ("internal name of an entry point used in the grammar", format!("{tok} pub S: u32 = {{ \"a\" S1 => 1, \"b\" => 2, }};"), true),
        ("terminal declared twice", format!("enum Tok {{ \"a\" => Tok::A, \"a\" => Tok::B(<u32>), }} pub S: u32 = {{ \"a\" => 1, }};"), true),
        ("terminal declared twice, far apart, unused", format!("enum Tok {{ \"x\" => Tok::X, \"a\" => Tok::A, \"b\" => Tok::B(<u32>), \"x\" => Tok::Y, }} pub S: u32 = {{ \"a\" => 1, }};"), true),
        ("terminal declared twice with the same pattern", format!("enum Tok {{ \"a\" => Tok::A, \"b\" => Tok::B(<u32>), \"a\" => Tok::A, }} pub S: u32 = {{ \"b\" => 1, }};"), true),
        ("no token declaration", "pub S: u32 = { => 1, };".into(), true),
        ("two token declarations", format!("{tok} {tok} pub S: u32 = {{ \"a\" => 1, }};"), true),
        ("two token declarations after the rules", format!("pub S: u32 = {{ \"a\" => 1, }}; {tok} enum Tok2 {{ \"c\" => Tok2::C, }}"), true),
        ("token declaration after the rules", format!("pub S: u32 = {{ \"a\" => 1, }}; {tok}"), false),
        ("one state declaration", format!("type State = u32; {tok} pub S: u32 = {{ \"a\" => 1, }};"), false),
        ("two state declarations", format!("type State = u32; type State = u32; {tok} pub S: u32 = {{ \"a\" => 1, }};"), true),
        ("two state declarations with different types", format!("type State = u32; {tok} pub S: u32 = {{ \"a\" => 1, }}; type State = u64;"), true),
        ("unknown type declaration", format!("type Location = u32; {tok} pub S: u32 = {{ \"a\" => 1, }};"), true),
        ("fallible action", format!("{tok} pub S: u32 = {{ \"a\" =>? Ok(1), }};"), true),
        ("fallible action in a second production", format!("{tok} pub S: u32 = {{ \"a\" => 1, \"b\" =>? Ok(1), }};"), true),
        ("fallible action that is a variable", format!("{tok} pub S: u32 = {{ <x:\"b\"> =>? x, }};"), true),
        ("fallible action that is a literal", format!("{tok} pub S: u32 = {{ \"a\" => 1, \"b\" =>? 1, }};"), true),
        ("fallible action that is a block", format!("{tok} pub S: u32 = {{ \"a\" => 1, \"b\" =>? {{ 1 }}, }};"), true),
        ("fallible action that is an error", format!("{tok} pub S: u32 = {{ \"a\" => 1, \"b\" =>? Err(0), }};"), true),
        ("fallible action of an empty production", format!("{tok} pub S: u32 = {{ \"a\" => 1, =>? Ok(2), }};"), true),
        ("fallible action in an unreachable non-terminal", format!("{tok} pub S: u32 = {{ \"a\" => 1, }}; Z: u32 = {{ \"a\" =>? Ok(1), }};"), true),
        ("non-terminal declared twice", format!("{tok} pub S: u32 = {{ A \"a\" => 1, }}; A: u32 = {{ \"a\" => 1, }}; A: u32 = {{ \"b\" => 2, }};"), true),
        ("stray integer before a non-terminal", format!("{tok} pub S: u32 = {{ 5 T \"b\" => 1, }}; T: u32 = {{ \"a\" => 1, }};"), true),
        ("stray integer before a terminal", format!("{tok} pub S: u32 = {{ 5 \"b\" => 1, }};"), true),
        ("stray literal before a binder", format!("{tok} pub S: u32 = {{ 'c' <x:T> => 1, }}; T: u32 = {{ \"a\" => 1, }};"), true),
        ("stray boolean before a non-terminal", format!("{tok} pub S: u32 = {{ \"b\" true T => 1, }}; T: u32 = {{ \"a\" => 1, }};"), true),
        ("stray negative number before a non-terminal", format!("{tok} pub S: u32 = {{ -1 T => 1, }}; T: u32 = {{ \"a\" => 1, }};"), true),
        ("stray byte string under a binder", format!("{tok} pub S: u32 = {{ <x: b\"a\" T> => 1, }}; T: u32 = {{ \"a\" => 1, }};"), true),
        ("literal as the last symbol", format!("{tok} pub S: u32 = {{ T 5 => 1, }}; T: u32 = {{ \"a\" => 1, }};"), true),
        ("two names in a binder", format!("{tok} pub S: u32 = {{ <x y:\"b\"> => 1, }};"), true),
        ("binder of two symbols", format!("{tok} pub S: u32 = {{ <x:\"b\" \"a\"> => 1, }};"), true),
        ("binder without a name", format!("{tok} pub S: u32 = {{ <\"b\"> => 1, }};"), true),
        ("comma between symbols", format!("{tok} pub S: u32 = {{ \"b\", \"a\" => 1, }};"), true),
        ("token pattern with alternatives in a field", "enum Tok { \"a\" => Tok::A { n: 1 | 2 }, } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("token pattern with alternatives in a tuple", "enum Tok { \"a\" => Tok::A(1 | 2), } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("token pattern with alternatives at the top", "enum Tok { \"a\" => Tok::A | Tok::B, } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("token pattern with alternatives of paths in a field", "enum Tok { \"a\" => Tok::A { n: X | Y, m: _ }, } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("token pattern with a range", "enum Tok { \"a\" => Tok::A(1..=2), } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("token pattern with an open range", "enum Tok { \"a\" => Tok::A(1..), } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("token pattern with a range of characters", "enum Tok { \"a\" => Tok::A('a'..='z'), } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("token pattern with a reference", "enum Tok { \"a\" => Tok::A(&1), } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("token pattern with a slice", "enum Tok { \"a\" => Tok::A([1, 2]), } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("token pattern with a binding", "enum Tok { \"a\" => Tok::A(x @ 1), } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("token pattern with a ref binding", "enum Tok { \"a\" => Tok::A(ref x), } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("token pattern with a mutable binding", "enum Tok { \"a\" => Tok::A(mut x), } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("token pattern with a guard", "enum Tok { \"a\" => Tok::A(_) if true, } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("token pattern with a field without a pattern", "enum Tok { \"a\" => Tok::A { n }, } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("token pattern with a field list of tuples", "enum Tok { \"a\" => Tok::A { 0 1 }, } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("token pattern with dots twice in a struct", "enum Tok { \"a\" => Tok::A { .., .. }, } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("token pattern with a leading comma", "enum Tok { \"a\" => Tok::A(, 1), } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("token pattern with two commas", "enum Tok { \"a\" => Tok::A(1,, 2), } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("token pattern with a hole of two types", "enum Tok { \"a\" => Tok::A(<u8, u8>), } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("token pattern with an empty hole", "enum Tok { \"a\" => Tok::A(<>), } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("generic non-terminal", format!("{tok} pub S<T>: u32 = {{ \"a\" => 1, }};"), true),
        ("restricted visibility", format!("{tok} pub(crate) S: u32 = {{ \"a\" => 1, }};"), true),
        ("attribute on a non-terminal", format!("{tok} #[inline] pub S: u32 = {{ \"a\" => 1, }};"), true),
        ("production without an action", format!("{tok} pub S: u32 = {{ \"a\", }};"), true),
        ("production with a guard", format!("{tok} pub S: u32 = {{ \"a\" if true => 1, }};"), true),
        ("alternatives with a bar", format!("{tok} pub S: u32 = {{ \"a\" | \"b\" => 1, }};"), true),
        ("group of symbols", format!("{tok} pub S: u32 = {{ (\"a\" \"b\") => 1, }};"), true),
        ("negated symbol", format!("{tok} pub S: u32 = {{ !\"a\" => 1, }};"), true),
        ("position marker", format!("{tok} pub S: u32 = {{ @L \"a\" => 1, }};"), true),
        ("macro non-terminal", format!("{tok} pub S: u32 = {{ X<\"a\"> => 1, }}; X: u32 = {{ \"a\" => 1, }};"), true),
        ("string with a suffix operator", format!("{tok} pub S: u32 = {{ \"a\"! => 1, }};"), true),
        ("non-terminal without a type", format!("{tok} pub S = {{ \"a\" => 1, }};"), true),
        ("non-terminal without a semicolon", format!("{tok} pub S: u32 = {{ \"a\" => 1, }} T: u32 = {{ \"b\" => 1, }};"), true),
        ("productions in parentheses", format!("{tok} pub S: u32 = ( \"a\" => 1, );"), true),
        ("single production without a comma", format!("{tok} pub S: u32 = \"a\" => 1"), true),
        ("path as a symbol", format!("{tok} pub S: u32 = {{ a::T => 1, }}; T: u32 = {{ \"a\" => 1, }};"), true),
        ("lifetime as a symbol", format!("{tok} pub S: u32 = {{ 'a T => 1, }}; T: u32 = {{ \"a\" => 1, }};"), true),
        ("dereferenced binder", format!("{tok} pub S: u32 = {{ <&x: \"b\"> => 1, }};"), true),
        ("binder with a pattern", format!("{tok} pub S: u32 = {{ <(x): \"b\"> => 1, }};"), true),
        ("byte literal as a symbol", format!("{tok} pub S: u32 = {{ b'a' T => 1, }}; T: u32 = {{ \"a\" => 1, }};"), true),
        ("float as a symbol", format!("{tok} pub S: u32 = {{ 1.5 => 1, }};"), true),
        ("text after the last item", format!("{tok} pub S: u32 = {{ \"a\" => 1, }}; 5"), true),
        ("pattern with a field after the dots", "enum Tok { \"a\" => Tok::A { .., x: _ }, } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("two patterns without a comma", "enum Tok { \"a\" => Tok::A(_ _), } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("two fields without a comma", "enum Tok { \"a\" => Tok::A { x: _ y: _ }, } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("two token patterns without a comma", "enum Tok { \"a\" => Tok::A \"b\" => Tok::B, } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("semicolon between symbols", format!("{tok} pub S: u32 = {{ \"a\"; \"b\" => 1, }};"), true),
        ("semicolon after the symbols", format!("{tok} pub S: u32 = {{ \"a\" \"b\"; => 1, }};"), true),
        ("comma before the arrow", format!("{tok} pub S: u32 = {{ \"a\", => 1, }};"), true),
        ("semicolon between productions", format!("{tok} pub S: u32 = {{ \"a\" => 1; \"b\" => 2; }};"), true),
        ("empty terminal declared twice", "enum Tok { \"\" => Tok::A, \"b\" => Tok::B(<u32>), \"\" => Tok::C, } pub S: u32 = { \"b\" => 1, };".to_string(), true),
        ("raw and plain string of one terminal", "enum Tok { \"a\" => Tok::A, r\"a\" => Tok::C, } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("escaped and plain string of one terminal", "enum Tok { \"a\" => Tok::A, \"\\x61\" => Tok::C, } pub S: u32 = { \"a\" => 1, };".to_string(), true),
        ("two token declarations of different types", format!("{tok} enum Tok2 {{ \"c\" => Tok2::C, }} pub S: u32 = {{ \"a\" => 1, }};"), true),
        ("two empty token declarations", "enum Tok { } enum Tok { } pub S: u32 = { => 1, };".to_string(), true),
        ("public non-terminal declared again", format!("{tok} pub S: u32 = {{ \"a\" => 1, }}; S: u32 = {{ \"b\" => 1, }};"), true),
    ];
    // whatever its name, a terminal or a non-terminal is declared once
    for d in [
        "a", "ab", "if", "a b", "a rather long name", "a rather long name of a terminal that goes on, and on, with commas, for a line and more than that, even", "A B C", "\u{65e5}\u{672c}\u{8a9e}", "\u{e9} e", "\\n", "\\\"", "'", "+", "==", "", " ", "  ", "0", "10",
        "end-of-input", "end of input", "Tok::A", "x,y", "x, y", "{}", "r#a", "_", "$", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
    ] {
        let others: String = (0..40).map(|i| format!("\"other {}\" => Tok::O({}), ", i, i)).collect();
        for t in [
            format!("\"{d}\" => Tok::A, \"{d}\" => Tok::B,"),
            format!("\"{d}\" => Tok::A, \"z\" => Tok::Z, \"{d}\" => Tok::A(<u32>),"),
            format!("\"{d}\" => Tok::A(<u32>), {others} \"{d}\" => Tok::B,"),
            format!("{others} \"{d}\" => Tok::A, \"{d}\" => Tok::A"),
        ] {
            v.push(("terminal declared twice", format!("enum Tok {{ {t} }} pub S: u32 = {{ \"{d}\" => 1, => 2, }};"), true));
            v.push(("unused terminal declared twice", format!("enum Tok {{ {t} }} pub S: u32 = {{ => 2, }};"), true));
        }
        v.push(("terminal declared once", format!("enum Tok {{ {others} \"{d}\" => Tok::A }} pub S: u32 = {{ \"{d}\" => 1, => 2, }};"), false));
    }
    for d in ["A", "Ab", "Expr", "expr", "A1", "A_b", "_A", "\u{c9}", "ARatherLongNameOfANonTerminalThatGoesOnAndOnForALineAndMore", "x", "Tok", "u32", "B11", "LRAction1"] {
        let others: String = (0..40).map(|i| format!("O{}: u32 = {{ \"a\" => {}, }}; ", i, i)).collect();
        for (p, q) in [("pub ", "pub "), ("pub ", ""), ("", "pub "), ("", "")] {
            for (t1, t2) in [("u32", "u32"), ("u32", "u8")] {
                for (b1, b2) in [("\"a\" => 1,", "\"a\" => 1,"), ("\"a\" => 1,", "\"b\" => 1,"), ("", ""), ("=> 1,", "")] {
                    v.push(("non-terminal declared twice", format!("{tok} {p}{d}: {t1} = {{ {b1} }}; {q}{d}: {t2} = {{ {b2} }}; pub S: u32 = {{ \"a\" {d} => 1, }};"), true));
                    v.push(("unused non-terminal declared twice", format!("{tok} pub S: u32 = {{ \"a\" => 1, }}; {p}{d}: {t1} = {{ {b1} }}; {others} {q}{d}: {t2} = {{ {b2} }};"), true));
                }
            }
        }
    }
    // references that name nothing declared, however near they come to something that is
    let decls = ["ab", "aB", "a b", "", "Sum", "sum1", "é", "+", "\\n"];
    let near = |d: &str| -> Vec<String> {
        let cs: Vec<char> = d.chars().collect();
        let drop_last: String = cs[..cs.len().saturating_sub(1)].iter().collect();
        let drop_first: String = cs.iter().skip(1).collect();
        let swap: String = cs.iter().rev().collect();
        vec![
            format!(" {}", d), format!("{} ", d), format!("{}\\t", d), format!("\\n{}", d), d.trim().to_string(), d.to_uppercase(), d.to_lowercase(),
            format!("{}1", d), format!("{}_", d), format!("_{}", d), format!("{}0", d), format!("{}s", d), format!("{}{}", d, d), d.replace(' ', ""), d.replace(' ', "_"),
            format!("'{}'", d), format!("<{}>", d), format!("{}\\u{{0}}", d), format!("\\u{{feff}}{}", d), d.replace('é', "e"), d.replace('é', "e\\u{301}"),
            drop_last, drop_first, swap, "_".into(), "Tok".into(), "Tok::A".into(), "S".into(), "u32".into(), "end-of-input".into(), "$".into(), "EOF".into(), "error".into(),
        ]
    };
    for d in decls {
        for r in near(d) {
            let lit = |x: &str| syn::parse_str::<syn::LitStr>(&format!("\"{}\"", x)).map(|l| l.value()).ok();
            if lit(&r).is_none() || lit(&r) == lit(d) {
                continue;
            }
            for s in [format!("\"{}\"", r), format!("<x:\"{}\"> \"{}\"", r, d)] {
                v.push(("terminal that is nearly a declared one", format!("enum Tok {{ \"{}\" => Tok::A, }} pub S: u32 = {{ {} => 1, \"{}\" \"{}\" => 2, }};", d, s, d, d), true));
            }
            // both declared: they stay two
            v.push(("two terminals nearly alike", format!("enum Tok {{ \"{}\" => Tok::A, \"{}\" => Tok::B, }} pub S: u32 = {{ \"{}\" => 1, \"{}\" => 2, \"{}\" \"{}\" => 3, }};", d, r, d, r, r, d), false));
        }
    }
    for d in ["X", "Sum", "sum", "X1", "Expr_", "S2", "x_y", "Tail", "É"] {
        let mut rs: Vec<String> = near(d).into_iter().filter(|r| syn::parse_str::<syn::Ident>(r).map(|i| i.to_string() == *r).unwrap_or(false) && r != "S").collect();
        rs.extend(["X", "X1", "X2", "X11", "Su", "S1", "S_1", "S2", "x", "Default", "Vec", "tail", "Tai", "xy", "XY", "r#X", "E", "self_", "State", "Parser", "Result"].map(String::from));
        rs.sort();
        rs.dedup();
        for r in rs {
            if r == d || r == format!("r#{}", d) {
                continue;
            }
            for s in [r.clone(), format!("<x:{}>", r), format!("\"b\" <x:{}> {}", r, d)] {
                v.push(("non-terminal that is nearly a declared one", format!("{tok} pub S: u32 = {{ {} => 1, {} {} => 2, }}; pub {}: u32 = {{ \"a\" => 1, }};", s, d, d, d), true));
                v.push(("non-terminal that is nearly a declared private one", format!("{tok} {}: u32 = {{ \"a\" => 1, }}; pub S: u32 = {{ {} => 1, {} {} => 2, }};", d, s, d, d), true));
            }
        }
        // a string is a terminal, an identifier a non-terminal
        v.push(("string that names a non-terminal", format!("{tok} pub S: u32 = {{ \"{}\" => 1, {} => 2, }}; {}: u32 = {{ \"a\" => 1, }};", d, d, d), true));
        v.push(("identifier that names a terminal", format!("enum Tok {{ \"{}\" => Tok::A, }} pub S: u32 = {{ {} => 1, \"{}\" => 2, }};", d, d, d), true));
        v.push(("identifier that names a binder", format!("{tok} pub S: u32 = {{ <{}:\"a\"> {} => 1, }};", d, d), true));
    }
    for op in ["+", "*", "?"] {
        for (what, s) in [
            ("repeated terminal", format!("\"a\"{op}")),
            ("repeated non-terminal", format!("S{op} \"a\"")),
            ("repeated bound symbol", format!("<x:\"b\"{op}>")),
            ("repeated bound non-terminal", format!("<x:T{op}> \"b\"")),
            ("repetition of a binder", format!("<x:\"b\">{op}")),
            ("double repetition", format!("\"a\"{op}+")),
            ("repetition at the end", format!("\"b\" \"a\" T{op}")),
        ] {
            v.push((what, format!("{tok} pub S: u32 = {{ {s} => 1, \"a\" \"a\" \"a\" => 2, }}; T: u32 = {{ \"b\" => 1, }};"), true));
        }
    }
    v
}

/// (what, text, another text that must expand to the same code)
fn alike_cases() -> Vec<(&'static str, String, String)> {
    let tok = r#"enum Tok { "a" => Tok::A, "b" => Tok::B(<u32>), }"#;
    let mut v = vec![];
    let mut alike = |what: &'static str, a: &str, b: &str| v.push((what, format!("{tok} {a}"), format!("{tok} {b}")));
    alike("the innermost binder names the value", "pub S: u32 = { <x: <y: \"b\">> => y, };", "pub S: u32 = { <y: \"b\"> => y, };");
    alike("the innermost binder names the value", "pub S: u32 = { <x: <y: <mut z: T>>> \"a\" => z, }; T: u32 = { => 1, };", "pub S: u32 = { <mut z: T> \"a\" => z, }; T: u32 = { => 1, };");
    alike("the innermost binder says whether it is mutable", "pub S: u32 = { <mut x: <y: T>> => y, }; T: u32 = { => 1, };", "pub S: u32 = { <y: T> => y, }; T: u32 = { => 1, };");
    alike("raw and escaped names of a terminal", "pub S: u32 = { r\"a\" \"\\x61\" \"\\u{61}\" => 1, };", "pub S: u32 = { \"a\" \"a\" \"a\" => 1, };");
    alike("commas between productions", "pub S: u32 = { \"a\" => 1, \"a\" \"a\" => 2 };", "pub S: u32 = { \"a\" => 1, \"a\" \"a\" => 2, };");
    alike("a single production without braces", "pub S: u32 = <x: \"b\"> => x, T: u32 = => 1,", "pub S: u32 = { <x: \"b\"> => x, }; T: u32 = { => 1, };");
    for (k, n) in ["r#loop", "r#in", "r#Self_", "Tok", "u32", "S1_", "_T", "\u{c9}t\u{e9}", "LRAction", "ParseError", "parse_generic", "ARatherLongNameOfANonTerminalThatGoesOnAndOnForALineAndMore", "N0", "N1", "Option", "x"].iter().enumerate() {
        let t = |n: &str| format!("pub S: u32 = {{ <x:{n}> {n} => x, \"b\" {n} \"a\" => {k}, }}; {n}: u32 = {{ \"a\" => 1, }}; pub U: u32 = {{ {n} => 1, }};");
        alike("the name of a private non-terminal", &t(n), &t("Plain"));
    }
    alike("a state declaration", "type State = Vec<u8>; pub S: u32 = { \"a\" => 1, };", "pub S: u32 = { \"a\" => 1, };");
    v
}

fn huge() -> Vec<(&'static str, Gram)> {
    let mut v = vec![];
    // more than 65536 productions: their action numbers do not fit
    let mut g = Gram { name: "huge_prods".into(), nts: vec![], terms: vec!["a".into()] };
    let z: Vec<Prod> = (0..65600).map(|_| Prod::new(vec![])).collect();
    g.nts.push(Nt { name: "Z".into(), public: false, ty: 0, prods: z });
    g.nts.push(Nt { name: "S".into(), public: true, ty: 0, prods: vec![Prod::new(vec![Sym::T(0)])] });
    v.push(("productions", g));
    // more than 65536 non-terminals
    let mut g = Gram { name: "huge_nts".into(), nts: vec![], terms: vec!["a".into()] };
    for i in 0..65600 {
        g.nts.push(Nt { name: format!("Z{}", i), public: false, ty: 0, prods: vec![] });
    }
    g.nts.push(Nt { name: "S".into(), public: true, ty: 0, prods: vec![Prod::new(vec![Sym::T(0)])] });
    v.push(("non-terminals", g));
    v
}

/// writes the end-to-end crates' sources for every grammar that expands
fn emit_e2e(dir: &str, seed: u64, n: usize, chunks: usize, skip: &[usize]) {
    let mut list: Vec<Gram> = curated();
    list.extend(random_suite(seed, n, false));
    list.extend(big());
    let mut out: Vec<String> = vec![String::new(); chunks];
    let mut tables: Vec<String> = vec![String::new(); chunks];
    let mut k = 0;
    for (i, g) in list.iter().enumerate() {
        if skip.contains(&i) {
            continue;
        }
        let l = match lr1(g, 4000) {
            Some(l) => l,
            None => continue,
        };
        if l.rr || l.ra {
            continue;
        }
        if g.name.starts_with('r') && i % 6 != 0 && sample_size(g, 30) < 5 && g.name.contains('_') && g.name[1..].starts_with(|c: char| c.is_ascii_digit()) {
            continue;
        }
        let body = render_macro_body(g);
        println!("BEGIN {} emit", i);
        std::io::stdout().flush().unwrap();
        if !matches!(std::thread::scope(|s| s.spawn(|| expand(&body).is_ok()).join()), Ok(true)) {
            continue;
        }
        let c = k % chunks;
        k += 1;
        let o = &mut out[c];
        o.push_str(&format!("mod g{} {{ // MODULE {}\nuse rt::*; use rt::Vv as _;\n", i, i));
        o.push_str(&render_token_enum(g));
        o.push_str("parsegen::parser! {\n");
        o.push_str(&body);
        o.push_str("}\n");
        let mut es = vec![];
        for e in g.publics() {
            let ty = oracle::ty_text(g.nts[e].ty);
            o.push_str(&format!(
                "pub fn run{e}(toks: &[Result<(usize, u32), u32>], cap: usize) -> Out {{
    let items: Vec<Result<Tok, u32>> = toks.iter().map(|x| match x {{ Ok((k, p)) => Ok(mk(*k, *p)), Err(e) => Err(*e) }}).collect();
    run(items, cap, |f| {{ let r: Result<{ty}, ParseError<u32>> = {name}::parse(f); match r {{
        Ok(v) => Res::Ok(v.v()),
        Err(ParseError::LexerError(e)) => Res::Lex(e),
        Err(ParseError::ParserError {{ found, expected }}) => Res::Syn(found.to_string(), expected.to_string()),
    }} }})
}}\n",
                e = e,
                ty = ty,
                name = g.nts[e].name
            ));
            es.push(format!("({}, g{}::run{})", e, i, e));
        }
        o.push_str("}\n");
        tables[c].push_str(&format!("Module {{ list_idx: {}, entries: &[{}] }},\n", i, es.join(", ")));
    }
    for c in 0..chunks {
        let text = format!(
            "#![allow(warnings)]\nuse rt::*;\n{}\nstatic MODULES: &[Module] = &[\n{}];\nfn main() {{ rt::main_(MODULES, {}, {}) }}\n",
            out[c], tables[c], seed, n
        );
        let p = format!("{}/chunk{}.rs", dir, c);
        if std::fs::read_to_string(&p).ok().as_deref() != Some(&text) {
            std::fs::write(&p, text).unwrap();
        }
    }
    println!("EMITTED {}", k);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: u64| args.iter().position(|a| a == k).map(|i| args[i + 1].parse().unwrap()).unwrap_or(d);
    let seed = get("--seed", 1);
    let n = get("--n", 200) as usize;
    let from = get("--from", 0) as usize;
    let with_huge = get("--huge", 0) == 1;
    PERMUTE.store(get("--permute", 0) == 1, std::sync::atomic::Ordering::Relaxed);
    std::panic::set_hook(Box::new(|_| {}));
    if let Some(i) = args.iter().position(|a| a == "--emit-e2e") {
        let skip: Vec<usize> = args.iter().position(|a| a == "--skip").map(|k| args[k + 1].split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
        emit_e2e(&args[i + 1], seed, n, get("--chunks", 6) as usize, &skip);
        return;
    }
    let mut stats = Stats::default();
    let mut list: Vec<Gram> = curated();
    list.extend(random_suite(seed, n, false));
    list.extend(big());
    list.extend(oracle::renamed());
    list.extend(oracle::chains());
    // what the code is, when everything around the expansion is another: the expansions before it, the thread,
    // what is on the heap (and the process: its environment and directory)
    if get("--hash", 0) == 1 {
        for (i, g) in list.iter().rev().enumerate() {
            println!("BEGIN {} {}", i, g.name);
            let text = render_macro_body(g);
            let junk: Vec<Vec<u8>> = (0..i % 13).map(|k| vec![k as u8; 1 + (i * 37 + k * 1001) % 5000]).collect();
            let h = std::thread::Builder::new().stack_size(256 << 20).name(format!("x{}", i)).spawn(move || expand(&text).map(|o| code_hash(&o.to_string())).ok()).unwrap().join();
            drop(junk);
            if let Ok(Some(h)) = h {
                println!("HASH {} {:016x}", g.name, h);
            }
        }
        println!("DONE");
        return;
    }
    for (i, g) in list.iter().enumerate() {
        if i < from {
            continue;
        }
        println!("BEGIN {} {}", i, esc(&g.show().chars().take(300).collect::<String>()));
        std::io::stdout().flush().unwrap();
        check_grammar(g, &mut stats);
    }
    println!("BEGIN {} lowering", list.len());
    std::io::stdout().flush().unwrap();
    if from <= list.len() {
        for (what, text, reject) in lowering_cases() {
            stats.rejects += 1;
            match (expand(&text), reject) {
                (Ok(_), true) => find("C13", &text, &format!("{}: accepted silently", what)),
                (Err(m), false) => find("C13", &text, &format!("{}: rejected: {}", what, m)),
                _ => {}
            }
        }
    }
    if from <= list.len() {
        for (what, a, b) in alike_cases() {
            stats.rejects += 1;
            match (expand(&a), expand(&b)) {
                (Ok(x), Ok(y)) => {
                    if x.to_string() != y.to_string() {
                        find("C13", &a, &format!("{}: not expanded like {}", what, b));
                    }
                }
                (Err(m), _) | (_, Err(m)) => find("C13", &a, &format!("{}: rejected: {}", what, m)),
            }
        }
    }
    #[cfg(feature = "ast")]
    if from <= list.len() {
        for (text, braced) in reading_cases() {
            stats.read += 1;
            if let Err(m) = check_reads(&text, &braced) {
                find("C13", &text, &m);
            }
        }
    }
    if with_huge {
        for (k, (what, g)) in huge().iter().enumerate() {
            if list.len() + 1 + k < from {
                continue;
            }
            println!("BEGIN {} huge {}", list.len() + 1 + k, what);
            std::io::stdout().flush().unwrap();
            let text = render_macro_body(g);
            find_numbers(g, &text.parse().unwrap());
            if let Ok(o) = expand(&text) {
                let l = lr1(g, 1000).unwrap();
                match decode(&o) {
                    None => stats.undecodable += 1,
                    Some(e) => {
                        if let Err(m) = compare_emitted(g, &l, &e) {
                            find("C12", &format!("{} {}", g.nts.len(), what), &format!("more {} than the encoding holds: {}", what, m));
                        }
                        let mut seen = BTreeSet::new();
                        for f in e.action_fns.iter().flatten() {
                            if !seen.insert(f.clone()) {
                                find("C12", what, "two actions share a name");
                            }
                        }
                        for (name, _, a) in &e.entries {
                            if e.action_fns.as_ref().map(|f| *a >= f.len()).unwrap_or(false) {
                                find("C12", what, &format!("entry {} uses action {}", name, a));
                            }
                        }
                    }
                }
            }
        }
    }
    println!("STATS {:?}", stats);
    println!("DONE");
}
