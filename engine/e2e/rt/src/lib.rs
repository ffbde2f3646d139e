//! Runtime of the generated end-to-end crates: runs parsers made by the real `parser!` macro on
//! concrete token sequences and compares with the oracle.
pub use oracle::{Gram, Lr1, Sym, Tree, V};
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug)]
pub struct Ty<const K: usize>(pub V);
// names that differ in the case of their letters only
#[derive(Debug)]
#[allow(non_camel_case_types)]
pub struct ty<const K: usize>(pub V);
#[derive(Debug)]
pub struct TY<const K: usize>(pub V);
impl<const K: usize> Vv for ty<K> {
    fn v(self) -> V {
        self.0
    }
}
impl<const K: usize> Vv for TY<K> {
    fn v(self) -> V {
        self.0
    }
}
pub trait Vv {
    fn v(self) -> V;
}
impl<const K: usize> Vv for Ty<K> {
    fn v(self) -> V {
        self.0
    }
}
impl<const K: usize> Vv for (Ty<K>, u8) {
    fn v(self) -> V {
        assert_eq!(self.1, 3);
        self.0.v()
    }
}
impl<const K: usize> Vv for (Ty<K>, i8) {
    fn v(self) -> V {
        assert_eq!(self.1, -3);
        self.0.v()
    }
}
impl<const K: usize> Vv for (u8, Ty<K>) {
    fn v(self) -> V {
        assert_eq!(self.0, 4);
        self.1.v()
    }
}
impl<const K: usize> Vv for ((Ty<K>, u8), ()) {
    fn v(self) -> V {
        assert_eq!(self.0.1, 5);
        self.0.0.v()
    }
}
impl<const K: usize> Vv for Option<Ty<K>> {
    fn v(self) -> V {
        self.unwrap().v()
    }
}
impl<const K: usize> Vv for Vec<Ty<K>> {
    fn v(mut self) -> V {
        assert_eq!(self.len(), 1);
        self.pop().unwrap().v()
    }
}
impl<const K: usize> Vv for Box<Ty<K>> {
    fn v(self) -> V {
        (*self).v()
    }
}
impl<const K: usize> Vv for [Ty<K>; 1] {
    fn v(self) -> V {
        let [x] = self;
        x.v()
    }
}
impl<const K: usize> Vv for Result<Ty<K>, u8> {
    fn v(self) -> V {
        self.unwrap().v()
    }
}
impl<const K: usize> Vv for Result<Ty<K>, i8> {
    fn v(self) -> V {
        self.unwrap().v()
    }
}
impl<const K: usize> Vv for (Ty<K>,) {
    fn v(self) -> V {
        self.0.v()
    }
}
pub mod left {
    #[derive(Debug)]
    pub struct Loc<const K: usize>(pub super::V);
}
pub mod right {
    #[derive(Debug)]
    pub struct Loc<const K: usize>(pub super::V);
}
impl<const K: usize> Vv for left::Loc<K> {
    fn v(self) -> V {
        self.0
    }
}
impl<const K: usize> Vv for right::Loc<K> {
    fn v(self) -> V {
        self.0
    }
}
impl<const K: usize> Vv for &'static Ty<K> {
    fn v(self) -> V {
        self.0.clone()
    }
}
impl<const K: usize> Vv for &'static mut Ty<K> {
    fn v(self) -> V {
        self.0.clone()
    }
}
impl<const K: usize> Vv for [Ty<K>; 2] {
    fn v(self) -> V {
        let [x, _] = self;
        x.v()
    }
}
pub trait Vv2: std::fmt::Debug {
    fn w(&self) -> V;
}
impl<const K: usize> Vv2 for Ty<K> {
    fn w(&self) -> V {
        self.0.clone()
    }
}
impl Vv for Box<dyn Vv2> {
    fn v(self) -> V {
        self.w()
    }
}
impl Vv for Box<dyn Vv2 + Send> {
    fn v(self) -> V {
        self.w()
    }
}
impl Vv for () {
    fn v(self) -> V {
        V::Pay(vec![])
    }
}
impl Vv for u32 {
    fn v(self) -> V {
        V::Pay(vec![self])
    }
}
impl Vv for (u32, u32) {
    fn v(self) -> V {
        V::Pay(vec![self.0, self.1])
    }
}

#[derive(Default)]
struct St {
    seq: usize,
    polls: usize,
    log: Vec<usize>,
    cap: usize,
    ended: bool,
}
thread_local! { static ST: RefCell<St> = RefCell::new(St::default()); }

pub fn node(n: usize, p: usize, args: Vec<V>) -> V {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let k = s.seq;
        s.seq += 1;
        let polls = s.polls;
        s.log.push(polls);
        if s.seq > s.cap {
            panic!("CAP: more than {} reductions", s.cap);
        }
        V::Node(n, p, k, args)
    })
}

/// the input: counts polls and panics when polled after it has ended or failed
pub struct Feed<T> {
    items: std::vec::IntoIter<Result<T, u32>>,
    /// a source that fails and never ends: its size hint is that of an infinite iterator
    endless: bool,
    /// tells exactly what is left
    exact: bool,
}
impl<T> Iterator for Feed<T> {
    type Item = Result<T, u32>;
    fn next(&mut self) -> Option<Self::Item> {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            s.polls += 1;
            if s.ended {
                panic!("POLL: input asked again after its end or its error");
            }
        });
        let x = self.items.next();
        if !matches!(x, Some(Ok(_))) {
            ST.with(|s| s.borrow_mut().ended = true);
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.endless {
            (usize::MAX, None)
        } else if self.exact {
            self.items.size_hint()
        } else {
            (0, None)
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Res {
    Ok(V),
    Lex(u32),
    Syn(String, String),
    Panic(String),
}
pub struct Out {
    pub res: Res,
    pub polls: usize,
    pub log: Vec<usize>,
}
pub fn run<T>(items: Vec<Result<T, u32>>, cap: usize, f: impl FnOnce(Feed<T>) -> Res) -> Out {
    ST.with(|s| *s.borrow_mut() = St { cap, ..Default::default() });
    let endless = items.iter().any(|i| i.is_err());
    let exact = items.len() % 2 == 0;
    let r = catch_unwind(AssertUnwindSafe(|| f(Feed { items: items.into_iter(), endless, exact })));
    let res = match r {
        Ok(r) => r,
        Err(e) => Res::Panic(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into())),
    };
    ST.with(|s| {
        let s = s.take();
        Out { res, polls: s.polls, log: s.log }
    })
}

fn esc(s: &str) -> String {
    s.chars()
        .map(|c| match c {
            '"' => "\\\"".to_string(),
            '\\' => "\\\\".to_string(),
            '\n' => "\\n".to_string(),
            c if (c as u32) < 32 => " ".to_string(),
            c => c.to_string(),
        })
        .collect()
}
fn cut(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}
thread_local! { static COUNT: RefCell<HashMap<String, usize>> = RefCell::new(HashMap::new()); }
pub fn find(prop: &str, gram: &str, input: &str, what: &str) {
    let k = COUNT.with(|c| {
        let mut c = c.borrow_mut();
        let k = c.entry(prop.to_string()).or_insert(0);
        *k += 1;
        *k
    });
    if k > 20 {
        return;
    }
    println!(
        "FIND {{\"property\":\"{}\",\"grammar\":\"{}\",\"input\":\"{}\",\"what\":\"{}\"}}",
        prop,
        esc(&cut(gram, 3000)),
        esc(&cut(input, 600)),
        esc(&cut(what, 1200))
    );
}

pub type Runner = fn(&[Result<(usize, u32), u32>], usize) -> Out;
pub struct Module {
    pub list_idx: usize,
    /// (oracle non-terminal, runner)
    pub entries: &'static [(usize, Runner)],
}

fn leaves(t: &Tree, count: &mut usize, polls: &mut Vec<usize>) {
    match t {
        Tree::Tok(..) => *count += 1,
        Tree::Node(_, _, c) => {
            c.iter().for_each(|x| leaves(x, count, polls));
            polls.push(*count + 1);
        }
    }
}

pub struct Totals {
    pub modules: usize,
    pub entries: usize,
    pub runs: usize,
    pub accepted: usize,
    pub syntax: usize,
    pub lexer: usize,
}

pub fn check_module(m: &Module, g: &Gram, seed: u64, n_inputs: usize, tot: &mut Totals) {
    let l = match oracle::lr1(g, 4000) {
        Some(l) => l,
        None => return,
    };
    let shown = g.show();
    let multi = m.entries.len() > 1;
    let productive = oracle::productive(g);
    tot.modules += 1;
    let report = |props: &[&str], entry: usize, input: &[usize], lex: Option<usize>, what: String| {
        let mut s: Vec<String> = input.iter().map(|t| g.terms[*t].clone()).collect();
        if let Some(k) = lex {
            s.insert(k, "<lexer error>".into());
        }
        let inp = format!("entry {}: [{}]", g.nts[entry].name, s.join(" "));
        for p in props {
            find(p, &shown, &inp, &what);
        }
        if multi && props.iter().any(|p| ["C01", "C02", "C03", "C05", "C07"].contains(p)) {
            find("C09", &shown, &inp, &what);
        }
    };
    for (entry, runner) in m.entries {
        tot.entries += 1;
        let mut rng = oracle::Rng::new(seed ^ (m.list_idx as u64 * 1000 + *entry as u64));
        let mut ins = oracle::inputs(g, *entry, &mut rng, n_inputs);
        ins.extend(oracle::cell_inputs(g, &l, *entry, n_inputs / 2, &mut rng));
        for toks in &ins {
            let want = oracle::lr_run(g, &l, *entry, toks, 200_000);
            let cap = 2000 + 2000 * (toks.len() + 1);
            if want == Err(usize::MAX) {
                // the reference itself does not settle: possible only through unproductive non-terminals
                let items: Vec<Result<(usize, u32), u32>> = toks.iter().enumerate().map(|(i, t)| Ok((*t, i as u32 * 10))).collect();
                // (few reductions, so that the ever deeper value can still be dropped)
                if let Res::Panic(p) = runner(&items, 300).res {
                    if p.starts_with("CAP") {
                        let how = if oracle::productive(g) { "" } else { " in a state entered for a non-terminal that derives no token sequence" };
                        report(&["C15"], *entry, toks, None, format!("reduces for ever, as the canonical machine does{}", how));
                    }
                }
                continue;
            }
            let mut variants: Vec<Option<usize>> = vec![None];
            variants.push(Some(rng.below(toks.len() + 1)));
            if rng.chance(1, 3) {
                variants.push(Some(toks.len()));
                variants.push(Some(0));
            }
            for lex in variants {
                tot.runs += 1;
                let mut items: Vec<Result<(usize, u32), u32>> = toks.iter().enumerate().map(|(i, t)| Ok((*t, i as u32 * 10))).collect();
                if let Some(k) = lex {
                    items.insert(k, Err(777 + k as u32));
                }
                let out = runner(&items, cap);
                if let Res::Panic(p) = &out.res {
                    let prop = if p.starts_with("CAP") {
                        "C15"
                    } else if p.starts_with("POLL") {
                        "C06"
                    } else {
                        "C07"
                    };
                    let mut props = vec![prop];
                    if lex.is_none() && want.is_ok() && !l.sr {
                        // a sentence, and no value for it
                        props.push("C02");
                        props.push("C03");
                    }
                    if let (Some(k), "C07") = (lex, prop) {
                        if want.as_ref().err().map(|i| *i >= k).unwrap_or(true) {
                            // the lexer's error is never returned
                            props.push("C06");
                        }
                    }
                    report(&props, *entry, toks, lex, format!("parser panics: {}", p));
                    continue;
                }
                // where the reference stops reading
                let (werr, wtree) = match &want {
                    Ok(t) => (None, Some(t)),
                    Err(i) => (Some(*i), None),
                };
                if let Some(k) = lex {
                    if werr.map(|i| i >= k).unwrap_or(true) {
                        // the error item is reached
                        if out.res != Res::Lex(777 + k as u32) {
                            report(&["C06"], *entry, toks, lex, format!("result {:?} instead of the lexer's error", out.res));
                        } else if out.polls != k + 1 {
                            report(&["C06"], *entry, toks, lex, format!("{} items pulled, the error was item {}", out.polls, k + 1));
                        } else {
                            tot.lexer += 1;
                        }
                        continue;
                    }
                }
                if let Res::Lex(e) = &out.res {
                    report(&["C06"], *entry, toks, lex, format!("lexer error {} reported, expected a syntax error at token {:?}", e, werr));
                    continue;
                }
                if l.sr {
                    // shift-preferring reference
                    let ea = oracle::earley(g, *entry, toks);
                    let sentence = ea.len() == toks.len() + 1 && ea[toks.len()].1;
                    match (&out.res, &wtree) {
                        (Res::Ok(_), _) if !sentence && lex.is_none() => report(&["C01"], *entry, toks, lex, "accepted, but not derivable".into()),
                        (Res::Ok(_), None) | (Res::Syn(..), Some(_)) => {
                            report(&["C04"], *entry, toks, lex, "differs from preferring shifts in the shift/reduce conflict".into())
                        }
                        (Res::Ok(v), Some(t)) => {
                            if *v != oracle::expected_value(g, t, &mut 0) {
                                report(&["C04"], *entry, toks, lex, "another parse than the one preferring shifts".into());
                            }
                            tot.accepted += 1;
                        }
                        _ => tot.syntax += 1,
                    }
                    continue;
                }
                match (&out.res, &wtree) {
                    (Res::Ok(v), Some(t)) => {
                        tot.accepted += 1;
                        let w = oracle::expected_value(g, t, &mut 0);
                        if *v != w {
                            report(&["C03"], *entry, toks, lex, format!("value {:?} instead of {:?}", v, w));
                        }
                        let mut polls = vec![];
                        leaves(t, &mut 0, &mut polls);
                        if polls != out.log || out.polls != toks.len() + 1 {
                            if polls.len() != out.log.len() {
                                report(&["C03"], *entry, toks, lex, format!("{} actions run for {} tree nodes", out.log.len(), polls.len()));
                            } else {
                                report(&["C06"], *entry, toks, lex, format!("items pulled at each reduction {:?} (total {}), expected {:?}", out.log, out.polls, polls));
                            }
                        }
                    }
                    (Res::Ok(_), None) => {
                        let ea = oracle::earley(g, *entry, toks);
                        assert!(!(ea.len() == toks.len() + 1 && ea[toks.len()].1), "oracle disagrees with itself");
                        report(&["C01", "C05"], *entry, toks, lex, "accepted, but not derivable".into())
                    }
                    (Res::Syn(f, e), Some(_)) => report(&["C02", "C05"], *entry, toks, lex, format!("sentence rejected: found {:?}, expected {:?}", f, e)),
                    (Res::Syn(f, e), None) => {
                        tot.syntax += 1;
                        let i = werr.unwrap();
                        if !productive {
                            continue; // C05 speaks of grammars whose non-terminals all derive something
                        }
                        let ea = oracle::earley(g, *entry, toks);
                        let wf = toks.get(i).map(|t| g.terms[*t].clone()).unwrap_or("end-of-input".into());
                        let we: Vec<String> = ea[i].0.iter().map(|t| g.terms[*t].clone()).collect();
                        if *f != wf || *e != we.join(", ") {
                            report(&["C05"], *entry, toks, lex, format!("found {:?} expected {:?}; should be found {:?} expected {:?}", f, e, wf, we.join(", ")));
                        } else if out.polls != i + 1 {
                            // the reported token must be the last one pulled
                            report(&["C06"], *entry, toks, lex, format!("{} items pulled for a syntax error at item {}", out.polls, i + 1));
                            if out.polls < i + 1 {
                                report(&["C05"], *entry, toks, lex, format!("reported after {} items, first offending token is {}", out.polls, i + 1));
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
    }
}

pub fn arg(k: &str, d: u64) -> u64 {
    let args: Vec<String> = std::env::args().collect();
    args.iter().position(|a| a == k).map(|i| args[i + 1].parse().unwrap()).unwrap_or(d)
}

pub fn main_(modules: &[Module], seed: u64, n: usize) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut list: Vec<Gram> = oracle::curated();
    list.extend(oracle::random_suite(seed, n, false));
    list.extend(oracle::big());
    let mut tot = Totals { modules: 0, entries: 0, runs: 0, accepted: 0, syntax: 0, lexer: 0 };
    let from = arg("--from", 0) as usize;
    let n_inputs = arg("--inputs", 60) as usize;
    let iseed = arg("--seed", 1);
    for (k, m) in modules.iter().enumerate() {
        if k < from {
            continue;
        }
        println!("BEGIN {} {}", k, esc(&cut(&list[m.list_idx].show(), 300)));
        check_module(m, &list[m.list_idx], iseed, n_inputs, &mut tot);
    }
    println!(
        "STATS {{\"modules\":{},\"entries\":{},\"runs\":{},\"accepted\":{},\"syntax_errors\":{},\"lexer_errors\":{}}}",
        tot.modules, tot.entries, tot.runs, tot.accepted, tot.syntax, tot.lexer
    );
    println!("DONE");
}
