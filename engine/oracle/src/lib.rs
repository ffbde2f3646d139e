//! Independent reference for context-free grammars: canonical LR(1) construction, conflict
//! classification, Earley viable-prefix sets, derivation trees, random grammars and sentences.
//! Shares no code with /repo.
use std::collections::{BTreeMap, BTreeSet, HashMap};

// ------------------------------------------------------------------ PRNG
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
}

// ------------------------------------------------------------------ grammars
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Sym {
    T(usize),
    N(usize),
}
#[derive(Clone, Debug)]
pub struct Prod {
    pub rhs: Vec<Sym>,
    /// which symbols are bound by the action
    pub bound: Vec<bool>,
    pub mutable: Vec<bool>,
    /// 0: the action names its production, binders are numbered by position;
    /// 1: the action names nothing, binders are numbered among the bound symbols (equal texts for
    ///    different productions);
    /// 2: the names the generator uses for its own items, as binders;
    /// 3: binders that begin with an underscore; 4: unusual ones
    pub style: u8,
}
const POOL: [&str; 12] =
    ["token", "input", "state", "value", "lexer", "x", "tokens", "parse", "action", "next", "result", "stack"];
const ODD: [&str; 14] = [
    "_x", "r#type", "Upper", "f0", "token_0", "__", "\u{e9}", "non_terminal_0", "u32", "r#in", "String", "a_rather_long_name_for_a_value_on_the_stack", "x1", "_0",
];
impl Prod {
    pub fn new(rhs: Vec<Sym>) -> Prod {
        let n = rhs.len();
        Prod { rhs, bound: vec![true; n], mutable: vec![false; n], style: 0 }
    }
    fn random_style(&mut self, rng: &mut Rng) {
        for b in 0..self.rhs.len() {
            self.bound[b] = !rng.chance(1, 4);
            self.mutable[b] = rng.chance(1, 6);
        }
        self.style = match rng.below(8) {
            0 | 1 | 2 => 1,
            3 if self.rhs.len() <= POOL.len() => 2,
            _ => 0,
        };
    }
    /// the binder of symbol k
    pub fn binder(&self, k: usize) -> Option<String> {
        if !self.bound[k] {
            return None;
        }
        Some(match self.style {
            0 => format!("b{}", k),
            1 => format!("a{}", self.bound[..k].iter().filter(|b| **b).count()),
            3 => format!("_{}b{}", if k % 2 == 1 { "_" } else { "" }, k),
            4 if k < ODD.len() => ODD[(k + self.rhs.len()) % ODD.len()].to_string(),
            4 => format!("o{}", k),
            _ => POOL[(k + self.rhs.len()) % POOL.len()].to_string(),
        })
    }
    /// the numbers the action of production (n, p) puts into its value
    pub fn tag(&self, n: usize, p: usize) -> (usize, usize) {
        if self.style == 1 {
            (999, 0)
        } else {
            (n, p)
        }
    }
    /// the two productions of one non-terminal mean the same, actions included
    pub fn same(&self, o: &Prod) -> bool {
        self.style == 1 && o.style == 1 && self.rhs == o.rhs && self.bound == o.bound && self.mutable == o.mutable
    }
}
#[derive(Clone, Debug)]
pub struct Nt {
    pub name: String,
    pub public: bool,
    /// value type number: non-terminals with equal numbers share a Rust type
    pub ty: usize,
    pub prods: Vec<Prod>,
}
#[derive(Clone, Debug)]
pub struct Gram {
    pub name: String,
    pub nts: Vec<Nt>,
    pub terms: Vec<String>,
}

impl Gram {
    pub fn show(&self) -> String {
        let mut s = String::new();
        for nt in &self.nts {
            s.push_str(&format!("{}{} -> ", if nt.public { "pub " } else { "" }, nt.name));
            let ps: Vec<String> = nt
                .prods
                .iter()
                .map(|p| {
                    if p.rhs.is_empty() {
                        "()".to_string()
                    } else {
                        p.rhs.iter().map(|x| self.sym(*x)).collect::<Vec<_>>().join(" ")
                    }
                })
                .collect();
            s.push_str(&ps.join(" | "));
            s.push_str("; ");
        }
        s
    }
    pub fn sym(&self, s: Sym) -> String {
        match s {
            Sym::T(t) => format!("{:?}", self.terms[t]),
            Sym::N(n) => self.nts[n].name.clone(),
        }
    }
    pub fn publics(&self) -> Vec<usize> {
        (0..self.nts.len()).filter(|i| self.nts[*i].public).collect()
    }

    /// the body of `parser! { ... }`; terminals are `Tok::T<i>(<u32>)`
    pub fn macro_body(&self) -> String {
        let mut s = String::from("enum Tok {\n");
        for (i, t) in self.terms.iter().enumerate() {
            s.push_str(&format!("  {:?} => Tok {{ kind: {}usize, val: <u32>, .. }},\n", t, i));
        }
        // every token is declared, the remaining kinds never occur
        s.push_str("}\n");
        s
    }
}

fn rhs_kind(x: &Sym) -> bool {
    matches!(x, Sym::N(_))
}
/// parse a compact grammar: `pub S = A "x" | ; A = ...`
pub fn gram(name: &str, text: &str) -> Gram {
    let mut defs: Vec<(String, bool, Vec<Vec<String>>)> = vec![];
    for d in text.split(';') {
        let d = d.trim();
        if d.is_empty() {
            continue;
        }
        let (l, r) = d.split_once('=').unwrap();
        let l = l.trim();
        let (public, n) = match l.strip_prefix("pub ") {
            Some(n) => (true, n.trim()),
            None => (false, l),
        };
        let prods = if r.trim() == "!" {
            vec![]
        } else {
            r.split('|').map(|p| p.split_whitespace().map(|x| x.to_string()).collect()).collect()
        };
        defs.push((n.to_string(), public, prods));
    }
    let names: HashMap<String, usize> = defs.iter().enumerate().map(|(i, d)| (d.0.clone(), i)).collect();
    let mut terms: Vec<String> = vec![];
    let mut nts = vec![];
    for (n, public, prods) in &defs {
        let mut ps = vec![];
        for p in prods {
            let mut rhs = vec![];
            for x in p {
                if let Some(k) = names.get(x) {
                    rhs.push(Sym::N(*k));
                } else {
                    let k = terms.iter().position(|t| t == x).unwrap_or_else(|| {
                        terms.push(x.clone());
                        terms.len() - 1
                    });
                    rhs.push(Sym::T(k));
                }
            }
            ps.push(Prod::new(rhs));
        }
        nts.push(Nt { name: n.clone(), public: *public, ty: 0, prods: ps });
    }
    if terms.is_empty() {
        terms.push("tt".into());
    }
    for (i, nt) in nts.iter_mut().enumerate() {
        nt.ty = i % 3;
        if name.starts_with("same_act") {
            for (k, p) in nt.prods.iter_mut().enumerate() {
                p.style = 1;
                for (j, b) in p.bound.iter_mut().enumerate() {
                    *b = if name == "same_act_pos" { j == 1 + k % 2 } else { rhs_kind(&p.rhs[j]) || (j + k) % 2 == 0 };
                }
            }
        }
    }
    Gram { name: name.into(), nts, terms }
}

/// the types of one random grammar: one, three or many, by its name
fn palette(name: &str, rng: &mut Rng) -> usize {
    let h: usize = name.bytes().fold(7, |a, b| (a * 31 + b as usize) % 1009);
    match h % 5 {
        0 => h % TYPES,
        1 | 2 => rng.below(3),
        3 => [3, 4, 14, 15][rng.below(4)],
        _ => rng.below(TYPES),
    }
}
pub struct RandParams {
    pub nts: usize,
    pub terms: usize,
    pub prods: usize,
    pub len: usize,
    pub publics: usize,
}

pub fn random_gram(name: &str, rng: &mut Rng, p: &RandParams) -> Gram {
    let n = 1 + rng.below(p.nts);
    let t = 1 + rng.below(p.terms);
    let mut nts = vec![];
    for i in 0..n {
        let np = if rng.chance(1, 25) { 0 } else { 1 + rng.below(p.prods) };
        let mut prods: Vec<Prod> = vec![];
        for _ in 0..np {
            let l = rng.below(p.len + 1);
            let rhs: Vec<Sym> = (0..l)
                .map(|_| if rng.chance(1, 2) { Sym::T(rng.below(t)) } else { Sym::N(rng.below(n)) })
                .collect();
            if prods.iter().any(|q| q.rhs == rhs) && rng.chance(9, 10) {
                continue;
            }
            let mut pr = Prod::new(rhs);
            pr.random_style(rng);
            prods.push(pr);
        }
        nts.push(Nt { name: format!("N{}", i), public: false, ty: palette(name, rng), prods });
    }
    let np = 1 + rng.below(p.publics);
    for _ in 0..np {
        let k = rng.below(n);
        nts[k].public = true;
    }
    Gram { name: name.into(), nts, terms: (0..t).map(|i| format!("t{}", i)).collect() }
}

// ------------------------------------------------------------------ nullable / FIRST by naive fixpoint
pub struct First {
    pub null: Vec<bool>,
    pub first: Vec<BTreeSet<usize>>,
}
pub fn first(g: &Gram) -> First {
    let n = g.nts.len();
    let mut f = First { null: vec![false; n], first: vec![BTreeSet::new(); n] };
    loop {
        let mut ch = false;
        for a in 0..n {
            for p in &g.nts[a].prods {
                let (ts, nu) = first_seq(&f, &p.rhs);
                for t in ts {
                    ch |= f.first[a].insert(t);
                }
                if nu && !f.null[a] {
                    f.null[a] = true;
                    ch = true;
                }
            }
        }
        if !ch {
            return f;
        }
    }
}
pub fn first_seq(f: &First, s: &[Sym]) -> (BTreeSet<usize>, bool) {
    let mut r = BTreeSet::new();
    for x in s {
        match x {
            Sym::T(t) => {
                r.insert(*t);
                return (r, false);
            }
            Sym::N(n) => {
                r.extend(f.first[*n].iter().copied());
                if !f.null[*n] {
                    return (r, false);
                }
            }
        }
    }
    (r, true)
}

// ------------------------------------------------------------------ canonical LR(1)
/// production (usize::MAX - e, 0) is the start production of entry e
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Item {
    pub nt: usize,
    pub prod: usize,
    pub dot: usize,
    pub la: Option<usize>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Act {
    Shift(usize),
    Reduce(usize, usize),
    Accept,
}
pub struct Lr1 {
    pub states: Vec<BTreeSet<Item>>,
    pub trans: Vec<BTreeMap<Sym, usize>>,
    /// (public nt, state)
    pub starts: Vec<(usize, usize)>,
    /// all possible actions
    pub acts: Vec<BTreeMap<Option<usize>, Vec<Act>>>,
    pub rr: bool,
    pub ra: bool,
    pub sr: bool,
}
pub const START: usize = 1 << 40;

pub fn lr1(g: &Gram, max_states: usize) -> Option<Lr1> {
    let f = first(g);
    let rhs = |it: &Item| -> Vec<Sym> {
        if it.nt >= START {
            vec![Sym::N(it.nt - START)]
        } else {
            g.nts[it.nt].prods[it.prod].rhs.clone()
        }
    };
    let closure = |k: BTreeSet<Item>| -> BTreeSet<Item> {
        let mut s = k.clone();
        let mut w: Vec<Item> = k.into_iter().collect();
        while let Some(it) = w.pop() {
            let r = rhs(&it);
            if let Some(Sym::N(n)) = r.get(it.dot) {
                let (ts, nu) = first_seq(&f, &r[it.dot + 1..]);
                let mut las: Vec<Option<usize>> = ts.into_iter().map(Some).collect();
                if nu {
                    las.push(it.la);
                }
                for p in 0..g.nts[*n].prods.len() {
                    for la in &las {
                        let x = Item { nt: *n, prod: p, dot: 0, la: *la };
                        if s.insert(x) {
                            w.push(x);
                        }
                    }
                }
            }
        }
        s
    };
    let mut states: Vec<BTreeSet<Item>> = vec![];
    let mut index: HashMap<BTreeSet<Item>, usize> = HashMap::new();
    let mut starts = vec![];
    for e in g.publics() {
        let s = closure([Item { nt: START + e, prod: 0, dot: 0, la: None }].into_iter().collect());
        index.insert(s.clone(), states.len());
        starts.push((e, states.len()));
        states.push(s);
    }
    let mut trans: Vec<BTreeMap<Sym, usize>> = vec![];
    let mut i = 0;
    while i < states.len() {
        if states.len() > max_states {
            return None;
        }
        let mut by: BTreeMap<Sym, BTreeSet<Item>> = BTreeMap::new();
        for it in &states[i] {
            if let Some(x) = rhs(it).get(it.dot) {
                let mut it = *it;
                it.dot += 1;
                by.entry(*x).or_default().insert(it);
            }
        }
        let mut tr = BTreeMap::new();
        for (x, k) in by {
            let s = closure(k);
            let j = *index.entry(s.clone()).or_insert_with(|| {
                states.push(s);
                states.len() - 1
            });
            tr.insert(x, j);
        }
        trans.push(tr);
        i += 1;
    }
    let mut acts = vec![];
    let (mut rr, mut ra, mut sr) = (false, false, false);
    for (i, s) in states.iter().enumerate() {
        let mut m: BTreeMap<Option<usize>, Vec<Act>> = BTreeMap::new();
        for (x, j) in &trans[i] {
            if let Sym::T(t) = x {
                m.entry(Some(*t)).or_default().push(Act::Shift(*j));
            }
        }
        for it in s {
            let r = rhs(it);
            if it.dot == r.len() {
                if it.nt >= START {
                    m.entry(None).or_default().push(Act::Accept);
                } else {
                    m.entry(it.la).or_default().push(Act::Reduce(it.nt, it.prod));
                }
            }
        }
        for v in m.values() {
            let r = v.iter().filter(|a| matches!(a, Act::Reduce(..))).count();
            let sh = v.iter().any(|a| matches!(a, Act::Shift(_)));
            let ac = v.iter().any(|a| matches!(a, Act::Accept));
            rr |= r > 1;
            ra |= r > 0 && ac;
            sr |= sh && r > 0;
        }
        acts.push(m);
    }
    Some(Lr1 { states, trans, starts, acts, rr, ra, sr })
}

/// Reference run of the canonical LR(1) automaton (conflict-free or shift-preferring).
pub fn lr_run(g: &Gram, l: &Lr1, entry: usize, toks: &[usize], fuel: usize) -> Result<Tree, usize> {
    let mut st = vec![l.starts.iter().find(|x| x.0 == entry).unwrap().1];
    let mut vs: Vec<Tree> = vec![];
    let mut i = 0;
    for _ in 0..fuel {
        let la = toks.get(i).copied();
        let s = *st.last().unwrap();
        let a = match l.acts[s].get(&la) {
            None => return Err(i),
            Some(v) => v.iter().find(|a| matches!(a, Act::Shift(_))).unwrap_or(&v[0]).clone(),
        };
        match a {
            Act::Shift(j) => {
                vs.push(Tree::Tok(la.unwrap(), i as u32));
                st.push(j);
                i += 1;
            }
            Act::Reduce(n, p) => {
                let k = g.nts[n].prods[p].rhs.len();
                let ch = vs.split_off(vs.len() - k);
                for _ in 0..k {
                    st.pop();
                }
                vs.push(Tree::Node(n, p, ch));
                let s = *st.last().unwrap();
                st.push(l.trans[s][&Sym::N(n)]);
            }
            Act::Accept => return Ok(vs.pop().unwrap()),
        }
    }
    std::mem::forget(vs); // a chain too deep to be dropped recursively
    Err(usize::MAX)
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Tree {
    Tok(usize, u32),
    Node(usize, usize, Vec<Tree>),
}

// ------------------------------------------------------------------ Earley
/// for every i: (terminals that can follow toks[..i], whether toks[..i] is a sentence); stops at
/// the first i whose prefix is not viable.
pub fn earley(g: &Gram, entry: usize, toks: &[usize]) -> Vec<(BTreeSet<usize>, bool)> {
    let f = first(g);
    // (nt, prod, dot, origin); nt == START: start
    type E = (usize, usize, usize, usize);
    let rhs = |e: &E| -> Vec<Sym> {
        if e.0 == START {
            vec![Sym::N(entry)]
        } else {
            g.nts[e.0].prods[e.1].rhs.clone()
        }
    };
    let mut sets: Vec<BTreeSet<E>> = vec![];
    let mut out = vec![];
    let mut cur: BTreeSet<E> = [(START, 0, 0, 0)].into_iter().collect();
    for i in 0..=toks.len() {
        sets.push(BTreeSet::new());
        let mut w: Vec<E> = cur.iter().copied().collect();
        while let Some(e) = w.pop() {
            if !sets[i].insert(e) {
                continue;
            }
            let r = rhs(&e);
            if e.2 < r.len() {
                if let Sym::N(n) = r[e.2] {
                    for p in 0..g.nts[n].prods.len() {
                        w.push((n, p, 0, i));
                    }
                    if f.null[n] {
                        w.push((e.0, e.1, e.2 + 1, e.3));
                    }
                }
            } else if e.0 != START {
                let parents: Vec<E> = sets[e.3].iter().copied().collect();
                for q in parents {
                    let qr = rhs(&q);
                    if q.2 < qr.len() && qr[q.2] == Sym::N(e.0) {
                        w.push((q.0, q.1, q.2 + 1, q.3));
                    }
                }
            }
        }
        let mut next = BTreeSet::new();
        for e in &sets[i] {
            let r = rhs(e);
            if e.2 < r.len() {
                if let Sym::T(t) = r[e.2] {
                    next.insert(t);
                }
            }
        }
        let acc = sets[i].contains(&(START, 0, 1, 0));
        out.push((next.clone(), acc));
        if i < toks.len() {
            if !next.contains(&toks[i]) {
                return out;
            }
            cur = BTreeSet::new();
            for e in &sets[i] {
                let r = rhs(e);
                if e.2 < r.len() && r[e.2] == Sym::T(toks[i]) {
                    cur.insert((e.0, e.1, e.2 + 1, e.3));
                }
            }
        }
    }
    out
}

// ------------------------------------------------------------------ sentences
/// minimal derivation heights (None: unproductive)
pub fn heights(g: &Gram) -> Vec<Option<usize>> {
    let n = g.nts.len();
    let mut h: Vec<Option<usize>> = vec![None; n];
    loop {
        let mut ch = false;
        for a in 0..n {
            for p in &g.nts[a].prods {
                let mut m = Some(0usize);
                for x in &p.rhs {
                    if let Sym::N(k) = x {
                        m = match (m, h[*k]) {
                            (Some(a), Some(b)) => Some(a.max(b)),
                            _ => None,
                        };
                    }
                }
                if let Some(m) = m {
                    if h[a].map(|x| m + 1 < x).unwrap_or(true) {
                        h[a] = Some(m + 1);
                        ch = true;
                    }
                }
            }
        }
        if !ch {
            return h;
        }
    }
}

/// every non-terminal derives some token sequence
pub fn productive(g: &Gram) -> bool {
    heights(g).iter().all(|h| h.is_some())
}

pub fn random_tree(g: &Gram, nt: usize, depth: usize, h: &[Option<usize>], rng: &mut Rng, budget: &mut usize) -> Option<Tree> {
    h[nt]?;
    let ok: Vec<usize> = (0..g.nts[nt].prods.len())
        .filter(|p| {
            g.nts[nt].prods[*p].rhs.iter().all(|x| match x {
                Sym::N(k) => h[*k].map(|v| v <= depth.max(h[nt].unwrap()) - 1).unwrap_or(false),
                _ => true,
            })
        })
        .collect();
    let minimal: Vec<usize> = (0..g.nts[nt].prods.len())
        .filter(|p| {
            g.nts[nt].prods[*p].rhs.iter().all(|x| match x {
                Sym::N(k) => h[*k].map(|v| v < h[nt].unwrap()).unwrap_or(false),
                _ => true,
            })
        })
        .collect();
    let p = if *budget == 0 || ok.is_empty() { minimal[rng.below(minimal.len())] } else { ok[rng.below(ok.len())] };
    *budget = budget.saturating_sub(1);
    let mut ch = vec![];
    for x in &g.nts[nt].prods[p].rhs {
        match x {
            Sym::T(t) => ch.push(Tree::Tok(*t, 0)),
            Sym::N(k) => ch.push(random_tree(g, *k, depth.saturating_sub(1), h, rng, budget)?),
        }
    }
    Some(Tree::Node(nt, p, ch))
}

/// a deep tree: one long spine that repeats the same productions, everything else minimal
fn spine_tree(g: &Gram, nt: usize, depth: usize, h: &[Option<usize>], reach: &[Vec<bool>], rng: &mut Rng, fav: &mut HashMap<usize, (usize, usize)>) -> Option<Tree> {
    h[nt]?;
    let mut zero = 0;
    if depth == 0 {
        return random_tree(g, nt, 0, h, rng, &mut zero);
    }
    let (p, spine) = match fav.get(&nt) {
        Some(x) if !rng.chance(1, 12) => *x,
        _ => {
            let mut c = vec![];
            let mut rec = vec![];
            for (p, pr) in g.nts[nt].prods.iter().enumerate() {
                if pr.rhs.iter().any(|x| matches!(x, Sym::N(k) if h[*k].is_none())) {
                    continue;
                }
                for (i, x) in pr.rhs.iter().enumerate() {
                    if let Sym::N(k) = x {
                        c.push((p, i));
                        if reach[*k][nt] {
                            rec.push((p, i));
                        }
                    }
                }
            }
            if !rec.is_empty() {
                c = rec;
            }
            if c.is_empty() {
                return random_tree(g, nt, 0, h, rng, &mut zero);
            }
            let x = c[rng.below(c.len())];
            fav.insert(nt, x);
            x
        }
    };
    let mut ch = vec![];
    for (i, x) in g.nts[nt].prods[p].rhs.iter().enumerate() {
        ch.push(match x {
            Sym::T(t) => Tree::Tok(*t, 0),
            Sym::N(k) if i == spine => spine_tree(g, *k, depth - 1, h, reach, rng, fav)?,
            Sym::N(k) => random_tree(g, *k, 0, h, rng, &mut zero)?,
        });
    }
    Some(Tree::Node(nt, p, ch))
}
fn reachable(g: &Gram) -> Vec<Vec<bool>> {
    let n = g.nts.len();
    let mut r = vec![vec![false; n]; n];
    if n > 40 {
        // padded grammars: one step is enough of a hint
        for (a, nt) in g.nts.iter().enumerate() {
            r[a][a] = true;
            for x in nt.prods.iter().flat_map(|p| &p.rhs) {
                if let Sym::N(k) = x {
                    r[a][*k] = true;
                }
            }
        }
        return r;
    }
    for a in 0..n {
        let mut w = vec![a];
        while let Some(b) = w.pop() {
            if std::mem::replace(&mut r[a][b], true) {
                continue;
            }
            for x in g.nts[b].prods.iter().flat_map(|p| &p.rhs) {
                if let Sym::N(k) = x {
                    w.push(*k);
                }
            }
        }
    }
    r
}

impl Tree {
    pub fn yield_(&self, out: &mut Vec<usize>) {
        match self {
            Tree::Tok(t, _) => out.push(*t),
            Tree::Node(_, _, c) => c.iter().for_each(|x| x.yield_(out)),
        }
    }
    /// number the tokens left to right
    pub fn renumber(&mut self, n: &mut u32) {
        match self {
            Tree::Tok(_, k) => {
                *k = *n;
                *n += 1;
            }
            Tree::Node(_, _, c) => c.iter_mut().for_each(|x| x.renumber(n)),
        }
    }
    pub fn valid(&self, g: &Gram) -> bool {
        match self {
            Tree::Tok(..) => true,
            Tree::Node(n, p, c) => {
                let r = &g.nts[*n].prods[*p].rhs;
                r.len() == c.len()
                    && r.iter().zip(c).all(|(x, y)| match (x, y) {
                        (Sym::T(a), Tree::Tok(b, _)) => a == b,
                        (Sym::N(a), Tree::Node(b, _, _)) => a == b && y.valid(g),
                        _ => false,
                    })
            }
        }
    }
}

/// the shortest token sequence of every non-terminal
pub fn shortest(g: &Gram) -> Vec<Option<Vec<usize>>> {
    let mut b: Vec<Option<Vec<usize>>> = vec![None; g.nts.len()];
    let mut changed = true;
    while changed {
        changed = false;
        for (n, nt) in g.nts.iter().enumerate() {
            for p in &nt.prods {
                let y = match seq_yield(&b, &p.rhs) {
                    Some(y) => y,
                    None => continue,
                };
                if y.len() <= 5000 && b[n].as_ref().map(|o| o.len() > y.len()).unwrap_or(true) {
                    b[n] = Some(y);
                    changed = true;
                }
            }
        }
    }
    b
}
fn seq_yield(b: &[Option<Vec<usize>>], s: &[Sym]) -> Option<Vec<usize>> {
    let mut v = vec![];
    for x in s {
        match x {
            Sym::T(t) => v.push(*t),
            Sym::N(n) => v.extend(b[*n].as_ref()?),
        }
    }
    Some(v)
}

/// inputs that lead into every cell of the canonical table that this entry point can reach: the way to the state in
/// fewest symbols, the token, and the shortest way to the end of a sentence (where the cell has an action)
pub fn cell_inputs(g: &Gram, l: &Lr1, entry: usize, max: usize, rng: &mut Rng) -> Vec<Vec<usize>> {
    let b = shortest(g);
    let start = match l.starts.iter().find(|x| x.0 == entry) {
        Some(x) => x.1,
        None => return vec![],
    };
    // state -> tokens in front of it
    let mut way: Vec<Option<Vec<usize>>> = vec![None; l.states.len()];
    way[start] = Some(vec![]);
    let mut q = std::collections::VecDeque::from([start]);
    let mut order = vec![];
    while let Some(s) = q.pop_front() {
        order.push(s);
        for (x, j) in &l.trans[s] {
            if way[*j].is_none() {
                if let Some(y) = seq_yield(&b, &[*x]) {
                    let mut w = way[s].clone().unwrap();
                    w.extend(y);
                    if w.len() < 400 {
                        way[*j] = Some(w);
                        q.push_back(*j);
                    }
                }
            }
        }
    }
    let mut cells: Vec<(usize, Option<usize>)> = vec![];
    for s in order {
        for t in 0..=g.terms.len() {
            cells.push((s, if t == g.terms.len() { None } else { Some(t) }));
        }
    }
    for i in (1..cells.len()).rev() {
        cells.swap(i, rng.below(i + 1));
    }
    cells.truncate(max);
    let mut out: Vec<Vec<usize>> = vec![];
    for (s, t) in cells {
        let mut w = way[s].clone().unwrap();
        if let Some(t) = t {
            w.push(t);
            if l.acts[s].contains_key(&Some(t)) {
                if let Some(st) = stack_after(g, l, start, &w) {
                    if let Some(c) = completion(g, l, &b, &st) {
                        w.extend(c);
                    }
                }
            }
        }
        out.push(w);
    }
    out.sort();
    out.dedup();
    out
}
/// the reference's stack once it has shifted all of these
fn stack_after(g: &Gram, l: &Lr1, start: usize, toks: &[usize]) -> Option<Vec<usize>> {
    let mut st = vec![start];
    let mut i = 0;
    for _ in 0..20_000 {
        if i == toks.len() {
            return Some(st);
        }
        let s = *st.last().unwrap();
        let v = l.acts[s].get(&Some(toks[i]))?;
        match v.iter().find(|a| matches!(a, Act::Shift(_))).unwrap_or(&v[0]) {
            Act::Shift(j) => {
                st.push(*j);
                i += 1;
            }
            Act::Reduce(n, p) => {
                st.truncate(st.len() - g.nts[*n].prods[*p].rhs.len());
                let s = *st.last()?;
                st.push(*l.trans[s].get(&Sym::N(*n))?);
            }
            Act::Accept => return None,
        }
    }
    None
}
/// the shortest token sequence that makes a sentence of what this stack holds
fn completion(g: &Gram, l: &Lr1, b: &[Option<Vec<usize>>], st: &[usize]) -> Option<Vec<usize>> {
    // configuration: the lower d states of the stack, and a state on top of them
    let mut best: HashMap<(usize, usize), usize> = HashMap::new();
    let mut heap = std::collections::BinaryHeap::new();
    heap.push((std::cmp::Reverse(0usize), st.len() - 1, *st.last()?, vec![]));
    while let Some((std::cmp::Reverse(c), d, s, w)) = heap.pop() {
        if *best.get(&(d, s)).unwrap_or(&usize::MAX) <= c {
            continue;
        }
        best.insert((d, s), c);
        for it in &l.states[s] {
            if it.nt >= START {
                if it.dot == 1 {
                    return Some(w);
                }
                continue;
            }
            let r = &g.nts[it.nt].prods[it.prod].rhs;
            if it.dot > d + 1 || it.dot == 0 && !r.is_empty() {
                continue;
            }
            let y = match seq_yield(b, &r[it.dot..]) {
                Some(y) => y,
                None => continue,
            };
            // it.dot states go: the top one, and it.dot - 1 below it
            let (base, nd) = if it.dot == 0 { (s, d + 1) } else { (st[d - it.dot], d - it.dot + 1) };
            if it.dot == 0 {
                continue; // an empty production: the items that wait for it are in this state too
            }
            if let Some(j) = l.trans[base].get(&Sym::N(it.nt)) {
                let mut w2 = w.clone();
                w2.extend(y);
                if w2.len() < 400 {
                    heap.push((std::cmp::Reverse(w2.len()), nd, *j, w2));
                }
            }
        }
    }
    None
}

/// inputs worth trying for an entry point: sentences, their prefixes/mutations, short exhaustive strings
pub fn inputs(g: &Gram, entry: usize, rng: &mut Rng, n: usize) -> Vec<Vec<usize>> {
    let mut out: BTreeSet<Vec<usize>> = BTreeSet::new();
    let nt = g.terms.len();
    out.insert(vec![]);
    let small = nt.min(4);
    for a in 0..small {
        out.insert(vec![a]);
        for b in 0..small {
            out.insert(vec![a, b]);
            if small <= 3 {
                for c in 0..small {
                    out.insert(vec![a, b, c]);
                }
            }
        }
    }
    let h = heights(g);
    let reach = reachable(g);
    for k in 0..n {
        let mut budget = 2 + rng.below(18);
        let depth = h[entry].unwrap_or(0) + k % 9;
        let tree = if k % 4 == 3 {
            spine_tree(g, entry, 3 + rng.below(14), &h, &reach, rng, &mut HashMap::new())
        } else {
            random_tree(g, entry, depth, &h, rng, &mut budget)
        };
        if let Some(t) = tree {
            let mut y = vec![];
            t.yield_(&mut y);
            if y.len() > 60 {
                continue;
            }
            out.insert(y.clone());
            // mutations
            for _ in 0..3 {
                let mut m = y.clone();
                match rng.below(4) {
                    0 if !m.is_empty() => {
                        let i = rng.below(m.len());
                        m.remove(i);
                    }
                    1 => {
                        let i = rng.below(m.len() + 1);
                        m.insert(i, rng.below(nt));
                    }
                    2 if !m.is_empty() => {
                        let i = rng.below(m.len());
                        m[i] = rng.below(nt);
                    }
                    _ => {
                        let i = rng.below(m.len() + 1);
                        m.truncate(i);
                    }
                }
                out.insert(m);
            }
        } else {
            // unproductive: random strings following viable prefixes
            let mut s = vec![];
            for _ in 0..rng.below(6) {
                let e = earley(g, entry, &s);
                let nx: Vec<usize> = e.last().unwrap().0.iter().copied().collect();
                if e.len() <= s.len() || nx.is_empty() {
                    break;
                }
                s.push(nx[rng.below(nx.len())]);
            }
            out.insert(s);
        }
    }
    out.into_iter().collect()
}

// ------------------------------------------------------------------ rendering as parser! input
/// payload shape of a terminal in the rendered token type
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Shape {
    Unit,
    One,
    Two,
    StructOne,
    StructTwo,
}
pub fn shape(t: usize) -> Shape {
    match (t * 7 + 3) % 11 {
        0 | 5 => Shape::Unit,
        1 | 4 | 8 | 9 => Shape::One,
        2 | 7 => Shape::Two,
        3 | 10 => Shape::StructOne,
        _ => Shape::StructTwo,
    }
}
/// the Rust enum
pub fn render_token_enum(g: &Gram) -> String {
    let mut s = String::from("#[derive(Debug, Clone)]\npub enum Tok {\n");
    for i in 0..g.terms.len() {
        let v = match shape(i) {
            Shape::Unit => String::new(),
            Shape::One => "(u32)".into(),
            Shape::Two => "(u32, u8, u32)".into(),
            Shape::StructOne => "{ a: u32, z: u8 }".into(),
            Shape::StructTwo => "{ a: u32, z: u8, b: u32 }".into(),
        };
        s.push_str(&format!("  T{}{},\n", i, v));
    }
    s.push_str("}\npub fn mk(kind: usize, id: u32) -> Tok { match kind {\n");
    for i in 0..g.terms.len() {
        let v = match shape(i) {
            Shape::Unit => String::new(),
            Shape::One => "(id)".into(),
            Shape::Two => "(id, 7, id + 1)".into(),
            Shape::StructOne => "{ a: id, z: 9 }".into(),
            Shape::StructTwo => "{ a: id, z: 9, b: id + 1 }".into(),
        };
        s.push_str(&format!("  {} => Tok::T{}{},\n", i, i, v));
    }
    s.push_str("  _ => panic!(\"no such token\") } }\n");
    s
}
/// the Rust type of non-terminals with value type number k; several of equal length, or equal up to
/// the order of their parts
pub fn ty_text(k: usize) -> String {
    match k {
        3 => "(Ty<3>, u8)".into(),
        4 => "(u8, Ty<3>)".into(),
        5 => "Option<Ty<3>>".into(),
        6 => "Vec<Ty<3>>".into(),
        7 => "Box<Ty<3>>".into(),
        8 => "[Ty<3>; 1]".into(),
        9 => "Result<Ty<3>, u8>".into(),
        10 => "Result<Ty<3>, i8>".into(),
        11 => "(Ty<3>,)".into(),
        12 => "Vec<Ty<4>>".into(),
        13 => "std::vec::Vec<Ty<5>>".into(),
        14 => "(Ty<3>, i8)".into(),
        15 => "((Ty<3>, u8), ())".into(),
        16 => "ty<1>".into(),
        17 => "TY<1>".into(),
        // the same last segment, or no path at all
        18 => "left::Loc<3>".into(),
        19 => "right::Loc<3>".into(),
        20 => "left::Loc<4>".into(),
        21 => "&'static Ty<3>".into(),
        22 => "&'static mut Ty<3>".into(),
        23 => "&'static Ty<4>".into(),
        24 => "Box<dyn Vv2>".into(),
        25 => "Box<dyn Vv2 + Send>".into(),
        26 => "[Ty<3>; 2]".into(),
        27 => "Option<Ty<4>>".into(),
        k => format!("Ty<{}>", k),
    }
}
pub const TYPES: usize = 18;
/// a value of that type around the given one
fn ty_make(k: usize, e: &str) -> String {
    match k {
        3 => format!("(Ty({}), 3)", e),
        4 => format!("(4, Ty({}))", e),
        5 => format!("Some(Ty({}))", e),
        6 | 12 | 13 => format!("vec![Ty({})]", e),
        7 => format!("Box::new(Ty({}))", e),
        8 => format!("[Ty({})]", e),
        9 | 10 => format!("Ok(Ty({}))", e),
        11 => format!("(Ty({}),)", e),
        14 => format!("(Ty({}), -3)", e),
        15 => format!("((Ty({}), 5), ())", e),
        16 => format!("ty({})", e),
        17 => format!("TY({})", e),
        18 | 20 => format!("left::Loc({})", e),
        19 => format!("right::Loc({})", e),
        21 | 23 => format!("Box::leak(Box::new(Ty({}))) as &Ty<_>", e),
        22 => format!("Box::leak(Box::new(Ty({})))", e),
        24 => format!("Box::new(Ty::<1>({})) as Box<dyn Vv2>", e),
        25 => format!("Box::new(Ty::<2>({})) as Box<dyn Vv2 + Send>", e),
        26 => format!("[Ty({}), Ty(rt::V::Pay(vec![]))]", e),
        27 => format!("Some(Ty({}))", e),
        _ => format!("Ty({})", e),
    }
}
pub fn render_macro_body(g: &Gram) -> String {
    let mut s = String::from("enum Tok {\n");
    for (i, t) in g.terms.iter().enumerate() {
        let v = match shape(i) {
            Shape::Unit => String::new(),
            Shape::One => "(<u32>)".into(),
            Shape::Two => "(<u32>, _, <u32>)".into(),
            Shape::StructOne => "{ a: <u32>, .. }".into(),
            // fields in another order than declared: payloads come in pattern order
            Shape::StructTwo => "{ b: <u32>, z: _, a: <u32> }".into(),
        };
        s.push_str(&format!("  {:?} => Tok::T{}{},\n", t, i, v));
    }
    s.push_str("}\n");
    for (ni, nt) in g.nts.iter().enumerate() {
        s.push_str(&format!("{}{}: {} = {{\n", if nt.public { "pub " } else { "" }, nt.name, ty_text(nt.ty)));
        for (pi, p) in nt.prods.iter().enumerate() {
            let mut args = vec![];
            for (k, x) in p.rhs.iter().enumerate() {
                let m = if p.mutable[k] { "mut " } else { "" };
                if let Some(b) = p.binder(k) {
                    s.push_str(&format!("<{}{}:{}> ", m, b, g.sym(*x)));
                    // (a mutable binding is used as one)
                    args.push(if p.mutable[k] { format!("{{ let _ = &mut {}; {}.v() }}", b, b) } else { format!("{}.v()", b) });
                } else {
                    s.push_str(&format!("{} ", g.sym(*x)));
                }
            }
            let (tn, tp) = p.tag(ni, pi);
            s.push_str(&format!("=> {},\n", ty_make(nt.ty, &format!("node({}, {}, vec![{}])", tn, tp, args.join(", ")))));
        }
        s.push_str("};\n");
    }
    s
}

/// value built by the actions of the rendered grammar
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum V {
    Pay(Vec<u32>),
    Node(usize, usize, usize, Vec<V>),
}
pub fn expected_value(g: &Gram, t: &Tree, seq: &mut usize) -> V {
    match t {
        Tree::Tok(k, pos) => {
            let id = *pos * 10;
            V::Pay(match shape(*k) {
                Shape::Unit => vec![],
                Shape::One => vec![id],
                Shape::Two => vec![id, id + 1],
                Shape::StructOne => vec![id],
                Shape::StructTwo => vec![id + 1, id],
            })
        }
        Tree::Node(n, p, c) => {
            let vs: Vec<V> = c.iter().map(|x| expected_value(g, x, seq)).collect();
            let pr = &g.nts[*n].prods[*p];
            let args = vs.into_iter().enumerate().filter(|(i, _)| pr.bound[*i]).map(|(_, v)| v).collect();
            let s = *seq;
            *seq += 1;
            let (tn, tp) = pr.tag(*n, *p);
            V::Node(tn, tp, s, args)
        }
    }
}

// ------------------------------------------------------------------ the suite
pub fn curated() -> Vec<Gram> {
    let src: &[(&str, &str)] = &[
        ("expr", "pub E = E + T | T ; T = T * F | F ; F = ( E ) | id"),
        ("parens", "pub S = S ( S ) | "),
        ("list", "pub L = L , i | i"),
        ("rlist", "pub L = i , L | i"),
        ("opt", "pub S = O c ; O = b | "),
        ("nullable_prefix", "pub A = B c ; B = b | "),
        ("nullable_chain", "pub S = A B C d ; A = a | ; B = b | ; C = c |"),
        ("late_nullable", "pub S = X y ; X = P Q ; P = R ; R = ; Q = q | P"),
        ("order1", "pub S = A x ; A = B ; B = C ; C = D ; D = d | "),
        ("order2", "D = d | ; C = D ; B = C ; A = B ; pub S = A x"),
        ("order3", "C = c | ; pub S = A B ; B = C t ; A = a C |"),
        ("lr1_not_lalr", "pub S = a A d | b B d | a B e | b A e ; A = c ; B = c"),
        ("dragon", "pub S = C C ; C = c C | d"),
        ("pal", "pub S = a S a | b S b | c"),
        ("empty_only", "pub S ="),
        ("unit", "pub S = A ; A = B ; B = C ; C = x"),
        ("two_entries", "pub E = E + T | T ; pub T = n | ( E )"),
        ("three_entries", "pub A = a B | c ; pub B = b C | A d ; pub C = c"),
        ("entry_used_inside", "pub S = x T y ; pub T = S z | w"),
        ("unproductive", "pub S = a U | b ; U = c U"),
        ("unproductive_nullable_after", "pub S = a U N b | d ; U = c U ; N = n |"),
        ("no_prods", "pub S = a X | b ; X = !"),
        ("unreachable", "pub S = a ; Z = z Z | S"),
        ("unused_term", "pub S = a S | ; Z = q w e"),
        ("mutual", "pub A = a B | ; B = b A | c"),
        ("deep_eps", "pub S = a A B C D e ; A = ; B = A A ; C = B A B ; D = C B A"),
        ("eps_middle", "pub S = a M b M c ; M = m |"),
        ("left_eps", "pub S = M S x | y ; M ="),
        ("json", "pub V = { O } | [ A ] | s | n ; O = | P ; P = s : V | P , s : V ; A = | L ; L = V | L , V"),
        ("lua_like", "pub B = St R ; St = | St X ; X = id eq E sc | call sc ; R = | ret E sc ; E = id | n | E plus n"),
        ("ternary", "pub E = c q E col E | c"),
        ("if_then", "pub S = if e S el S | if e S end | x"),
        ("stmt_list", "pub P = P S sc | ; S = id as E | pr E ; E = E op A | A ; A = n | id | lp E rp"),
        ("same_term_diff_pos", "pub S = x x x | y x"),
        ("long", "pub S = a b c d e f g h i j k l m n o p q r s t u v w x y z"),
        ("la_split", "pub S = A x | B y ; A = q A | q ; B = q B r | q r"),
        ("nested_nullable", "pub S = F G ; F = f | G G ; G = g"),
        ("many_nullable_ends", "pub S = a A B ; A = x | ; B = y |"),
        ("same_act", "pub S = a B | B a a | B b | b B a ; B = c | d | e B | B2 e ; B2 = f B f | g"),
        ("same_act_pos", "pub S = b n n | c n n | b M M | c M M | d S e | e S M ; M = f b b | g b b"),
        ("same_act_payload", "pub E = E p T | E m T | T ; T = T s F | T d F | F ; F = n | l E r | m F | x"),
        ("nullable_wide", "pub L = L O | c ; O = a c | b c | a a | d d |"),
        ("nullable_wide2", "pub S = x L O y | L O ; L = L O z | c | ; O = a | b | d | e | f g |"),
        ("nt_alias", "pub S = A x | B x y | C ; A = p ; B = q ; C = A z | r S"),
        ("prod_alias", "pub S = x y S | z | w z z | x S"),
        ("prefix_share", "pub S = a b c | a b d | a e"),
        // rows of the tables that agree in which columns they have, and not in what is in them
        ("levels", "pub L0 = L0 o0 L1 | L1 ; L1 = L1 o1 L2 | L2 ; L2 = L2 o2 L3 | L3 ; L3 = L3 o3 L4 | L4 ; L4 = L4 o4 L5 | L5 ; L5 = L5 o5 L6 | L6 ; L6 = L6 o6 L7 | L7 ; L7 = L7 o7 L8 | L8 ; L8 = L8 o8 L9 | L9 ; L9 = ( L0 ) | [ L0 ] | n"),
        ("levels_right", "pub S = R1 | x S ; R1 = R2 o1 R1 | R2 ; R2 = R3 o2 R2 | R3 ; R3 = R4 o3 R3 | R4 ; R4 = R5 o4 R4 | R5 ; R5 = R6 o5 R5 | R6 ; R6 = R7 o6 R6 | R7 ; R7 = ( R1 ) | m R7 | n"),
        ("brackets", "pub S = ( S ) S | [ S ] S | < S > S | "),
        ("same_columns", "pub S = a X | b X | c X | d Y ; X = P Q R T U V ; Y = P Q R T U W ; P = p | ; Q = q | ; R = r | ; T = t ; U = u | ; V = v ; W = w | S"),
        // conflicts
        ("dangling_else", "pub S = i S e S | i S | x"),
        ("amb_expr", "pub E = E + E | n"),
        ("amb_expr2", "pub E = E + E | E * E | n"),
        ("rr_simple", "pub S = A | B ; A = x ; B = x"),
        ("rr_eps", "pub S = A B x ; A = | a ; B = | a"),
        ("rr_la", "pub S = A t | B t ; A = x ; B = x"),
        ("rr_deep", "pub S = a A t | a B t | b A u | b B v ; A = x ; B = x"),
        ("cyclic", "pub S = S | a"),
        ("cyclic2", "pub S = A | a ; A = S"),
        ("cyclic3", "pub S = S S | a |"),
        ("cyclic4", "pub S = A S | a ; A ="),
        ("cyclic_inner", "pub X = a A ; A = b | A"),
        ("cyclic_inner2", "A = b | A ; pub X = a A c"),
        ("cyclic_inner3", "pub X = a A b ; A = B | c ; B = A | d"),
        ("cyclic_inner4", "B = A ; A = B | c | ; pub X = a A b | A"),
        ("cyclic_null", "pub X = a A b ; A = N A | c ; N ="),
        ("cyclic_null2", "pub X = a A b ; A = A N | c ; N = n |"),
        ("cyclic_eps", "pub S = S |"),
        ("ra_order", "A = S ; pub S = A | a"),
        ("hidden_left", "pub S = B S a | a ; B = | b"),
        ("sr_eps", "pub S = A x S | ; A = | x"),
        ("sr_list", "pub L = L i | i L | i"),
        ("eps_dup", "pub S = A a ; A = B | C ; B = ; C ="),
        // reference and parser alike reduce for ever on `a t` (known finding)
        ("endless", "pub X = D N U ; D = A ; A = D | a ; N = t ; U = U a"),
        ("not_lr1", "pub S = A a b | B a c ; A = ; B ="),
    ];
    let mut v: Vec<Gram> = src.iter().map(|(n, t)| gram(n, t)).collect();
    for n in [8usize, 15, 16, 31, 32, 64] {
        let a = vec!["a"; n].join(" ");
        v.push(gram(&format!("long_rec{}", n), &format!("pub S = {} S | b | c S d | {} T | e ; T = {} f | S g", a, a, a)));
    }
    let get = |n: &str| gram(n, src.iter().find(|x| x.0 == n).unwrap().1);
    for (n, k) in [
        ("lr1_not_lalr", 16),
        ("lr1_not_lalr", 32),
        ("lr1_not_lalr", 64),
        ("lr1_not_lalr", 256),
        ("dragon", 128),
        ("la_split", 8),
        ("nullable_chain", 256),
        ("rr_deep", 32),
    ] {
        v.push(pad_terms(get(n), k));
    }
    // names that are written in unusual ways: quotes, spaces, braces, other scripts, cases
    let odd = [" a ", "\"", "{}", "\n", "\u{e9}", "\\", "", "A", "a", "a, b", "'", "%s", "{0}", "\t\r", "\u{0}", "\\n", "end-of-input", "\u{1f600}", "#x", "//", "/*", "$", " ", "\u{200b}", "e\u{301}", "AA", "aA", "Aa"];
    for (n, skip) in [("expr", 0usize), ("json", 5), ("stmt_list", 12), ("long", 0), ("nullable_chain", 7), ("dangling_else", 3), ("long", 2)] {
        let mut g = get(n);
        let m = odd.len();
        for (i, t) in g.terms.iter_mut().enumerate() {
            *t = odd[(i + skip) % m].to_string();
        }
        g.name = format!("{}_odd{}", g.name, skip);
        v.push(g);
    }
    // which symbols are bound: none of long productions, the first, the last, every second, terminals only
    for n in ["json", "expr", "stmt_list", "lua_like", "if_then", "prod_alias", "deep_eps", "ternary", "long_bodies"] {
        for mask in 0..if n == "long_bodies" { 7usize } else { 6 } {
            let mut g = if n == "long_bodies" { gram(n, "pub S = S a B c D e | B | z a B c D e D c B a D e w ; B = x D y D z | u u u u u | ; D = B v v B | w B | d") } else { get(n) };
            for nt in g.nts.iter_mut() {
                for p in nt.prods.iter_mut() {
                    let l = p.rhs.len();
                    for k in 0..l {
                        p.bound[k] = match mask {
                            0 => l < 3,
                            1 => k == 0,
                            2 => k + 1 == l,
                            3 => k % 2 == 1,
                            4 => !rhs_kind(&p.rhs[k]),
                            5 => rhs_kind(&p.rhs[k]) && l != 2,
                            _ => true,
                        };
                        p.mutable[k] = mask == 3 || mask == 6;
                    }
                }
            }
            g.name = format!("{}_bound{}", g.name, mask);
            v.push(g);
        }
    }
    // many terminals expected in one state
    let mut g = Gram { name: "wide_expected".into(), nts: vec![], terms: (0..70).map(|i| format!("w{}", i)).collect() };
    g.nts.push(Nt { name: "S".into(), public: true, ty: 0, prods: vec![Prod::new(vec![]), Prod::new(vec![Sym::N(0), Sym::N(1), Sym::N(2)])] });
    g.nts.push(Nt { name: "A".into(), public: false, ty: 1, prods: (0..35).map(|i| Prod::new(vec![Sym::T(2 * i)])).collect() });
    g.nts.push(Nt { name: "B".into(), public: false, ty: 2, prods: (0..34).map(|i| Prod::new(vec![Sym::T(69 - 2 * i), Sym::T(i)])).chain([Prod::new(vec![])]).collect() });
    v.push(g);
    // all values of one type; or of many
    for n in ["nullable_chain", "deep_eps", "eps_middle", "many_nullable_ends", "left_eps", "json", "stmt_list", "two_entries"] {
        for (k, f) in [(0usize, 0usize), (1, 5), (2, 3), (3, 3), (4, 3), (5, 7)] {
            let mut g = get(n);
            for (i, nt) in g.nts.iter_mut().enumerate() {
                nt.ty = match k {
                    0 => f,
                    1 => 3 + (i * f) % (TYPES - 3),
                    2 => [3, 4, 14][i % f],
                    3 => [1, 16, 17][i % f],
                    4 => [18, 19, 20][i % f],
                    _ => [21, 24, 22, 25, 23, 26, 5, 27][(i * f) % 8],
                };
            }
            g.name = format!("{}_ty{}", g.name, k);
            v.push(g);
        }
    }
    // binders whose names say something to Rust, or nothing
    for n in ["expr", "json", "stmt_list", "deep_eps", "ternary", "if_then"] {
        for style in [3u8, 4] {
            let mut g = get(n);
            for nt in g.nts.iter_mut() {
                for p in nt.prods.iter_mut() {
                    p.style = style;
                }
            }
            g.name = format!("{}_names{}", g.name, style);
            v.push(g);
        }
    }
    // terminal names that look like something else
    for (n, names) in [
        ("expr", ["'a'", "a", "\"a\"", "`a`", "a, b", "", "(a)", "r#a"]),
        ("json", ["", " ", "'", "''", ", ", ",", "end-of-input", "\\a"]),
        ("stmt_list", ["a", " a", "a ", "A", "a\n", "'a'", "\u{e9}", "e\u{301}"]),
        ("nullable_chain", ["\"", "'x", "x'", "{a}", "{}", "%s", "\0", "\t"]),
    ] {
        let mut g = get(n);
        for (i, t) in g.terms.iter_mut().enumerate() {
            *t = if i < names.len() { names[i].to_string() } else { format!("'{}'", i) };
        }
        g.name = format!("{}_quoted", n);
        v.push(g);
    }
    for (n, k) in [("nt_alias", 256), ("json", 64), ("two_entries", 256), ("nullable_chain", 128), ("lr1_not_lalr", 256)] {
        v.push(pad_nts(get(n), k));
    }
    for (n, k) in [("prod_alias", 16), ("prod_alias", 256), ("json", 8), ("expr", 32)] {
        v.push(pad_prods(get(n), k));
    }
    v
}

/// grammars whose generated code is looked at, but not compiled: every way of laying names that are alike,
/// odd or empty over the terminals of small grammars
pub fn renamed() -> Vec<Gram> {
    let sets: [&[&str]; 5] = [
        &["", "a", "b", "c", "d", "e", "f", "g"],
        &["a", "a b", "a b c", "a,", "a, b", " a", "a ", "ab", "b", "", ", ", ","],
        &["'a'", "a", "\"a\"", "`a`", "<a>", "A", "'", "(a)", "[a]", "{a}", "r#a", "\\a"],
        &["x", "x1", "x10", "x2", "X", "x_", "_x", "xx", "x-", "-x", "1", "10", "2", "0"],
        &[
            "a terminal with a rather long name, which takes more room than most do, in capitals and otherwise: A TERMINAL WITH A LONG NAME",
            "a terminal with a rather long name, which takes more room than most do, in capitals and otherwise: A TERMINAL WITH A LONG NAME.",
            "short", "\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}", "\u{65e5}\u{672c}\u{8a9e}", "e\u{301}", "\u{301}", "a terminal", "end-of-input", "\u{feff}", "\n", "\r\n", "\t", "\0",
        ],
    ];
    let base = curated();
    let mut v = vec![];
    for n in ["expr", "json", "stmt_list", "long", "nullable_chain", "dangling_else", "if_then", "ternary", "two_entries", "left_eps", "deep_eps", "la_split"] {
        let g0 = match base.iter().find(|g| g.name == n) {
            Some(g) => g,
            None => continue,
        };
        for (k, set) in sets.iter().enumerate() {
            for off in 0..set.len() {
                let mut g = g0.clone();
                for (i, t) in g.terms.iter_mut().enumerate() {
                    *t = if i < set.len() { set[(i + off) % set.len()].to_string() } else { format!("{}{}", set[(i + off) % set.len()], i) };
                }
                let mut u = g.terms.clone();
                u.sort();
                u.dedup();
                if u.len() != g.terms.len() {
                    continue;
                }
                g.name = format!("{}_named{}_{}", n, k, off);
                v.push(g);
            }
        }
    }
    v
}

/// many non-terminals that can be empty or lead to one another, declared in every order: first sets that need many
/// rounds, in rounds of every kind (only "can be empty" changes, only one set grows, nothing changes for a while ...)
pub fn chains() -> Vec<Gram> {
    let mut out = vec![];
    let mut rng = Rng::new(4021);
    for k in 0..60usize {
        let n = 8 + rng.below(24);
        // position in the chain -> index in the grammar
        let mut at: Vec<usize> = (0..n).collect();
        match k % 4 {
            0 => {}
            1 => at[1..].reverse(),
            _ => {
                for i in (2..n).rev() {
                    let j = 1 + rng.below(i);
                    at.swap(i, j);
                }
            }
        }
        let nterms = 2 + rng.below(n);
        let mut g = Gram { name: format!("chain{}", k), nts: vec![], terms: (0..nterms).map(|i| format!("t{}", i)).collect() };
        for i in 0..n {
            g.nts.push(Nt { name: format!("C{}", i), public: i == 0, ty: i % 3, prods: vec![] });
        }
        for i in 0..n {
            let me = at[i];
            let mut next = |rng: &mut Rng| Sym::N(at[(i + 1 + rng.below(3)).min(n - 1)]);
            let mut ps: Vec<Vec<Sym>> = vec![];
            if i + 1 == n {
                ps.push(vec![]);
                if rng.below(2) == 0 {
                    ps.push(vec![Sym::T(rng.below(nterms))]);
                }
            } else if i == 0 && k % 2 == 1 {
                // everything behind everything: the start's set needs all the empty flags
                ps.push((1..n).map(|j| Sym::N(at[j])).collect());
            } else {
                match rng.below(7) {
                    0 => ps.push(vec![next(&mut rng)]),
                    1 => ps.push(vec![next(&mut rng), next(&mut rng)]),
                    2 => ps.push(vec![next(&mut rng), Sym::T(rng.below(nterms))]),
                    3 => ps.push(vec![next(&mut rng), next(&mut rng), next(&mut rng)]),
                    4 => {
                        ps.push(vec![Sym::T(rng.below(nterms))]);
                        ps.push(vec![next(&mut rng), next(&mut rng)]);
                    }
                    5 => {
                        ps.push(vec![next(&mut rng)]);
                        ps.push(vec![]);
                    }
                    _ => {
                        ps.push(vec![next(&mut rng), Sym::T(rng.below(nterms)), next(&mut rng)]);
                        ps.push(vec![next(&mut rng)]);
                    }
                }
                if k % 3 == 0 && rng.below(6) == 0 {
                    // a way back
                    ps.push(vec![Sym::N(at[rng.below(i + 1)]), Sym::T(rng.below(nterms))]);
                }
            }
            g.nts[me].prods = ps.into_iter().map(Prod::new).collect();
        }
        out.push(g);
    }
    out
}

/// terminal i becomes terminal i * k; the ones between are never used
pub fn pad_terms(mut g: Gram, k: usize) -> Gram {
    let n = g.terms.len();
    let mut t: Vec<String> = (0..(n - 1) * k + 1).map(|i| format!("pad{}", i)).collect();
    for (i, x) in g.terms.iter().enumerate() {
        t[i * k] = x.clone();
    }
    g.terms = t;
    for p in g.nts.iter_mut().flat_map(|nt| nt.prods.iter_mut()) {
        for x in p.rhs.iter_mut() {
            if let Sym::T(i) = x {
                *i *= k;
            }
        }
    }
    g.name = format!("{}_terms{}", g.name, k);
    g
}
/// unused non-terminals in between, so that after lowering (which makes two of every public one)
/// the first two private ones are k apart
pub fn pad_nts(mut g: Gram, k: usize) -> Gram {
    let first = g.nts.iter().position(|n| !n.public).unwrap_or(0);
    for nt in g.nts.iter_mut() {
        for p in nt.prods.iter_mut() {
            for x in p.rhs.iter_mut() {
                if let Sym::N(i) = x {
                    if *i > first {
                        *i += k - 1;
                    }
                }
            }
        }
    }
    for j in 0..k - 1 {
        let nt = Nt { name: format!("Pad{}", j), public: false, ty: 0, prods: vec![Prod::new(vec![Sym::T(0)])] };
        g.nts.insert(first + 1, nt);
    }
    g.name = format!("{}_nts{}", g.name, k);
    g
}
/// unused productions (of a terminal nobody sends) before each production but the first, so that
/// they are k apart
pub fn pad_prods(mut g: Gram, k: usize) -> Gram {
    let t = g.terms.len();
    g.terms.push("pad".into());
    for nt in g.nts.iter_mut() {
        let old = std::mem::take(&mut nt.prods);
        for (i, p) in old.into_iter().enumerate() {
            if i > 0 {
                for j in 1..k {
                    // pad ... pad x: distinct, and no conflict with anything
                    let mut rhs = vec![Sym::T(t)];
                    rhs.extend((0..6).map(|b| Sym::T(if (j >> b) & 1 == 1 { t } else { 0 })));
                    rhs.extend((6..9).map(|b| Sym::T(if (j >> b) & 1 == 1 { t } else { 0 })));
                    nt.prods.push(Prod::new(rhs));
                }
            }
            nt.prods.push(p);
        }
        if k > 100 {
            break;
        }
    }
    g.name = format!("{}_prods{}", g.name, k);
    g
}

pub fn big() -> Vec<Gram> {
    let mut out = vec![];
    // many terminals, each its own production
    let mut g = Gram { name: "big_terms".into(), nts: vec![], terms: (0..300).map(|i| format!("k{}", i)).collect() };
    g.nts.push(Nt { name: "S".into(), public: true, ty: 0, prods: (0..300).map(|i| Prod::new(vec![Sym::T(i)])).collect() });
    out.push(g);
    // a production of more than 256 symbols, and one of 257
    for n in [256usize, 300] {
        let mut g = Gram { name: format!("big_rhs{}", n), nts: vec![], terms: vec!["a".into(), "b".into()] };
        g.nts.push(Nt { name: "S".into(), public: true, ty: 0, prods: vec![Prod::new(vec![Sym::T(0); n]), Prod::new(vec![Sym::T(1), Sym::N(1)])] });
        g.nts.push(Nt { name: "A".into(), public: false, ty: 1, prods: vec![Prod::new(vec![Sym::T(0); n])] });
        for nt in g.nts.iter_mut() {
            for p in nt.prods.iter_mut() {
                for k in 0..p.rhs.len() {
                    p.bound[k] = k % 90 == 0;
                }
            }
        }
        out.push(g);
    }
    // more than 256 non-terminals: a chain
    let mut g = Gram { name: "big_nts".into(), nts: vec![], terms: vec!["a".into(), "b".into()] };
    for i in 0..270 {
        let prods = if i < 269 {
            vec![Prod::new(vec![Sym::N(i + 1)])]
        } else {
            vec![Prod::new(vec![Sym::T(0)]), Prod::new(vec![Sym::T(1), Sym::N(100)])]
        };
        g.nts.push(Nt { name: format!("C{}", i), public: i == 0, ty: i % 3, prods });
    }
    out.push(g);
    // more than 65536 / 256 productions is covered by big_terms; many states
    let mut g = Gram { name: "big_states".into(), nts: vec![], terms: (0..8).map(|i| format!("s{}", i)).collect() };
    let mut prods = vec![];
    let mut r = Rng::new(77);
    for i in 0..90usize {
        let mut rhs: Vec<Sym> = (0..3).map(|k| Sym::T((i / 8usize.pow(k)) % 8)).collect();
        rhs.extend((0..5).map(|_| Sym::T(r.below(8))));
        prods.push(Prod::new(rhs));
    }
    g.nts.push(Nt { name: "S".into(), public: true, ty: 0, prods });
    out.push(g);
    // one item with very many lookaheads, at more than one place in a production
    let mut g = Gram { name: "big_la".into(), nts: vec![], terms: (0..150).map(|i| format!("q{}", i)).collect() };
    g.nts.push(Nt { name: "S".into(), public: true, ty: 0, prods: vec![Prod::new(vec![]), Prod::new(vec![Sym::N(0), Sym::N(1), Sym::N(2)])] });
    g.nts.push(Nt { name: "A".into(), public: false, ty: 1, prods: (0..75).map(|i| Prod::new(vec![Sym::T(i)])).chain([Prod::new(vec![Sym::T(75), Sym::N(1), Sym::T(75)])]).collect() });
    g.nts.push(Nt { name: "B".into(), public: false, ty: 2, prods: (76..150).map(|i| Prod::new(vec![Sym::T(i)])).chain([Prod::new(vec![])]).collect() });
    out.push(g);
    // more than 256 entry points
    let mut g = Gram { name: "big_pubs".into(), nts: vec![], terms: vec!["a".into(), "b".into()] };
    for i in 0..260 {
        let prods = if i % 50 == 7 { vec![Prod::new(vec![Sym::T(1), Sym::N(i)]), Prod::new(vec![Sym::T(0)])] } else { vec![Prod::new(vec![Sym::T(i % 2)])] };
        g.nts.push(Nt { name: format!("P{}", i), public: true, ty: i % 3, prods });
    }
    out.push(g);
    out
}

/// the grammars used with a given seed: curated first, then random ones
pub fn random_suite(seed: u64, n: usize, small: bool) -> Vec<Gram> {
    let mut rng = Rng::new(seed);
    (0..n)
        .map(|i| {
            let p = if i % 8 == 2 && !small {
                // unit and empty productions: conflicts in states with one item per production
                RandParams { nts: 4, terms: 2, prods: 3, len: 2, publics: 2 }
            } else if small || i % 3 == 0 {
                RandParams { nts: 3, terms: 3, prods: 3, len: 3, publics: 2 }
            } else if i % 3 == 1 {
                RandParams { nts: 5, terms: 5, prods: 2, len: 4, publics: 2 }
            } else {
                RandParams { nts: 4, terms: 6, prods: 3, len: 3, publics: 3 }
            };
            if i % 8 == 5 && !small {
                wide_gram(&format!("r{}_{}", seed, i), &mut rng)
            } else if i % 4 == 3 && !small {
                lean_gram(&format!("r{}_{}", seed, i), &mut rng)
            } else {
                random_gram(&format!("r{}_{}", seed, i), &mut rng, &p)
            }
        })
        .collect()
}

/// number of distinct sentences in a sample, over all entry points
pub fn sample_size(g: &Gram, n: usize) -> usize {
    let h = heights(g);
    let mut rng = Rng::new(5);
    let mut out: BTreeSet<(usize, Vec<usize>)> = BTreeSet::new();
    for e in g.publics() {
        for k in 0..n {
            let mut budget = 2 + rng.below(18);
            if let Some(t) = random_tree(g, e, h[e].unwrap_or(0) + k % 9, &h, &mut rng, &mut budget) {
                let mut y = vec![];
                t.yield_(&mut y);
                out.insert((e, y));
            }
        }
    }
    out.len()
}

/// random grammars that are mostly deterministic: recursive, separated by distinct terminals, with
/// empty productions sprinkled in
pub fn lean_gram(name: &str, rng: &mut Rng) -> Gram {
    let n = 2 + rng.below(5);
    let t = 3 + rng.below(6);
    let mut nts = vec![];
    for i in 0..n {
        let np = 1 + rng.below(3);
        let mut used = vec![];
        let mut prods = vec![];
        for p in 0..np {
            let mut rhs = vec![];
            let c = rng.below(10);
            if c < 2 && p > 0 {
                // empty
            } else if c < 4 && p > 0 {
                // left recursion with a separator
                rhs.push(Sym::N(i));
                rhs.push(Sym::T(rng.below(t)));
                if rng.chance(1, 2) {
                    rhs.push(Sym::N(rng.below(n)));
                }
            } else {
                let k = rng.below(t);
                if used.contains(&k) {
                    continue;
                }
                used.push(k);
                if !rng.chance(1, 5) {
                    rhs.push(Sym::T(k));
                }
                for _ in 0..rng.below(3) {
                    rhs.push(Sym::N(if rng.chance(2, 3) { (i + 1).min(n - 1) } else { rng.below(n) }));
                    if rng.chance(1, 2) {
                        rhs.push(Sym::T(rng.below(t)));
                    }
                }
            }
            let l = rhs.len();
            let mut pr = Prod::new(rhs);
            pr.random_style(rng);
            prods.push(pr);
        }
        nts.push(Nt { name: format!("N{}", i), public: i == 0 || rng.chance(1, 5), ty: palette(name, rng), prods });
    }
    Gram { name: name.into(), nts, terms: (0..t).map(|i| format!("t{}", i)).collect() }
}

/// random grammars around nullable non-terminals with many alternatives: lists of optional parts,
/// recursion before and after them
pub fn wide_gram(name: &str, rng: &mut Rng) -> Gram {
    let n = 2 + rng.below(4);
    let t = 6 + rng.below(7);
    let mut nts = vec![];
    // a pool of terminals, mostly used once, so that few conflicts arise
    let mut pool: Vec<usize> = (0..t).collect();
    for i in (1..t).rev() {
        pool.swap(i, rng.below(i + 1));
    }
    let mut next = 0;
    let mut fresh = |rng: &mut Rng| {
        next += 1;
        if rng.chance(1, 6) {
            rng.below(t)
        } else {
            pool[next % t]
        }
    };
    for i in 0..n {
        let mut rhss: Vec<Vec<Sym>> = vec![];
        if i == 0 || rng.chance(1, 3) {
            // sequences of non-terminals, perhaps recursive
            for _ in 0..1 + rng.below(2) {
                let mut rhs = vec![];
                if rng.chance(1, 2) {
                    rhs.push(Sym::T(fresh(rng)));
                }
                for _ in 0..2 + rng.below(4) {
                    rhs.push(Sym::N(if rng.chance(4, 5) { 1 + rng.below(n - 1) } else { rng.below(n) }));
                }
                if rng.chance(1, 2) {
                    rhs.push(Sym::T(fresh(rng)));
                }
                rhss.push(rhs);
            }
        }
        if i > 0 {
            for _ in 0..1 + rng.below(4) {
                let mut rhs = vec![Sym::T(fresh(rng))];
                if rng.chance(1, 3) {
                    rhs.push(Sym::T(fresh(rng)));
                }
                if rng.chance(1, 4) {
                    rhs.push(Sym::N(i));
                }
                rhss.push(rhs);
            }
            if rng.chance(1, 4) {
                rhss.push(vec![Sym::N(i), Sym::T(fresh(rng))]);
            }
            if rng.chance(1, 2) {
                let k = rng.below(rhss.len() + 1);
                rhss.insert(k, vec![]);
            }
        }
        let mut prods: Vec<Prod> = vec![];
        for rhs in rhss {
            if prods.iter().any(|p| p.rhs == rhs) {
                continue;
            }
            let mut p = Prod::new(rhs);
            p.random_style(rng);
            prods.push(p);
        }
        nts.push(Nt { name: format!("N{}", i), public: i == 0 || rng.chance(1, 6), ty: palette(name, rng), prods });
    }
    Gram { name: name.into(), nts, terms: (0..t).map(|i| format!("t{}", i)).collect() }
}
