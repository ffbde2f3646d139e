//@ module emitted
//@ header
use vstd::prelude::*;
use vstd::pervasive::cloned;
use crate::prelude::*;
use crate::theory::*;
use crate::items::*;
use crate::automaton::*;
use crate::table::*;
use crate::parser::*;
//@ if det
use crate::det::*;
//@ endif
use crate::link::*;
use crate::eval::*;
use crate::grammar::*;
use crate::lr1::LR1Item;
use crate::lr_common::{StateIdx, LRAction, LRTable};
use crate::codegen::SemanticActionIdx;
use crate::{ast, syn};
use crate::ast::{Pattern, FieldPattern};
use crate::syn::EId;
//@ raw
// ------------------------------------------------------------------ what emitted code means
pub type ECell = Option<crate::driver::LRAction>;
/// `static X: [[T; inner]; outer] = [[..], ..];`
pub struct Table2<T> { pub inner: usize, pub outer: usize, pub rows: Vec<Vec<T>> }
/// `static X: [T; n] = [..];`
pub struct Table1<T> { pub n: usize, pub items: Vec<T> }
impl<T> Table2<T> {
    /// the array has the declared dimensions (the compiler checks the same)
    pub open spec fn fits(&self) -> bool {
        self.rows@.len() == self.outer && forall |i: int| 0 <= i < self.rows@.len() ==> (#[trigger] self.rows@[i])@.len() == self.inner
    }
}
impl<T> Table1<T> {
    pub open spec fn fits(&self) -> bool { self.items@.len() == self.n }
}
pub open spec fn table_at<A>(t: SMap<StateIdx, crate::collections::Map<Option<TerminalIdx>, LRAction<A>>>, s: StateIdx, la: Option<TerminalIdx>) -> Option<LRAction<A>> {
    if t.dom().contains(s) && t[s]@.dom().contains(la) { Some(t[s]@[la]) } else { None }
}
pub open spec fn goto_at(t: SMap<StateIdx, crate::collections::Map<NonTerminalIdx, StateIdx>>, s: StateIdx, n: NonTerminalIdx) -> Option<StateIdx> {
    if t.dom().contains(s) && t[s]@.dom().contains(n) { Some(t[s]@[n]) } else { None }
}
/// the emitted cell says what the table's cell says, with the length of the reduced production
pub open spec fn ecell_ok<A>(gram: &Grammar<A>, c: Option<LRAction<SemanticActionIdx>>, e: ECell) -> bool {
    match c {
        None => e is None,
        Some(LRAction::Accept) => e == Some(crate::driver::LRAction::Accept),
        Some(LRAction::Shift(j)) => e is Some && match e->0 { crate::driver::LRAction::Shift { next_state } => next_state as int == j.0, _ => false },
        Some(LRAction::Reduce(n, q, a)) => e is Some && match e->0 {
            crate::driver::LRAction::Reduce { non_terminal_idx, n_symbols, semantic_action_idx } =>
                non_terminal_idx as int == n.0 && n_symbols as int == gram.non_terminals@[n.0 as int].productions@[q.0 as int].symbols@.len()
                && semantic_action_idx == a.0,
            _ => false,
        },
    }
}
pub open spec fn ered_ok<A>(gram: &Grammar<A>, c: Option<LRAction<SemanticActionIdx>>) -> bool {
    match c { Some(LRAction::Reduce(n, q, _)) => gram.gv().has(n.0 as int, q.0 as int), _ => true }
}
/// the names of the terminals below k with an action in state i
pub open spec fn exp_to<A>(gram: &Grammar<A>, t: LRTable<A>, i: int, k: nat) -> Seq<Seq<char>>
    decreases k
{
    if k == 0 { Seq::empty() }
    else {
        let r = exp_to(gram, t, i, (k - 1) as nat);
        if t.at(StateIdx(i as usize), Some(TerminalIdx((k - 1) as u32))) is Some { r.push(gram.terminals@[k - 1]@) } else { r }
    }
}
// ------------------------------------------------------------------ emitted action functions
/// a statement taking a value off the value stack: `value_stack.pop();`,
/// `let [mut] name = value_stack.pop().unwrap().method();`
pub enum PopStmt { Pop, Bind { mutable: bool, name: syn::Ident, method: syn::Ident } }
/// `fn name(value_stack) { pops; value_stack.push(SemanticActionResult::variant(action)); }`
pub struct ActionFn { pub name: syn::Ident, pub pops: Vec<PopStmt>, pub variant: syn::Ident, pub action: syn::Expr }
/// an action function, or `static SEMANTIC_ACTIONS: [fn(..); n] = [names];`
pub enum Decl { Action(ActionFn), Table { n: usize, names: Vec<syn::Ident> } }
/// the extraction method for a symbol's values
pub open spec fn method_id(vn: Seq<usize>, s: Symbol) -> EId {
    match s { Symbol::NonTerminal(n) => EId::F1("non_terminal_{}"@, vn[n.0 as int] as int), Symbol::Terminal(t) => EId::F1("token_{}"@, t.0 as int) }
}
pub open spec fn pop_ok(vn: Seq<usize>, b: BoundSymbol, p: PopStmt) -> bool {
    match b.binder {
        None => p is Pop,
        Some(nm) => p is Bind && p->mutable == nm.mutable && p->name == nm.name && p->method.id() == method_id(vn, b.symbol),
    }
}
pub open spec fn pops_ok(vn: Seq<usize>, bs: Seq<BoundSymbol>, ps: Seq<PopStmt>) -> bool {
    ps.len() == bs.len() && forall |j: int| 0 <= j < ps.len() ==> pop_ok(vn, bs[bs.len() - 1 - j], #[trigger] ps[j])
}
pub open spec fn fn_ok(vn: Seq<usize>, n: int, q: int, p: Production<syn::Expr>, f: ActionFn) -> bool {
    &&& f.name.id() == EId::F2("nt{}p{}_action"@, n, q)
    &&& pops_ok(vn, p.symbols@, f.pops@)
    &&& f.variant.id() == EId::F1("NonTerminal{}"@, vn[n] as int)
    &&& f.action == p.action
}
/// the function of production p (of n, q), whose index is recorded as its action
pub open spec fn decl_ok(vn: Seq<usize>, n: int, q: int, p: Production<syn::Expr>, p2: Production<SemanticActionIdx>, decls: Seq<Decl>) -> bool {
    &&& p2.symbols == p.symbols
    &&& (p2.action.0 as int) < decls.len()
    &&& decls[p2.action.0 as int] is Action
    &&& fn_ok(vn, n, q, p, decls[p2.action.0 as int]->Action_0)
}
pub open spec fn named(decls: Seq<Decl>, names: Seq<syn::Ident>) -> bool {
    names.len() == decls.len() && forall |i: int| 0 <= i < decls.len() ==> (#[trigger] decls[i]) is Action && names[i] == decls[i]->Action_0.name
}
pub open spec fn nt_ok(vn: Seq<usize>, n: int, a: NonTerminal<syn::Expr>, b: NonTerminal<SemanticActionIdx>, decls: Seq<Decl>) -> bool {
    &&& b.non_terminal == a.non_terminal && b.return_ty == a.return_ty && b.public == a.public
    &&& b.productions@.len() == a.productions@.len()
    &&& forall |q: int| 0 <= q < a.productions@.len() ==> decl_ok(vn, n, q, a.productions@[q], #[trigger] b.productions@[q], decls)
}

// ------------------------------------------------------------------ emitted patterns
/// a Rust pattern; Field and Rest occur inside Struct (Rest also stands for `..` elsewhere)
pub enum RPat {
    Enum(syn::Path, Vec<RPat>), Struct(syn::Path, Vec<RPat>), Field(syn::Ident, Box<RPat>), Rest,
    Tuple(Vec<RPat>), Path(syn::Path), Lit(syn::Lit), Wild, Bind(syn::Ident),
}
/// a lone interpolation `#x`
pub trait Lone { spec fn lone(&self) -> RPat; fn rp(&self) -> (r: RPat) ensures r == self.lone(); }
impl Lone for syn::Path {
    open spec fn lone(&self) -> RPat { RPat::Path(*self) }
    fn rp(&self) -> (r: RPat) { RPat::Path(self.clone()) }
}
impl Lone for syn::Lit {
    open spec fn lone(&self) -> RPat { RPat::Lit(*self) }
    fn rp(&self) -> (r: RPat) { RPat::Lit(self.clone()) }
}
impl Lone for syn::Ident {
    open spec fn lone(&self) -> RPat { RPat::Bind(*self) }
    fn rp(&self) -> (r: RPat) { RPat::Bind(self.clone()) }
}
/// the types of a pattern's `<..>` holes, left to right
pub open spec fn tys(p: Pattern) -> Seq<syn::Type>
    decreases p
{
    match p {
        Pattern::Choose(t) => seq![t],
        Pattern::Enum(_, v) => tys_to(v, v.len() as nat),
        Pattern::Tuple(v) => tys_to(v, v.len() as nat),
        Pattern::Struct(_, v, _) => ftys_to(v, v.len() as nat),
        _ => Seq::empty(),
    }
}
pub open spec fn tys_to(v: Vec<Pattern>, i: nat) -> Seq<syn::Type>
    decreases v, i
{
    if i == 0 || i > v.len() { Seq::empty() } else { tys_to(v, (i - 1) as nat) + tys(v[i - 1]) }
}
pub open spec fn ftys_to(v: Vec<FieldPattern>, i: nat) -> Seq<syn::Type>
    decreases v, i
{
    if i == 0 || i > v.len() { Seq::empty() } else { ftys_to(v, (i - 1) as nat) + tys(v[i - 1].pattern) }
}
pub open spec fn f_id(k: int) -> EId { EId::F1("f{}"@, k) }
/// r is the declared pattern p; its holes are `_`, or the variables f<k>, f<k+1>, .. from left to right
pub open spec fn pat_ok(p: Pattern, bind: bool, k: int, r: RPat) -> bool
    decreases p
{
    match p {
        Pattern::Enum(path, v) => match r {
            RPat::Enum(path2, w) => path2 == path && w@.len() == v.len()
                && forall |i: int| 0 <= i < v.len() ==> pat_ok(v[i], bind, k + tys_to(v, i as nat).len(), #[trigger] w@[i]),
            _ => false,
        },
        Pattern::Tuple(v) => match r {
            RPat::Tuple(w) => w@.len() == v.len()
                && forall |i: int| 0 <= i < v.len() ==> pat_ok(v[i], bind, k + tys_to(v, i as nat).len(), #[trigger] w@[i]),
            _ => false,
        },
        Pattern::Struct(path, v, dots) => match r {
            RPat::Struct(path2, w) => path2 == path && w@.len() == v.len() + (if dots { 1int } else { 0 })
                && (dots ==> w@.last() == RPat::Rest)
                && forall |i: int| 0 <= i < v.len() ==> match #[trigger] w@[i] {
                    RPat::Field(f, q) => f == v[i].field_name && pat_ok(v[i].pattern, bind, k + ftys_to(v, i as nat).len(), *q),
                    _ => false,
                },
            _ => false,
        },
        Pattern::Path(path) => r == RPat::Path(path),
        Pattern::Underscore => r == RPat::Wild,
        Pattern::DotDot => r == RPat::Rest,
        Pattern::Lit(l) => r == RPat::Lit(l),
        Pattern::Choose(_) => if bind { r is Bind && r->Bind_0.id() == f_id(k) } else { r == RPat::Wild },
    }
}
/// `pat => idx`
pub struct IdxArm { pub pat: RPat, pub idx: usize }
/// `fn name(arg: &ty) -> usize { match arg { arms } }`
pub struct IdxFn { pub name: syn::Ident, pub arg: syn::Ident, pub ty: syn::Ident, pub arms: Vec<IdxArm> }
/// `pat => { ty::variant(idents) }`
pub struct ValArm { pub pat: RPat, pub ty: syn::Ident, pub variant: syn::Ident, pub idents: Vec<syn::Ident> }
/// `fn name(token: ty) -> result { match token { arms } }`
pub struct ValFn { pub name: syn::Ident, pub ty: syn::Ident, pub result: syn::Ident, pub arms: Vec<ValArm> }
/// `id(tys)`
pub struct Variant { pub id: syn::Ident, pub tys: Vec<syn::Type> }
/// `fn method(self) -> (tys) { match self { Self::variant(fields) => (fields), _ => unreachable!() } }`
pub struct ExtractFn { pub method: syn::Ident, pub tys: Vec<syn::Type>, pub variant: syn::Ident }
/// `enum name { variants }  impl name { fns }`
pub struct ResultTy { pub name: syn::Ident, pub variants: Vec<Variant>, pub fns: Vec<ExtractFn> }
#[verifier::external_body]
pub fn v_types(v: &Vec<&syn::Type>) -> (r: Vec<syn::Type>) ensures r@ == drefs(v@) { unimplemented!() }
/// `#head(#(#args),*)`: a constructor pattern, or an enum variant with its types
pub trait Head<B> { type Out; spec fn app(&self, b: B, r: Self::Out) -> bool; fn apply(&self, b: &B) -> (r: Self::Out) ensures self.app(*b, r); }
impl Head<Vec<RPat>> for syn::Path {
    type Out = RPat;
    open spec fn app(&self, b: Vec<RPat>, r: RPat) -> bool { r == RPat::Enum(*self, b) }
    #[verifier::external_body]
    fn apply(&self, b: &Vec<RPat>) -> (r: RPat) { unimplemented!() }
}
impl<'a> Head<Vec<&'a syn::Type>> for syn::Ident {
    type Out = Variant;
    open spec fn app(&self, b: Vec<&'a syn::Type>, r: Variant) -> bool { r.id == *self && r.tys@ == drefs(b@) }
    fn apply(&self, b: &Vec<&'a syn::Type>) -> (r: Variant) { Variant { id: self.clone(), tys: v_types(b) } }
}
/// variant and extraction function of token i / of the non-terminals' type k
pub open spec fn tok_entry(p: Pattern, i: int, v: Variant, f: ExtractFn) -> bool {
    v.id.id() == EId::F1("Token{}"@, i) && v.tys@ == tys(p)
    && f.method.id() == EId::F1("token_{}"@, i) && f.tys@ == tys(p) && f.variant == v.id
}
pub open spec fn nt_entry(t: syn::Type, k: int, v: Variant, f: ExtractFn) -> bool {
    v.id.id() == EId::F1("NonTerminal{}"@, k) && v.tys@.len() == 1 && v.tys@[0] == t
    && f.method.id() == EId::F1("non_terminal_{}"@, k) && f.tys@.len() == 1 && f.tys@[0] == t && f.variant == v.id
}
/// the value type: one variant per token, one per type of a non-terminal; vn maps each non-terminal
/// to its type's
pub open spec fn result_ok<A>(g: &Grammar<A>, tokens: Seq<ast::Conversion>, r: ResultTy, vn: Seq<usize>) -> bool {
    &&& r.variants@.len() == r.fns@.len() && r.variants@.len() >= tokens.len()
    &&& forall |i: int| 0 <= i < tokens.len() ==> tok_entry(tokens[i].to, i, #[trigger] r.variants@[i], r.fns@[i])
    &&& vn.len() == g.non_terminals@.len()
//@ if det
    &&& r.variants@.len() == tokens.len() + types_to(g, g.non_terminals@.len() as int).len() && vns_det(g, types_to(g, g.non_terminals@.len() as int), vn)
//@ endif
    &&& forall |n: int| 0 <= n < vn.len() ==> vn_ok(tokens.len() as int, g.non_terminals@[n].return_ty, #[trigger] vn[n] as int, r.variants@, r.fns@)
}
pub open spec fn vn_ok(nt: int, t: syn::Type, k: int, vs: Seq<Variant>, fs: Seq<ExtractFn>) -> bool {
    nt + k < vs.len() && nt + k < fs.len() && nt_entry(t, k, vs[nt + k], fs[nt + k])
}
pub open spec fn drefs<'a>(s: Seq<&'a syn::Type>) -> Seq<syn::Type> { Seq::new(s.len(), |i: int| *s[i]) }
pub open spec fn idx_arm_ok(p: Pattern, i: int, a: IdxArm) -> bool { pat_ok(p, false, 0, a.pat) && a.idx == i }
/// token pattern i with its holes bound builds value variant i from what they bind, in order
pub open spec fn val_arm_ok(p: Pattern, i: int, ty: syn::Ident, a: ValArm) -> bool {
    pat_ok(p, true, 0, a.pat) && a.ty == ty && a.variant.id() == EId::F1("Token{}"@, i) && f_ids(a.idents@) && a.idents@.len() == tys(p).len()
}
/// v holds the identifiers f0, f1, ..
pub open spec fn f_ids(v: Seq<syn::Ident>) -> bool { forall |j: int| 0 <= j < v.len() ==> (#[trigger] v[j]).id() == f_id(j) }
// ------------------------------------------------------------------ the emitted parser
/// `pub struct name; impl name { pub fn parse(input) -> Result<ret, _> { parse_generic(input, SemanticActionResult::extract, state, action) } }`
pub struct EntryFn { pub name: syn::Ident, pub ret: syn::Type, pub extract: syn::Ident, pub state: u32, pub action: usize }
/// what generate_lr1_parser emits: the tables and functions the driver (see module driver) works with
pub struct Emitted {
    /// the literal and the names that the driver's text mentions
    pub n_terminals: usize, pub idx_name: syn::Ident, pub val_name: syn::Ident,
    pub action: Table2<ECell>, pub goto: Table2<Option<u32>>, pub idx_fn: IdxFn, pub val_fn: ValFn, pub result: ResultTy,
    pub sem: Vec<Decl>, pub expected: Table1<String>, pub strs: Table1<String>, pub entries: Vec<EntryFn>,
}
impl<'a> Table1<&'a str> {
    #[verifier::external_body]
    pub fn own(&self) -> (r: Table1<String>)
        ensures r.n == self.n, r.items@.len() == self.items@.len(), forall |i: int| 0 <= i < r.items@.len() ==> (#[trigger] r.items@[i])@ == self.items@[i]@
    { unimplemented!() }
}
/// the automaton, table and numbering that the emitted code was made from
pub ghost struct Build {
    pub a: Aut, pub starts: SMap<NonTerminalIdx, StateIdx>, pub gram: Grammar<SemanticActionIdx>, pub t: LRTable<SemanticActionIdx>, pub vn: Seq<usize>,
}
pub open spec fn nt_cols<A>(gram: &Grammar<A>, la: Option<TerminalIdx>) -> int { match la { Some(t) => t.0 as int, None => gram.terminals@.len() as int } }
pub open spec fn action_tab_ok(m: Build, r: Table2<ECell>) -> bool {
    &&& r.fits() && r.outer == m.a.items.len() && r.inner == m.gram.terminals@.len() + 1
    &&& forall |i: int, la: Option<TerminalIdx>| 0 <= i < m.a.items.len() && la_ok(m.gram.gv(), la) ==>
            ecell_ok(&m.gram, #[trigger] m.t.at(StateIdx(i as usize), la), r.rows@[i]@[nt_cols(&m.gram, la)])
}
pub open spec fn goto_tab_ok(m: Build, r: Table2<Option<u32>>) -> bool {
    &&& r.fits() && r.outer == m.a.items.len() && r.inner == m.gram.non_terminals@.len()
    &&& forall |i: int, n: NonTerminalIdx| 0 <= i < m.a.items.len() && (n.0 as int) < m.gram.non_terminals@.len() ==>
            match #[trigger] m.t.gt(StateIdx(i as usize), n) {
                None => r.rows@[i]@[n.0 as int] is None,
                Some(j) => r.rows@[i]@[n.0 as int] is Some && r.rows@[i]@[n.0 as int]->0 as int == j.0,
            }
}
pub open spec fn sem_ok(gram: &Grammar<syn::Expr>, m: Build, sem: Seq<Decl>) -> bool {
    &&& m.gram.terminals == gram.terminals
    &&& m.gram.non_terminals@.len() == gram.non_terminals@.len()
    &&& sem.len() > 0
//@ if det
    &&& numbered_to(gram.gv(), m.gram.non_terminals@, gram.gv().prods.len() as int) && sem.len() == base(gram.gv(), gram.gv().prods.len() as int) + 1
//@ endif
    &&& forall |n: int| 0 <= n < gram.non_terminals@.len() ==> nt_ok(m.vn, n, gram.non_terminals@[n], #[trigger] m.gram.non_terminals@[n], sem.drop_last())
    &&& sem.last() is Table && sem.last()->n == sem.len() - 1
    &&& named(sem.drop_last(), sem.last()->names@)
}
pub open spec fn idx_fn_ok(tokens: &ast::TokenEnum, f: IdxFn) -> bool {
    f.ty == tokens.type_name && f.arms@.len() == tokens.conversions@.len()
//@ if det
    && f.name.id() == EId::Text(lower_case(syn::id_text(tokens.type_name.id())) + "_terminal_idx"@) && f.arg.id() == EId::Text("token"@)
//@ endif
    && forall |i: int| 0 <= i < f.arms@.len() ==> idx_arm_ok(tokens.conversions@[i].to, i, #[trigger] f.arms@[i])
}
pub open spec fn val_fn_ok(tokens: &ast::TokenEnum, sar: syn::Ident, f: ValFn) -> bool {
    f.ty == tokens.type_name && f.result == sar && 
//@ if det
    f.name.id() == EId::Text("token_value"@) && 
//@ endif
    f.arms@.len() == tokens.conversions@.len()
    && forall |i: int| 0 <= i < f.arms@.len() ==> val_arm_ok(tokens.conversions@[i].to, i, sar, #[trigger] f.arms@[i])
}
pub open spec fn entry_ok(gram: &Grammar<syn::Expr>, m: Build, n: NonTerminalIdx, e: EntryFn) -> bool {
    let nt = gram.non_terminals@[n.0 as int];
    &&& m.starts.dom().contains(n)
    &&& e.name.id() == EId::Text(nt.non_terminal@) && e.ret == nt.return_ty
    &&& e.extract.id() == EId::F1("non_terminal_{}"@, m.vn[n.0 as int] as int)
    &&& e.state as int == m.starts[n].0
    &&& e.action == m.gram.non_terminals@[n.0 as int].productions@[0].action.0
}
pub open spec fn expected_ok(m: Build, r: Table1<String>) -> bool {
    r.fits() && r.n == m.a.items.len()
    && forall |i: int| 0 <= i < r.n ==> (#[trigger] r.items@[i])@ == join_sep(exp_to(&m.gram, m.t, i, m.gram.terminals@.len()), ", "@)
}
pub open spec fn names_ok(m: Build, r: Table1<String>) -> bool {
    r.fits() && r.n == m.gram.terminals@.len() + 1
    && (forall |i: int| 0 <= i < m.gram.terminals@.len() ==> (#[trigger] r.items@[i])@ == m.gram.terminals@[i]@)
    && r.items@[m.gram.terminals@.len() as int]@ == "end-of-input"@
}
/// each emitted parser is an entry point's, each entry point has one
pub open spec fn parsers_ok(gram: &Grammar<syn::Expr>, m: Build, es: Seq<EntryFn>) -> bool {
    &&& forall |i: int| 0 <= i < es.len() ==> is_entry(gram, m, #[trigger] es[i])
    &&& forall |n: NonTerminalIdx| #[trigger] m.starts.dom().contains(n) ==> has_entry(gram, m, n, es)
//@ if det
    &&& one_each(gram, m, es)
//@ endif
}
pub open spec fn is_entry(gram: &Grammar<syn::Expr>, m: Build, e: EntryFn) -> bool { exists |n: NonTerminalIdx| #[trigger] entry_ok(gram, m, n, e) }
pub open spec fn has_entry(gram: &Grammar<syn::Expr>, m: Build, n: NonTerminalIdx, es: Seq<EntryFn>) -> bool {
    exists |i: int| 0 <= i < es.len() && entry_ok(gram, m, n, #[trigger] es[i])
}
//@ if det
/// es are the entry functions of ns, the entry points, each once, in some order
pub open spec fn of_each(gram: &Grammar<syn::Expr>, m: Build, es: Seq<EntryFn>, ns: Seq<NonTerminalIdx>) -> bool {
    &&& ns.no_duplicates() && ns.len() == es.len()
    &&& forall |i: int| 0 <= i < es.len() ==> entry_ok(gram, m, ns[i], #[trigger] es[i])
    &&& forall |n: NonTerminalIdx| #[trigger] m.starts.dom().contains(n) <==> ns.contains(n)
}
pub open spec fn one_each(gram: &Grammar<syn::Expr>, m: Build, es: Seq<EntryFn>) -> bool { exists |ns: Seq<NonTerminalIdx>| #[trigger] of_each(gram, m, es, ns) }
//@ endif
pub proof fn lemma_parsers(gram: &Grammar<syn::Expr>, m: Build, sq: Seq<(NonTerminalIdx, StateIdx)>, es: Seq<EntryFn>)
    requires
        enumerates_pairs(sq, m.starts), es.len() == sq.len(),
        forall |i: int| 0 <= i < es.len() ==> entry_ok(gram, m, sq[i].0, #[trigger] es[i]),
    ensures parsers_ok(gram, m, es)
{
    assert forall |n: NonTerminalIdx| #[trigger] m.starts.dom().contains(n) implies has_entry(gram, m, n, es) by {
        let i = choose |i: int| 0 <= i < sq.len() && (#[trigger] sq[i]).0.key() == n;
        assert(entry_ok(gram, m, sq[i].0, es[i]));
    }
//@ if det
    let ns = Seq::new(sq.len(), |i: int| sq[i].0);
    assert forall |n: NonTerminalIdx| #[trigger] m.starts.dom().contains(n) <==> ns.contains(n) by {
        if m.starts.dom().contains(n) {
            let i = choose |i: int| 0 <= i < sq.len() && (#[trigger] sq[i]).0.key() == n;
            assert(ns[i] == n);
        }
    }
    assert(of_each(gram, m, es, ns));
//@ endif
}
/// C12: everything emitted is what the grammar, its automaton and its table say
pub open spec fn emitted_ok(gram: &Grammar<syn::Expr>, tokens: &ast::TokenEnum, e: Emitted, m: Build) -> bool {
    &&& aut_exact(gram.gv(), m.a, m.starts) && m.a.items.len() <= usize::MAX
//@ if det
    &&& ordered(gram.gv(), m.a.items, m.starts)
//@ endif
    &&& m.gram.gv() == gram.gv()
    &&& table_ok(&m.gram, m.a, m.t)
    &&& e.n_terminals == gram.terminals@.len()
    &&& e.idx_name == e.idx_fn.name && e.val_name == e.val_fn.name
    &&& e.result.name.id() == EId::Text("SemanticActionResult"@)
    &&& result_ok(gram, tokens.conversions@, e.result, m.vn)
    &&& sem_ok(gram, m, e.sem@)
    &&& action_tab_ok(m, e.action) && goto_tab_ok(m, e.goto)
    &&& idx_fn_ok(tokens, e.idx_fn) && val_fn_ok(tokens, e.result.name, e.val_fn)
    &&& expected_ok(m, e.expected) && names_ok(m, e.strs)
    &&& parsers_ok(gram, m, e.entries@)
}
pub proof fn lemma_ered(m: &Build, i: int, la: Option<TerminalIdx>)
    requires aut_exact(m.gram.gv(), m.a, m.starts), m.a.items.len() <= usize::MAX, table_ok(&m.gram, m.a, m.t), 0 <= i < m.a.items.len()
    ensures ered_ok(&m.gram, m.t.at(StateIdx(i as usize), la))
{
    let si = StateIdx(i as usize);
    assert(row_ok(&m.gram, m.a.items[si.0 as int], m.a.goto[si.0 as int], m.t, si));
    match m.t.at(si, la) {
        Some(LRAction::Reduce(n, q, _)) => {
            let it = choose |it: LR1Item| #[trigger] m.a.items[i].contains(it) && red(m.gram.gv(), it) && it.lookahead == la && it.non_terminal_idx == n && it.production_idx == q;
            assert(items_ok(m.gram.gv(), m.a.items[i]));
            assert(item_ok(m.gram.gv(), it));
        }
        _ => {}
    }
}
pub proof fn lemma_same_gv(gram: &Grammar<syn::Expr>, m: Build, sem: Seq<Decl>)
    requires sem_ok(gram, m, sem)
    ensures m.gram.gv() == gram.gv()
{
    let g = gram.gv();
    let h = m.gram.gv();
    assert forall |n: int| 0 <= n < g.prods.len() implies #[trigger] g.prods[n] == h.prods[n] && g.public[n] == h.public[n] by {
        assert(nt_ok(m.vn, n, gram.non_terminals@[n], m.gram.non_terminals@[n], sem.drop_last()));
        assert forall |q: int| 0 <= q < g.prods[n].len() implies #[trigger] g.prods[n][q] == h.prods[n][q] by {
            assert(decl_ok(m.vn, n, q, gram.non_terminals@[n].productions@[q], m.gram.non_terminals@[n].productions@[q], sem.drop_last()));
        }
        assert(g.prods[n] =~= h.prods[n]);
    }
    assert(g.prods =~= h.prods);
    assert(g.public =~= h.public);
}
//@ module tables file=lr_codegen.rs ignore_new
//@ header
use vstd::prelude::*;
use crate::prelude::*;
use crate::theory::*;
use crate::items::*;
use crate::automaton::*;
use crate::table::*;
use crate::emitted::*;
//@ if det
use crate::det::*;
//@ endif
use crate::{ast, syn};
use crate::ast::TokenEnum;
use crate::syn::{EId, Span};
use crate::collections::{Map, Set};
use crate::grammar::{Grammar, NonTerminalIdx, ProductionIdx, TerminalIdx};
use crate::lr_common::{LRAction, StateIdx};
use crate::first::generate_first_table;
use crate::lr1::{build_lr1_table, generate_lr1_automaton};
use crate::codegen::{
    generate_expected_state_tokens, generate_semantic_action_table, generate_token_to_text,
    semantic_action_result_type, token_value_fn, SemanticActionIdx,
};
//@ quote crate::driver::LRAction::Shift { next_state: $n }
LRAction::Shift { next_state: #n }
//@ quote crate::driver::LRAction::Reduce { non_terminal_idx: $n, n_symbols: $k, semantic_action_idx: $a }
LRAction::Reduce { non_terminal_idx: #n, n_symbols: #k, semantic_action_idx: #a }
//@ quote crate::driver::LRAction::Accept
LRAction::Accept
//@ quote Some($x)
Some(#x)
//@ quote None
None
//@ quote $rows
[#(#rows),*]
//@ quote Table2 { inner: $inner, outer: $outer, rows: $rows }
static ACTION: [[Option<LRAction>; #inner]; #outer] = [#(#rows),*];
//@ quote Table2 { inner: $inner, outer: $outer, rows: $rows }
static GOTO: [[Option<u32>; #inner]; #outer] = [#(#rows),*];
//@ quote EntryFn { name: $name, ret: $ret.clone(), extract: $ex, state: $st, action: $ac }
pub struct #name;
impl #name {
    pub fn parse<#(#lts,)* E: Clone>(input: impl Iterator<Item=Result<#tt<#(#lts,)*>, E>>) -> Result<#ret, ParseError<E>> {
        parse_generic(input, SemanticActionResult::#ex, #st, #ac,)
    }
}
//@ quote Emitted { n_terminals: n_terminals, idx_name: token_terminal_idx_fn_name.clone(), val_name: token_value_fn_name.clone(), action: $action, goto: $goto, idx_fn: $idx, val_fn: $val, result: $res, sem: $sem, expected: $exp, strs: $strs.own(), entries: $entries }
__skip
#action #goto
__skip
#idx #val #res #(#sem)* #exp #strs
__skip
#(#entries)*
//@ fn generate_lr1_parser ret=r rejects
//@ rettype Emitted
    requires
        grammar.wf(), entries_ok(grammar.gv()),
        tokens.conversions@.len() == grammar.terminals@.len(),
        forall |a: Aut, starts: SMap<NonTerminalIdx, StateIdx>| #[trigger] aut_exact(grammar.gv(), a, starts) && conflicted(grammar.gv(), a.items) ==> may_reject(),
    ensures
        exists |m: Build| #[trigger] emitted_ok(&grammar, tokens, r, m),
//@ lettype parser_structs Vec<EntryFn>
//@ begin
let ghost gr = grammar;
//@ after call generate_semantic_action_table
let ghost a = lr1_automaton.av();
let ghost starts = nt_state_indices@;
let ghost vn = non_terminal_action_variant_name@;
proof { lemma_same_gv(&gr, Build { a, starts, gram: grammar, t: arbitrary(), vn }, semantic_action_table@); }
//@ before call generate_action_array
let ghost m = Build { a, starts, gram: grammar, t: lr1_table, vn };
proof {
    axiom_vec_alloc(&gr.terminals);
    assert forall |i: int, c: int| 0 <= i < action_vec@.len() && 0 <= c < n_terminals + 1 implies #[trigger] ered_ok(&grammar, action_vec@[i]@[c]) by {
        lemma_ered(&m, i, if c < n_terminals { Some(TerminalIdx(c as u32)) } else { None });
    }
}
//@ loop 0 elem
EntryFn
//@ loop 0
    $out@.len() == $it.pos(),
    enumerates_pairs($sq, starts),
    forall |i: int| 0 <= i < $it.pos() ==> entry_ok(&gr, m, $sq[i].0, #[trigger] $out@[i]),
//@ loop 0 begin
proof { assert(nt_ok(vn, non_terminal_idx.0 as int, gr.non_terminals@[non_terminal_idx.0 as int], grammar.non_terminals@[non_terminal_idx.0 as int], semantic_action_table@.drop_last())); }
//@ loop 0 after
proof {
    lemma_parsers(&gr, m, $sq, $out@);
}
//@ end
proof {
    assert forall |i: int, la: Option<TerminalIdx>| 0 <= i < m.a.items.len() && la_ok(m.gram.gv(), la) implies
            ecell_ok(&m.gram, #[trigger] m.t.at(StateIdx(i as usize), la), $ret.action.rows@[i]@[nt_cols(&m.gram, la)]) by {
        assert(m.t.at(StateIdx(i as usize), la) == table_at(m.t.action@, StateIdx(i as usize), la));
        let c = nt_cols(&m.gram, la);
        assert(ecell_ok(&m.gram, action_vec@[i]@[c], $ret.action.rows@[i]@[c]));
        if la is Some { assert(TerminalIdx(c as u32) == la->0); }
    }
    assert forall |i: int, n: NonTerminalIdx| 0 <= i < m.a.items.len() && (n.0 as int) < m.gram.non_terminals@.len() implies
            match #[trigger] m.t.gt(StateIdx(i as usize), n) {
                None => $ret.goto.rows@[i]@[n.0 as int] is None,
                Some(j) => $ret.goto.rows@[i]@[n.0 as int] is Some && $ret.goto.rows@[i]@[n.0 as int]->0 as int == j.0,
            } by {
        assert(m.t.gt(StateIdx(i as usize), n) == goto_at(m.t.goto@, StateIdx(i as usize), n));
        assert(NonTerminalIdx((n.0 as int) as u32) == n);
        assert(goto_vec@[i]@[n.0 as int] == goto_at(m.t.goto@, StateIdx(i as usize), NonTerminalIdx((n.0 as int) as u32)));
    }
    assert(emitted_ok(&gr, tokens, $ret, m));
}
//@ fn action_table_vec ret=r nopanic
    ensures
        r@.len() == n_states,
        forall |i: int| 0 <= i < n_states ==> (#[trigger] r@[i])@.len() == grammar.terminals@.len() + 1,
        forall |i: int, c: int| 0 <= i < n_states && 0 <= c < grammar.terminals@.len() ==>
            #[trigger] r@[i]@[c] == table_at(action_table@, StateIdx(i as usize), Some(TerminalIdx(c as u32))),
        forall |i: int| 0 <= i < n_states ==> (#[trigger] r@[i])@[grammar.terminals@.len() as int] == table_at(action_table@, StateIdx(i as usize), None),
//@ begin
proof { axiom_vec_alloc(&grammar.terminals); }
//@ loop 0
    state_to_terminal_to_action@.len() == $it.pos(),
    forall |i: int| 0 <= i < $it.pos() ==> (#[trigger] state_to_terminal_to_action@[i])@.len() == grammar.terminals@.len() + 1,
    forall |i: int, c: int| 0 <= i < $it.pos() && 0 <= c < grammar.terminals@.len() ==>
        #[trigger] state_to_terminal_to_action@[i]@[c] == table_at(action_table@, StateIdx(i as usize), Some(TerminalIdx(c as u32))),
    forall |i: int| 0 <= i < $it.pos() ==>
        (#[trigger] state_to_terminal_to_action@[i])@[grammar.terminals@.len() as int] == table_at(action_table@, StateIdx(i as usize), None),
//@ loop 1
    terminal_to_action@.len() == $it.pos(),
    forall |c: int| 0 <= c < $it.pos() ==> #[trigger] terminal_to_action@[c] == table_at(action_table@, state_idx, Some(TerminalIdx(c as u32))),
//@ fn generate_goto_vec ret=r nopanic
    ensures
        r@.len() == n_states,
        forall |i: int| 0 <= i < n_states ==> (#[trigger] r@[i])@.len() == n_non_terminals,
        forall |i: int, c: int| 0 <= i < n_states && 0 <= c < n_non_terminals ==>
            #[trigger] r@[i]@[c] == goto_at(goto_table@, StateIdx(i as usize), NonTerminalIdx(c as u32)),
//@ loop 0
    state_to_non_terminal_to_state@.len() == $it.pos(),
    forall |i: int| 0 <= i < $it.pos() ==> (#[trigger] state_to_non_terminal_to_state@[i])@.len() == n_non_terminals,
    forall |i: int, c: int| 0 <= i < $it.pos() && 0 <= c < n_non_terminals ==>
        #[trigger] state_to_non_terminal_to_state@[i]@[c] == goto_at(goto_table@, StateIdx(i as usize), NonTerminalIdx(c as u32)),
//@ loop 1
    non_terminal_to_state@.len() == $it.pos(),
    forall |c: int| 0 <= c < $it.pos() ==> #[trigger] non_terminal_to_state@[c] == goto_at(goto_table@, state_idx, NonTerminalIdx(c as u32)),
//@ fn generate_action_array ret=r nopanic
//@ rettype Table2<ECell>
    requires
        table@.len() == n_states,
        n_terminals < usize::MAX,
        forall |i: int| 0 <= i < table@.len() ==> (#[trigger] table@[i])@.len() == n_terminals + 1,
        forall |i: int, c: int| 0 <= i < table@.len() && 0 <= c < n_terminals + 1 ==> #[trigger] ered_ok(grammar, table@[i]@[c]),
    ensures
        r.fits(), r.outer == n_states, r.inner == n_terminals + 1,
        forall |i: int, c: int| 0 <= i < n_states && 0 <= c < n_terminals + 1 ==> #[trigger] ecell_ok(grammar, table@[i]@[c], r.rows@[i]@[c]),
//@ lettype state_array Vec<Vec<ECell>>
//@ lettype terminal_array Vec<ECell>
//@ loop 0
    state_array@.len() == $it.pos(),
    forall |i: int| 0 <= i < $it.pos() ==> (#[trigger] state_array@[i])@.len() == n_terminals + 1,
    forall |i: int, c: int| 0 <= i < $it.pos() && 0 <= c < n_terminals + 1 ==> #[trigger] ecell_ok(grammar, table@[i]@[c], state_array@[i]@[c]),
//@ loop 0 begin
let ghost row: int = $it.pos() - 1;
assert(*state == table@[row]);
//@ loop 1
    terminal_array@.len() == $it.pos(),
    forall |c: int| 0 <= c < $it.pos() ==> #[trigger] ecell_ok(grammar, table@[row]@[c], terminal_array@[c]),
//@ loop 1 begin
assert(*action == table@[row]@[$it.pos() - 1]);
assert(ered_ok(grammar, table@[row]@[$it.pos() - 1]));
//@ fn generate_goto_array ret=r nopanic
//@ rettype Table2<Option<u32>>
    requires
        table@.len() == n_states,
        forall |i: int| 0 <= i < table@.len() ==> (#[trigger] table@[i])@.len() == n_non_terminals,
    ensures
        r.fits(), r.outer == n_states, r.inner == n_non_terminals,
        forall |i: int, c: int| 0 <= i < n_states && 0 <= c < n_non_terminals ==> match #[trigger] table@[i]@[c] {
            None => r.rows@[i]@[c] is None,
            Some(j) => r.rows@[i]@[c] is Some && r.rows@[i]@[c]->0 as int == j.0,
        },
//@ lettype state_array Vec<Vec<Option<u32>>>
//@ lettype non_terminal_array Vec<Option<u32>>
//@ loop 0
    state_array@.len() == $it.pos(),
    forall |i: int| 0 <= i < $it.pos() ==> (#[trigger] state_array@[i])@.len() == n_non_terminals,
    forall |i: int, c: int| 0 <= i < $it.pos() && 0 <= c < n_non_terminals ==> match #[trigger] table@[i]@[c] {
        None => state_array@[i]@[c] is None,
        Some(j) => state_array@[i]@[c] is Some && state_array@[i]@[c]->0 as int == j.0,
    },
//@ loop 0 begin
let ghost row: int = $it.pos() - 1;
assert(*state == table@[row]);
//@ loop 1
    non_terminal_array@.len() == $it.pos(),
    forall |c: int| 0 <= c < $it.pos() ==> match #[trigger] table@[row]@[c] {
        None => non_terminal_array@[c] is None,
        Some(j) => non_terminal_array@[c] is Some && non_terminal_array@[c]->0 as int == j.0,
    },
//@ loop 1 begin
assert(*next_state == table@[row]@[$it.pos() - 1]);
//@ module codegen file=codegen.rs ignore_new
//@ header
use vstd::prelude::*;
use crate::prelude::*;
use crate::emitted::*;
//@ if det
use crate::det::*;
//@ endif
use crate::emitted::Head;
use crate::collections::Map;
use crate::grammar::{BoundSymbol, Grammar, NonTerminal, Production, Symbol, TerminalIdx};
use crate::lr_common::{LRTable, StateIdx};
use crate::ast::{Conversion, FieldPattern, Name, Pattern, TokenEnum};
use crate::{ast, syn};
use crate::syn::{EId, Span};
//@ type SemanticActionIdx
//@ quote PopStmt::Pop
value_stack.pop()
//@ quote true
mut
//@ quote false
//@ quote PopStmt::Bind { mutable: $m, name: $name.clone(), method: $method }
let #m #name = value_stack.pop().unwrap().#method()
//@ quote Decl::Action(ActionFn { name: $f.clone(), pops: $pops, variant: $variant, action: $action })
fn #f<#(#lts),*>(value_stack: &mut Vec<SemanticActionResult<#(#lts),*>>) {
    #(#pops;)*
    value_stack.push(SemanticActionResult::#variant(#action));
}
//@ quote Decl::Table { n: $n, names: $names }
static SEMANTIC_ACTIONS: [fn(&mut Vec<SemanticActionResult>); #n] = [ #(#names),* ];
//@ quote Table1 { n: $n, items: v_list($strs) }
static EXPECTED_TERMINALS: [&str; #n] = [ #(#strs),* ];
//@ quote Table1 { n: $n, items: v_list($strs) }
static TERMINAL_STRS: [&str; #n] = [ #(#strs),* ];
//@ quote $path.apply(&$pats)
#path(#(#pats,)*)
//@ quote $path.apply(&$pats)
#path(#(#pats),*)
//@ quote RPat::Struct($path.clone(), $pats)
#path { #(#pats)* }
//@ quote RPat::Field($f.clone(), Box::new($p))
#f: #p,
//@ quote RPat::Rest
..
//@ quote RPat::Tuple($pats)
(#(#pats,)*)
//@ quote RPat::Wild
_
//@ quote $x.rp()
#x
//@ quote IdxArm { pat: $p, idx: $i }
#p => #i
//@ quote IdxFn { name: $f.clone(), arg: $arg.clone(), ty: $ty.clone(), arms: $arms }
fn #f<#(#lts),*>(#arg: &#ty<#(#lts),*>) -> usize { match #arg { #(#arms,)* } }
//@ quote ValArm { pat: $p, ty: $ty.clone(), variant: $v, idents: $ids }
#p => { #ty::#v(#(#ids),*) }
//@ quote ValFn { name: $f.clone(), ty: $ty.clone(), result: $res.clone(), arms: $arms }
fn #f<#(#lts),*>(token: #ty<#(#lts),*>) -> #res<#(#lts),*> { match token { #(#arms)* } }
//@ quote Variant { id: $v.clone(), tys: vec![$ty.clone()] }
#v(#ty)
//@ quote ExtractFn { method: $m, tys: v_types(&$tys), variant: $v }
fn #m(self) -> (#(#tys),*) { match self { Self::#v(#(#fs),*) => (#(#fs),*), _ => unreachable!(), } }
//@ quote ExtractFn { method: $m, tys: vec![$ty.clone()], variant: $v }
fn #m(self) -> #ty { match self { Self::#v(f) => f, _ => unreachable!("{:?}", self), } }
//@ quote ResultTy { name: $n.clone(), variants: $vs, fns: $fns }
#[derive(Debug)]
enum #n<#(#lts),*> { #(#vs,)* }
impl<#(#lts),*> #n<#(#lts),*> { #(#fns)* }
//@ fn SemanticActionIdx::as_u16 ret=r
    ensures r == self.0,
//@ fn generate_expected_state_tokens ret=r nopanic
//@ rettype Table1<String>
    ensures
        r.fits(), r.n == lr_table.n_states,
        forall |i: int| 0 <= i < r.n ==> (#[trigger] r.items@[i])@ == join_sep(exp_to(grammar, *lr_table, i, grammar.terminals@.len()), ", "@),
//@ loop 0
    strs@.len() == $it.pos(),
    forall |i: int| 0 <= i < $it.pos() ==> (#[trigger] strs@[i])@ == join_sep(exp_to(grammar, *lr_table, i, grammar.terminals@.len()), ", "@),
//@ loop 1
    crate::prelude::strs(expected_terminals@) == exp_to(grammar, *lr_table, state_idx as int, $it.pos() as nat),
//@ fn generate_token_to_text ret=r nopanic
//@ rettype Table1<&str>
    ensures
        r.fits(), r.n == grammar.terminals@.len() + 1,
        forall |i: int| 0 <= i < grammar.terminals@.len() ==> (#[trigger] r.items@[i])@ == grammar.terminals@[i]@,
        r.items@[grammar.terminals@.len() as int]@ == "end-of-input"@,
//@ begin
proof { axiom_vec_alloc(&grammar.terminals); }
//@ loop 0 elem
&str
//@ loop 0
    $out@.len() == $it.pos(),
    forall |i: int| 0 <= i < $it.pos() ==> (#[trigger] $out@[i])@ == grammar.terminals@[i]@,
//@ fn generate_semantic_action_table ret=r nopanic
//@ rettype (Vec<Decl>, Grammar<SemanticActionIdx>)
    requires
        grammar.wf(), non_terminal_action_variant_name@.len() == grammar.non_terminals@.len(),
    ensures
        r.1.terminals == grammar.terminals,
        r.1.non_terminals@.len() == grammar.non_terminals@.len(),
        forall |n: int| 0 <= n < grammar.non_terminals@.len() ==> nt_ok(non_terminal_action_variant_name@, n, grammar.non_terminals@[n], #[trigger] r.1.non_terminals@[n], r.0@.drop_last()),
        r.0@.len() > 0, r.0@.last() is Table, r.0@.last()->n == r.0@.len() - 1,
        named(r.0@.drop_last(), r.0@.last()->names@),
//@ if det
        numbered_to(grammar.gv(), r.1.non_terminals@, grammar.gv().prods.len() as int), r.0@.len() == base(grammar.gv(), grammar.gv().prods.len() as int) + 1,
//@ endif
//@ lettype decls Vec<Decl>
//@ lettype pop_code Vec<PopStmt>
//@ begin
let ghost gr = grammar;
let ghost vn = non_terminal_action_variant_name@;
//@ loop 0 elem
NonTerminal<SemanticActionIdx>
//@ loop 0
    named(decls@, fn_names@),
    $out@.len() == $it.pos(),
    forall |n: int| 0 <= n < $it.pos() ==> nt_ok(vn, n, gr.non_terminals@[n], #[trigger] $out@[n], decls@),
//@ if det
    decls@.len() == base(gr.gv(), $it.pos() as int), numbered_to(gr.gv(), $out@, $it.pos() as int),
//@ endif
//@ loop 0 begin
let ghost d0 = decls@;
let ghost done0 = $out@;
let ghost nt0 = gr.non_terminals@[nt_i as int];
//@ loop 0 end
proof {
    assert forall |n: int| 0 <= n < $it.pos() implies nt_ok(vn, n, gr.non_terminals@[n], #[trigger] $out@[n], decls@) by {
        if n < nt_i { assert(nt_ok(vn, n, gr.non_terminals@[n], done0[n], d0)); }
    }
}
//@ loop 1 elem
Production<SemanticActionIdx>
//@ loop 1
    named(decls@, fn_names@),
    decls@.len() >= d0.len(), decls@.take(d0.len() as int) =~= d0,
    $out@.len() == $it.pos(),
    forall |q: int| 0 <= q < $it.pos() ==> decl_ok(vn, nt_i as int, q, nt0.productions@[q], #[trigger] $out@[q], decls@),
//@ if det
    decls@.len() == base(gr.gv(), nt_i as int) + $it.pos(),
    forall |q: int| 0 <= q < $it.pos() ==> (#[trigger] $out@[q]).action.0 as int == base(gr.gv(), nt_i as int) + q,
//@ endif
//@ loop 1 begin
let ghost d1 = decls@;
let ghost done1 = $out@;
let ghost pr = nt0.productions@[p_i as int];
//@ loop 1 end
proof {
    assert forall |q: int| 0 <= q < $it.pos() implies decl_ok(vn, nt_i as int, q, nt0.productions@[q], #[trigger] $out@[q], decls@) by {
        if q < p_i { assert(decl_ok(vn, nt_i as int, q, nt0.productions@[q], done1[q], d1)); }
    }
}
//@ loop 2
    pop_code@.len() == $it.pos(),
    forall |j: int| 0 <= j < $it.pos() ==> pop_ok(vn, pr.symbols@[pr.symbols@.len() - 1 - j], #[trigger] pop_code@[j]),
//@ loop 2 begin
let ghost bs = pr.symbols@[pr.symbols@.len() - $it.pos()];
assert(*binder == bs.binder && *kind == bs.symbol);
assert(gr.gv().sym_ok(gr.gv().prods[nt_i as int][p_i as int][pr.symbols@.len() - $it.pos()]));
//@ fn pattern_ignore ret=r nopanic
//@ rettype RPat
    ensures forall |k: int| #[trigger] pat_ok(*pattern, false, k, r),
    decreases pattern,
//@ lettype pats Vec<RPat>
//@ loop 0 elem
RPat
//@ loop 0 before
let ghost vv = *pats;
proof { assert(decreases_to!(*pattern => pattern->Enum_1)); assert(pattern->Enum_1 == vv); }
//@ loop 0
    $out@.len() == $it.pos(),
    forall |i: int, k: int| 0 <= i < $it.pos() ==> #[trigger] pat_ok(vv[i], false, k, $out@[i]),
//@ loop 0 begin
proof { assert(decreases_to!(vv => vv[$it.pos() - 1])); }
//@ loop 1 elem
RPat
//@ loop 1 before
let ghost vv = *fields;
proof { assert(decreases_to!(*pattern => pattern->Struct_1)); assert(pattern->Struct_1 == vv); }
//@ loop 1
    $out@.len() == $it.pos(),
    forall |i: int| 0 <= i < $it.pos() ==> match #[trigger] $out@[i] {
        RPat::Field(f, q) => f == vv[i].field_name && forall |k: int| #[trigger] pat_ok(vv[i].pattern, false, k, *q),
        _ => false,
    },
//@ loop 1 begin
proof { assert(decreases_to!(vv => vv[$it.pos() - 1])); assert(decreases_to!(vv[$it.pos() - 1] => vv[$it.pos() - 1].pattern)); }
//@ loop 2 elem
RPat
//@ loop 2 before
let ghost vv = *pats;
proof { assert(decreases_to!(*pattern => pattern->Tuple_0)); assert(pattern->Tuple_0 == vv); }
//@ loop 2
    $out@.len() == $it.pos(),
    forall |i: int, k: int| 0 <= i < $it.pos() ==> #[trigger] pat_ok(vv[i], false, k, $out@[i]),
//@ loop 2 begin
proof { assert(decreases_to!(vv => vv[$it.pos() - 1])); }
//@ end
proof {
    assert forall |k: int| #[trigger] pat_ok(*pattern, false, k, $ret) by {
        match *pattern {
            Pattern::Enum(path, v) => {
                assert forall |i: int| 0 <= i < v.len() implies pat_ok(v[i], false, k + tys_to(v, i as nat).len(), #[trigger] $ret->Enum_1@[i]) by {}
            }
            Pattern::Struct(path, v, dots) => {
                assert forall |i: int| 0 <= i < v.len() implies match #[trigger] $ret->Struct_1@[i] {
                    RPat::Field(f, q) => f == v[i].field_name && pat_ok(v[i].pattern, false, k + ftys_to(v, i as nat).len(), *q),
                    _ => false,
                } by {}
            }
            Pattern::Tuple(v) => {
                assert forall |i: int| 0 <= i < v.len() implies pat_ok(v[i], false, k + tys_to(v, i as nat).len(), #[trigger] $ret->Tuple_0@[i]) by {}
            }
            _ => {}
        }
    }
}
//@ fn pattern_types_
    ensures drefs(final(acc)@) == drefs(old(acc)@) + tys(*pat),
    decreases pat,
//@ loop 0 before
let ghost vv = *pats;
let ghost a0 = drefs(acc@);
proof {
    assert(tys(*pat) == tys_to(vv, vv.len() as nat));
    if *pat is Enum { assert(decreases_to!(*pat => pat->Enum_1)); } else { assert(decreases_to!(*pat => pat->Tuple_0)); }
    assert(tys_to(vv, 0) =~= Seq::empty());
}
//@ loop 0
    drefs(acc@) =~= a0 + tys_to(vv, $it.pos() as nat),
//@ loop 0 begin
proof { assert(decreases_to!(vv => vv[$it.pos() - 1])); }
//@ loop 1 before
let ghost vv = *pats;
let ghost a0 = drefs(acc@);
proof {
    assert(tys(*pat) == ftys_to(vv, vv.len() as nat));
    assert(decreases_to!(*pat => pat->Struct_1));
    assert(ftys_to(vv, 0) =~= Seq::empty());
}
//@ loop 1
    drefs(acc@) =~= a0 + ftys_to(vv, $it.pos() as nat),
//@ loop 1 begin
proof { assert(decreases_to!(vv => vv[$it.pos() - 1])); assert(decreases_to!(vv[$it.pos() - 1] => vv[$it.pos() - 1].pattern)); }
//@ fn pattern_types ret=r
    ensures drefs(r@) == tys(*pat),
//@ fn generate_pattern_syn_with_idents_ ret=r nopanic
//@ rettype RPat
    requires f_ids(old(idents)@),
    ensures
        pat_ok(*pat, true, old(idents)@.len() as int, r),
        f_ids(final(idents)@),
        final(idents)@.len() == old(idents)@.len() + tys(*pat).len(),
    decreases pat,
//@ lettype pats Vec<RPat>
//@ begin
let ghost k0 = idents@.len() as int;
//@ loop 0 elem
RPat
//@ loop 0 before
let ghost vv = *pats;
proof { assert(decreases_to!(*pat => pat->Enum_1)); assert(tys(*pat) == tys_to(vv, vv.len() as nat)); }
//@ loop 0
    $out@.len() == $it.pos(),
    f_ids(idents@),
    idents@.len() == k0 + tys_to(vv, $it.pos() as nat).len(),
    forall |i: int| 0 <= i < $it.pos() ==> pat_ok(vv[i], true, k0 + tys_to(vv, i as nat).len(), #[trigger] $out@[i]),
//@ loop 0 begin
proof { assert(decreases_to!(vv => vv[$it.pos() - 1])); assert(tys_to(vv, $it.pos() as nat) == tys_to(vv, ($it.pos() - 1) as nat) + tys(vv[$it.pos() - 1])); }
//@ loop 1 elem
RPat
//@ loop 1 before
let ghost vv = *fields;
proof { assert(decreases_to!(*pat => pat->Struct_1)); assert(tys(*pat) == ftys_to(vv, vv.len() as nat)); }
//@ loop 1
    $out@.len() == $it.pos(),
    f_ids(idents@),
    idents@.len() == k0 + ftys_to(vv, $it.pos() as nat).len(),
    forall |i: int| 0 <= i < $it.pos() ==> match #[trigger] $out@[i] {
        RPat::Field(f, q) => f == vv[i].field_name && pat_ok(vv[i].pattern, true, k0 + ftys_to(vv, i as nat).len(), *q),
        _ => false,
    },
//@ loop 1 begin
proof {
    assert(decreases_to!(vv => vv[$it.pos() - 1])); assert(decreases_to!(vv[$it.pos() - 1] => vv[$it.pos() - 1].pattern));
    assert(ftys_to(vv, $it.pos() as nat) == ftys_to(vv, ($it.pos() - 1) as nat) + tys(vv[$it.pos() - 1].pattern));
}
//@ loop 2 elem
RPat
//@ loop 2 before
let ghost vv = *pats;
proof { assert(decreases_to!(*pat => pat->Tuple_0)); assert(tys(*pat) == tys_to(vv, vv.len() as nat)); }
//@ loop 2
    $out@.len() == $it.pos(),
    f_ids(idents@),
    idents@.len() == k0 + tys_to(vv, $it.pos() as nat).len(),
    forall |i: int| 0 <= i < $it.pos() ==> pat_ok(vv[i], true, k0 + tys_to(vv, i as nat).len(), #[trigger] $out@[i]),
//@ loop 2 begin
proof { assert(decreases_to!(vv => vv[$it.pos() - 1])); assert(tys_to(vv, $it.pos() as nat) == tys_to(vv, ($it.pos() - 1) as nat) + tys(vv[$it.pos() - 1])); }
//@ end
proof {
    match pat {
        Pattern::Enum(path, v) => {
            assert forall |i: int| 0 <= i < v.len() implies pat_ok(v[i], true, k0 + tys_to(*v, i as nat).len(), #[trigger] $ret->Enum_1@[i]) by {}
        }
        Pattern::Struct(path, v, dots) => {
            assert forall |i: int| 0 <= i < v.len() implies match #[trigger] $ret->Struct_1@[i] {
                RPat::Field(f, q) => f == v[i].field_name && pat_ok(v[i].pattern, true, k0 + ftys_to(*v, i as nat).len(), *q),
                _ => false,
            } by {}
        }
        Pattern::Tuple(v) => {
            assert forall |i: int| 0 <= i < v.len() implies pat_ok(v[i], true, k0 + tys_to(*v, i as nat).len(), #[trigger] $ret->Tuple_0@[i]) by {}
        }
        _ => {}
    }
}
//@ fn generate_pattern_syn_with_idents ret=r nopanic
//@ rettype (RPat, Vec<syn::Ident>)
    ensures pat_ok(*pat, true, 0, r.0), f_ids(r.1@), r.1@.len() == tys(*pat).len(),
//@ fn token_terminal_idx_fn ret=r nopanic
//@ rettype (syn::Ident, IdxFn)
    ensures
        r.1.name == r.0, r.1.ty == tokens.type_name,
//@ if det
        r.0.id() == EId::Text(lower_case(syn::id_text(tokens.type_name.id())) + "_terminal_idx"@), r.1.arg.id() == EId::Text("token"@),
//@ endif
        r.1.arms@.len() == tokens.conversions@.len(),
        forall |i: int| 0 <= i < r.1.arms@.len() ==> idx_arm_ok(tokens.conversions@[i].to, i, #[trigger] r.1.arms@[i]),
//@ lettype match_alts Vec<IdxArm>
//@ loop 0 elem
IdxArm
//@ loop 0
    $out@.len() == $it.pos(),
    forall |i: int| 0 <= i < $it.pos() ==> idx_arm_ok(tokens.conversions@[i].to, i, #[trigger] $out@[i]),
//@ fn token_value_fn ret=r nopanic
//@ rettype (syn::Ident, ValFn)
    ensures
        r.1.name == r.0, r.1.ty == *user_token_type_name, r.1.result == *action_result_type_name,
        r.0.id() == EId::Text("token_value"@),
        r.1.arms@.len() == tokens@.len(),
        forall |i: int| 0 <= i < r.1.arms@.len() ==> val_arm_ok(tokens@[i].to, i, *action_result_type_name, #[trigger] r.1.arms@[i]),
//@ lettype variants Vec<ValArm>
//@ loop 0
    variants@.len() == $it.pos(),
    forall |i: int| 0 <= i < $it.pos() ==> val_arm_ok(tokens@[i].to, i, *action_result_type_name, #[trigger] variants@[i]),
//@ fn semantic_action_result_type ret=r nopanic
//@ rettype (syn::Ident, ResultTy, Vec<usize>)
    ensures r.1.name == r.0, r.0.id() == EId::Text("SemanticActionResult"@), result_ok(grammar, tokens@, r.1, r.2@),
//@ if det
        r.1.variants@.len() == tokens@.len() + types_to(grammar, grammar.non_terminals@.len() as int).len(),
        vns_det(grammar, types_to(grammar, grammar.non_terminals@.len() as int), r.2@),
//@ endif
//@ begin
proof { axiom_vec_alloc(&grammar.non_terminals); }
//@ lettype variants Vec<Variant>
//@ lettype extraction_fns Vec<ExtractFn>
//@ loop 0
    variants@.len() == $it.pos(), extraction_fns@.len() == $it.pos(),
    forall |i: int| 0 <= i < $it.pos() ==> tok_entry(tokens@[i].to, i, #[trigger] variants@[i], extraction_fns@[i]),
//@ loop 1
    $out@.len() == $it.pos(),
//@ loop 2
    i <= $it.pos(),
    variants@.len() == tokens@.len() + i, extraction_fns@.len() == variants@.len(),
    forall |i: int| 0 <= i < tokens@.len() ==> tok_entry(tokens@[i].to, i, #[trigger] variants@[i], extraction_fns@[i]),
    non_terminal_action_variant_names@.len() == $it.pos(),
    forall |n: int| 0 <= n < $it.pos() ==> vn_ok(tokens@.len() as int, grammar.non_terminals@[n].return_ty, #[trigger] non_terminal_action_variant_names@[n] as int, variants@, extraction_fns@),
    forall |t: syn::Type| #[trigger] non_terminal_ty_indices@.dom().contains(t) ==> vn_ok(tokens@.len() as int, t, non_terminal_ty_indices@[t] as int, variants@, extraction_fns@),
//@ if det
    i == types_to(grammar, $it.pos() as int).len(),
    forall |t: syn::Type| #[trigger] types_to(grammar, $it.pos() as int).contains(t) <==> non_terminal_ty_indices@.dom().contains(t),
    forall |t: syn::Type| #[trigger] non_terminal_ty_indices@.dom().contains(t) ==> vn_det(types_to(grammar, $it.pos() as int), t, non_terminal_ty_indices@[t] as int),
    vns_det(grammar, types_to(grammar, $it.pos() as int), non_terminal_action_variant_names@),
//@ endif
//@ loop 2 begin
let ghost (vs0, fs0) = (variants@, extraction_fns@);
let ghost i0 = i as int;
let ghost names0 = non_terminal_action_variant_names@;
//@ loop 2 end
proof {
    assert(i0 < i ==> vn_ok(tokens@.len() as int, non_terminal.return_ty, i0, variants@, extraction_fns@));
    assert forall |t: syn::Type, k: int| 0 <= k && #[trigger] vn_ok(tokens@.len() as int, t, k, vs0, fs0) implies vn_ok(tokens@.len() as int, t, k, variants@, extraction_fns@) by {}
    assert forall |n: int| 0 <= n < $it.pos() implies vn_ok(tokens@.len() as int, grammar.non_terminals@[n].return_ty, #[trigger] non_terminal_action_variant_names@[n] as int, variants@, extraction_fns@) by {
        if n + 1 < $it.pos() { assert(names0[n] == non_terminal_action_variant_names@[n]); }
    }
//@ if det
    lemma_types_step(grammar, $it.pos() as int);
//@ endif
}
