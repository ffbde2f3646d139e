//@ module syn
//@ header
use vstd::prelude::*;
use crate::prelude::*;
//@ raw
#[verifier::external_body] pub struct Type { p: core::marker::PhantomData<()> }
impl Clone for Type {
    #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// the part of syn::Expr that this crate builds itself; everything else is opaque
pub enum Expr { Path(ExprPath), Other(OtherExpr) }
#[verifier::external_body] pub struct OtherExpr { p: core::marker::PhantomData<()> }
pub struct ExprPath { pub attrs: Vec<Attribute>, pub qself: Option<QSelf>, pub path: Path }
#[verifier::external_body] pub struct Attribute { p: core::marker::PhantomData<()> }
#[verifier::external_body] pub struct QSelf { p: core::marker::PhantomData<()> }
pub struct Path { pub leading_colon: Option<PathSep>, pub segments: punctuated::Punctuated<PathSegment, PathSep> }
#[verifier::external_body] pub struct PathSep { p: core::marker::PhantomData<()> }
pub struct PathSegment { pub ident: Ident, pub arguments: PathArguments }
pub enum PathArguments { None, Other(OtherArguments) }
#[verifier::external_body] pub struct OtherArguments { p: core::marker::PhantomData<()> }
pub mod punctuated {
    use vstd::prelude::*;
    use core::marker::PhantomData;
    use crate::prelude::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    #[verifier::reject_recursive_types(P)]
    pub struct Punctuated<T, P> { p: PhantomData<(T, P)> }
    impl<T, P> Punctuated<T, P> {
        pub uninterp spec fn items(&self) -> Seq<T>;
        /// FromIterator on a vector
        #[verifier::external_body]
        pub fn from_iter(v: Vec<T>) -> (r: Self) ensures r.items() == v@ { unimplemented!() }
        #[verifier::external_body]
        pub fn into_pairs(self) -> (r: VIter<Pair<T, P>>)
            ensures r.pos() == 0, r.seq().len() == self.items().len(), forall |k: int| 0 <= k < r.seq().len() ==> (#[trigger] r.seq()[k]).item() == self.items()[k]
        { unimplemented!() }
        /// reads elements and commas up to the end
        #[verifier::external_body]
        pub fn parse_terminated(input: &mut super::ParseBuffer) -> (r: super::Result<Self>)
            where T: super::Spelt
            requires old(input).pos() == 0
            ensures
                final(input).src() == old(input).src(),
                r is Ok ==> final(input).pos() == final(input).src().len()
                    && super::list_of(old(input).src(), r->Ok_0.items()),
        { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    #[verifier::reject_recursive_types(P)]
    pub struct Pair<T, P> { p: PhantomData<(T, P)> }
    impl<T, P> Pair<T, P> {
        pub uninterp spec fn item(&self) -> T;
        #[verifier::external_body]
        pub fn into_value(self) -> (r: T) ensures r == self.item() { unimplemented!() }
    }
}
#[verifier::external_body] pub struct LitStr { p: core::marker::PhantomData<()> }
impl LitStr {
    /// the text between the quotes
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn value(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
}
impl Clone for Expr {
    #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// the text of an identifier: literal, or a format string with one or two numbers filled in
pub enum EId { Text(Seq<char>), F1(Seq<char>, int), F2(Seq<char>, int, int) }
pub uninterp spec fn text1(f: Seq<char>, n: int) -> Seq<char>;
pub uninterp spec fn text2(f: Seq<char>, n: int, m: int) -> Seq<char>;
pub open spec fn id_text(e: EId) -> Seq<char> {
    match e { EId::Text(t) => t, EId::F1(f, n) => text1(f, n), EId::F2(f, n, m) => text2(f, n, m) }
}
/// what `format!` gives
#[verifier::external_body] pub struct EStr { p: core::marker::PhantomData<()> }
impl EStr { pub uninterp spec fn eid(&self) -> EId; }
#[verifier::external_body]
pub fn fmt1(f: &str, n: usize) -> (r: EStr) ensures r.eid() == EId::F1(f@, n as int) { unimplemented!() }
#[verifier::external_body]
pub fn fmt2(f: &str, n: usize, m: usize) -> (r: EStr) ensures r.eid() == EId::F2(f@, n as int, m as int) { unimplemented!() }
pub trait IdentText { spec fn itext(&self) -> EId; }
impl IdentText for EStr { open spec fn itext(&self) -> EId { self.eid() } }
impl IdentText for String { open spec fn itext(&self) -> EId { EId::Text(self@) } }
impl IdentText for str { open spec fn itext(&self) -> EId { EId::Text(self@) } }
#[verifier::external_body] pub struct Span { p: core::marker::PhantomData<()> }
impl Span {
    #[verifier::external_body] pub fn call_site() -> (r: Span) { unimplemented!() }
}
#[verifier::external_body] pub struct Ident { p: core::marker::PhantomData<()> }
impl Ident {
    pub uninterp spec fn id(&self) -> EId;
    #[verifier::external_body]
    pub fn span(&self) -> (r: Span) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == id_text(self.id()) { unimplemented!() }
    #[verifier::external_body]
    pub fn new<T: IdentText + ?Sized>(t: &T, s: Span) -> (r: Self) ensures r.id() == t.itext() { unimplemented!() }
}
#[verifier::external_body] pub struct Lifetime { p: core::marker::PhantomData<()> }
impl Clone for Ident {
    #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Key for Type { type KV = Type; open spec fn key(&self) -> Type { *self } }
impl Clone for Path {
    #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body] pub struct Lit { p: core::marker::PhantomData<()> }
impl Clone for Lit {
    #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// the token streams of a macro's input and output
#[verifier::external_body] pub struct TokenStream { p: core::marker::PhantomData<()> }
#[verifier::external_body] pub struct Error { p: core::marker::PhantomData<()> }
impl TokenStream {
    /// the text emitted, if that is what it is (else an error's text)
    pub uninterp spec fn emitted(&self) -> Option<crate::emitted::Emitted>;
}
impl crate::emitted::Emitted {
    #[verifier::external_body]
    pub fn into(self) -> (r: TokenStream) ensures r.emitted() == Some(self) { unimplemented!() }
}
// ------------------------------------------------------------------ the text of an input
/// a token tree: a delimited group, or a token
pub ghost enum TT { Group(Dl, Seq<TT>), Leaf(Tk) }
pub ghost enum Dl { Paren, Brace, Bracket }
#[verifier::external_body] pub struct Tk { p: core::marker::PhantomData<()> }
/// how much there is to read
pub open spec fn size(t: TT) -> nat
    decreases t
{
    match t { TT::Group(d, s) => 1 + sizes(s, 0), TT::Leaf(_) => 1 }
}
pub open spec fn sizes(s: Seq<TT>, i: int) -> nat
    decreases s, s.len() - i
{
    if 0 <= i < s.len() { size(s[i]) + sizes(s, i + 1) } else { 0 }
}
pub broadcast proof fn lemma_sizes_less(s: Seq<TT>, i: int, j: int)
    requires 0 <= i < j <= s.len()
    ensures #![trigger sizes(s, i), sizes(s, j)] sizes(s, j) < sizes(s, i)
    decreases j - i
{
    if i + 1 < j { lemma_sizes_less(s, i + 1, j); }
    assert(size(s[i]) >= 1);
}
pub broadcast proof fn lemma_sizes_group(s: Seq<TT>, i: int, j: int, d: Dl, t: Seq<TT>)
    requires #[trigger] grp(s, i, j, d, t)
    ensures sizes(t, 0) < sizes(s, i)
{
    assert(size(s[i]) == 1 + sizes(t, 0));
}
/// s is the one group of this kind, with t in it
pub open spec fn grp(s: Seq<TT>, i: int, j: int, d: Dl, t: Seq<TT>) -> bool { 0 <= i < s.len() && j == i + 1 && s[i] == TT::Group(d, t) }
/// the tokens s are (a spelling of) the token, identifier, literal, type, expression, path x
pub uninterp spec fn spelt<T>(s: Seq<TT>, x: T) -> bool;
pub open spec fn leaf<T>(s: Seq<TT>, i: int, j: int, x: T) -> bool { 0 <= i < j <= s.len() && spelt::<T>(s.subrange(i, j), x) }
/// the tokens s are a token of type T (punctuation or a keyword)
pub uninterp spec fn is_token<T>(s: Seq<TT>) -> bool;
pub open spec fn tk<T>(s: Seq<TT>, i: int, j: int) -> bool { 0 <= i < j <= s.len() && is_token::<T>(s.subrange(i, j)) }
pub open spec fn tk_opt<T>(s: Seq<TT>, i: int, j: int) -> bool { i == j || tk::<T>(s, i, j) }
/// what a text spells, and whether a failed attempt to read it leaves the input where it was
pub trait Spelt: Sized {
    spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool;
    spec fn atomic() -> bool;
}
/// a list with commas between its elements, perhaps one at the end, fills s; element k stands from a[k] to b[k]
pub open spec fn commas<T: Spelt>(s: Seq<TT>, v: Seq<T>, a: Seq<int>, b: Seq<int>) -> bool {
    &&& a.len() == v.len() && b.len() == v.len()
    &&& forall |k: int| 0 <= k < v.len() ==> T::reads(s, a[k], b[k], #[trigger] v[k])
    &&& forall |k: int| 0 < k < v.len() ==> tk::<token::Comma>(s, b[k - 1], #[trigger] a[k])
    &&& if v.len() == 0 { s.len() == 0 } else { a[0] == 0 && tk_opt::<token::Comma>(s, b.last(), s.len() as int) }
}
pub open spec fn list_of<T: Spelt>(s: Seq<TT>, v: Seq<T>) -> bool { exists |a: Seq<int>, b: Seq<int>| #[trigger] commas(s, v, a, b) }
/// one after the other, from i to j
pub open spec fn list_plain<T: Spelt>(s: Seq<TT>, i: int, j: int, v: Seq<T>) -> bool
    decreases v.len()
{
    if v.len() == 0 { i == j } else { exists |m: int| list_plain(s, i, m, v.drop_last()) && #[trigger] T::reads(s, m, j, v.last()) }
}
/// the same, with perhaps a comma after each
pub open spec fn items_opt<T: Spelt>(s: Seq<TT>, i: int, j: int, v: Seq<T>) -> bool
    decreases v.len(), 1nat
{
    if v.len() == 0 { i == j } else { exists |m: int| items_last(s, i, m, v) && #[trigger] tk_opt::<token::Comma>(s, m, j) }
}
pub open spec fn items_last<T: Spelt>(s: Seq<TT>, i: int, j: int, v: Seq<T>) -> bool
    decreases v.len(), 0nat
{
    v.len() > 0 && exists |m: int| items_opt(s, i, m, v.drop_last()) && #[trigger] T::reads(s, m, j, v.last())
}
pub mod list {
    use super::*;
    use vstd::prelude::*;
    pub broadcast proof fn lemma_items0<T: Spelt>(s: Seq<TT>, i: int, j: int, v: Seq<T>)
        requires v.len() == 0, i == j
        ensures #[trigger] list_plain(s, i, j, v)
    {}
    pub broadcast proof fn lemma_items1<T: Spelt>(s: Seq<TT>, i: int, m: int, j: int, v: Seq<T>, x: T)
        requires list_plain(s, i, m, v), T::reads(s, m, j, x)
        ensures #![trigger list_plain(s, i, m, v), T::reads(s, m, j, x), v.push(x)]
            list_plain(s, i, j, v.push(x))
    {
        assert(v.push(x).drop_last() =~= v);
        assert(v.push(x).last() == x);
        assert(T::reads(s, m, j, v.push(x).last()));
    }
    pub broadcast proof fn lemma_opt0<T: Spelt>(s: Seq<TT>, i: int, j: int, v: Seq<T>)
        requires v.len() == 0, i == j
        ensures #[trigger] items_opt(s, i, j, v)
    {}
    pub broadcast proof fn lemma_opt1<T: Spelt>(s: Seq<TT>, i: int, m: int, j: int, v: Seq<T>, x: T)
        requires items_opt(s, i, m, v), T::reads(s, m, j, x)
        ensures #![trigger items_opt(s, i, m, v), T::reads(s, m, j, x), v.push(x)]
            items_last(s, i, j, v.push(x)), items_opt(s, i, j, v.push(x))
    {
        assert(v.push(x).drop_last() =~= v);
        assert(v.push(x).last() == x);
        assert(T::reads(s, m, j, v.push(x).last()));
        assert(items_last(s, i, j, v.push(x)));
        assert(tk_opt::<token::Comma>(s, j, j));
    }
    pub broadcast proof fn lemma_opt2<T: Spelt>(s: Seq<TT>, i: int, m: int, j: int, v: Seq<T>)
        requires items_last(s, i, m, v), tk::<token::Comma>(s, m, j)
        ensures #![trigger items_last(s, i, m, v), tk::<token::Comma>(s, m, j)]
            items_opt(s, i, j, v)
    {
        assert(tk_opt::<token::Comma>(s, m, j));
    }
    pub broadcast group list_facts { lemma_items0, lemma_items1, lemma_opt0, lemma_opt1, lemma_opt2 }
}
/// syn's parse buffer: a position in the text of an input or of a group
#[verifier::external_body] pub struct ParseBuffer { p: core::marker::PhantomData<()> }
pub uninterp spec fn peeks<T>(s: Seq<TT>, i: int) -> bool;
impl ParseBuffer {
    pub uninterp spec fn src(&self) -> Seq<TT>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn here(&self, o: &ParseBuffer) -> bool { self.src() == o.src() && o.pos() <= self.pos() <= self.src().len() }
    /// calls T's Parse implementation. syn's own: Ok(x): the text read spells x; if it fails, tokens and
    /// identifiers leave the position where it is, others may not
    #[verifier::external_body]
    pub fn parse<T: Spelt>(&mut self) -> (r: Result<T>)
        requires 0 <= old(self).pos() <= old(self).src().len()
        ensures
            final(self).here(old(self)),
            match r {
                Ok(x) => T::reads(old(self).src(), old(self).pos(), final(self).pos(), x),
                Err(_) => T::atomic() ==> final(self).pos() == old(self).pos(),
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek<T>(&self) -> (r: bool) ensures r == peeks::<T>(self.src(), self.pos()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.pos() == self.src().len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn span(&self) -> (r: Span) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_parenthesized(&mut self) -> (r: Result<ParseBuffer>)
        requires 0 <= old(self).pos() <= old(self).src().len()
        ensures
            final(self).here(old(self)),
            r is Ok ==> r->Ok_0.pos() == 0 && grp(old(self).src(), old(self).pos(), final(self).pos(), Dl::Paren, r->Ok_0.src()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_braced(&mut self) -> (r: Result<ParseBuffer>)
        requires 0 <= old(self).pos() <= old(self).src().len()
        ensures
            final(self).here(old(self)),
            r is Ok ==> r->Ok_0.pos() == 0 && grp(old(self).src(), old(self).pos(), final(self).pos(), Dl::Brace, r->Ok_0.src()),
    { unimplemented!() }
}
pub type Result<T> = core::result::Result<T, Error>;
pub mod token {
    use vstd::prelude::*;
    #[verifier::external_body] pub struct Abstract { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct As { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Async { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Auto { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Await { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Become { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Box { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Break { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Const { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Continue { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Crate { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Default { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Do { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Dyn { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Else { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Enum { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Extern { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Final { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Fn { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct For { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct If { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Impl { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct In { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Let { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Loop { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Macro { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Match { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Mod { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Move { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Mut { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Override { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Priv { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Pub { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Ref { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Return { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct SelfType { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct SelfValue { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Static { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Struct { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Super { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Trait { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Try { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Type { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Typeof { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Union { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Unsafe { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Unsized { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Use { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Virtual { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Where { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct While { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Yield { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Add { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct AddEq { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct And { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct AndAnd { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct AndEq { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct At { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Bang { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Caret { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct CaretEq { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Colon { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Colon2 { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Comma { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Div { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct DivEq { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Dollar { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Dot { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Dot2 { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Dot3 { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct DotDotEq { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Eq { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct EqEq { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Ge { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Gt { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Le { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Lt { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct MulEq { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Ne { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Or { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct OrEq { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct OrOr { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Pound { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Question { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct RArrow { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct LArrow { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Rem { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct RemEq { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct FatArrow { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Semi { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Shl { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct ShlEq { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Shr { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct ShrEq { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Star { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Sub { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct SubEq { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Tilde { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Underscore { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Paren { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Brace { p: core::marker::PhantomData<()> }
    #[verifier::external_body] pub struct Bracket { p: core::marker::PhantomData<()> }
}
impl Spelt for token::Abstract { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::As { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Async { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Auto { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Await { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Become { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Box { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Break { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Const { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Continue { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Crate { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Default { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Do { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Dyn { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Else { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Enum { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Extern { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Final { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Fn { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::For { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::If { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Impl { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::In { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Let { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Loop { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Macro { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Match { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Mod { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Move { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Mut { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Override { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Priv { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Pub { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Ref { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Return { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::SelfType { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::SelfValue { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Static { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Struct { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Super { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Trait { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Try { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Type { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Typeof { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Union { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Unsafe { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Unsized { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Use { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Virtual { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Where { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::While { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Yield { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Add { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::AddEq { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::And { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::AndAnd { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::AndEq { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::At { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Bang { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Caret { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::CaretEq { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Colon { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Colon2 { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Comma { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Div { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::DivEq { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Dollar { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Dot { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Dot2 { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Dot3 { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::DotDotEq { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Eq { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::EqEq { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Ge { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Gt { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Le { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Lt { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::MulEq { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Ne { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Or { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::OrEq { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::OrOr { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Pound { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Question { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::RArrow { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::LArrow { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Rem { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::RemEq { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::FatArrow { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Semi { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Shl { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::ShlEq { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Shr { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::ShrEq { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Star { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Sub { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::SubEq { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Tilde { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Underscore { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Paren { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Brace { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for token::Bracket { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { tk::<Self>(s, i, j) } open spec fn atomic() -> bool { true } }
impl Spelt for Ident { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { leaf(s, i, j, x) } open spec fn atomic() -> bool { true } }
impl Spelt for LitStr { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { leaf(s, i, j, x) } open spec fn atomic() -> bool { false } }
impl Spelt for Lit { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { leaf(s, i, j, x) } open spec fn atomic() -> bool { false } }
impl Spelt for Type { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { leaf(s, i, j, x) } open spec fn atomic() -> bool { false } }
impl Spelt for Expr { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { leaf(s, i, j, x) } open spec fn atomic() -> bool { false } }
impl Spelt for ExprPath { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { leaf(s, i, j, x) } open spec fn atomic() -> bool { false } }
impl Spelt for Lifetime { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { leaf(s, i, j, x) } open spec fn atomic() -> bool { false } }
impl Spelt for Path { open spec fn reads(s: Seq<TT>, i: int, j: int, x: Self) -> bool { leaf(s, i, j, x) } open spec fn atomic() -> bool { false } }
/// the whole input spells x
pub open spec fn written<T: Spelt>(ts: TokenStream, x: T) -> bool { T::reads(ts.toks(), 0, ts.toks().len() as int, x) }
impl TokenStream { pub uninterp spec fn toks(&self) -> Seq<TT>; }
/// what the Parse implementations make of an input
pub uninterp spec fn parsed<T>(ts: TokenStream) -> Option<T>;
#[verifier::external_body]
pub fn v_parse_input<T: Spelt>(ts: TokenStream) -> (r: Result<T>)
    ensures match r { Ok(x) => parsed::<T>(ts) == Some(x) && written(ts, x), Err(_) => parsed::<T>(ts) is None },
{ unimplemented!() }
#[verifier::external_body]
pub fn v_compile_error(e: Error) -> (r: TokenStream) ensures r.emitted() is None { unimplemented!() }
//@ module collections
//@ header
use vstd::prelude::*;
//@ raw
pub use crate::prelude::HMap as Map;
pub use crate::prelude::HSet as Set;
