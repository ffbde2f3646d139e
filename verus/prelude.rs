#![allow(unused, non_snake_case, non_camel_case_types)]
#![verifier::loop_isolation(false)]
extern crate vstd;

/// Stand-ins for std / fxhash containers and iterators. Everything here is ASSUMED (external_body):
/// the contracts state the documented behaviour of the std collections.
pub mod prelude {
use vstd::prelude::*;
pub use vstd::set::Set as SSet;
pub use vstd::map::Map as SMap;
verus! {

// ---------------------------------------------------------------- aborting (panic) paths
// Macro expansion "fails" by panicking: such a path never continues. Functions whose panics matter
// use `abort_never` (must be unreachable) or carry an assertion before the abort.
#[verifier::external_body]
pub fn abort<T>() -> (r: T) ensures false { panic!() }
#[verifier::external_body]
pub fn abort_never<T>() -> (r: T) requires false { panic!() }
/// An arbitrary predicate, never given a definition. A function `requires C ==> may_reject()` whose
/// panics all need may_reject() panics only if C holds (take C for the predicate).
pub uninterp spec fn may_reject() -> bool;
#[verifier::external_body]
pub fn abort_reject<T>() -> (r: T) requires may_reject() ensures false { panic!() }

// ---------------------------------------------------------------- checked integer conversions
// `uN::try_from(x).unwrap()`: the value, or a panic.
#[verifier::external_body]
pub fn try_u32(x: usize) -> (r: u32) ensures r as int == x as int { u32::try_from(x).unwrap() }
#[verifier::external_body]
pub fn try_u16(x: usize) -> (r: u16) ensures r as int == x as int { u16::try_from(x).unwrap() }

// ---------------------------------------------------------------- Default
pub trait VDefault: Sized {
    spec fn is_default(&self) -> bool;
    fn default() -> (r: Self) ensures r.is_default();
}
impl VDefault for bool {
    open spec fn is_default(&self) -> bool { *self == false }
    fn default() -> (r: Self) { false }
}
impl<T> VDefault for Vec<T> {
    open spec fn is_default(&self) -> bool { self@ == Seq::<T>::empty() }
    fn default() -> (r: Self) { Vec::new() }
}

// ---------------------------------------------------------------- iterators
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { v: Vec<T>, i: usize }

impl<T> VIter<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        requires 0 <= old(self).pos() <= old(self).seq().len(),
        ensures
            final(self).seq() == old(self).seq(),
            0 <= final(self).pos() <= final(self).seq().len(),
            match r {
                Some(x) => old(self).pos() < old(self).seq().len() && x == old(self).seq()[old(self).pos()]
                    && final(self).pos() == old(self).pos() + 1,
                None => old(self).pos() == old(self).seq().len() && final(self).pos() == old(self).pos(),
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_vec(v: Vec<T>) -> (r: Self)
        ensures r.seq() == v@, r.pos() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chain(self, o: VIter<T>) -> (r: VIter<T>)
        requires self.pos() == 0, o.pos() == 0,
        ensures r.seq() == self.seq() + o.seq(), r.pos() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: VIter<T>)
        requires self.pos() == 0,
        ensures r.seq() == self.seq().reverse(), r.pos() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VIter<(usize, T)>)
        requires self.pos() == 0,
        ensures r.seq() == Seq::new(self.seq().len(), |i: int| (i as usize, self.seq()[i])), r.pos() == 0,
            self.seq().len() <= usize::MAX,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<C: FromVIter<T>>(self) -> (r: C)
        requires self.pos() == 0,
        ensures r.from_seq(self.seq()),
    { unimplemented!() }
}
impl<'a, T: Clone> VIter<&'a T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: VIter<T>)
        requires self.pos() == 0,
        ensures r.seq() == Seq::new(self.seq().len(), |i: int| *self.seq()[i]), r.pos() == 0,
    { unimplemented!() }
}

pub trait FromVIter<T>: Sized {
    spec fn from_seq(&self, s: Seq<T>) -> bool;
}
impl<T> FromVIter<T> for Vec<T> {
    open spec fn from_seq(&self, s: Seq<T>) -> bool { self@ == s }
}
impl<K> FromVIter<K> for HSet<K> {
    open spec fn from_seq(&self, s: Seq<K>) -> bool { forall |x: K| #[trigger] self@.contains(x) <==> s.contains(x) }
}
impl<K> FromVIter<K> for BTreeSet<K> {
    open spec fn from_seq(&self, s: Seq<K>) -> bool { forall |x: K| #[trigger] self@.contains(x) <==> s.contains(x) }
}

pub trait VIntoIter: Sized {
    type I;
    spec fn into_seq(&self) -> Seq<Self::I>;
    fn v_into_iter(self) -> (r: VIter<Self::I>)
        ensures self.into_ok(r.seq()), r.pos() == 0;
    spec fn into_ok(&self, s: Seq<Self::I>) -> bool;
}
impl VIntoIter for core::ops::Range<usize> {
    type I = usize;
    open spec fn into_seq(&self) -> Seq<usize> {
        Seq::new((if self.end >= self.start { self.end - self.start } else { 0 }) as nat, |i: int| (self.start + i) as usize)
    }
    open spec fn into_ok(&self, s: Seq<usize>) -> bool { s == self.into_seq() }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<usize>) { unimplemented!() }
}
impl VIntoIter for core::ops::Range<u16> {
    type I = u16;
    open spec fn into_seq(&self) -> Seq<u16> {
        Seq::new((if self.end >= self.start { self.end - self.start } else { 0 }) as nat, |i: int| (self.start + i) as u16)
    }
    open spec fn into_ok(&self, s: Seq<u16>) -> bool { s == self.into_seq() }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<u16>) { unimplemented!() }
}
impl<T> VIntoIter for VIter<T> {
    type I = T;
    open spec fn into_seq(&self) -> Seq<T> { self.seq() }
    open spec fn into_ok(&self, s: Seq<T>) -> bool { self.pos() == 0 ==> s == self.seq() }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<T>) { unimplemented!() }
}
impl<T> VIntoIter for Vec<T> {
    type I = T;
    open spec fn into_seq(&self) -> Seq<T> { self@ }
    open spec fn into_ok(&self, s: Seq<T>) -> bool { s == self@ }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<T>) { unimplemented!() }
}
impl<'a, T> VIntoIter for &'a Vec<T> {
    type I = &'a T;
    open spec fn into_seq(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    open spec fn into_ok(&self, s: Seq<&'a T>) -> bool { s == self.into_seq() }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() }
}
impl<'a, T> VIntoIter for &'a [T] {
    type I = &'a T;
    open spec fn into_seq(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    open spec fn into_ok(&self, s: Seq<&'a T>) -> bool { s == self.into_seq() }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() }
}

/// `s` enumerates the elements of `set`, each once (order unspecified).
pub open spec fn enumerates<K>(s: Seq<K>, set: SSet<K>) -> bool {
    &&& s.no_duplicates()
    &&& forall |k: K| #[trigger] set.contains(k) <==> s.contains(k)
    &&& forall |i: int| 0 <= i < s.len() ==> set.contains(#[trigger] s[i])
}
pub open spec fn enumerates_ref<'a, K>(s: Seq<&'a K>, set: SSet<K>) -> bool {
    &&& forall |i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> *s[i] != *s[j]
    &&& forall |k: K| #[trigger] set.contains(k) <==> exists |i: int| 0 <= i < s.len() && *#[trigger] s[i] == k
    &&& forall |i: int| 0 <= i < s.len() ==> set.contains(*#[trigger] s[i])
}

impl<K> VIntoIter for HSet<K> {
    type I = K;
    open spec fn into_seq(&self) -> Seq<K> { arbitrary() }
    open spec fn into_ok(&self, s: Seq<K>) -> bool { enumerates(s, self@) }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<K>) { unimplemented!() }
}
impl<'a, K> VIntoIter for &'a HSet<K> {
    type I = &'a K;
    open spec fn into_seq(&self) -> Seq<&'a K> { arbitrary() }
    open spec fn into_ok(&self, s: Seq<&'a K>) -> bool { enumerates_ref(s, self@) }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<&'a K>) { unimplemented!() }
}
impl<'a, K> VIntoIter for &'a BTreeSet<K> {
    type I = &'a K;
    open spec fn into_seq(&self) -> Seq<&'a K> { btree_order(self@) }
    open spec fn into_ok(&self, s: Seq<&'a K>) -> bool { s == self.into_seq() && enumerates_ref(s, self@) }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<&'a K>) { unimplemented!() }
}
/// The (Ord) order in which a BTreeSet yields its elements: a function of the set alone.
pub uninterp spec fn btree_order<'a, K>(s: SSet<K>) -> Seq<&'a K>;

// ---------------------------------------------------------------- sets
/// FxHashSet
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HSet<K> { p: core::marker::PhantomData<K> }
impl<K> HSet<K> {
    pub uninterp spec fn view(&self) -> SSet<K>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == SSet::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == SSet::<K>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_iter(&self) -> (r: VIter<&K>) ensures enumerates_ref(r.seq(), self@), r.pos() == 0 { unimplemented!() }
}
impl<K> VDefault for HSet<K> {
    open spec fn is_default(&self) -> bool { self@ == SSet::<K>::empty() }
    fn default() -> (r: Self) { HSet::new() }
}
impl<K: Clone> Clone for HSet<K> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct BTreeSet<K> { p: core::marker::PhantomData<K> }
impl<K> BTreeSet<K> {
    pub uninterp spec fn view(&self) -> SSet<K>;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == SSet::<K>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_iter(&self) -> (r: VIter<&K>)
        ensures enumerates_ref(r.seq(), self@), r.seq() == btree_order(self@), r.pos() == 0
    { unimplemented!() }
}
impl<K> VDefault for BTreeSet<K> {
    open spec fn is_default(&self) -> bool { self@ == SSet::<K>::empty() }
    #[verifier::external_body]
    fn default() -> (r: Self) { unimplemented!() }
}
impl<K: Clone> Clone for BTreeSet<K> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

// ---------------------------------------------------------------- maps
/// Keys are compared through `key()`: what the key type's Eq/Hash distinguish.
pub trait Key {
    type KV;
    spec fn key(&self) -> Self::KV;
}
impl<K> Key for BTreeSet<K> { type KV = SSet<K>; open spec fn key(&self) -> SSet<K> { self@ } }
impl Key for String { type KV = Seq<char>; open spec fn key(&self) -> Seq<char> { self@ } }
impl<K> Key for Option<K> { type KV = Option<K>; open spec fn key(&self) -> Option<K> { *self } }

/// FxHashMap
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HMap<K: Key, V> { p: core::marker::PhantomData<(K, V)> }
impl<K: Key, V> HMap<K, V> {
    pub uninterp spec fn view(&self) -> SMap<K::KV, V>;
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.insert(k.key(), v),
            r == (if old(self)@.dom().contains(k.key()) { Some(old(self)@[k.key()]) } else { None::<V> }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures
            r is Some <==> self@.dom().contains(k.key()),
            r is Some ==> *r->0 == self@[k.key()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures r == self@.dom().contains(k.key()),
    { unimplemented!() }
    /// `.entry(k).or_default()`
    #[verifier::external_body]
    pub fn entry_or_default(&mut self, k: K) -> (r: &mut V) where V: VDefault
        ensures
            old(self)@.dom().contains(k.key()) ==> *r == old(self)@[k.key()],
            !old(self)@.dom().contains(k.key()) ==> (*r).is_default(),
            final(self)@ == old(self)@.insert(k.key(), *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_iter(&self) -> (r: VIter<(&K, &V)>)
        ensures r.pos() == 0, enumerates_map(r.seq(), self@),
    { unimplemented!() }
}
pub open spec fn enumerates_map<'a, K: Key, V>(s: Seq<(&'a K, &'a V)>, m: SMap<K::KV, V>) -> bool {
    &&& forall |i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).0.key() != (#[trigger] s[j]).0.key()
    &&& forall |k: K::KV| #[trigger] m.dom().contains(k) <==> exists |i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.key() == k
    &&& forall |i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0.key()) && *s[i].1 == m[s[i].0.key()]
}
pub open spec fn enumerates_pairs<K: Key, V>(s: Seq<(K, V)>, m: SMap<K::KV, V>) -> bool {
    &&& forall |i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).0.key() != (#[trigger] s[j]).0.key()
    &&& forall |k: K::KV| #[trigger] m.dom().contains(k) <==> exists |i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.key() == k
    &&& forall |i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0.key()) && s[i].1 == m[s[i].0.key()]
}
impl<K: Key, V> VIntoIter for HMap<K, V> {
    type I = (K, V);
    open spec fn into_seq(&self) -> Seq<(K, V)> { arbitrary() }
    open spec fn into_ok(&self, s: Seq<(K, V)>) -> bool { enumerates_pairs(s, self@) }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<(K, V)>) { unimplemented!() }
}
impl<K: Key, V> VDefault for HMap<K, V> {
    open spec fn is_default(&self) -> bool { self@ == SMap::<K::KV, V>::empty() }
    #[verifier::external_body]
    fn default() -> (r: Self) { unimplemented!() }
}

pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, value: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(value);

// ---------------------------------------------------------------- slices, vectors
pub proof fn lemma_vec_len<T>(v: &Vec<T>)
    ensures v@.len() <= usize::MAX
{
    assert(vstd::std_specs::vec::spec_vec_len(v) == v@.len());
}
/// types whose values take up at least one byte (each impl says why)
pub trait NonZst {}
/// pointer, capacity and length
impl NonZst for String {}
/// a vector's allocation is at most isize::MAX bytes (documented limit of Vec)
#[verifier::external_body]
pub proof fn axiom_vec_alloc<T: NonZst>(v: &Vec<T>)
    ensures v@.len() <= isize::MAX
{ unimplemented!() }
/// what collecting clones of a set's elements into a vector gives
pub proof fn lemma_collect_refs<K>(s: SSet<K>, v: Seq<K>)
    requires exists |r: Seq<&K>| #[trigger] enumerates_ref(r, s) && v == Seq::new(r.len(), |i: int| *r[i])
    ensures forall |a: K| #[trigger] s.contains(a) <==> v.contains(a)
{
    let r = choose |r: Seq<&K>| #[trigger] enumerates_ref(r, s) && v == Seq::new(r.len(), |i: int| *r[i]);
    assert forall |a: K| #[trigger] s.contains(a) <==> v.contains(a) by {
        if s.contains(a) { let i = choose |i: int| 0 <= i < r.len() && *#[trigger] r[i] == a; assert(v[i] == a); }
        if v.contains(a) { let i = choose |i: int| 0 <= i < v.len() && v[i] == a; assert(*r[i] == a); }
    }
}
#[verifier::external_body]
pub fn mem_replace<T>(dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src,
{ core::mem::replace(dest, src) }
#[verifier::external_body]
pub fn slice_from<T>(s: &[T], i: usize) -> (r: &[T])
    requires i <= s@.len(),
    ensures r@ == s@.subrange(i as int, s@.len() as int),
{ &s[i..] }

#[verifier::external_body]
pub fn vec_extend<T>(v: &mut Vec<T>, it: VIter<T>)
    requires it.pos() == 0,
    ensures final(v)@ == old(v)@ + it.seq(),
{ unimplemented!() }

/// `[..].join(sep)` on strings
pub open spec fn join_sep(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if s.len() == 1 { s[0] }
    else { join_sep(s.drop_last(), sep) + sep + s.last() }
}
pub open spec fn strs<'a>(s: Seq<&'a str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
#[verifier::external_body]
pub fn v_join(v: &Vec<&str>, sep: &str) -> (r: String)
    ensures r@ == join_sep(strs(v@), sep@),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_once<T>(x: T) -> (r: VIter<T>)
    ensures r.seq() == seq![x], r.pos() == 0,
{ unimplemented!() }
#[verifier::external_body]
pub fn v_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub uninterp spec fn lower_case(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn v_lower(s: &String) -> (r: String) ensures r@ == lower_case(s@) { unimplemented!() }
#[verifier::external_body]
pub fn v_concat(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
/// `#(#x),*`: the elements of x
#[verifier::external_body]
pub fn v_list<C: VIntoIter>(c: C) -> (r: Vec<C::I>)
    ensures c.into_ok(r@),
{ unimplemented!() }

/// `.iter()` on vectors and slices
pub trait VIterRef {
    type E;
    spec fn vseq(&self) -> Seq<Self::E>;
    fn v_iter(&self) -> (r: VIter<&Self::E>)
        ensures
            r.pos() == 0,
            r.seq() == Seq::new(self.vseq().len(), |i: int| &self.vseq()[i]);
}
impl<T> VIterRef for Vec<T> {
    type E = T;
    open spec fn vseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter(&self) -> (r: VIter<&T>) { unimplemented!() }
}
impl<T> VIterRef for [T] {
    type E = T;
    open spec fn vseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter(&self) -> (r: VIter<&T>) { unimplemented!() }
}
} // verus
} // mod prelude
use prelude::*;
