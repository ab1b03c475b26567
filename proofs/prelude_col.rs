verus! {
// ======================================================================
// Trusted: further std collections (VecDeque, entry API, sort, slices, Option helpers)
// ======================================================================
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RzDeque<T> { _p: Vec<T> }
impl<T> View for RzDeque<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> RzDeque<T> {
    #[verifier::external_body] pub fn new() -> (r: RzDeque<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn rz_is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body] pub fn push_front(&mut self, x: T) ensures final(self)@ == seq![x] + old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.drop_first(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body] pub fn pop_back(&mut self) -> (r: Option<T>)
        ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@.last() && final(self)@ == old(self)@.drop_last(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body] pub fn rz_clear(&mut self) ensures final(self)@.len() == 0 { unimplemented!() }
}
/// a `Split` that is stepped: what it has still to yield
#[verifier::external_body] pub struct RzParts<'a> { _p: Vec<&'a str> }
impl<'a> View for RzParts<'a> { type V = Seq<&'a str>; uninterp spec fn view(&self) -> Seq<&'a str>; }
#[verifier::external_body] pub fn rz_parts<'a>(v: Vec<&'a str>) -> (r: RzParts<'a>) ensures r@ == v@ { unimplemented!() }
impl<'a> RzParts<'a> {
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.drop_first(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
}
/// values a container starts from (`Default`)
pub trait RzDefault: Sized { spec fn is_def(&self) -> bool; }
impl<T> RzDefault for Vec<T> { open spec fn is_def(&self) -> bool { self@.len() == 0 } }
impl<T> RzDefault for RzMap<T> { open spec fn is_def(&self) -> bool { self@ == Map::<Seq<char>, T>::empty() } }
impl RzDefault for RzSet { open spec fn is_def(&self) -> bool { self@ == Set::<Seq<char>>::empty() } }
impl RzDefault for String { open spec fn is_def(&self) -> bool { self@.len() == 0 } }
impl RzDefault for bool { open spec fn is_def(&self) -> bool { !*self } }
impl<T> RzDefault for Option<T> { open spec fn is_def(&self) -> bool { *self is None } }
impl RzDefault for usize { open spec fn is_def(&self) -> bool { *self == 0 } }
impl RzDefault for u64 { open spec fn is_def(&self) -> bool { *self == 0 } }
#[verifier::external_body]
pub fn rz_mem_take<T: RzDefault>(x: &mut T) -> (r: T) ensures r == *old(x), final(x).is_def() { unimplemented!() }
impl<V> RzMap<V> {
    #[verifier::external_body]
    pub fn rz_entry_or_insert(&mut self, k: String, d: V) -> (r: &mut V)
        ensures *r == (if old(self)@.contains_key(k@) { old(self)@[k@] } else { d }),
            final(self)@ == old(self)@.insert(k@, *final(r)),
    { unimplemented!() }
}
impl<V: RzDefault> RzMap<V> {
    #[verifier::external_body]
    pub fn rz_entry_or_default(&mut self, k: String) -> (r: &mut V)
        ensures old(self)@.contains_key(k@) ==> *r == old(self)@[k@],
            !old(self)@.contains_key(k@) ==> r.is_def(),
            final(self)@ == old(self)@.insert(k@, *final(r)),
    { unimplemented!() }
}
/// `==` of a type whose equality is derived (or compares a part of the value): reflexive, otherwise unspecified
pub trait RzEqv: Sized { spec fn eqv(&self, o: &Self) -> bool; }
impl RzEqv for String { open spec fn eqv(&self, o: &String) -> bool { self@ == o@ } }
impl<'a, T: RzEqv> RzEqv for &'a T { open spec fn eqv(&self, o: &&'a T) -> bool { (**self).eqv(&**o) } }
pub open spec fn has<T: RzEqv>(s: Seq<T>, x: T) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).eqv(&x) }
pub trait RzHas<T: RzEqv> { spec fn hv(&self) -> Seq<T>; fn rz_contains(&self, x: &T) -> (r: bool) ensures r == has(self.hv(), *x); }
impl<T: RzEqv> RzHas<T> for Vec<T> { open spec fn hv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn rz_contains(&self, x: &T) -> (r: bool) { unimplemented!() } }
impl<T: RzEqv> RzHas<T> for [T] { open spec fn hv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn rz_contains(&self, x: &T) -> (r: bool) { unimplemented!() } }
/// max_by_key & co: some element (which one is not modelled)
#[verifier::external_body]
pub fn rz_choose<T>(v: Vec<T>) -> (r: Option<T>)
    ensures match r { None => v@.len() == 0, Some(x) => v@.contains(x) }
{ unimplemented!() }
/// statistics counters: assumed not to overflow
#[verifier::external_body]
pub fn rz_count<T: RzCount>(a: T, b: T) -> (r: T) ensures r.cv() == a.cv() + b.cv() { unimplemented!() }
pub trait RzCount: Sized { spec fn cv(self) -> int; }
impl RzCount for u64 { open spec fn cv(self) -> int { self as int } }
impl RzCount for usize { open spec fn cv(self) -> int { self as int } }
impl RzCount for i32 { open spec fn cv(self) -> int { self as int } }
pub trait RzOptRef<T> { fn rz_cloned(self) -> Option<T>; fn rz_copied(self) -> Option<T>; }
impl<'a, T> RzOptRef<T> for Option<&'a T> {
    #[verifier::external_body] fn rz_copied(self) -> (r: Option<T>) ensures match self { Some(x) => r == Some(*x), None => r is None } { unimplemented!() }
    #[verifier::external_body] fn rz_cloned(self) -> (r: Option<T>) ensures match self { Some(x) => r == Some(*x), None => r is None } { unimplemented!() }
}
pub trait RzJoin { fn rz_join(&self, sep: &str) -> String; }
pub uninterp spec fn joined(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>;
impl RzJoin for Vec<String> { #[verifier::external_body] fn rz_join(&self, sep: &str) -> (r: String) ensures r@ == joined(self@.map_values(|x: String| x@), sep@) { unimplemented!() } }
pub trait RzUnwrapDef<T> { fn rz_unwrap_or_default(self) -> T; }
impl<T: RzDefault> RzUnwrapDef<T> for Option<T> {
    #[verifier::external_body] fn rz_unwrap_or_default(self) -> (r: T) ensures match self { Some(x) => r == x, None => r.is_def() } { unimplemented!() }
}
pub open spec fn total_preorder<T>(c: spec_fn(T, T) -> Ordering) -> bool {
    &&& forall|a: T, b: T| (#[trigger] c(a, b) == Ordering::Less) == (c(b, a) == Ordering::Greater)
    &&& forall|a: T, b: T, d: T| #[trigger] c(a, b) != Ordering::Greater && #[trigger] c(b, d) != Ordering::Greater ==> c(a, d) != Ordering::Greater
}
pub open spec fn sorted_by<T>(s: Seq<T>, c: spec_fn(T, T) -> Ordering) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> c(#[trigger] s[i], #[trigger] s[j]) != Ordering::Greater
}
/// slice::sort_by: a sorted permutation, provided the comparison is a total preorder
pub trait RzSort<T> {
    spec fn ov(&self) -> Seq<T>;
    fn rz_sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F, c: Ghost<spec_fn(T, T) -> Ordering>)
        requires
            total_preorder(c@),
            forall|a: &T, b: &T| #[trigger] f.requires((a, b)),
            forall|a: &T, b: &T, o: Ordering| #[trigger] f.ensures((a, b), o) ==> o == c@(*a, *b),
        ensures
            final(self).ov().to_multiset() == old(self).ov().to_multiset(),
            final(self).ov().len() == old(self).ov().len(),
            forall|x: T| #[trigger] final(self).ov().contains(x) == old(self).ov().contains(x),
            sorted_by(final(self).ov(), c@),
            sorted_by(old(self).ov(), c@) ==> final(self).ov() == old(self).ov(); // stable
}
impl<T> RzSort<T> for Vec<T> {
    open spec fn ov(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn rz_sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F, c: Ghost<spec_fn(T, T) -> Ordering>) { unimplemented!() }
}
pub trait RzReverse<T> { spec fn rev_v(&self) -> Seq<T>; fn rz_reverse(&mut self) ensures final(self).rev_v() == old(self).rev_v().reverse(); }
impl<T> RzReverse<T> for Vec<T> { open spec fn rev_v(&self) -> Seq<T> { self@ } #[verifier::external_body] fn rz_reverse(&mut self) { unimplemented!() } }
pub open spec fn rz_texts(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
/// slice::sort of texts
pub trait RzSortText { spec fn sov(&self) -> Seq<String>;
    fn rz_sort(&mut self)
        ensures final(self).sov().to_multiset() == old(self).sov().to_multiset(), final(self).sov().len() == old(self).sov().len(),
            forall|x: Seq<char>| #[trigger] rz_texts(final(self).sov()).contains(x) == rz_texts(old(self).sov()).contains(x),
            rz_texts(old(self).sov()).no_duplicates() ==> rz_texts(final(self).sov()).no_duplicates(),
            forall|i: int, j: int| 0 <= i < j < final(self).sov().len() ==> seq_cmp((#[trigger] final(self).sov()[i])@, (#[trigger] final(self).sov()[j])@) != Ordering::Greater; }
impl RzSortText for Vec<String> { open spec fn sov(&self) -> Seq<String> { self@ } #[verifier::external_body] fn rz_sort(&mut self) { unimplemented!() } }
pub trait RzTrim { spec fn trv(&self) -> Seq<char>; fn rz_trim_start(&self) -> (r: &str) ensures r@ == trim_l(self.trv()); fn rz_trim_end(&self) -> (r: &str) ensures r@ == trim_r(self.trv()); }
impl RzTrim for str { open spec fn trv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn rz_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn rz_trim_end(&self) -> (r: &str) { unimplemented!() } }
impl RzTrim for String { open spec fn trv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn rz_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn rz_trim_end(&self) -> (r: &str) { unimplemented!() } }
// clocks: any value
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExInstant(std::time::Instant);
pub assume_specification [std::time::Instant::now] () -> std::time::Instant;
pub assume_specification [std::time::Duration::as_millis] (_0: &std::time::Duration) -> u128;
pub assume_specification [std::time::Instant::elapsed] (_0: &std::time::Instant) -> std::time::Duration;
} // verus!
verus! {
/// HashSet of values whose equality is coarser than identity: only its presence matters here
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RzSetOf<T> { _p: Vec<T> }
pub uninterp spec fn set_has<T>(s: RzSetOf<T>, x: T) -> bool;
impl<T> RzDefault for RzSetOf<T> { open spec fn is_def(&self) -> bool { forall|x: T| !#[trigger] set_has(*self, x) } }
impl<T> RzSetOf<T> {
    #[verifier::external_body] pub fn new() -> (r: RzSetOf<T>) ensures r.is_def() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: T) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn rz_contains(&self, x: &T) -> (r: bool) ensures r == set_has(*self, *x) { unimplemented!() }
}
}
verus! {
pub broadcast proof fn lemma_push_contains<T>(s: Seq<T>, x: T, y: T)
    ensures #[trigger] s.push(x).contains(y) == (s.contains(y) || x == y)
{
    if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
    if x == y { assert(s.push(x)[s.len() as int] == y); }
    if s.push(x).contains(y) { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == y; if i < s.len() { assert(s[i] == y); } }
}
pub broadcast proof fn lemma_push_has<T: RzEqv>(s: Seq<T>, x: T, y: T)
    ensures #[trigger] has(s.push(x), y) == (has(s, y) || x.eqv(&y))
{
    if has(s, y) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).eqv(&y); assert(s.push(x)[i].eqv(&y)); }
    if x.eqv(&y) { assert(s.push(x)[s.len() as int].eqv(&y)); }
    if has(s.push(x), y) { let i = choose|i: int| 0 <= i < s.push(x).len() && (#[trigger] s.push(x)[i]).eqv(&y); if i < s.len() { assert(s[i].eqv(&y)); } }
}
pub broadcast proof fn lemma_pop_contains<T>(s: Seq<T>, y: T)
    requires s.len() > 0
    ensures (#[trigger] s.drop_first()).contains(y) || s[0] == y || !(#[trigger] s.contains(y))
{
    if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; if i > 0 { assert(s.drop_first()[i - 1] == y); } }
}
pub broadcast proof fn lemma_no_contains<T>(s: Seq<T>, y: T)
    requires s.len() == 0 ensures !(#[trigger] s.contains(y)) {}
pub broadcast group group_seqx { lemma_push_contains, lemma_push_has, lemma_pop_contains, lemma_no_contains }
}
