#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, unused_assignments, non_snake_case)]
use vstd::prelude::*;
use std::cmp::Ordering;
use vstd::std_specs::cmp::*;

verus! {

// ======================================================================
// Trusted prelude: contracts assumed for the Rust standard library.
// Every `external_body` / `assume_specification` / `axiom` here is counted and
// listed in the evidence of each check (see tools/check.py: scan of trusted items).
// ======================================================================

pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn is_ascii_alpha(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub open spec fn is_lower(c: char) -> bool { 'a' <= c && c <= 'z' }
pub open spec fn is_upper(c: char) -> bool { 'A' <= c && c <= 'Z' }
pub uninterp spec fn uni_alphabetic(c: char) -> bool;
pub uninterp spec fn uni_whitespace(c: char) -> bool;
pub uninterp spec fn uni_numeric(c: char) -> bool;

pub broadcast axiom fn axiom_alphabetic_ascii(c: char)
    requires (c as u32) < 128
    ensures #[trigger] uni_alphabetic(c) == is_ascii_alpha(c);
pub broadcast axiom fn axiom_numeric_ascii(c: char)
    requires (c as u32) < 128
    ensures #[trigger] uni_numeric(c) == is_digit(c);

pub trait RzChar: Sized {
    spec fn cv(&self) -> char;
    fn rz_is_ascii_digit(&self) -> (r: bool) ensures r == is_digit(self.cv());
    fn rz_is_alphabetic(&self) -> (r: bool) ensures r == uni_alphabetic(self.cv());
    fn rz_is_alphanumeric(&self) -> (r: bool) ensures r == (uni_alphabetic(self.cv()) || uni_numeric(self.cv()));
    fn rz_is_ascii_lowercase(&self) -> (r: bool) ensures r == is_lower(self.cv());
    fn rz_is_ascii_uppercase(&self) -> (r: bool) ensures r == is_upper(self.cv());
    fn rz_is_ascii_alphabetic(&self) -> (r: bool) ensures r == is_ascii_alpha(self.cv());
    fn rz_is_ascii_alphanumeric(&self) -> (r: bool) ensures r == (is_ascii_alpha(self.cv()) || is_digit(self.cv()));
    fn rz_is_whitespace(&self) -> (r: bool) ensures r == uni_whitespace(self.cv());
}
impl RzChar for char {
    open spec fn cv(&self) -> char { *self }
    #[verifier::external_body] fn rz_is_ascii_digit(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_is_alphabetic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_is_alphanumeric(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_is_ascii_lowercase(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_is_ascii_uppercase(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_is_ascii_alphabetic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_is_ascii_alphanumeric(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_is_whitespace(&self) -> (r: bool) { unimplemented!() }
}

// ---- text comparison: std compares UTF-8 bytes, which orders like code points ----
pub open spec fn seq_cmp(a: Seq<char>, b: Seq<char>) -> Ordering
    decreases a.len()
{
    if a.len() == 0 && b.len() == 0 { Ordering::Equal }
    else if a.len() == 0 { Ordering::Less }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] < b[0] { Ordering::Less }
    else if b[0] < a[0] { Ordering::Greater }
    else { seq_cmp(a.drop_first(), b.drop_first()) }
}

pub assume_specification[ <String as PartialEq<str>>::eq ](a: &String, b: &str) -> (r: bool)
    ensures r == (a@ == b@);
pub assume_specification<'a>[ <String as PartialEq<&'a str>>::eq ](a: &String, b: &&str) -> (r: bool)
    ensures r == (a@ == b@);
pub assume_specification<'a>[ <&'a str as PartialEq<String>>::eq ](a: &&'a str, b: &String) -> (r: bool)
    ensures r == (a@ == b@);
pub assume_specification[ <str as PartialEq<String>>::eq ](a: &str, b: &String) -> (r: bool)
    ensures r == (a@ == b@);

// comparison of texts: equality of the characters, order of the code points
pub broadcast axiom fn axiom_eq_str_string(a: &str, b: &String) ensures #[trigger] <str as PartialEqSpec<String>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn axiom_eq_string_str(a: &String, b: &str) ensures #[trigger] <String as PartialEqSpec<str>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn axiom_eq_string(a: &String, b: &String) ensures #[trigger] <String as PartialEqSpec<String>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn axiom_cmp_str(a: &str, b: &str) ensures #[trigger] <str as PartialOrdSpec<str>>::partial_cmp_spec(a, b) == Some(seq_cmp(a@, b@));
pub broadcast axiom fn axiom_cmp_string(a: &String, b: &String) ensures #[trigger] <String as PartialOrdSpec<String>>::partial_cmp_spec(a, b) == Some(seq_cmp(a@, b@));
pub axiom fn rz_std() ensures <str as PartialEqSpec<String>>::obeys_eq_spec(), <String as PartialEqSpec<str>>::obeys_eq_spec(), <String as PartialEqSpec<String>>::obeys_eq_spec(), <str as PartialOrdSpec<str>>::obeys_partial_cmp_spec(), <String as PartialOrdSpec<String>>::obeys_partial_cmp_spec();
pub broadcast group group_text { axiom_eq_str_string, axiom_eq_string_str, axiom_eq_string, axiom_cmp_str, axiom_cmp_string }

pub open spec fn int_cmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
pub trait RzCmp { spec fn cmp_of(&self, o: &Self) -> Ordering; fn rz_cmp(&self, o: &Self) -> (r: Ordering) ensures r == self.cmp_of(o); }
impl RzCmp for i64 { open spec fn cmp_of(&self, o: &i64) -> Ordering { int_cmp(*self as int, *o as int) } #[verifier::external_body] fn rz_cmp(&self, o: &i64) -> (r: Ordering) { unimplemented!() } }
impl RzCmp for i32 { open spec fn cmp_of(&self, o: &i32) -> Ordering { int_cmp(*self as int, *o as int) } #[verifier::external_body] fn rz_cmp(&self, o: &i32) -> (r: Ordering) { unimplemented!() } }
impl RzCmp for u64 { open spec fn cmp_of(&self, o: &u64) -> Ordering { int_cmp(*self as int, *o as int) } #[verifier::external_body] fn rz_cmp(&self, o: &u64) -> (r: Ordering) { unimplemented!() } }
impl RzCmp for usize { open spec fn cmp_of(&self, o: &usize) -> Ordering { int_cmp(*self as int, *o as int) } #[verifier::external_body] fn rz_cmp(&self, o: &usize) -> (r: Ordering) { unimplemented!() } }
impl RzCmp for str { open spec fn cmp_of(&self, o: &str) -> Ordering { seq_cmp(self@, o@) } #[verifier::external_body] fn rz_cmp(&self, o: &str) -> (r: Ordering) { unimplemented!() } }
impl<'a> RzCmp for &'a str { open spec fn cmp_of(&self, o: &&'a str) -> Ordering { seq_cmp(self@, o@) } #[verifier::external_body] fn rz_cmp(&self, o: &&'a str) -> (r: Ordering) { unimplemented!() } }
impl RzCmp for String { open spec fn cmp_of(&self, o: &String) -> Ordering { seq_cmp(self@, o@) } #[verifier::external_body] fn rz_cmp(&self, o: &String) -> (r: Ordering) { unimplemented!() } }
/// number of UTF-8 bytes; equals the number of characters for ASCII text
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
pub uninterp spec fn byte_len(s: Seq<char>) -> nat;
pub broadcast axiom fn axiom_byte_len_ascii(s: Seq<char>) requires ascii(s) ensures #[trigger] byte_len(s) == s.len();
pub trait RzLen { spec fn lv(&self) -> nat; fn rz_len(&self) -> (r: usize) ensures r == self.lv(); }
impl RzLen for str { open spec fn lv(&self) -> nat { byte_len(self@) } #[verifier::external_body] fn rz_len(&self) -> (r: usize) { unimplemented!() } }
impl RzLen for String { open spec fn lv(&self) -> nat { byte_len(self@) } #[verifier::external_body] fn rz_len(&self) -> (r: usize) { unimplemented!() } }
impl<T> RzLen for Vec<T> { open spec fn lv(&self) -> nat { self@.len() } fn rz_len(&self) -> (r: usize) { self.len() } }
impl<T> RzLen for [T] { open spec fn lv(&self) -> nat { self@.len() } fn rz_len(&self) -> (r: usize) { self.len() } }

// ---- generic element access ----
pub trait RzSlice<T> {
    spec fn sv(&self) -> Seq<T>;
    fn rz_slice(&self) -> (r: &[T]) ensures r@ == self.sv();
    fn rz_get(&self, i: usize) -> (r: Option<&T>)
        ensures r == (if i < self.sv().len() { Some(&self.sv()[i as int]) } else { None });
    fn rz_first(&self) -> (r: Option<&T>)
        ensures r == (if self.sv().len() > 0 { Some(&self.sv()[0]) } else { None });
    fn rz_last(&self) -> (r: Option<&T>)
        ensures r == (if self.sv().len() > 0 { Some(&self.sv()[self.sv().len() - 1]) } else { None });
    fn rz_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.sv();
}
impl<T> RzSlice<T> for Vec<T> {
    open spec fn sv(&self) -> Seq<T> { self@ }
    fn rz_slice(&self) -> (r: &[T]) { self.as_slice() }
    fn rz_get(&self, i: usize) -> (r: Option<&T>) { if i < self.len() { Some(&self[i]) } else { None } }
    fn rz_first(&self) -> (r: Option<&T>) { if self.len() > 0 { Some(&self[0]) } else { None } }
    fn rz_last(&self) -> (r: Option<&T>) { if self.len() > 0 { Some(&self[self.len() - 1]) } else { None } }
    #[verifier::external_body] fn rz_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
}
impl<T> RzSlice<T> for [T] {
    open spec fn sv(&self) -> Seq<T> { self@ }
    fn rz_slice(&self) -> (r: &[T]) { self }
    fn rz_get(&self, i: usize) -> (r: Option<&T>) { if i < self.len() { Some(&self[i]) } else { None } }
    fn rz_first(&self) -> (r: Option<&T>) { if self.len() > 0 { Some(&self[0]) } else { None } }
    fn rz_last(&self) -> (r: Option<&T>) { if self.len() > 0 { Some(&self[self.len() - 1]) } else { None } }
    #[verifier::external_body] fn rz_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
}
pub trait RzRange<T> {
    spec fn rv(&self) -> Seq<T>;
    fn rz_from(&self, a: usize) -> (r: &[T]) requires a <= self.rv().len() ensures r@ == self.rv().subrange(a as int, self.rv().len() as int);
    fn rz_sub(&self, a: usize, b: usize) -> (r: &[T]) requires a <= b <= self.rv().len() ensures r@ == self.rv().subrange(a as int, b as int);
}
impl<T> RzRange<T> for Vec<T> { open spec fn rv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn rz_from(&self, a: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn rz_sub(&self, a: usize, b: usize) -> (r: &[T]) { unimplemented!() } }
impl<T> RzRange<T> for [T] { open spec fn rv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn rz_from(&self, a: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn rz_sub(&self, a: usize, b: usize) -> (r: &[T]) { unimplemented!() } }
#[verifier::external_body]
pub fn rz_chain_refs<'a, T>(a: &'a [T], b: &'a [T]) -> (r: Vec<&'a T>)
    ensures
        r@.len() == a@.len() + b@.len(),
        forall|i: int| 0 <= i < a@.len() ==> *#[trigger] r@[i] == a@[i],
        forall|i: int| 0 <= i < b@.len() ==> *#[trigger] r@[a@.len() + i] == b@[i],
        forall|i: int| a@.len() <= i < r@.len() ==> *#[trigger] r@[i] == b@[i - a@.len()],
{ unimplemented!() }

pub fn rz_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }

pub trait RzMinMax: Sized {
    spec fn iv(&self) -> int;
    fn rz_min(self, o: Self) -> (r: Self) ensures r == (if self.iv() <= o.iv() { self } else { o });
    fn rz_max(self, o: Self) -> (r: Self) ensures r == (if self.iv() > o.iv() { self } else { o });
}
impl RzMinMax for usize {
    open spec fn iv(&self) -> int { *self as int }
    fn rz_min(self, o: usize) -> (r: usize) { if self <= o { self } else { o } }
    fn rz_max(self, o: usize) -> (r: usize) { if self > o { self } else { o } }
}
impl RzMinMax for u64 {
    open spec fn iv(&self) -> int { *self as int }
    fn rz_min(self, o: u64) -> (r: u64) { if self <= o { self } else { o } }
    fn rz_max(self, o: u64) -> (r: u64) { if self > o { self } else { o } }
}

/// derived `Clone` copies the value
pub trait RzClone: Sized { fn rz_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> RzClone for T { #[verifier::external_body] fn rz_clone(&self) -> (r: T) { unimplemented!() } }
/// moving an element out of a container that is consumed by the loop
#[verifier::external_body]
pub fn rz_own<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }

pub trait RzPush<T> { spec fn pv(&self) -> Seq<T>; fn rz_push(&mut self, x: T) ensures final(self).pv() == old(self).pv().push(x); }
impl<T> RzPush<T> for Vec<T> { open spec fn pv(&self) -> Seq<T> { self@ } fn rz_push(&mut self, x: T) { self.push(x) } }
impl RzPush<char> for String { open spec fn pv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn rz_push(&mut self, x: char) { unimplemented!() } }

pub trait RzExtend<T> { fn rz_extend(&mut self, x: Vec<T>); }
impl<T> RzExtend<T> for Vec<T> {
    #[verifier::external_body]
    fn rz_extend(&mut self, x: Vec<T>) ensures final(self)@ == old(self)@ + x@ { unimplemented!() }
}

pub trait RzEmpty { spec fn ev(&self) -> bool; fn rz_is_empty(&self) -> (r: bool) ensures r == self.ev(); }
impl<T> RzEmpty for Vec<T> { open spec fn ev(&self) -> bool { self@.len() == 0 } fn rz_is_empty(&self) -> (r: bool) { self.len() == 0 } }
impl<T> RzEmpty for [T] { open spec fn ev(&self) -> bool { self@.len() == 0 } fn rz_is_empty(&self) -> (r: bool) { self.len() == 0 } }
impl RzEmpty for str { open spec fn ev(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn rz_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl RzEmpty for String { open spec fn ev(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn rz_is_empty(&self) -> (r: bool) { unimplemented!() } }

// ---- text ----
#[verifier::external_body]
pub fn rz_empty_string() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn rz_fmt() -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn rz_lit(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn rz_cat3(a: String, b: String, c: &str) -> (r: String) ensures r@ == a@ + b@ + c@ { unimplemented!() }

pub uninterp spec fn dec_str(n: int) -> Seq<char>;
pub trait RzDisp { spec fn dv(&self) -> Seq<char>; fn rz_disp(&self) -> (r: String) ensures r@ == self.dv(); }
impl RzDisp for str { open spec fn dv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn rz_disp(&self) -> (r: String) { unimplemented!() } }
impl<'a> RzDisp for &'a str { open spec fn dv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn rz_disp(&self) -> (r: String) { unimplemented!() } }
impl RzDisp for String { open spec fn dv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn rz_disp(&self) -> (r: String) { unimplemented!() } }
impl RzDisp for u64 { open spec fn dv(&self) -> Seq<char> { dec_str(*self as int) } #[verifier::external_body] fn rz_disp(&self) -> (r: String) { unimplemented!() } }
impl RzDisp for usize { open spec fn dv(&self) -> Seq<char> { dec_str(*self as int) } #[verifier::external_body] fn rz_disp(&self) -> (r: String) { unimplemented!() } }

/// str::trim
pub open spec fn trim_l(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && uni_whitespace(s[0]) { trim_l(s.drop_first()) } else { s } }
pub open spec fn trim_r(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && uni_whitespace(s.last()) { trim_r(s.drop_last()) } else { s } }
pub open spec fn trim_spec(s: Seq<char>) -> Seq<char> { trim_r(trim_l(s)) }
pub broadcast axiom fn axiom_whitespace_ascii(c: char)
    requires (c as u32) < 128
    ensures #[trigger] uni_whitespace(c) == (c == ' ' || (9 <= c as u32 && c as u32 <= 13));
pub proof fn lemma_trim_keeps(s: Seq<char>, c: char)
    requires s.contains(c), !uni_whitespace(c)
    ensures trim_spec(s).contains(c)
{ lemma_trim_l_keeps(s, c); lemma_trim_r_keeps(trim_l(s), c); }
pub proof fn lemma_trim_l_keeps(s: Seq<char>, c: char)
    requires s.contains(c), !uni_whitespace(c) ensures trim_l(s).contains(c) decreases s.len()
{
    if s.len() > 0 && uni_whitespace(s[0]) {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == c;
        assert(s.drop_first()[i - 1] == c);
        lemma_trim_l_keeps(s.drop_first(), c);
    }
}
pub proof fn lemma_trim_r_keeps(s: Seq<char>, c: char)
    requires s.contains(c), !uni_whitespace(c) ensures trim_r(s).contains(c) decreases s.len()
{
    if s.len() > 0 && uni_whitespace(s.last()) {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == c;
        assert(s.drop_last()[i] == c);
        lemma_trim_r_keeps(s.drop_last(), c);
    }
}
pub uninterp spec fn lower_spec(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn split_spec(s: Seq<char>, c: char) -> Seq<Seq<char>>;
pub uninterp spec fn split_s_spec(s: Seq<char>, d: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn lines_spec(s: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn words_spec(s: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn is_pre(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) =~= p }
pub open spec fn is_suf(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) =~= p }
pub open spec fn has_sub(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| 0 <= i && i + p.len() <= s.len() && #[trigger] s.subrange(i, i + p.len()) =~= p }
/// leading repetitions of c removed
pub open spec fn lstrip(s: Seq<char>, c: char) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && s[0] == c { lstrip(s.drop_first(), c) } else { s } }
/// every occurrence of c replaced by t
pub open spec fn subst(s: Seq<char>, c: char, t: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { s } else { (if s[0] == c { t } else { seq![s[0]] }) + subst(s.drop_first(), c, t) } }
/// value of a run of digits
pub open spec fn dec_val(s: Seq<char>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { dec_val(s.drop_last()) * 10 + (s.last() as int - '0' as int) } }
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }

/// integer parsing of std: optional sign, then at least one digit
pub open spec fn parse_nat(s: Seq<char>) -> Option<int> {
    let t = if s.len() > 0 && s[0] == '+' { s.drop_first() } else { s };
    if t.len() > 0 && all_digits(t) { Some(dec_val(t)) } else { None }
}
pub open spec fn parse_int(s: Seq<char>) -> Option<int> {
    if s.len() > 0 && s[0] == '-' {
        let t = s.drop_first();
        if t.len() > 0 && all_digits(t) { Some(-dec_val(t)) } else { None }
    } else { parse_nat(s) }
}

pub struct RzParseErr;

pub trait RzStr {
    spec fn tv(&self) -> Seq<char>;
    fn rz_as_str(&self) -> (r: &str) ensures r@ == self.tv();
    fn rz_to_string(&self) -> (r: String) ensures r@ == self.tv();
    fn rz_into(&self) -> (r: String) ensures r@ == self.tv();
    fn rz_trim(&self) -> (r: &str) ensures r@ == trim_spec(self.tv());
    fn rz_to_lowercase(&self) -> (r: String) ensures r@ == lower_spec(self.tv());
    fn rz_chars(&self) -> (r: Vec<char>) ensures r@ == self.tv();
    fn rz_starts_with_s(&self, p: &str) -> (r: bool) ensures r == is_pre(p@, self.tv());
    fn rz_starts_with_c(&self, p: char) -> (r: bool) ensures r == (self.tv().len() > 0 && self.tv()[0] == p);
    fn rz_starts_with_digit(&self) -> (r: bool) ensures r == (self.tv().len() > 0 && is_digit(self.tv()[0]));
    fn rz_ends_with_s(&self, p: &str) -> (r: bool) ensures r == is_suf(p@, self.tv());
    fn rz_ends_with_c(&self, p: char) -> (r: bool) ensures r == (self.tv().len() > 0 && self.tv().last() == p);
    fn rz_contains_c(&self, p: char) -> (r: bool) ensures r == self.tv().contains(p);
    fn rz_contains_s(&self, p: &str) -> (r: bool) ensures r == has_sub(self.tv(), p@);
    fn rz_strip_prefix_s(&self, p: &str) -> (r: Option<&str>)
        ensures match r { Some(t) => is_pre(p@, self.tv()) && t@ == self.tv().subrange(p@.len() as int, self.tv().len() as int), None => !is_pre(p@, self.tv()) };
    fn rz_strip_prefix_c(&self, p: char) -> (r: Option<&str>)
        ensures match r { Some(t) => self.tv().len() > 0 && self.tv()[0] == p && t@ == self.tv().subrange(1, self.tv().len() as int), None => !(self.tv().len() > 0 && self.tv()[0] == p) };
    fn rz_strip_suffix_s(&self, p: &str) -> (r: Option<&str>)
        ensures match r { Some(t) => is_suf(p@, self.tv()) && t@ == self.tv().subrange(0, self.tv().len() - p@.len()), None => !is_suf(p@, self.tv()) };
    fn rz_trim_start_matches_c(&self, c: char) -> (r: &str) ensures r@ == lstrip(self.tv(), c);
    fn rz_split_c(&self, c: char) -> (r: Vec<&str>)
        ensures r@.len() == split_spec(self.tv(), c).len(), r@.len() >= 1, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_spec(self.tv(), c)[i];
    fn rz_split_s(&self, c: &str) -> (r: Vec<&str>)
        ensures r@.len() == split_s_spec(self.tv(), c@).len(), r@.len() >= 1, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_s_spec(self.tv(), c@)[i];
    fn rz_lines(&self) -> (r: Vec<&str>)
        ensures r@.len() == lines_spec(self.tv()).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == lines_spec(self.tv())[i];
    fn rz_split_ws(&self) -> (r: Vec<&str>)
        ensures r@.len() == words_spec(self.tv()).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == words_spec(self.tv())[i];
    fn rz_replace_c(&self, c: char, t: &str) -> (r: String) ensures r@ == subst(self.tv(), c, t@);
    fn rz_parse_u64(&self) -> (r: Result<u64, RzParseErr>)
        ensures r is Ok == (parse_nat(self.tv()) is Some && parse_nat(self.tv())->Some_0 <= u64::MAX),
            r is Ok ==> r->Ok_0 == parse_nat(self.tv())->Some_0;
    fn rz_parse_i64(&self) -> (r: Result<i64, RzParseErr>)
        ensures r is Ok == (parse_int(self.tv()) is Some && i64::MIN <= parse_int(self.tv())->Some_0 <= i64::MAX),
            r is Ok ==> r->Ok_0 == parse_int(self.tv())->Some_0;
}
impl RzStr for str {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn rz_as_str(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn rz_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn rz_into(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn rz_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn rz_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn rz_chars(&self) -> (r: Vec<char>) { unimplemented!() }
    #[verifier::external_body] fn rz_starts_with_s(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_starts_with_c(&self, p: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_starts_with_digit(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_ends_with_s(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_ends_with_c(&self, p: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_contains_c(&self, p: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_contains_s(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_strip_prefix_s(&self, p: &str) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn rz_strip_prefix_c(&self, p: char) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn rz_strip_suffix_s(&self, p: &str) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn rz_trim_start_matches_c(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn rz_split_c(&self, c: char) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn rz_split_s(&self, c: &str) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn rz_lines(&self) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn rz_split_ws(&self) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn rz_replace_c(&self, c: char, t: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn rz_parse_u64(&self) -> (r: Result<u64, RzParseErr>) { unimplemented!() }
    #[verifier::external_body] fn rz_parse_i64(&self) -> (r: Result<i64, RzParseErr>) { unimplemented!() }
}
impl<'z> RzStr for &'z str {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn rz_as_str(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn rz_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn rz_into(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn rz_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn rz_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn rz_chars(&self) -> (r: Vec<char>) { unimplemented!() }
    #[verifier::external_body] fn rz_starts_with_s(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_starts_with_c(&self, p: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_starts_with_digit(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_ends_with_s(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_ends_with_c(&self, p: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_contains_c(&self, p: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_contains_s(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_strip_prefix_s(&self, p: &str) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn rz_strip_prefix_c(&self, p: char) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn rz_strip_suffix_s(&self, p: &str) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn rz_trim_start_matches_c(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn rz_split_c(&self, c: char) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn rz_split_s(&self, c: &str) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn rz_lines(&self) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn rz_split_ws(&self) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn rz_replace_c(&self, c: char, t: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn rz_parse_u64(&self) -> (r: Result<u64, RzParseErr>) { unimplemented!() }
    #[verifier::external_body] fn rz_parse_i64(&self) -> (r: Result<i64, RzParseErr>) { unimplemented!() }
}
impl RzStr for String {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn rz_as_str(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn rz_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn rz_into(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn rz_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn rz_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn rz_chars(&self) -> (r: Vec<char>) { unimplemented!() }
    #[verifier::external_body] fn rz_starts_with_s(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_starts_with_c(&self, p: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_starts_with_digit(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_ends_with_s(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_ends_with_c(&self, p: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_contains_c(&self, p: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_contains_s(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn rz_strip_prefix_s(&self, p: &str) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn rz_strip_prefix_c(&self, p: char) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn rz_strip_suffix_s(&self, p: &str) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn rz_trim_start_matches_c(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn rz_split_c(&self, c: char) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn rz_split_s(&self, c: &str) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn rz_lines(&self) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn rz_split_ws(&self) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn rz_replace_c(&self, c: char, t: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn rz_parse_u64(&self) -> (r: Result<u64, RzParseErr>) { unimplemented!() }
    #[verifier::external_body] fn rz_parse_i64(&self) -> (r: Result<i64, RzParseErr>) { unimplemented!() }
}
pub trait RzClear { fn rz_clear(&mut self); }
impl RzClear for String { #[verifier::external_body] fn rz_clear(&mut self) ensures final(self)@.len() == 0 { unimplemented!() } }
impl<T> RzClear for Vec<T> { #[verifier::external_body] fn rz_clear(&mut self) ensures final(self)@.len() == 0 { unimplemented!() } }
pub trait RzPushStr { fn rz_push_str(&mut self, s: &str); }
impl RzPushStr for String { #[verifier::external_body] fn rz_push_str(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@ { unimplemented!() } }

pub trait RzDeref { fn rz_as_deref(&self) -> Option<&str>; }
impl RzDeref for Option<String> {
    #[verifier::external_body]
    fn rz_as_deref(&self) -> (r: Option<&str>)
        ensures self is None ==> r is None, self is Some ==> r is Some && r->Some_0@ == self->Some_0@
    { unimplemented!() }
}

pub struct RezCoreError;
impl RezCoreError { #[verifier::external_body] pub fn rz_err() -> (r: RezCoreError) { unimplemented!() } }

} // verus!
