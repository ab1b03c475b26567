verus! {
// ======================================================================
// Trusted: maps and sets keyed by text (HashMap<String, V>, BTreeMap, HashSet<String>)
// ======================================================================
pub trait RzKey { spec fn kv(&self) -> Seq<char>; }
impl RzKey for str { open spec fn kv(&self) -> Seq<char> { self@ } }
impl RzKey for String { open spec fn kv(&self) -> Seq<char> { self@ } }
impl<'a, K: RzKey + ?Sized> RzKey for &'a K { open spec fn kv(&self) -> Seq<char> { (**self).kv() } }

#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct RzMap<V> { _p: Vec<V> }
impl<V> View for RzMap<V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
pub open spec fn lists_entries<V>(s: Seq<(&String, &V)>, m: Map<Seq<char>, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0@) && *s[i].1 == m[s[i].0@]
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0@ != (#[trigger] s[j]).0@
}
impl<V> RzMap<V> {
    #[verifier::external_body] pub fn new() -> (r: RzMap<V>) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn rz_is_empty(&self) -> (r: bool) ensures r == (self@.dom() =~= Set::<Seq<char>>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn get_mut<K: RzKey + ?Sized>(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r { Some(v) => old(self)@.contains_key(k.kv()) && *v == old(self)@[k.kv()] && final(self)@ == old(self)@.insert(k.kv(), *final(v)), None => !old(self)@.contains_key(k.kv()) && *final(self) == *old(self) } { unimplemented!() }
    #[verifier::external_body] pub fn contains_key<K: RzKey + ?Sized>(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(k.kv()) { unimplemented!() }
    #[verifier::external_body] pub fn rz_get<K: RzKey + ?Sized>(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(k.kv()) && *v == self@[k.kv()], None => !self@.contains_key(k.kv()) } { unimplemented!() }
    #[verifier::external_body] pub fn rz_at<K: RzKey + ?Sized>(&self, k: &K) -> (r: &V) requires self@.contains_key(k.kv()) ensures *r == self@[k.kv()] { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v),
            match r { Some(x) => old(self)@.contains_key(k@) && x == old(self)@[k@], None => !old(self)@.contains_key(k@) } { unimplemented!() }
    #[verifier::external_body] pub fn rz_remove<K: RzKey + ?Sized>(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.kv()),
            match r { Some(x) => old(self)@.contains_key(k.kv()) && x == old(self)@[k.kv()], None => !old(self)@.contains_key(k.kv()) } { unimplemented!() }
    #[verifier::external_body] pub fn rz_clear(&mut self) ensures final(self)@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn rz_iter(&self) -> (r: Vec<(&String, &V)>) ensures lists_entries(r@, self@) { unimplemented!() }
    #[verifier::external_body] pub fn rz_keys(&self) -> (r: Vec<&String>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains_key((#[trigger] r@[i])@),
            forall|k: Seq<char>| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == k,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i])@ != (#[trigger] r@[j])@ { unimplemented!() }
    #[verifier::external_body] pub fn rz_values(&self) -> (r: Vec<&V>)
        ensures forall|i: int| 0 <= i < r@.len() ==> exists|k: Seq<char>| self@.contains_key(k) && self@[k] == *#[trigger] r@[i],
            forall|k: Seq<char>| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == self@[k] { unimplemented!() }
}

#[verifier::external_body]
pub struct RzSet { _p: u64 }
impl View for RzSet { type V = Set<Seq<char>>; uninterp spec fn view(&self) -> Set<Seq<char>>; }
impl RzSet {
    #[verifier::external_body] pub fn new() -> (r: RzSet) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn rz_is_empty(&self) -> (r: bool) ensures r == (self@ =~= Set::<Seq<char>>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn rz_contains<K: RzKey + ?Sized>(&self, k: &K) -> (r: bool) ensures r == self@.contains(k.kv()) { unimplemented!() }
    #[verifier::external_body] pub fn rz_add<K: RzKey>(&mut self, k: K) ensures final(self)@ == old(self)@.insert(k.kv()) { unimplemented!() }
    #[verifier::external_body] pub fn insert<K: RzKey>(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k.kv()), r == !old(self)@.contains(k.kv()) { unimplemented!() }
    #[verifier::external_body] pub fn rz_remove<K: RzKey + ?Sized>(&mut self, k: &K) -> (r: bool) ensures final(self)@ == old(self)@.remove(k.kv()), r == old(self)@.contains(k.kv()) { unimplemented!() }
    #[verifier::external_body] pub fn rz_clear(&mut self) ensures final(self)@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn rz_slice(&self) -> (r: Vec<&String>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains((#[trigger] r@[i])@),
            forall|k: Seq<char>| #[trigger] self@.contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == k,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i])@ != (#[trigger] r@[j])@ { unimplemented!() }
}
} // verus!
