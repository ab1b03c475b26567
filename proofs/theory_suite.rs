verus! {
pub type Text = Seq<char>;
pub open spec fn hidden(c: SuiteContext, t: Text) -> bool { exists|i: int| 0 <= i < c.hidden_tools@.len() && (#[trigger] c.hidden_tools@[i])@ == t }
pub open spec fn fresh(c: SuiteContext, name: Text, req: Seq<String>) -> bool {
    c.name@ == name && c.requests@ == req && c.tool_aliases@ == Map::<Text, String>::empty() && c.hidden_tools@.len() == 0 && c.prefix is None && c.priority == 0 && !c.disabled
}
pub open spec fn aliased(a: SuiteContext, b: SuiteContext, alias: Text, tool: Text) -> bool {
    &&& b.name == a.name && b.requests == a.requests && b.hidden_tools == a.hidden_tools && b.prefix == a.prefix && b.priority == a.priority && b.disabled == a.disabled
    &&& b.tool_aliases@.contains_key(alias) && b.tool_aliases@[alias]@ == tool && b.tool_aliases@.remove(alias) == a.tool_aliases@.remove(alias)
}
pub open spec fn hid(a: SuiteContext, b: SuiteContext, tool: Text) -> bool {
    &&& b.name == a.name && b.requests == a.requests && b.tool_aliases == a.tool_aliases && b.prefix == a.prefix && b.priority == a.priority && b.disabled == a.disabled
    &&& rz_texts(b.hidden_tools@) == if hidden(a, tool) { rz_texts(a.hidden_tools@) } else { rz_texts(a.hidden_tools@).push(tool) }
}
pub open spec fn name_char(c: char) -> bool { uni_alphabetic(c) || uni_numeric(c) || c == '-' || c == '_' }
pub open spec fn valid_name(n: Text) -> bool { n.len() > 0 && forall|i: int| 0 <= i < n.len() ==> name_char(#[trigger] n[i]) }
pub open spec fn named(c: Seq<SuiteContext>, n: Text) -> bool { exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).name@ == n }
pub open spec fn first_named(c: Seq<SuiteContext>, n: Text, i: int) -> bool { 0 <= i < c.len() && c[i].name@ == n && forall|j: int| 0 <= j < i ==> (#[trigger] c[j]).name@ != n }
pub open spec fn distinct(c: Seq<SuiteContext>) -> bool { forall|i: int, j: int| 0 <= i < j < c.len() ==> (#[trigger] c[i]).name@ != (#[trigger] c[j]).name@ }
pub open spec fn rest_same(a: Suite, b: Suite) -> bool { a.description == b.description && a.conflict_mode == b.conflict_mode }
pub open spec fn one_changed(a: Seq<SuiteContext>, b: Seq<SuiteContext>, i: int) -> bool { a.len() == b.len() && 0 <= i < a.len() && forall|j: int| 0 <= j < a.len() && j != i ==> #[trigger] b[j] == a[j] }
// ---- tools ----
pub open spec fn exposes(c: SuiteContext, n: Text) -> bool { !c.disabled && c.tool_aliases@.contains_key(n) && !hidden(c, c.tool_aliases@[n]@) }
pub open spec fn requested(p: Text, c: SuiteContext) -> bool { if c.requests@.len() > 0 { p == c.requests@[0]@ } else { p.len() == 0 } }
pub open spec fn tool_is(t: SuiteTool, c: SuiteContext, n: Text, shown: Text) -> bool {
    t.name@ == shown && t.original_name@ == c.tool_aliases@[n]@ && t.context_name@ == c.name@ && requested(t.package@, c) && t.is_alias == (shown != t.original_name@) && !t.is_hidden
}
/// context j exposes n, among the contexts before i and, in context i, the aliases d
pub open spec fn ex(c: Seq<SuiteContext>, i: int, d: Set<Text>, j: int, n: Text) -> bool { 0 <= j <= i && j < c.len() && exposes(c[j], n) && (j < i || d.contains(n)) }
pub open spec fn first(c: Seq<SuiteContext>, i: int, d: Set<Text>, j: int, n: Text) -> bool { ex(c, i, d, j, n) && forall|k: int| #[trigger] ex(c, i, d, k, n) ==> j <= k }
pub open spec fn last(c: Seq<SuiteContext>, i: int, d: Set<Text>, j: int, n: Text) -> bool { ex(c, i, d, j, n) && forall|k: int| #[trigger] ex(c, i, d, k, n) ==> k <= j }
pub open spec fn all_in(c: Seq<SuiteContext>, i: int, d: Set<Text>, m: Map<Text, SuiteTool>) -> bool { forall|j: int, n: Text| #[trigger] ex(c, i, d, j, n) ==> m.contains_key(n) }
pub open spec fn by_first(c: Seq<SuiteContext>, i: int, d: Set<Text>, m: Map<Text, SuiteTool>) -> bool {
    all_in(c, i, d, m) && forall|n: Text| #[trigger] m.contains_key(n) ==> exists|j: int| #[trigger] first(c, i, d, j, n) && tool_is(m[n], c[j], n, n)
}
pub open spec fn by_last(c: Seq<SuiteContext>, i: int, d: Set<Text>, m: Map<Text, SuiteTool>) -> bool {
    all_in(c, i, d, m) && forall|n: Text| #[trigger] m.contains_key(n) ==> exists|j: int| #[trigger] last(c, i, d, j, n) && tool_is(m[n], c[j], n, n)
}
/// no name is exposed by two contexts
pub open spec fn single(c: Seq<SuiteContext>, i: int, d: Set<Text>) -> bool { forall|j: int, k: int, n: Text| #[trigger] ex(c, i, d, j, n) && #[trigger] ex(c, i, d, k, n) ==> j == k }
pub open spec fn prefixed(p: Text, n: Text, k: nat) -> Text
    decreases k
{ if k == 0 { n } else { p + "_"@ + prefixed(p, n, (k - 1) as nat) } }
pub proof fn lemma_prefixed(p: Text, n: Text, x: Text, k: nat)
    requires x == p + "_"@ + prefixed(p, n, k)
    ensures x == prefixed(p, n, k + 1), x.len() > prefixed(p, n, k).len()
{ reveal_strlit("_"); }
/// nm: under which name each exposed alias is found; none is lost
pub open spec fn shown(c: Seq<SuiteContext>, m: Map<Text, SuiteTool>, nm: Map<(int, Text), Text>, j: int, n: Text) -> bool {
    let x = nm[(j, n)];
    m.contains_key(x) && tool_is(m[x], c[j], n, x) && (x == n || (holder(nm, n) && exists|k: nat| k > 0 && x == #[trigger] prefixed(c[j].name@, n, k)))
}
pub open spec fn holder(nm: Map<(int, Text), Text>, n: Text) -> bool { exists|e: (int, Text)| #[trigger] nm.contains_key(e) && nm[e] == n }
pub open spec fn placed(c: Seq<SuiteContext>, i: int, d: Set<Text>, m: Map<Text, SuiteTool>, nm: Map<(int, Text), Text>) -> bool {
    &&& forall|j: int, n: Text| #[trigger] ex(c, i, d, j, n) <==> nm.contains_key((j, n))
    &&& forall|j: int, n: Text| #[trigger] nm.contains_key((j, n)) ==> shown(c, m, nm, j, n)
    &&& forall|e: (int, Text), f: (int, Text)| #[trigger] nm.contains_key(e) && #[trigger] nm.contains_key(f) && nm[e] == nm[f] ==> e == f
    &&& forall|x: Text| #[trigger] m.contains_key(x) ==> holder(nm, x)
}
pub open spec fn state(mode: ToolConflictMode, c: Seq<SuiteContext>, i: int, d: Set<Text>, m: Map<Text, SuiteTool>, nm: Map<(int, Text), Text>) -> bool {
    match mode {
        ToolConflictMode::Error => by_first(c, i, d, m) && single(c, i, d),
        ToolConflictMode::First => by_first(c, i, d, m),
        ToolConflictMode::Last => by_last(c, i, d, m),
        ToolConflictMode::Prefix => placed(c, i, d, m, nm),
    }
}
/// the tools of a suite
pub open spec fn toolset(mode: ToolConflictMode, c: Seq<SuiteContext>, m: Map<Text, SuiteTool>) -> bool { exists|nm: Map<(int, Text), Text>| #[trigger] state(mode, c, c.len() as int, Set::empty(), m, nm) }
pub proof fn lemma_start(mode: ToolConflictMode, c: Seq<SuiteContext>)
    ensures state(mode, c, 0, Set::empty(), Map::empty(), Map::empty())
{ }
pub proof fn lemma_same(mode: ToolConflictMode, c: Seq<SuiteContext>, i: int, d: Set<Text>, i2: int, d2: Set<Text>, m: Map<Text, SuiteTool>, nm: Map<(int, Text), Text>)
    requires state(mode, c, i, d, m, nm), forall|j: int, n: Text| ex(c, i, d, j, n) == ex(c, i2, d2, j, n)
    ensures state(mode, c, i2, d2, m, nm)
{
    assert forall|j: int, n: Text| #[trigger] first(c, i, d, j, n) implies first(c, i2, d2, j, n) by { assert forall|k: int| #[trigger] ex(c, i2, d2, k, n) implies j <= k by { assert(ex(c, i, d, k, n)); } }
    assert forall|j: int, n: Text| #[trigger] last(c, i, d, j, n) implies last(c, i2, d2, j, n) by { assert forall|k: int| #[trigger] ex(c, i2, d2, k, n) implies k <= j by { assert(ex(c, i, d, k, n)); } }
    assert forall|j: int, n: Text| #[trigger] ex(c, i2, d2, j, n) implies ex(c, i, d, j, n) by {}
    if !(mode is Prefix) {
        assert forall|n: Text| #[trigger] m.contains_key(n) && !(mode is Last) implies exists|j: int| #[trigger] first(c, i2, d2, j, n) && tool_is(m[n], c[j], n, n) by { let j = choose|j: int| #[trigger] first(c, i, d, j, n) && tool_is(m[n], c[j], n, n); assert(first(c, i2, d2, j, n)); }
        assert forall|n: Text| #[trigger] m.contains_key(n) && mode is Last implies exists|j: int| #[trigger] last(c, i2, d2, j, n) && tool_is(m[n], c[j], n, n) by { let j = choose|j: int| #[trigger] last(c, i, d, j, n) && tool_is(m[n], c[j], n, n); assert(last(c, i2, d2, j, n)); }
    } else {
        assert forall|j: int, n: Text| #[trigger] ex(c, i2, d2, j, n) <==> nm.contains_key((j, n)) by { assert(ex(c, i, d, j, n) == ex(c, i2, d2, j, n)); }
    }
}
pub open spec fn step(c: Seq<SuiteContext>, i: int, d: Set<Text>, n: Text) -> bool { 0 <= i < c.len() && !d.contains(n) && exposes(c[i], n) }
pub proof fn lemma_step(c: Seq<SuiteContext>, i: int, d: Set<Text>, n: Text)
    requires step(c, i, d, n)
    ensures forall|j: int, o: Text| #[trigger] ex(c, i, d.insert(n), j, o) <==> (ex(c, i, d, j, o) || (j == i && o == n)), !ex(c, i, d, i, n), forall|j: int| #[trigger] ex(c, i, d, j, n) ==> j < i
{ }
pub proof fn lemma_keep_owners(c: Seq<SuiteContext>, i: int, d: Set<Text>, n: Text)
    requires step(c, i, d, n)
    ensures forall|j: int, o: Text| #[trigger] first(c, i, d, j, o) ==> first(c, i, d.insert(n), j, o),
        forall|j: int, o: Text| #[trigger] last(c, i, d, j, o) && o != n ==> last(c, i, d.insert(n), j, o),
        last(c, i, d.insert(n), i, n)
{
    lemma_step(c, i, d, n);
    let e = d.insert(n);
    assert forall|j: int, o: Text| #[trigger] first(c, i, d, j, o) implies first(c, i, e, j, o) by { assert(ex(c, i, e, j, o)); assert forall|k: int| #[trigger] ex(c, i, e, k, o) implies j <= k by { if !ex(c, i, d, k, o) { assert(k == i); } } }
    assert forall|j: int, o: Text| #[trigger] last(c, i, d, j, o) && o != n implies last(c, i, e, j, o) by { assert(ex(c, i, e, j, o)); assert forall|k: int| #[trigger] ex(c, i, e, k, o) implies k <= j by { assert(ex(c, i, d, k, o)); } }
    assert(ex(c, i, e, i, n));
}
pub proof fn lemma_new(mode: ToolConflictMode, c: Seq<SuiteContext>, i: int, d: Set<Text>, m: Map<Text, SuiteTool>, nm: Map<(int, Text), Text>, n: Text, t: SuiteTool)
    requires state(mode, c, i, d, m, nm), step(c, i, d, n), !m.contains_key(n), tool_is(t, c[i], n, n)
    ensures state(mode, c, i, d.insert(n), m.insert(n, t), nm.insert((i, n), n))
{
    lemma_step(c, i, d, n);
    lemma_keep_owners(c, i, d, n);
    let (e, m2, nm2) = (d.insert(n), m.insert(n, t), nm.insert((i, n), n));
    if mode is Prefix { lemma_place(c, i, d, m, nm, n, n, 0, t); }
    else {
        assert forall|k: int| #[trigger] ex(c, i, e, k, n) implies i == k by { if ex(c, i, d, k, n) { assert(m.contains_key(n)); } }
        assert(ex(c, i, e, i, n));
        assert(first(c, i, e, i, n));
        if mode is Last {
            assert forall|o: Text| #[trigger] m2.contains_key(o) implies exists|j: int| #[trigger] last(c, i, e, j, o) && tool_is(m2[o], c[j], o, o) by {
                if o == n { assert(last(c, i, e, i, n)); } else { assert(m.contains_key(o)); let j = choose|j: int| #[trigger] last(c, i, d, j, o) && tool_is(m[o], c[j], o, o); assert(last(c, i, e, j, o)); } }
        } else {
            assert forall|o: Text| #[trigger] m2.contains_key(o) implies exists|j: int| #[trigger] first(c, i, e, j, o) && tool_is(m2[o], c[j], o, o) by {
                if o == n { assert(first(c, i, e, i, n)); } else { assert(m.contains_key(o)); let j = choose|j: int| #[trigger] first(c, i, d, j, o) && tool_is(m[o], c[j], o, o); assert(first(c, i, e, j, o)); } }
            if mode is Error { assert forall|j: int, k: int, o: Text| #[trigger] ex(c, i, e, j, o) && #[trigger] ex(c, i, e, k, o) implies j == k by { if o != n { assert(ex(c, i, d, j, o) && ex(c, i, d, k, o)); } } }
        }
    }
}
pub proof fn lemma_place(c: Seq<SuiteContext>, i: int, d: Set<Text>, m: Map<Text, SuiteTool>, nm: Map<(int, Text), Text>, n: Text, x: Text, k: nat, t: SuiteTool)
    requires placed(c, i, d, m, nm), step(c, i, d, n), !m.contains_key(x), tool_is(t, c[i], n, x), x == prefixed(c[i].name@, n, k), k > 0 ==> m.contains_key(n)
    ensures placed(c, i, d.insert(n), m.insert(x, t), nm.insert((i, n), x))
{
    lemma_step(c, i, d, n);
    let (e, m2, nm2) = (d.insert(n), m.insert(x, t), nm.insert((i, n), x));
    assert(!nm.contains_key((i, n))) by { assert(!ex(c, i, d, i, n)); }
    assert forall|f: (int, Text)| #[trigger] nm.contains_key(f) implies nm2.contains_key(f) && nm2[f] == nm[f] && nm[f] != x && f != (i, n) by { assert(nm.contains_key((f.0, f.1))); assert(shown(c, m, nm, f.0, f.1)); }
    assert(nm2.contains_key((i, n)) && nm2[(i, n)] == x);
    assert forall|y: Text| #[trigger] holder(nm, y) implies holder(nm2, y) by { let f = choose|f: (int, Text)| #[trigger] nm.contains_key(f) && nm[f] == y; assert(nm2.contains_key(f)); }
    assert forall|j: int, o: Text| #[trigger] ex(c, i, e, j, o) <==> nm2.contains_key((j, o)) by { assert(ex(c, i, d, j, o) <==> nm.contains_key((j, o))); }
    assert forall|j: int, o: Text| #[trigger] nm2.contains_key((j, o)) implies shown(c, m2, nm2, j, o) by {
        if (j, o) == (i, n) { if k > 0 { assert(holder(nm, n)); assert(holder(nm2, n)); } }
        else { assert(nm.contains_key((j, o))); assert(shown(c, m, nm, j, o)); if holder(nm, o) { assert(holder(nm2, o)); } }
    }
    assert forall|y: Text| #[trigger] m2.contains_key(y) implies holder(nm2, y) by { if y != x { assert(m.contains_key(y)); assert(holder(nm, y)); } }
    assert forall|a: (int, Text), b: (int, Text)| #[trigger] nm2.contains_key(a) && #[trigger] nm2.contains_key(b) && nm2[a] == nm2[b] implies a == b by { if a != (i, n) { assert(nm.contains_key(a)); } if b != (i, n) { assert(nm.contains_key(b)); } }
}
pub proof fn lemma_pref(c: Seq<SuiteContext>, i: int, d: Set<Text>, m: Map<Text, SuiteTool>, nm: Map<(int, Text), Text>, n: Text, x: Text, k: nat, t: SuiteTool)
    requires placed(c, i, d, m, nm), step(c, i, d, n), m.contains_key(n), !m.contains_key(x), tool_is(t, c[i], n, x), x == prefixed(c[i].name@, n, k)
    ensures placed(c, i, d.insert(n), m.insert(x, t), nm.insert((i, n), x))
{ lemma_place(c, i, d, m, nm, n, x, k, t); }
pub proof fn lemma_keep(c: Seq<SuiteContext>, i: int, d: Set<Text>, m: Map<Text, SuiteTool>, nm: Map<(int, Text), Text>, n: Text)
    requires by_first(c, i, d, m), step(c, i, d, n), m.contains_key(n)
    ensures by_first(c, i, d.insert(n), m)
{
    lemma_step(c, i, d, n); lemma_keep_owners(c, i, d, n);
    let e = d.insert(n);
    assert forall|o: Text| #[trigger] m.contains_key(o) implies exists|j: int| #[trigger] first(c, i, e, j, o) && tool_is(m[o], c[j], o, o) by { let j = choose|j: int| #[trigger] first(c, i, d, j, o) && tool_is(m[o], c[j], o, o); assert(first(c, i, e, j, o)); }
}
pub proof fn lemma_over(c: Seq<SuiteContext>, i: int, d: Set<Text>, m: Map<Text, SuiteTool>, nm: Map<(int, Text), Text>, n: Text, t: SuiteTool)
    requires by_last(c, i, d, m), step(c, i, d, n), tool_is(t, c[i], n, n)
    ensures by_last(c, i, d.insert(n), m.insert(n, t))
{
    lemma_step(c, i, d, n); lemma_keep_owners(c, i, d, n);
    let (e, m2) = (d.insert(n), m.insert(n, t));
    assert forall|o: Text| #[trigger] m2.contains_key(o) implies exists|j: int| #[trigger] last(c, i, e, j, o) && tool_is(m2[o], c[j], o, o) by {
        if o == n { assert(last(c, i, e, i, n)); } else { assert(m.contains_key(o)); let j = choose|j: int| #[trigger] last(c, i, d, j, o) && tool_is(m[o], c[j], o, o); assert(last(c, i, e, j, o)); } }
}
// ---- names grow, so one is free in the end ----
pub open spec fn longer(s: Set<Text>, l: nat) -> Set<Text> { s.filter(|t: Text| t.len() >= l) }
pub proof fn lemma_longer(s: Set<Text>, w: Text, l: nat)
    requires s.contains(w), l > w.len()
    ensures longer(s, l).len() < longer(s, w.len()).len()
{
    assert(longer(s, w.len()).contains(w)); assert(!longer(s, l).contains(w));
    assert(longer(s, l).subset_of(longer(s, w.len()).remove(w)));
    vstd::set_lib::lemma_len_subset(longer(s, l), longer(s, w.len()).remove(w));
}
pub proof fn lemma_clash(mode: ToolConflictMode, c: Seq<SuiteContext>, i: int, d: Set<Text>, m: Map<Text, SuiteTool>, nm: Map<(int, Text), Text>, n: Text)
    requires state(mode, c, i, d, m, nm), mode is Error, step(c, i, d, n), m.contains_key(n)
    ensures !single(c, c.len() as int, Set::empty())
{
    lemma_step(c, i, d, n);
    let j = choose|j: int| #[trigger] first(c, i, d, j, n) && tool_is(m[n], c[j], n, n);
    assert(ex(c, c.len() as int, Set::empty(), j, n)); assert(ex(c, c.len() as int, Set::empty(), i, n));
}
}
