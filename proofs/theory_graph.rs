verus! {
pub type N = Map<Seq<char>, GraphNode>;
/// a depends on b
pub open spec fn dep(g: N, a: Seq<char>, b: Seq<char>) -> bool { g.contains_key(a) && g[a].dependencies@.contains(b) }
pub open spec fn wanted_by(g: N, b: Seq<char>, a: Seq<char>) -> bool { g.contains_key(b) && g[b].dependents@.contains(a) }
/// every edge has both ends in the graph and is recorded on both sides
pub open spec fn wf(g: N) -> bool {
    &&& forall|a: Seq<char>, b: Seq<char>| #[trigger] dep(g, a, b) ==> wanted_by(g, b, a)
    &&& forall|a: Seq<char>, b: Seq<char>| #[trigger] wanted_by(g, b, a) ==> dep(g, a, b)
}
pub open spec fn key_of(p: Package) -> Seq<char> { match p.version { Some(v) => p.name@ + seq!['-'] + ver_str(v), None => p.name@ } }
/// nodes are filed under their package's key
pub open spec fn keyed(g: N) -> bool { forall|k: Seq<char>| #[trigger] g.contains_key(k) ==> key_of(g[k].package) == k }
pub open spec fn tx(s: Seq<String>) -> Seq<Seq<char>> { rz_texts(s) }
pub open spec fn walk(g: N, p: Seq<Seq<char>>) -> bool { p.len() >= 1 && forall|i: int| 0 <= i < p.len() - 1 ==> dep(g, #[trigger] p[i], p[i + 1]) }
pub open spec fn cycle(g: N, p: Seq<Seq<char>>) -> bool { p.len() >= 2 && walk(g, p) && p[0] == p.last() }
pub open spec fn acyclic(g: N) -> bool { forall|p: Seq<Seq<char>>| !#[trigger] cycle(g, p) }
/// b can be reached from a in one step or more
pub open spec fn reach(g: N, a: Seq<char>, b: Seq<char>) -> bool { exists|p: Seq<Seq<char>>| #[trigger] walk(g, p) && p.len() >= 2 && p[0] == a && p.last() == b }
/// the same packages, each once, each before everything it depends on
pub open spec fn topo(g: N, r: Seq<Seq<char>>) -> bool {
    &&& r.no_duplicates()
    &&& forall|k: Seq<char>| #[trigger] r.contains(k) == g.contains_key(k)
    &&& forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && dep(g, #[trigger] r[i], #[trigger] r[j]) ==> i < j
}
pub proof fn lemma_topo_acyclic(g: N, r: Seq<Seq<char>>)
    requires topo(g, r), wf(g)
    ensures acyclic(g)
{
    assert forall|p: Seq<Seq<char>>| !#[trigger] cycle(g, p) by {
        if cycle(g, p) { lemma_topo_walk(g, r, p, p.len() - 1); }
    }
}
pub proof fn lemma_topo_walk(g: N, r: Seq<Seq<char>>, p: Seq<Seq<char>>, k: int)
    requires topo(g, r), wf(g), walk(g, p), 1 <= k < p.len()
    ensures forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && #[trigger] r[i] == p[0] && #[trigger] r[j] == p[k] ==> i < j,
        r.contains(p[0]), r.contains(p[k])
    decreases k
{
    assert(dep(g, p[k - 1], p[k])); assert(wanted_by(g, p[k], p[k - 1]));
    assert(r.contains(p[k - 1])); assert(r.contains(p[k]));
    let m = choose|m: int| 0 <= m < r.len() && r[m] == p[k - 1];
    if k > 1 { lemma_topo_walk(g, r, p, k - 1); }
    else { assert(r[m] == p[0]); }
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && #[trigger] r[i] == p[0] && #[trigger] r[j] == p[k] implies i < j by {
        assert(dep(g, r[m], r[j]));
        if k > 1 { assert(r[m] == p[k - 1]); assert(i < m); } else { assert(r[i] == r[m]); }
    }
}
pub open spec fn has_src(g: N, s: Set<Seq<char>>, k: Seq<char>) -> bool { exists|x: Seq<char>| s.contains(x) && #[trigger] dep(g, x, k) }
pub open spec fn fed(g: N, s: Set<Seq<char>>) -> bool { forall|k: Seq<char>| s.contains(k) ==> #[trigger] has_src(g, s, k) }
/// a finite non-empty set in which everything is depended on from within has a cycle
pub proof fn lemma_no_source(g: N, s: Set<Seq<char>>, a: Seq<char>)
    requires wf(g), s.contains(a), fed(g, s)
    ensures !acyclic(g)
{
    let p = lemma_back(g, s, a, s.len() + 1);
    if p.no_duplicates() {
        p.unique_seq_to_set();
        assert(p.to_set().subset_of(s));
        vstd::set_lib::lemma_len_subset(p.to_set(), s);
        assert(false);
    }
    let (i, j) = choose|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j && p[i] == p[j];
    let (lo, hi) = if i < j { (i, j) } else { (j, i) };
    let c = p.subrange(lo, hi + 1);
    assert forall|n: int| 0 <= n < c.len() - 1 implies dep(g, #[trigger] c[n], c[n + 1]) by { assert(c[n] == p[lo + n] && c[n + 1] == p[lo + n + 1]); assert(dep(g, p[lo + n], p[lo + n + 1])); }
    assert(cycle(g, c));
}
pub proof fn lemma_back(g: N, s: Set<Seq<char>>, a: Seq<char>, n: nat) -> (p: Seq<Seq<char>>)
    requires s.contains(a), n >= 1, fed(g, s)
    ensures p.len() == n, walk(g, p), forall|i: int| 0 <= i < p.len() ==> s.contains(#[trigger] p[i])
    decreases n
{
    if n == 1 { seq![a] } else {
        let q = lemma_back(g, s, a, (n - 1) as nat);
        assert(has_src(g, s, q[0]));
        let x = choose|x: Seq<char>| s.contains(x) && #[trigger] dep(g, x, q[0]);
        let p = seq![x] + q;
        assert forall|i: int| 0 <= i < p.len() - 1 implies dep(g, #[trigger] p[i], p[i + 1]) by { if i > 0 { assert(p[i] == q[i - 1] && p[i + 1] == q[i]); assert(dep(g, q[i - 1], q[i])); } }
        p
    }
}
/// how many of d are left when r is done
pub open spec fn left(d: Set<Seq<char>>, r: Set<Seq<char>>) -> nat { d.difference(r).len() }
pub proof fn lemma_left(d: Set<Seq<char>>, r: Set<Seq<char>>, c: Seq<char>)
    ensures left(d, r.insert(c)) == (if d.contains(c) && !r.contains(c) { left(d, r) - 1 } else { left(d, r) as int }),
        d.contains(c) && !r.contains(c) ==> left(d, r) >= 1
{
    if d.contains(c) && !r.contains(c) { assert(d.difference(r.insert(c)) =~= d.difference(r).remove(c)); assert(d.difference(r).contains(c)); }
    else { assert(d.difference(r.insert(c)) =~= d.difference(r)); }
}
pub proof fn lemma_left_zero(d: Set<Seq<char>>, r: Set<Seq<char>>)
    ensures left(d, r) == 0 <==> d.subset_of(r)
{
    if left(d, r) == 0 { assert(d.difference(r) =~= Set::empty()); assert forall|x: Seq<char>| d.contains(x) implies r.contains(x) by { if !r.contains(x) { assert(d.difference(r).contains(x)); } } }
    if d.subset_of(r) { assert(d.difference(r) =~= Set::empty()); }
}
pub open spec fn tx2(s: Seq<&String>) -> Seq<Seq<char>> { s.map_values(|x: &String| x@) }
pub open spec fn deg_ok(g: N, d: Map<Seq<char>, usize>, done: Set<Seq<char>>) -> bool {
    d.dom() == g.dom() && forall|k: Seq<char>| #[trigger] g.contains_key(k) ==> d[k] == left(g[k].dependents@, done)
}
pub open spec fn ready(g: N, d: Map<Seq<char>, usize>, rq: Seq<Seq<char>>) -> bool {
    &&& rq.no_duplicates()
    &&& forall|k: Seq<char>| #[trigger] rq.contains(k) <==> (g.contains_key(k) && d[k] == 0)
}
pub open spec fn early(g: N, r: Seq<Seq<char>>) -> bool {
    forall|j: int, x: Seq<char>| 0 <= j < r.len() && #[trigger] wanted_by(g, r[j], x) ==> r.take(j).contains(x)
}
pub open spec fn tinv(g: N, d: Map<Seq<char>, usize>, r: Seq<Seq<char>>, q: Seq<Seq<char>>) -> bool {
    deg_ok(g, d, r.to_set()) && ready(g, d, r + q) && early(g, r)
}
/// while the dependencies ds of cur are gone through
pub open spec fn deg_mid(g: N, d: Map<Seq<char>, usize>, done: Set<Seq<char>>, cur: Seq<char>, ds: Seq<Seq<char>>, i: int) -> bool {
    d.dom() == g.dom() && forall|k: Seq<char>| #[trigger] g.contains_key(k) ==>
        d[k] == left(g[k].dependents@, if dep(g, cur, k) && !ds.take(i).contains(k) { done } else { done.insert(cur) })
}
pub open spec fn lists(g: N, cur: Seq<char>, ds: Seq<Seq<char>>) -> bool { ds.no_duplicates() && forall|k: Seq<char>| #[trigger] ds.contains(k) == dep(g, cur, k) }
pub proof fn lemma_push_nodup(s: Seq<Seq<char>>, x: Seq<char>)
    requires s.no_duplicates(), !s.contains(x) ensures s.push(x).no_duplicates()
{
    let t = s.push(x);
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { if i == s.len() { assert(s.contains(s[j])); } else if j == s.len() { assert(s.contains(s[i])); } }
}
pub proof fn lemma_mid_start(g: N, d: Map<Seq<char>, usize>, r: Seq<Seq<char>>, q: Seq<Seq<char>>, ds: Seq<Seq<char>>)
    requires wf(g), tinv(g, d, r, q), q.len() > 0, lists(g, q[0], ds)
    ensures deg_mid(g, d, r.to_set(), q[0], ds, 0), !r.contains(q[0]), ready(g, d, r.push(q[0]) + q.drop_first()), early(g, r.push(q[0])), g.contains_key(q[0])
{
    broadcast use group_seqx;
    let cur = q[0]; let rq = r + q;
    assert(r.push(cur) + q.drop_first() =~= rq);
    assert(rq[r.len() as int] == cur); assert(rq.contains(cur));
    if r.contains(cur) { let i = choose|i: int| 0 <= i < r.len() && r[i] == cur; assert(rq[i] == rq[r.len() as int]); }
    lemma_left_zero(g[cur].dependents@, r.to_set());
    let r1 = r.push(cur);
    assert forall|j: int, x: Seq<char>| 0 <= j < r1.len() && #[trigger] wanted_by(g, r1[j], x) implies r1.take(j).contains(x) by {
        if j < r.len() { assert(wanted_by(g, r[j], x)); assert(r1.take(j) =~= r.take(j)); }
        else { assert(r1.take(j) =~= r); assert(r.to_set().contains(x)); }
    }
    assert forall|k: Seq<char>| #[trigger] g.contains_key(k) implies d[k] == left(g[k].dependents@, if dep(g, cur, k) && !ds.take(0).contains(k) { r.to_set() } else { r.to_set().insert(cur) }) by {
        lemma_left(g[k].dependents@, r.to_set(), cur);
        if !dep(g, cur, k) { assert(!wanted_by(g, k, cur)); }
    }
}
pub proof fn lemma_mid_step(g: N, d: Map<Seq<char>, usize>, r: Seq<Seq<char>>, cur: Seq<char>, ds: Seq<Seq<char>>, i: int, rq: Seq<Seq<char>>)
    requires wf(g), deg_mid(g, d, r.to_set(), cur, ds, i), lists(g, cur, ds), !r.contains(cur), 0 <= i < ds.len(), ready(g, d, rq)
    ensures d.contains_key(ds[i]), d[ds[i]] >= 1,
        ({ let d1 = d.insert(ds[i], (d[ds[i]] - 1) as usize); deg_mid(g, d1, r.to_set(), cur, ds, i + 1) && ready(g, d1, if d1[ds[i]] == 0 { rq.push(ds[i]) } else { rq }) }),
{
    broadcast use group_seqx;
    let k = ds[i]; let d1 = d.insert(k, (d[k] - 1) as usize);
    assert(ds.contains(k)); assert(dep(g, cur, k)); assert(wanted_by(g, k, cur));
    assert(!ds.take(i).contains(k)) by { if ds.take(i).contains(k) { let j = choose|j: int| 0 <= j < i && ds.take(i)[j] == k; assert(ds[j] == ds[i]); } }
    assert(ds.take(i + 1) =~= ds.take(i).push(k));
    lemma_left(g[k].dependents@, r.to_set(), cur);
    assert(d1.dom() =~= g.dom());
    if d1[k] == 0 { assert(!rq.contains(k)); lemma_push_nodup(rq, k); }
}
pub proof fn lemma_mid_end(g: N, d: Map<Seq<char>, usize>, r: Seq<Seq<char>>, cur: Seq<char>, ds: Seq<Seq<char>>)
    requires deg_mid(g, d, r.to_set(), cur, ds, ds.len() as int), lists(g, cur, ds)
    ensures deg_ok(g, d, r.push(cur).to_set())
{
    broadcast use group_seqx;
    assert(ds.take(ds.len() as int) =~= ds);
    assert(r.push(cur).to_set() =~= r.to_set().insert(cur));
}
pub proof fn lemma_topo_done(g: N, d: Map<Seq<char>, usize>, r: Seq<Seq<char>>, q: Seq<Seq<char>>)
    requires wf(g), tinv(g, d, r, q), q.len() == 0
    ensures r.len() == g.len() ==> topo(g, r) && acyclic(g), r.len() != g.len() ==> !acyclic(g)
{
    assert(r + q =~= r);
    r.unique_seq_to_set();
    assert(r.to_set().subset_of(g.dom())) by { assert forall|k: Seq<char>| r.to_set().contains(k) implies g.dom().contains(k) by { assert(r.contains(k)); } }
    if r.len() == g.len() {
        vstd::set_lib::lemma_subset_equality(r.to_set(), g.dom());
        assert forall|k: Seq<char>| #[trigger] r.contains(k) == g.contains_key(k) by { assert(r.to_set().contains(k) == r.contains(k)); assert(g.dom().contains(k) == g.contains_key(k)); }
        assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && dep(g, #[trigger] r[i], #[trigger] r[j]) implies i < j by {
            assert(wanted_by(g, r[j], r[i]));
            let n = choose|n: int| 0 <= n < j && r.take(j)[n] == r[i];
            assert(r[n] == r[i]);
        }
        lemma_topo_acyclic(g, r);
    } else {
        let s = g.dom().difference(r.to_set());
        if s =~= Set::empty() { assert forall|k: Seq<char>| g.dom().contains(k) implies r.to_set().contains(k) by { assert(!s.contains(k)); } assert(r.to_set() =~= g.dom()); assert(false); }
        let a = choose|a: Seq<char>| s.contains(a);
        assert forall|k: Seq<char>| s.contains(k) implies #[trigger] has_src(g, s, k) by {
            assert(!r.contains(k));
            lemma_left_zero(g[k].dependents@, r.to_set());
            let x = choose|x: Seq<char>| g[k].dependents@.contains(x) && !r.to_set().contains(x);
            assert(wanted_by(g, k, x)); assert(dep(g, x, k)); assert(s.contains(x));
        }
        lemma_no_source(g, s, a);
    }
}
pub open spec fn in_order(s: Seq<String>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> seq_cmp((#[trigger] s[i])@, (#[trigger] s[j])@) != Ordering::Greater }
// depth-first search
pub open spec fn closed(g: N, f: Set<Seq<char>>) -> bool { forall|a: Seq<char>, b: Seq<char>| f.contains(a) && #[trigger] dep(g, a, b) ==> f.contains(b) }
pub open spec fn acyc_in(g: N, f: Set<Seq<char>>) -> bool { forall|p: Seq<Seq<char>>| #[trigger] cycle(g, p) ==> !f.contains(p[0]) }
pub proof fn lemma_stays(g: N, f: Set<Seq<char>>, p: Seq<Seq<char>>, i: int, k: int)
    requires closed(g, f), walk(g, p), 0 <= i <= k < p.len(), f.contains(p[i])
    ensures f.contains(p[k])
    decreases k - i
{ if i < k { assert(dep(g, p[i], p[i + 1])); lemma_stays(g, f, p, i + 1, k); } }
pub proof fn lemma_finish(g: N, f: Set<Seq<char>>, v: Seq<char>)
    requires closed(g, f), acyc_in(g, f), !f.contains(v), forall|b: Seq<char>| #[trigger] dep(g, v, b) ==> f.contains(b)
    ensures closed(g, f.insert(v)), acyc_in(g, f.insert(v))
{
    assert forall|p: Seq<Seq<char>>| #[trigger] cycle(g, p) implies !f.insert(v).contains(p[0]) by {
        if p[0] == v { assert(dep(g, p[0], p[1])); lemma_stays(g, f, p, 1, p.len() - 1); }
    }
}
pub proof fn lemma_step(g: N, a: Seq<char>, b: Seq<char>)
    requires dep(g, a, b) ensures reach(g, a, b)
{ let p = seq![a, b]; assert(walk(g, p) && p.len() >= 2 && p[0] == a && p.last() == b); }
pub proof fn lemma_then(g: N, a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires dep(g, a, b), reach(g, b, c) ensures reach(g, a, c)
{
    let q = choose|p: Seq<Seq<char>>| #[trigger] walk(g, p) && p.len() >= 2 && p[0] == b && p.last() == c;
    let p = seq![a] + q;
    assert forall|i: int| 0 <= i < p.len() - 1 implies dep(g, #[trigger] p[i], p[i + 1]) by { if i > 0 { assert(p[i] == q[i - 1] && p[i + 1] == q[i]); assert(dep(g, q[i - 1], q[i])); } }
    assert(walk(g, p) && p.len() >= 2 && p[0] == a && p.last() == c);
}
pub open spec fn gray(c: Map<Seq<char>, Color>, k: Seq<char>) -> bool { c.contains_key(k) && c[k] == Color::Gray }
pub open spec fn blacks(c: Map<Seq<char>, Color>) -> Set<Seq<char>> { c.dom().filter(|k: Seq<char>| c[k] == Color::Black) }
pub open spec fn link(g: N, par: Map<Seq<char>, String>, st: Seq<Seq<char>>, i: int) -> bool { par.contains_key(st[i]) && par[st[i]]@ == st[i - 1] && dep(g, st[i - 1], st[i]) }
/// st is the search stack: the gray nodes, each the parent of the next
pub open spec fn st_ok(g: N, c: Map<Seq<char>, Color>, par: Map<Seq<char>, String>, st: Seq<Seq<char>>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] gray(c, k) == st.contains(k)
    &&& forall|i: int| 0 < i < st.len() ==> #[trigger] link(g, par, st, i)
}
pub open spec fn can_enter(g: N, c: Map<Seq<char>, Color>, par: Map<Seq<char>, String>, st: Seq<Seq<char>>, k: Seq<char>) -> bool {
    st_ok(g, c, par, st) && (st.len() > 0 ==> par.contains_key(k) && par[k]@ == st.last() && dep(g, st.last(), k))
}
/// colours and parents known before stay
pub open spec fn kept(c0: Map<Seq<char>, Color>, c1: Map<Seq<char>, Color>, p0: Map<Seq<char>, String>, p1: Map<Seq<char>, String>) -> bool {
    forall|k: Seq<char>| #![trigger c1.contains_key(k)] #![trigger p1.contains_key(k)] #![trigger c1[k]] #![trigger p1[k]] c0.contains_key(k) ==> c1.contains_key(k) && c1[k] == c0[k] && p1.contains_key(k) == p0.contains_key(k) && p1[k] == p0[k]
}
pub open spec fn is_cycle(g: N, c: Seq<Seq<char>>) -> bool { c.len() >= 1 && cycle(g, c.push(c[0])) }
pub proof fn lemma_enter(g: N, c: Map<Seq<char>, Color>, par: Map<Seq<char>, String>, st: Seq<Seq<char>>, v: Seq<char>)
    requires can_enter(g, c, par, st, v), !c.contains_key(v)
    ensures st_ok(g, c.insert(v, Color::Gray), par, st.push(v)), blacks(c.insert(v, Color::Gray)) == blacks(c)
{
    broadcast use group_seqx;
    let (c1, s1) = (c.insert(v, Color::Gray), st.push(v));
    assert forall|k: Seq<char>| #[trigger] gray(c1, k) == s1.contains(k) by { assert(gray(c, k) == st.contains(k)); }
    assert forall|i: int| 0 < i < s1.len() implies #[trigger] link(g, par, s1, i) by { if i < st.len() { assert(link(g, par, st, i)); } }
    assert(blacks(c1) =~= blacks(c));
}
pub proof fn lemma_go_on(g: N, c: Map<Seq<char>, Color>, par: Map<Seq<char>, String>, st: Seq<Seq<char>>, k: Seq<char>, s: String)
    requires st_ok(g, c, par, st), st.len() > 0, !c.contains_key(k), dep(g, st.last(), k), s@ == st.last()
    ensures can_enter(g, c, par.insert(k, s), st, k)
{
    assert(!gray(c, k));
    let p2 = par.insert(k, s);
    assert forall|i: int| 0 < i < st.len() implies #[trigger] link(g, p2, st, i) by { assert(link(g, par, st, i)); assert(st.contains(st[i])); }
}
pub proof fn lemma_back_on(g: N, c: Map<Seq<char>, Color>, par: Map<Seq<char>, String>, st: Seq<Seq<char>>, c1: Map<Seq<char>, Color>, par1: Map<Seq<char>, String>)
    requires st_ok(g, c, par, st), kept(c, c1, par, par1), forall|k: Seq<char>| #[trigger] gray(c1, k) ==> gray(c, k)
    ensures st_ok(g, c1, par1, st), forall|k: Seq<char>| blacks(c).contains(k) ==> #[trigger] blacks(c1).contains(k)
{
    assert forall|x: Seq<char>| #[trigger] gray(c1, x) == st.contains(x) by { assert(gray(c, x) == st.contains(x)); assert(c1.contains_key(x) || !c.contains_key(x)); }
    assert forall|i: int| 0 < i < st.len() implies #[trigger] link(g, par1, st, i) by { assert(link(g, par, st, i)); assert(st.contains(st[i])); assert(gray(c, st[i])); assert(par1.contains_key(st[i])); }
    assert forall|k: Seq<char>| blacks(c).contains(k) implies #[trigger] blacks(c1).contains(k) by { assert(c1.contains_key(k)); }
}
pub open spec fn rev_of(st: Seq<Seq<char>>, cy: Seq<String>) -> bool { forall|j: int| 0 <= j < cy.len() ==> (#[trigger] cy[j])@ == st[st.len() - 1 - j] }
pub proof fn lemma_found(g: N, par: Map<Seq<char>, String>, st: Seq<Seq<char>>, cy: Seq<String>)
    requires forall|i: int| 0 < i < st.len() ==> #[trigger] link(g, par, st, i), 0 < cy.len() <= st.len(),
        rev_of(st, cy), dep(g, st.last(), cy.last()@)
    ensures is_cycle(g, tx(cy.reverse()))
{
    let m = cy.len();
    let (e, c) = (st.len() - m, tx(cy.reverse()));
    assert forall|j: int| 0 <= j < m implies c[j] == st[e + j] by { assert(c[j] == cy[m - 1 - j]@); }
    let w = c.push(c[0]);
    assert forall|j: int| 0 <= j < w.len() - 1 implies dep(g, #[trigger] w[j], w[j + 1]) by {
        if j < m - 1 { assert(w[j] == st[e + j] && w[j + 1] == st[e + j + 1]); assert(link(g, par, st, e + j + 1)); }
        else { assert(w[j] == st.last()); assert(c[0] == cy[m - 1]@); }
    }
}
/// a resolution that selects a version leaves that version as the only requirement on the name, if there were any; nothing else changes
pub open spec fn resolved(q0: Map<Seq<char>, Vec<PackageRequirement>>, q1: Map<Seq<char>, Vec<PackageRequirement>>, c: ConflictResolution) -> bool {
    let n = c.package_name@;
    &&& q1.dom() == q0.dom()
    &&& forall|k: Seq<char>| #[trigger] q0.contains_key(k) && (k != n || c.selected_version is None) ==> q1[k] == q0[k]
    &&& q0.contains_key(n) && c.selected_version is Some ==> q1[n]@.len() == 1 && q1[n]@[0].name@ == n && !q1[n]@[0].weak && !q1[n]@[0].conflict
        && q1[n]@[0].version_spec is Some && q1[n]@[0].version_spec->Some_0@ == ver_str(c.selected_version->Some_0)
}
}
