verus! {
pub type Text = Seq<char>;
pub open spec fn by_name(a: (&String, &String), b: (&String, &String)) -> Ordering { seq_cmp(a.0@, b.0@) }
pub proof fn lemma_by_name()
    ensures total_preorder(|a: (&String, &String), b: (&String, &String)| by_name(a, b))
{
    assert forall|a: (&String, &String), b: (&String, &String)| true implies #[trigger] by_name(b, a) == rev(by_name(a, b)) by { lemma_seq_cmp_anti(a.0@, b.0@); }
    assert forall|a: (&String, &String)| true implies #[trigger] by_name(a, a) == Ordering::Equal by { lemma_seq_cmp_refl(a.0@); }
    assert forall|a: (&String, &String), b: (&String, &String), c: (&String, &String)| true implies consistent(#[trigger] by_name(a, b), #[trigger] by_name(b, c), by_name(a, c)) by { lemma_seq_cmp_trans(a.0@, b.0@, c.0@); }
}
// ======================================================================
// How a shell reads quoted text: `pre` followed by a character of `esc` stands for that character,
// a character of `bad` (or a stray `pre`) ends the quoting or starts an expansion
// ======================================================================
pub ghost struct Quote { pub pre: Text, pub esc: Set<char>, pub bad: Set<char> }
pub open spec fn plain(q: Quote, x: char) -> bool { x != q.pre[0] && !q.bad.contains(x) }
#[verifier::opaque]
pub open spec fn read(q: Quote, s: Text) -> Option<Text>
    decreases s.len()
{
    if s.len() == 0 { Some(s) }
    else if s.len() > q.pre.len() && s.take(q.pre.len() as int) == q.pre && q.esc.contains(s[q.pre.len() as int]) {
        match read(q, s.skip(q.pre.len() as int + 1)) { Some(t) => Some(seq![s[q.pre.len() as int]] + t), None => None }
    } else if plain(q, s[0]) {
        match read(q, s.skip(1)) { Some(t) => Some(seq![s[0]] + t), None => None }
    } else { None }
}
/// every character replaced by its image
pub open spec fn each(s: Text, g: spec_fn(char) -> Text) -> Text
    decreases s.len()
{ if s.len() == 0 { s } else { g(s[0]) + each(s.drop_first(), g) } }
pub open spec fn good(q: Quote, x: char, t: Text) -> bool { (plain(q, x) && t == seq![x]) || (q.esc.contains(x) && t == q.pre + seq![x]) }
pub proof fn lemma_read(q: Quote, s: Text, g: spec_fn(char) -> Text)
    requires q.pre.len() > 0, forall|x: char| good(q, x, #[trigger] g(x))
    ensures read(q, each(s, g)) == Some(s)
    decreases s.len()
{
    reveal_with_fuel(read, 2);
    if s.len() > 0 {
        let (x, r) = (s[0], each(s.drop_first(), g));
        lemma_read(q, s.drop_first(), g);
        let e = each(s, g);
        assert(e == g(x) + r);
        assert(good(q, x, g(x)));
        assert(s =~= seq![x] + s.drop_first());
        let n = q.pre.len() as int;
        if plain(q, x) && g(x) == seq![x] {
            assert(e[0] == x); assert(e.skip(1) =~= r);
            if e.len() > n && e.take(n) == q.pre { assert(e.take(n)[0] == x); assert(false); }
        } else {
            assert(e.take(n) =~= q.pre); assert(e[n] == x); assert(e.skip(n + 1) =~= r);
        }
    }
}
pub proof fn lemma_subst_cat(a: Text, b: Text, c: char, t: Text)
    ensures subst(a + b, c, t) == subst(a, c, t) + subst(b, c, t)
    decreases a.len()
{
    if a.len() > 0 { assert((a + b).drop_first() =~= a.drop_first() + b); lemma_subst_cat(a.drop_first(), b, c, t);
        assert(subst(a + b, c, t) =~= subst(a, c, t) + subst(b, c, t)); }
    else { assert(a + b =~= b); assert(subst(a, c, t) + subst(b, c, t) =~= subst(b, c, t)); }
}
pub proof fn lemma_subst_each(s: Text, g: spec_fn(char) -> Text, c: char, t: Text)
    ensures subst(each(s, g), c, t) == each(s, |x: char| subst(g(x), c, t))
    decreases s.len()
{
    if s.len() > 0 { lemma_subst_cat(g(s[0]), each(s.drop_first(), g), c, t); lemma_subst_each(s.drop_first(), g, c, t); }
}
pub open spec fn one(x: char) -> Text { seq![x] }
pub proof fn lemma_each_one(s: Text)
    ensures each(s, |x: char| one(x)) == s
    decreases s.len()
{ if s.len() > 0 { lemma_each_one(s.drop_first()); assert(seq![s[0]] + s.drop_first() =~= s); } }
pub proof fn lemma_s1(x: char, c: char, t: Text)
    ensures subst(seq![x], c, t) == (if x == c { t } else { seq![x] })
{ reveal_with_fuel(subst, 2); assert(seq![x].drop_first() =~= Seq::<char>::empty()); assert(subst(seq![x], c, t) =~= (if x == c { t } else { seq![x] })); }
pub proof fn lemma_s2(y: char, x: char, c: char, t: Text)
    ensures subst(seq![y, x], c, t) == (if y == c { t } else { seq![y] }) + (if x == c { t } else { seq![x] })
{ assert(seq![y, x] =~= seq![y] + seq![x]); lemma_subst_cat(seq![y], seq![x], c, t); lemma_s1(y, c, t); lemma_s1(x, c, t); }
// ---- quoting in use ----
/// bash and zsh, inside double quotes; `lit`: no expansion either
pub open spec fn bash_dq(lit: bool) -> Quote { Quote { pre: seq!['\\'], esc: set!['\\', '"', '$', '`'], bad: if lit { set!['"', '$', '`'] } else { set!['"'] } } }
pub open spec fn fish_dq(lit: bool) -> Quote { Quote { pre: seq!['\\'], esc: set!['\\', '"', '$'], bad: if lit { set!['"', '$'] } else { set!['"'] } } }
/// bash and zsh, inside single quotes (close, escaped quote, open again)
pub open spec fn bash_sq() -> Quote { Quote { pre: seq!['\'', '\\', '\''], esc: set!['\''], bad: set!['\''] } }
pub open spec fn ps_sq() -> Quote { Quote { pre: seq!['\''], esc: set!['\''], bad: set!['\''] } }
pub open spec fn ps_dq(lit: bool) -> Quote { Quote { pre: seq!['`'], esc: set!['`', '"', '$'], bad: if lit { set!['"', '$'] } else { set!['"'] } } }
pub proof fn lemma_q1(q: Quote, s: Text, c: char, t: Text)
    requires q.pre.len() > 0, forall|x: char| good(q, x, if x == c { t } else { seq![x] })
    ensures read(q, subst(s, c, t)) == Some(s)
{
    lemma_each_one(s);
    lemma_subst_each(s, |x: char| one(x), c, t);
    let g = |x: char| subst((|x: char| one(x))(x), c, t);
    assert forall|x: char| good(q, x, #[trigger] g(x)) by { lemma_s1(x, c, t); }
    lemma_read(q, s, g);
}
/// the escape character first, then up to three others
pub open spec fn esc4(s: Text, e: char, a: char, b: char, c: char) -> Text { subst(subst(subst(subst(s, e, seq![e, e]), a, seq![e, a]), b, seq![e, b]), c, seq![e, c]) }
pub open spec fn esc3(s: Text, e: char, a: char, b: char) -> Text { subst(subst(subst(s, e, seq![e, e]), a, seq![e, a]), b, seq![e, b]) }
pub open spec fn esc2(s: Text, e: char, a: char) -> Text { subst(subst(s, e, seq![e, e]), a, seq![e, a]) }
pub open spec fn g2(e: char, a: char, x: char) -> Text { if x == e || x == a { seq![e, x] } else { seq![x] } }
pub open spec fn g3(e: char, a: char, b: char, x: char) -> Text { if x == e || x == a || x == b { seq![e, x] } else { seq![x] } }
pub open spec fn g4(e: char, a: char, b: char, c: char, x: char) -> Text { if x == e || x == a || x == b || x == c { seq![e, x] } else { seq![x] } }
pub proof fn lemma_esc2(s: Text, e: char, a: char)
    requires e != a
    ensures esc2(s, e, a) == each(s, |x: char| g2(e, a, x))
{
    lemma_each_one(s);
    let f0 = |x: char| one(x);
    lemma_subst_each(s, f0, e, seq![e, e]);
    let f1 = |x: char| subst(f0(x), e, seq![e, e]);
    lemma_subst_each(s, f1, a, seq![e, a]);
    let f2 = |x: char| subst(f1(x), a, seq![e, a]);
    assert forall|x: char| #[trigger] f2(x) == g2(e, a, x) by { lemma_s1(x, e, seq![e, e]); lemma_s1(x, a, seq![e, a]); lemma_s2(e, x, a, seq![e, a]); assert(seq![e] + seq![x] =~= seq![e, x]); }
    lemma_each_same(s, f2, |x: char| g2(e, a, x));
}
pub proof fn lemma_each_same(s: Text, f: spec_fn(char) -> Text, g: spec_fn(char) -> Text)
    requires forall|x: char| #[trigger] f(x) == g(x)
    ensures each(s, f) == each(s, g)
    decreases s.len()
{ if s.len() > 0 { lemma_each_same(s.drop_first(), f, g); assert(f(s[0]) == g(s[0])); } }
pub proof fn lemma_esc3(s: Text, e: char, a: char, b: char)
    requires e != a, e != b, a != b
    ensures esc3(s, e, a, b) == each(s, |x: char| g3(e, a, b, x))
{
    lemma_esc2(s, e, a);
    let f2 = |x: char| g2(e, a, x);
    lemma_subst_each(s, f2, b, seq![e, b]);
    let f3 = |x: char| subst(f2(x), b, seq![e, b]);
    assert forall|x: char| #[trigger] f3(x) == g3(e, a, b, x) by { lemma_s1(x, b, seq![e, b]); lemma_s2(e, x, b, seq![e, b]); assert(seq![e] + seq![x] =~= seq![e, x]); }
    lemma_each_same(s, f3, |x: char| g3(e, a, b, x));
}
pub proof fn lemma_esc4(s: Text, e: char, a: char, b: char, c: char)
    requires e != a, e != b, a != b, e != c, a != c, b != c
    ensures esc4(s, e, a, b, c) == each(s, |x: char| g4(e, a, b, c, x))
{
    lemma_esc3(s, e, a, b);
    let f2 = |x: char| g3(e, a, b, x);
    lemma_subst_each(s, f2, c, seq![e, c]);
    let f3 = |x: char| subst(f2(x), c, seq![e, c]);
    assert forall|x: char| #[trigger] f3(x) == g4(e, a, b, c, x) by { lemma_s1(x, c, seq![e, c]); lemma_s2(e, x, c, seq![e, c]); assert(seq![e] + seq![x] =~= seq![e, x]); }
    lemma_each_same(s, f3, |x: char| g4(e, a, b, c, x));
}
pub proof fn lemma_q2(q: Quote, s: Text, e: char, a: char)
    requires q.pre == seq![e], e != a, q.esc.contains(e), q.esc.contains(a), q.bad.subset_of(set![e, a])
    ensures read(q, esc2(s, e, a)) == Some(s)
{ lemma_esc2(s, e, a); assert forall|x: char| good(q, x, #[trigger] g2(e, a, x)) by { assert(seq![e] + seq![x] =~= seq![e, x]); } lemma_read(q, s, |x: char| g2(e, a, x)); }
pub proof fn lemma_q3(q: Quote, s: Text, e: char, a: char, b: char)
    requires q.pre == seq![e], e != a, e != b, a != b, q.esc.contains(e), q.esc.contains(a), q.esc.contains(b), q.bad.subset_of(set![e, a, b])
    ensures read(q, esc3(s, e, a, b)) == Some(s)
{ lemma_esc3(s, e, a, b); assert forall|x: char| good(q, x, #[trigger] g3(e, a, b, x)) by { assert(seq![e] + seq![x] =~= seq![e, x]); } lemma_read(q, s, |x: char| g3(e, a, b, x)); }
pub proof fn lemma_q4(q: Quote, s: Text, e: char, a: char, b: char, c: char)
    requires q.pre == seq![e], e != a, e != b, a != b, e != c, a != c, b != c, q.esc.contains(e), q.esc.contains(a), q.esc.contains(b), q.esc.contains(c), q.bad.subset_of(set![e, a, b, c])
    ensures read(q, esc4(s, e, a, b, c)) == Some(s)
{ lemma_esc4(s, e, a, b, c); assert forall|x: char| good(q, x, #[trigger] g4(e, a, b, c, x)) by { assert(seq![e] + seq![x] =~= seq![e, x]); } lemma_read(q, s, |x: char| g4(e, a, b, c, x)); }
// ======================================================================
// Scripts: lines, and what each of them does
// ======================================================================
pub ghost enum Stmt { Nop, Set(Text, Text), Alias(Text, Text), Run(Text), Source(Text) }
pub ghost struct Done { pub vars: Map<Text, Text>, pub aliases: Map<Text, Text>, pub cmds: Seq<Text>, pub scripts: Seq<Text> }
pub open spec fn nothing() -> Done { Done { vars: Map::empty(), aliases: Map::empty(), cmds: Seq::empty(), scripts: Seq::empty() } }
pub open spec fn does(d: Done, s: Stmt) -> Done {
    match s {
        Stmt::Nop => d,
        Stmt::Set(k, v) => Done { vars: d.vars.insert(k, v), ..d },
        Stmt::Alias(k, v) => Done { aliases: d.aliases.insert(k, v), ..d },
        Stmt::Run(c) => Done { cmds: d.cmds.push(c), ..d },
        Stmt::Source(p) => Done { scripts: d.scripts.push(p), ..d },
    }
}
pub open spec fn effect(st: Seq<Stmt>) -> Done
    decreases st.len()
{ if st.len() == 0 { nothing() } else { does(effect(st.drop_last()), st.last()) } }
pub broadcast proof fn lemma_effect(st: Seq<Stmt>, s: Stmt)
    ensures #[trigger] effect(st.push(s)) == does(effect(st), s)
{ assert(st.push(s).drop_last() =~= st); }
pub open spec fn late(s: Stmt) -> bool { s is Run || s is Source }
pub open spec fn early(s: Stmt) -> bool { s is Set || s is Alias }
/// commands and scripts run once the variables and aliases are set
pub open spec fn staged(st: Seq<Stmt>) -> bool { forall|i: int, j: int| 0 <= i < j < st.len() ==> !(late(#[trigger] st[i]) && early(#[trigger] st[j])) }
pub open spec fn no_late(st: Seq<Stmt>) -> bool { forall|i: int| 0 <= i < st.len() ==> !late(#[trigger] st[i]) }
/// nothing, or comment lines only
pub open spec fn idle(l: Text) -> bool { l == "@echo off"@ || remark(l) || comment(l) }
pub open spec fn remark(l: Text) -> bool { l.len() >= 4 && l[0] == 'R' && l[1] == 'E' && l[2] == 'M' && l[3] == ' ' && single(l, l.len() as int) }
pub open spec fn single(l: Text, n: int) -> bool
    decreases n
{ n <= 0 || (l[n - 1] != '\n' && single(l, n - 1)) }
pub open spec fn comment(l: Text) -> bool { l.len() == 0 || (l[0] == '#' && forall|i: int| 0 <= i < l.len() - 1 && #[trigger] l[i] == '\n' ==> l[i + 1] == '#') && (l.len() > 0 ==> l.last() != '\n') }
pub open spec fn lines_are(sh: Shell, ls: Seq<String>, st: Seq<Stmt>) -> bool { ls.len() == st.len() && forall|i: int| 0 <= i < ls.len() ==> line_is(sh, (#[trigger] ls[i])@, st[i]) }
pub ghost enum Shell { Bash, Fish, Ps, Cmd }
pub open spec fn assigns(l: Text, a: Text, k: Text, m: Text, z: Text, q: Quote, v: Text) -> bool { exists|t: Text| #![trigger read(q, t)] l == a + k + m + t + z && read(q, t) == Some(v) }
pub open spec fn line_is(sh: Shell, l: Text, s: Stmt) -> bool {
    match (sh, s) {
        (_, Stmt::Nop) => idle(l),
        (_, Stmt::Run(c)) => l == c,
        (Shell::Bash, Stmt::Set(k, v)) => assigns(l, "export "@, k, "=\""@, "\""@, bash_dq(false), v),
        (Shell::Bash, Stmt::Alias(k, v)) => assigns(l, "alias "@, k, "='"@, "'"@, bash_sq(), v),
        (Shell::Bash, Stmt::Source(p)) => assigns(l, "source"@, seq![' '], "\""@, "\""@, bash_dq(false), p),
        (Shell::Fish, Stmt::Set(k, v)) => assigns(l, "set -gx "@, k, " \""@, "\""@, fish_dq(false), v),
        (Shell::Fish, Stmt::Alias(k, v)) => assigns(l, "alias "@, k, " \""@, "\""@, fish_dq(false), v),
        (Shell::Fish, Stmt::Source(p)) => assigns(l, "source"@, seq![' '], "\""@, "\""@, fish_dq(false), p),
        (Shell::Ps, Stmt::Set(k, v)) => assigns(l, "$env:"@, k, " = '"@, "'"@, ps_sq(), v) || assigns(l, "${env:"@, k, "} = '"@, "'"@, ps_sq(), v),
        (Shell::Ps, Stmt::Alias(k, v)) => assigns(l, "Set-Alias -Name "@, k, " -Value \""@, "\""@, ps_dq(false), v),
        (Shell::Cmd, Stmt::Set(k, v)) => l == "SET \""@ + k + "="@ + v + "\""@,
        (Shell::Cmd, Stmt::Alias(k, v)) => l == "DOSKEY "@ + k + "="@ + v,
        (Shell::Cmd, Stmt::Source(p)) => l == "CALL \""@ + p + "\""@,
        (Shell::Ps, Stmt::Source(p)) => assigns(l, "."@, seq![' '], "'"@, "'"@, ps_sq(), p),
    }
}
pub open spec fn texts(m: Map<Text, String>) -> Map<Text, Text> { m.map_values(|s: String| s@) }
pub open spec fn asked(e: RexEnvironment) -> Done { Done { vars: texts(e.vars@), aliases: texts(e.aliases@), cmds: rz_texts(e.startup_commands@), scripts: rz_texts(e.sourced_scripts@) } }
/// the script is made of lines that, read by the shell, do exactly what was asked
pub open spec fn tells(sh: Shell, s: Text, e: RexEnvironment) -> bool {
    exists|ls: Seq<String>, st: Seq<Stmt>| #![trigger lines_are(sh, ls, st)] s == joined(rz_texts(ls), if sh is Cmd { "\r\n"@ } else { "\n"@ }) && lines_are(sh, ls, st) && effect(st) == asked(e) && staged(st)
}
// entries of a map, in any order
pub open spec fn covers(s: Seq<(&String, &String)>, m: Map<Text, String>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0@) && *s[i].1 == m[s[i].0@]
    &&& forall|k: Text| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k
}
pub broadcast proof fn lemma_covers(a: Seq<(&String, &String)>, b: Seq<(&String, &String)>, m: Map<Text, String>)
    requires #[trigger] covers(a, m), forall|x: (&String, &String)| a.contains(x) == b.contains(x)
    ensures #[trigger] covers(b, m)
{
    assert forall|i: int| 0 <= i < b.len() implies m.contains_key((#[trigger] b[i]).0@) && *b[i].1 == m[b[i].0@] by { assert(b.contains(b[i])); assert(a.contains(b[i])); let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i]; assert(m.contains_key(a[j].0@)); }
    assert forall|k: Text| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0@ == k by { let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).0@ == k; assert(a.contains(a[j])); assert(b.contains(a[j])); let i = choose|i: int| 0 <= i < b.len() && b[i] == a[j]; assert(b[i].0@ == k); }
}
/// d holds the first n entries of s and nothing else of m
pub open spec fn holds(d: Map<Text, Text>, s: Seq<(&String, &String)>, n: int, m: Map<Text, String>) -> bool {
    &&& forall|k: Text| #[trigger] d.contains_key(k) ==> m.contains_key(k) && d[k] == m[k]@
    &&& forall|i: int| 0 <= i < n ==> d.contains_key((#[trigger] s[i]).0@)
}
pub proof fn lemma_holds_all(d: Map<Text, Text>, s: Seq<(&String, &String)>, m: Map<Text, String>)
    requires holds(d, s, s.len() as int, m), covers(s, m)
    ensures d == texts(m)
{
    assert forall|k: Text| d.contains_key(k) == texts(m).contains_key(k) by { if m.contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k; assert(d.contains_key(s[i].0@)); } }
    assert(d =~= texts(m));
}
pub proof fn lemma_lits()
    ensures "\\\\"@ == seq!['\\', '\\'], "\\\""@ == seq!['\\', '"'], "'\\''"@ == seq!['\'', '\\', '\'', '\''], ""@ == Seq::<char>::empty(), "''"@ == seq!['\'', '\''],
        "``"@ == seq!['`', '`'], "`\""@ == seq!['`', '"'], "\n# "@ == seq!['\n', '#', ' ']
{
    reveal_strlit("\n# "); assert("\n# "@ =~= seq!['\n', '#', ' ']);
    reveal_strlit("\\\\"); reveal_strlit("\\\""); reveal_strlit("'\\''"); reveal_strlit(""); reveal_strlit("''"); reveal_strlit("``"); reveal_strlit("`\"");
    assert("\\\\"@ =~= seq!['\\', '\\']); assert("\\\""@ =~= seq!['\\', '"']); assert("'\\''"@ =~= seq!['\'', '\\', '\'', '\'']); assert(""@ =~= Seq::<char>::empty());
    assert("''"@ =~= seq!['\'', '\'']); assert("``"@ =~= seq!['`', '`']); assert("`\""@ =~= seq!['`', '"']);
}
pub proof fn lemma_two(st: Seq<Stmt>)
    requires st.len() == 2, st[0] is Nop, st[1] is Nop
    ensures effect(st) == nothing(), no_late(st), staged(st)
{ reveal_with_fuel(effect, 3); }
pub proof fn lemma_bash_dq(s: Text) ensures read(bash_dq(false), esc2(s, '\\', '"')) == Some(s)
{ lemma_q2(bash_dq(false), s, '\\', '"'); }
pub open spec fn pad(st: Seq<Stmt>, n: int) -> Seq<Stmt>
    decreases n
{ if n <= 0 { st } else { pad(st, n - 1).push(Stmt::Nop) } }
pub proof fn lemma_pad(sh: Shell, l0: Seq<String>, ls: Seq<String>, st: Seq<Stmt>)
    requires lines_are(sh, l0, st), l0.len() <= ls.len(), forall|i: int| 0 <= i < l0.len() ==> #[trigger] ls[i] == l0[i], forall|i: int| l0.len() <= i < ls.len() ==> idle((#[trigger] ls[i])@)
    ensures lines_are(sh, ls, pad(st, ls.len() - st.len())), effect(pad(st, ls.len() - st.len())) == effect(st),
        no_late(st) ==> no_late(pad(st, ls.len() - st.len())), staged(st) ==> staged(pad(st, ls.len() - st.len()))
    decreases ls.len() - l0.len()
{
    if ls.len() > l0.len() {
        let li = ls.drop_last();
        lemma_pad(sh, l0, li, st);
        lemma_effect(pad(st, li.len() - st.len()), Stmt::Nop);
        assert(ls =~= li.push(ls.last()));
    } else { assert(ls =~= l0); }
}
pub proof fn lemma_line(sh: Shell, l0: Seq<String>, ls: Seq<String>, st: Seq<Stmt>, s: Stmt)
    requires lines_are(sh, l0, st), ls.len() == l0.len() + 1, forall|i: int| 0 <= i < l0.len() ==> #[trigger] ls[i] == l0[i], line_is(sh, ls.last()@, s)
    ensures lines_are(sh, ls, st.push(s)), effect(st.push(s)) == does(effect(st), s), no_late(st) && !late(s) ==> no_late(st.push(s)), (no_late(st) || !early(s)) && staged(st) ==> staged(st.push(s))
{ lemma_effect(st, s); }
pub proof fn lemma_early(st: Seq<Stmt>) ensures no_late(st) ==> staged(st) {}
pub proof fn lemma_nl(t: Text)
    ensures ({ let s = subst(t, '\n', seq!['\n', '#', ' ']); (forall|i: int| 0 <= i < s.len() - 1 && #[trigger] s[i] == '\n' ==> s[i + 1] == '#') && (s.len() > 0 ==> s.last() != '\n') })
    decreases t.len()
{
    if t.len() > 0 {
        lemma_nl(t.drop_first());
        let r = subst(t.drop_first(), '\n', seq!['\n', '#', ' ']);
        let h = if t[0] == '\n' { seq!['\n', '#', ' '] } else { seq![t[0]] };
        let s = subst(t, '\n', seq!['\n', '#', ' ']);
        assert(s == h + r);
        assert forall|i: int| 0 <= i < s.len() - 1 && #[trigger] s[i] == '\n' implies s[i + 1] == '#' by { if i >= h.len() { assert(r[i - h.len()] == '\n'); assert(s[i + 1] == r[i - h.len() + 1]); } }
        if r.len() == 0 { assert(s.last() == h.last()); } else { assert(s.last() == r.last()); }
    }
}
pub proof fn lemma_bash_sq(s: Text) ensures read(bash_sq(), subst(s, '\'', seq!['\'', '\\', '\'', '\''])) == Some(s)
{
    let q = bash_sq();
    assert forall|x: char| good(q, x, if x == '\'' { seq!['\'', '\\', '\'', '\''] } else { seq![x] }) by { assert(q.pre + seq!['\''] =~= seq!['\'', '\\', '\'', '\'']); }
    lemma_q1(q, s, '\'', seq!['\'', '\\', '\'', '\'']);
}
pub proof fn lemma_ps_sq(s: Text) ensures read(ps_sq(), subst(s, '\'', seq!['\'', '\''])) == Some(s)
{
    let q = ps_sq();
    assert forall|x: char| good(q, x, if x == '\'' { seq!['\'', '\''] } else { seq![x] }) by { assert(q.pre + seq!['\''] =~= seq!['\'', '\'']); }
    lemma_q1(q, s, '\'', seq!['\'', '\'']);
}
pub proof fn lemma_fish_dq(s: Text) ensures read(fish_dq(false), esc2(s, '\\', '"')) == Some(s)
{ lemma_q2(fish_dq(false), s, '\\', '"'); }
pub proof fn lemma_ps_dq(s: Text) ensures read(ps_dq(false), esc2(s, '`', '"')) == Some(s)
{ lemma_q2(ps_dq(false), s, '`', '"'); }
pub proof fn lemma_take_more(s: Seq<String>, i: int)
    requires 0 <= i < s.len()
    ensures rz_texts(s).take(i + 1) == rz_texts(s).take(i).push(s[i]@)
{ assert(rz_texts(s).take(i + 1) =~= rz_texts(s).take(i).push(s[i]@)); }
pub proof fn lemma_taken(s: Seq<String>) ensures rz_texts(s).take(s.len() as int) == rz_texts(s), s.len() == 0 ==> rz_texts(s) == Seq::<Text>::empty(), rz_texts(s).take(0) == Seq::<Text>::empty()
{ assert(rz_texts(s).take(s.len() as int) =~= rz_texts(s)); if s.len() == 0 { assert(rz_texts(s) =~= Seq::<Text>::empty()); } assert(rz_texts(s).take(0) =~= Seq::<Text>::empty()); }
pub proof fn lemma_none(m: Map<Text, String>) ensures m.len() == 0 ==> texts(m) == Map::<Text, Text>::empty()
{ if m.len() == 0 { assert(m.dom() =~= Set::empty()); assert(texts(m) =~= Map::empty()); } }
}
