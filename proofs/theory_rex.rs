verus! {
// ======================================================================
// What a list of Rex actions means
// ======================================================================
pub type Text = Seq<char>;
pub ghost struct Env { pub vars: Map<Text, Text>, pub aliases: Map<Text, Text>, pub cmds: Seq<Text>, pub scripts: Seq<Text>, pub infos: Seq<Text>, pub stopped: bool, pub stop: Option<Text> }
pub open spec fn texts(m: Map<Text, String>) -> Map<Text, Text> { m.map_values(|s: String| s@) }
pub open spec fn list(s: Seq<String>) -> Seq<Text> { s.map_values(|x: String| x@) }
pub open spec fn otext(o: Option<String>) -> Option<Text> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn ev(e: RexEnvironment) -> Env {
    Env { vars: texts(e.vars@), aliases: texts(e.aliases@), cmds: list(e.startup_commands@), scripts: list(e.sourced_scripts@), infos: list(e.info_messages@), stopped: e.stopped, stop: otext(e.stop_message) }
}
pub open spec fn psep() -> Text { seq![':'] }
pub open spec fn empty_env() -> Env { Env { vars: Map::empty(), aliases: Map::empty(), cmds: Seq::empty(), scripts: Seq::empty(), infos: Seq::empty(), stopped: false, stop: None } }
pub open spec fn var(e: Env, n: Text) -> Text { if e.vars.contains_key(n) { e.vars[n] } else { Seq::empty() } }
pub open spec fn sep_of(s: Option<String>) -> Text { match s { Some(x) => x@, None => psep() } }
pub open spec fn set(e: Env, n: Text, v: Text) -> Env { Env { vars: e.vars.insert(n, v), ..e } }
pub open spec fn step(e: Env, a: RexActionType) -> Env {
    match a {
        RexActionType::Setenv { name, value } => set(e, name@, value@),
        RexActionType::Unsetenv { name } => Env { vars: e.vars.remove(name@), ..e },
        RexActionType::Resetenv { name } => Env { vars: e.vars.remove(name@), ..e },
        RexActionType::PrependPath { name, value, separator } => set(e, name@, if var(e, name@).len() == 0 { value@ } else { value@ + sep_of(separator) + var(e, name@) }),
        RexActionType::AppendPath { name, value, separator } => set(e, name@, if var(e, name@).len() == 0 { value@ } else { var(e, name@) + sep_of(separator) + value@ }),
        RexActionType::SetenvIfEmpty { name, value } => if e.vars.contains_key(name@) { e } else { set(e, name@, value@) },
        RexActionType::Alias { name, value } => Env { aliases: e.aliases.insert(name@, value@), ..e },
        RexActionType::Command { cmd } => Env { cmds: e.cmds.push(cmd@), ..e },
        RexActionType::Source { path } => Env { scripts: e.scripts.push(path@), ..e },
        RexActionType::Comment { .. } => e,
        RexActionType::Info { message } => Env { infos: e.infos.push(message@), ..e },
        RexActionType::Error { message } => Env { infos: e.infos.push("[error] "@ + message@), ..e },
        RexActionType::Stop { message } => Env { stopped: true, stop: otext(message), ..e },
    }
}
/// the actions in order, up to and including the first stop
pub open spec fn run(e: Env, a: Seq<RexAction>) -> Env
    decreases a.len()
{
    if a.len() == 0 { e } else if a[0].action_type is Stop { step(e, a[0].action_type) } else { run(step(e, a[0].action_type), a.drop_first()) }
}
pub broadcast proof fn lemma_texts_insert(m: Map<Text, String>, k: Text, v: String)
    ensures #[trigger] texts(m.insert(k, v)) == texts(m).insert(k, v@)
{ assert(texts(m.insert(k, v)) =~= texts(m).insert(k, v@)); }
pub broadcast proof fn lemma_texts_remove(m: Map<Text, String>, k: Text)
    ensures #[trigger] texts(m.remove(k)) == texts(m).remove(k)
{ assert(texts(m.remove(k)) =~= texts(m).remove(k)); }
pub broadcast proof fn lemma_list_push(s: Seq<String>, x: String)
    ensures #[trigger] list(s.push(x)) == list(s).push(x@)
{ assert(list(s.push(x)) =~= list(s).push(x@)); }
pub broadcast proof fn lemma_cat3(a: Text, b: Text, c: Text)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn lemma_cat0(a: Text)
    ensures #[trigger] (""@ + a) == a
{ reveal_strlit(""); assert(""@ + a =~= a); }
pub broadcast proof fn lemma_cat0r(a: Text)
    ensures #[trigger] (a + ""@) == a
{ reveal_strlit(""); assert(a + ""@ =~= a); }
pub broadcast proof fn lemma_list_has(s: Seq<String>, i: int)
    requires 0 <= i < s.len()
    ensures list(s).contains((#[trigger] s[i])@)
{ assert(list(s)[i] == s[i]@); }
pub broadcast proof fn lemma_list_none(s: Seq<String>)
    requires s.len() == 0
    ensures #[trigger] list(s) == Seq::<Text>::empty()
{ assert(list(s) =~= Seq::<Text>::empty()); }
pub broadcast proof fn lemma_list_grows(s: Seq<Text>, x: Text, y: Text)
    ensures #[trigger] s.push(x).contains(y) == (s.contains(y) || x == y)
{
    let t = s.push(x);
    assert(t[s.len() as int] == x);
    if s.contains(y) { let j = s.index_of(y); assert(t[j] == y); }
    if t.contains(y) && x != y { let j = t.index_of(y); assert(s[j] == y); }
}
pub broadcast proof fn lemma_list_eqv(s: Seq<String>, x: String)
    ensures #[trigger] has(s, x) == list(s).contains(x@)
{
    if has(s, x) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).eqv(&x); assert(list(s)[i] == x@); }
    if list(s).contains(x@) { let i = list(s).index_of(x@); assert(s[i].eqv(&x)); }
}
pub broadcast group group_list { lemma_list_eqv, lemma_list_none, lemma_list_grows, lemma_list_push, lemma_list_has }
pub broadcast group group_rex { lemma_texts_insert, lemma_texts_remove, lemma_list_push, lemma_cat0, lemma_cat0r }
pub broadcast proof fn lemma_env_empty(e: RexEnvironment)
    requires e.vars.is_def(), e.aliases.is_def(), e.startup_commands.is_def(), e.sourced_scripts.is_def(), e.info_messages.is_def(), e.stopped.is_def(), e.stop_message.is_def(),
    ensures #[trigger] ev(e) == empty_env()
{
    let x = ev(e); let y = empty_env();
    assert(x.vars =~= y.vars); assert(x.aliases =~= y.aliases); assert(x.cmds =~= y.cmds); assert(x.scripts =~= y.scripts); assert(x.infos =~= y.infos);
}
}
