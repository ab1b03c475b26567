verus! {
// ======================================================================
// What the version order is (specification) and that it is an order (proved)
// ======================================================================
pub open spec fn tok_char(c: char) -> bool { is_digit(c) || is_ascii_alpha(c) || c == '_' }
pub open spec fn tok_ok(t: Seq<char>) -> bool { t.len() > 0 && forall|i: int| 0 <= i < t.len() ==> tok_char(#[trigger] t[i]) }

/// maximal runs of digits / non-digits of a token
pub open spec fn segs(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let p = segs(s.drop_last());
        let c = s.last();
        if p.len() > 0 && p.last().len() > 0 && is_digit(p.last()[0]) == is_digit(c) { p.drop_last().push(p.last().push(c)) }
        else { p.push(seq![c]) }
    }
}
pub open spec fn seg_num(s: Seq<char>) -> bool { s.len() > 0 && is_digit(s[0]) }
/// numbers by value, text by text, text before numbers
pub open spec fn seg_cmp(a: Seq<char>, b: Seq<char>) -> Ordering {
    if seg_num(a) && seg_num(b) { int_cmp(dec_val(a), dec_val(b)) }
    else if seg_num(a) { Ordering::Greater }
    else if seg_num(b) { Ordering::Less }
    else { seq_cmp(a, b) }
}
pub open spec fn segs_cmp(a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> Ordering
    decreases a.len()
{
    if a.len() == 0 && b.len() == 0 { Ordering::Equal }
    else if a.len() == 0 { Ordering::Less }
    else if b.len() == 0 { Ordering::Greater }
    else { lex(seg_cmp(a[0], b[0]), segs_cmp(a.drop_first(), b.drop_first())) }
}
pub open spec fn tok_cmp(a: Seq<char>, b: Seq<char>) -> Ordering { segs_cmp(segs(a), segs(b)) }
pub open spec fn zero_tok() -> Seq<char> { seq!['0'] }
pub open spec fn head(a: Seq<Seq<char>>) -> Seq<char> { if a.len() > 0 { a[0] } else { zero_tok() } }
pub open spec fn tail(a: Seq<Seq<char>>) -> Seq<Seq<char>> { if a.len() > 0 { a.drop_first() } else { a } }
/// token lists, the shorter one continued with zeros
pub open spec fn toks_cmp(a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> Ordering
    decreases a.len() + b.len()
{
    if a.len() == 0 && b.len() == 0 { Ordering::Equal }
    else { lex(tok_cmp(head(a), head(b)), toks_cmp(tail(a), tail(b))) }
}
pub open spec fn txts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }

pub proof fn lemma_seg_cmp_refl(a: Seq<char>) ensures seg_cmp(a, a) == Ordering::Equal { lemma_seq_cmp_refl(a); }
pub proof fn lemma_seg_cmp_anti(a: Seq<char>, b: Seq<char>) ensures seg_cmp(b, a) == rev(seg_cmp(a, b)) { lemma_seq_cmp_anti(a, b); }
pub proof fn lemma_seg_cmp_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures consistent(seg_cmp(a, b), seg_cmp(b, c), seg_cmp(a, c)) { lemma_seq_cmp_trans(a, b, c); }

pub proof fn lemma_segs_cmp_refl(a: Seq<Seq<char>>) ensures segs_cmp(a, a) == Ordering::Equal decreases a.len()
{ if a.len() > 0 { lemma_seg_cmp_refl(a[0]); lemma_segs_cmp_refl(a.drop_first()); } }
pub proof fn lemma_segs_cmp_anti(a: Seq<Seq<char>>, b: Seq<Seq<char>>) ensures segs_cmp(b, a) == rev(segs_cmp(a, b)) decreases a.len()
{ if a.len() > 0 && b.len() > 0 { lemma_seg_cmp_anti(a[0], b[0]); lemma_segs_cmp_anti(a.drop_first(), b.drop_first()); } }
pub proof fn lemma_segs_cmp_trans(a: Seq<Seq<char>>, b: Seq<Seq<char>>, c: Seq<Seq<char>>)
    ensures consistent(segs_cmp(a, b), segs_cmp(b, c), segs_cmp(a, c)) decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 {
        lemma_seg_cmp_trans(a[0], b[0], c[0]);
        lemma_segs_cmp_trans(a.drop_first(), b.drop_first(), c.drop_first());
    }
}
pub proof fn lemma_toks_cmp_refl(a: Seq<Seq<char>>) ensures toks_cmp(a, a) == Ordering::Equal decreases a.len()
{ if a.len() > 0 { lemma_segs_cmp_refl(segs(a[0])); lemma_toks_cmp_refl(a.drop_first()); } }
pub proof fn lemma_toks_cmp_anti(a: Seq<Seq<char>>, b: Seq<Seq<char>>) ensures toks_cmp(b, a) == rev(toks_cmp(a, b)) decreases a.len() + b.len()
{ if a.len() + b.len() > 0 { lemma_segs_cmp_anti(segs(head(a)), segs(head(b))); lemma_toks_cmp_anti(tail(a), tail(b)); } }
/// two lists are equal under toks_cmp whenever extended with explicit empty rest
pub proof fn lemma_toks_cmp_unfold(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    ensures toks_cmp(a, b) == lex(tok_cmp(head(a), head(b)), toks_cmp(tail(a), tail(b)))
{ if a.len() == 0 && b.len() == 0 { lemma_segs_cmp_refl(segs(zero_tok())); } }
pub proof fn lemma_toks_cmp_trans(a: Seq<Seq<char>>, b: Seq<Seq<char>>, c: Seq<Seq<char>>)
    ensures consistent(toks_cmp(a, b), toks_cmp(b, c), toks_cmp(a, c)) decreases a.len() + b.len() + c.len()
{
    if a.len() + b.len() + c.len() > 0 {
        lemma_toks_cmp_unfold(a, b); lemma_toks_cmp_unfold(b, c); lemma_toks_cmp_unfold(a, c);
        lemma_segs_cmp_trans(segs(head(a)), segs(head(b)), segs(head(c)));
        lemma_toks_cmp_trans(tail(a), tail(b), tail(c));
    }
}

// ---- runs of digits and numbers ----
pub open spec fn pow10(n: nat) -> int decreases n { if n == 0 { 1 } else { 10 * pow10((n - 1) as nat) } }
pub proof fn lemma_pow10_mono(m: nat, n: nat) requires m <= n ensures 0 < pow10(m) <= pow10(n) decreases n
{ if m < n { lemma_pow10_mono(m, (n - 1) as nat); } else if n > 0 { lemma_pow10_mono((m - 1) as nat, (n - 1) as nat); } }
pub proof fn lemma_dec_cons(s: Seq<char>)
    requires s.len() > 0
    ensures dec_val(s) == (s[0] as int - '0' as int) * pow10((s.len() - 1) as nat) + dec_val(s.drop_first())
    decreases s.len()
{
    if s.len() == 1 {
        assert(s.drop_last() =~= Seq::<char>::empty());
        assert(s.drop_first() =~= Seq::<char>::empty());
        assert(dec_val(s.drop_last()) == 0);
        assert(dec_val(s.drop_first()) == 0);
        assert(pow10(0) == 1);
        assert(s.last() == s[0]);
        let d = s[0] as int - '0' as int;
        assert(dec_val(s) == d);
        let q = pow10((s.len() - 1) as nat);
        assert(q == 1);
        assert(d * q == d) by (nonlinear_arith) requires q == 1;
    } else {
        lemma_dec_cons(s.drop_last());
        assert(s.drop_first().drop_last() =~= s.drop_last().drop_first());
        assert(s.drop_last()[0] == s[0]);
        let d = s[0] as int - '0' as int;
        let p = pow10((s.len() - 2) as nat);
        assert(pow10((s.len() - 1) as nat) == 10 * p);
        assert((d * p) * 10 == d * (10 * p)) by (nonlinear_arith);
        assert(s.drop_first().last() == s.last());
        assert(dec_val(s.drop_first()) == dec_val(s.drop_first().drop_last()) * 10 + (s.last() as int - '0' as int));
        assert(dec_val(s) == dec_val(s.drop_last()) * 10 + (s.last() as int - '0' as int));
        assert(dec_val(s.drop_last()) == d * p + dec_val(s.drop_last().drop_first()));
    }
}
pub proof fn lemma_dec_bound(s: Seq<char>)
    requires all_digits(s)
    ensures 0 <= dec_val(s) < pow10(s.len())
    decreases s.len()
{
    lemma_pow10_mono(0, s.len());
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies is_digit(#[trigger] s.drop_last()[i]) by { assert(is_digit(s[i])); }
        lemma_dec_bound(s.drop_last());
        assert(is_digit(s[s.len() - 1]));
    }
}
pub proof fn lemma_drop_first_digits(s: Seq<char>)
    requires all_digits(s), s.len() > 0
    ensures all_digits(s.drop_first())
{ assert forall|i: int| 0 <= i < s.drop_first().len() implies is_digit(#[trigger] s.drop_first()[i]) by { assert(is_digit(s[i + 1])); } }
pub proof fn lemma_dec_lead(s: Seq<char>)
    requires all_digits(s), s.len() > 0, s[0] != '0'
    ensures dec_val(s) >= pow10((s.len() - 1) as nat)
{
    lemma_dec_cons(s);
    lemma_drop_first_digits(s);
    lemma_dec_bound(s.drop_first());
    lemma_pow10_mono(0, (s.len() - 1) as nat);
    assert(is_digit(s[0]));
    let d = s[0] as int - '0' as int;
    let p = pow10((s.len() - 1) as nat);
    assert(d >= 1);
    assert(d * p >= p) by (nonlinear_arith) requires d >= 1, p >= 0;
}
pub proof fn lemma_lstrip(s: Seq<char>)
    requires all_digits(s)
    ensures all_digits(lstrip(s, '0')), dec_val(lstrip(s, '0')) == dec_val(s), lstrip(s, '0').len() > 0 ==> lstrip(s, '0')[0] != '0'
    decreases s.len()
{
    if s.len() > 0 && s[0] == '0' {
        lemma_drop_first_digits(s);
        lemma_lstrip(s.drop_first());
        lemma_dec_cons(s);
        assert(0 * pow10((s.len() - 1) as nat) == 0);
    }
}
pub proof fn lemma_dec_eq_len(a: Seq<char>, b: Seq<char>)
    requires all_digits(a), all_digits(b), a.len() == b.len()
    ensures seq_cmp(a, b) == int_cmp(dec_val(a), dec_val(b))
    decreases a.len()
{
    if a.len() > 0 {
        lemma_drop_first_digits(a); lemma_drop_first_digits(b);
        lemma_dec_eq_len(a.drop_first(), b.drop_first());
        lemma_dec_cons(a); lemma_dec_cons(b);
        lemma_dec_bound(a.drop_first()); lemma_dec_bound(b.drop_first());
        let p = pow10((a.len() - 1) as nat);
        let x = a[0] as int - '0' as int;
        let y = b[0] as int - '0' as int;
        assert(is_digit(a[0]) && is_digit(b[0]));
        if x < y { assert(x * p + p <= y * p) by (nonlinear_arith) requires x + 1 <= y, p >= 0; }
        if y < x { assert(y * p + p <= x * p) by (nonlinear_arith) requires y + 1 <= x, p >= 0; }
    }
}
pub proof fn lemma_digit_runs(a: Seq<char>, b: Seq<char>)
    requires all_digits(a), all_digits(b)
    ensures ({ let x = lstrip(a, '0'); let y = lstrip(b, '0');
        lex(int_cmp(x.len() as int, y.len() as int), seq_cmp(x, y)) == int_cmp(dec_val(a), dec_val(b)) })
{
    let x = lstrip(a, '0'); let y = lstrip(b, '0');
    lemma_lstrip(a); lemma_lstrip(b);
    lemma_dec_bound(x); lemma_dec_bound(y);
    if x.len() < y.len() { lemma_dec_lead(y); lemma_pow10_mono(x.len(), (y.len() - 1) as nat); }
    else if y.len() < x.len() { lemma_dec_lead(x); lemma_pow10_mono(y.len(), (x.len() - 1) as nat); }
    else { lemma_dec_eq_len(x, y); }
}

// ---- segmentation ----
pub open spec fn uniform(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) == is_digit(s[0]) }
pub proof fn lemma_segs_uniform(s: Seq<char>)
    ensures forall|k: int| 0 <= k < segs(s).len() ==> uniform(#[trigger] segs(s)[k]), s.len() > 0 ==> segs(s).len() > 0
    decreases s.len()
{
    if s.len() > 0 {
        lemma_segs_uniform(s.drop_last());
        let p = segs(s.drop_last());
        let c = s.last();
        if p.len() > 0 && p.last().len() > 0 && is_digit(p.last()[0]) == is_digit(c) {
            let n = p.last().push(c);
            assert(uniform(p[p.len() - 1]));
            assert forall|i: int| 0 <= i < n.len() implies is_digit(#[trigger] n[i]) == is_digit(n[0]) by {
                if i < p.last().len() { assert(is_digit(p.last()[i]) == is_digit(p.last()[0])); }
            }
            assert(uniform(n));
        }
        assert forall|k: int| 0 <= k < segs(s).len() implies uniform(#[trigger] segs(s)[k]) by {
            if k < p.len() { assert(uniform(p[k])); }
        }
    }
}
pub proof fn lemma_uniform_digits(s: Seq<char>)
    requires uniform(s)
    ensures seg_num(s) ==> all_digits(s)
{ if seg_num(s) { assert forall|i: int| 0 <= i < s.len() implies is_digit(#[trigger] s[i]) by {} } }
pub proof fn lemma_segs_of_uniform(s: Seq<char>)
    requires uniform(s)
    ensures segs(s) == seq![s]
    decreases s.len()
{
    if s.len() == 1 {
        assert(s.drop_last() =~= Seq::<char>::empty());
        assert(segs(s.drop_last()).len() == 0);
        assert(segs(s) =~= seq![s]) by { assert(seq![s.last()] =~= s); }
    } else {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies is_digit(#[trigger] t[i]) == is_digit(t[0]) by { assert(is_digit(s[i]) == is_digit(s[0])); }
        lemma_segs_of_uniform(t);
        assert(is_digit(s[s.len() - 1]) == is_digit(s[0]));
        assert(segs(t).last() == t);
        assert(t[0] == s[0]);
        assert(t.push(s.last()) =~= s);
        assert(segs(t).drop_last() =~= Seq::<Seq<char>>::empty());
        assert(segs(s) =~= seq![s]);
    }
}
pub proof fn lemma_tok_cmp_uniform(a: Seq<char>, b: Seq<char>)
    requires uniform(a), uniform(b)
    ensures tok_cmp(a, b) == seg_cmp(a, b)
{
    lemma_segs_of_uniform(a); lemma_segs_of_uniform(b);
    assert(segs(a)[0] == a && segs(b)[0] == b);
    assert(segs(a).drop_first() =~= Seq::<Seq<char>>::empty());
    assert(segs(b).drop_first() =~= Seq::<Seq<char>>::empty());
    assert(segs_cmp(segs(a).drop_first(), segs(b).drop_first()) == Ordering::Equal);
}
/// lists equal up to n compare like their remainders
pub proof fn lemma_segs_cmp_skip(a: Seq<Seq<char>>, b: Seq<Seq<char>>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> seg_cmp(#[trigger] a[i], b[i]) == Ordering::Equal
    ensures segs_cmp(a, b) == segs_cmp(a.subrange(n, a.len() as int), b.subrange(n, b.len() as int))
    decreases n
{
    if n == 0 { assert(a.subrange(0, a.len() as int) =~= a); assert(b.subrange(0, b.len() as int) =~= b); }
    else {
        let x = a.drop_first(); let y = b.drop_first();
        assert forall|i: int| 0 <= i < n - 1 implies seg_cmp(#[trigger] x[i], y[i]) == Ordering::Equal by { assert(seg_cmp(a[i + 1], b[i + 1]) == Ordering::Equal); }
        assert(seg_cmp(a[0], b[0]) == Ordering::Equal);
        lemma_segs_cmp_skip(x, y, n - 1);
        assert(x.subrange(n - 1, x.len() as int) =~= a.subrange(n, a.len() as int));
        assert(y.subrange(n - 1, y.len() as int) =~= b.subrange(n, b.len() as int));
    }
}
pub proof fn lemma_toks_cmp_skip(a: Seq<Seq<char>>, b: Seq<Seq<char>>, n: int)
    requires 0 <= n, forall|i: int| 0 <= i < n ==> tok_cmp(#[trigger] at0(a, i), at0(b, i)) == Ordering::Equal
    ensures toks_cmp(a, b) == toks_cmp(from0(a, n), from0(b, n))
    decreases n
{
    if n == 0 { assert(from0(a, 0) =~= a); assert(from0(b, 0) =~= b); }
    else {
        let x = tail(a); let y = tail(b);
        lemma_toks_cmp_unfold(a, b);
        assert(tok_cmp(at0(a, 0), at0(b, 0)) == Ordering::Equal);
        assert forall|i: int| 0 <= i < n - 1 implies tok_cmp(#[trigger] at0(x, i), at0(y, i)) == Ordering::Equal by {
            assert(at0(x, i) == at0(a, i + 1)); assert(at0(y, i) == at0(b, i + 1));
        }
        lemma_toks_cmp_skip(x, y, n - 1);
        assert(from0(x, n - 1) =~= from0(a, n));
        assert(from0(y, n - 1) =~= from0(b, n));
    }
}
pub open spec fn at0(a: Seq<Seq<char>>, i: int) -> Seq<char> { if 0 <= i < a.len() { a[i] } else { zero_tok() } }
pub open spec fn from0(a: Seq<Seq<char>>, n: int) -> Seq<Seq<char>> { if n < a.len() { a.subrange(n, a.len() as int) } else { Seq::empty() } }
/// the first position (with implicit zeros) that differs decides
pub proof fn lemma_toks_cmp_at(a: Seq<Seq<char>>, b: Seq<Seq<char>>, n: int)
    requires 0 <= n, forall|i: int| 0 <= i < n ==> tok_cmp(#[trigger] at0(a, i), at0(b, i)) == Ordering::Equal
    ensures tok_cmp(at0(a, n), at0(b, n)) != Ordering::Equal ==> toks_cmp(a, b) == tok_cmp(at0(a, n), at0(b, n)),
        n >= a.len() && n >= b.len() ==> toks_cmp(a, b) == Ordering::Equal,
{
    lemma_toks_cmp_skip(a, b, n);
    lemma_toks_cmp_unfold(from0(a, n), from0(b, n));
    assert(head(from0(a, n)) == at0(a, n));
    assert(head(from0(b, n)) == at0(b, n));
}

} // verus!
