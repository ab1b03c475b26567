verus! {
// ---- ordering theory (proved) ----
pub open spec fn rev(o: Ordering) -> Ordering {
    match o { Ordering::Less => Ordering::Greater, Ordering::Greater => Ordering::Less, Ordering::Equal => Ordering::Equal }
}
/// the three answers about (a,b), (b,c), (a,c) fit one total preorder
pub open spec fn consistent(ab: Ordering, bc: Ordering, ac: Ordering) -> bool {
    (ab == Ordering::Equal ==> ac == bc) && (bc == Ordering::Equal ==> ac == ab) && (ab == bc ==> ac == ab)
}
pub open spec fn lex(a: Ordering, b: Ordering) -> Ordering { if a == Ordering::Equal { b } else { a } }

pub proof fn lemma_seq_cmp_refl(a: Seq<char>)
    ensures seq_cmp(a, a) == Ordering::Equal
    decreases a.len()
{ if a.len() > 0 { lemma_seq_cmp_refl(a.drop_first()); } }
pub proof fn lemma_seq_cmp_anti(a: Seq<char>, b: Seq<char>)
    ensures seq_cmp(b, a) == rev(seq_cmp(a, b))
    decreases a.len()
{ if a.len() > 0 && b.len() > 0 { lemma_seq_cmp_anti(a.drop_first(), b.drop_first()); } }
pub proof fn lemma_seq_cmp_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures consistent(seq_cmp(a, b), seq_cmp(b, c), seq_cmp(a, c))
    decreases a.len()
{ if a.len() > 0 && b.len() > 0 && c.len() > 0 { lemma_seq_cmp_trans(a.drop_first(), b.drop_first(), c.drop_first()); } }
pub proof fn lemma_seq_cmp_eq(a: Seq<char>, b: Seq<char>)
    ensures (seq_cmp(a, b) == Ordering::Equal) == (a == b)
    decreases a.len()
{
    if a == b { lemma_seq_cmp_refl(a); }
    if a.len() > 0 && b.len() > 0 {
        lemma_seq_cmp_eq(a.drop_first(), b.drop_first());
        if seq_cmp(a, b) == Ordering::Equal {
            assert(a =~= seq![a[0]] + a.drop_first());
            assert(b =~= seq![b[0]] + b.drop_first());
        }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
} // verus!
