// Guard against contradictory assumptions: the obligation in here must fail.
verus! {
pub mod probe {
use super::*;
use super::shim::*;
use super::spec::*;
use super::tags::*;

/// every axiom in use at once does not prove what is false
pub proof fn must_fail(d: Set<Seq<char>>, e: Set<Seq<char>>, n: int, m: int, s: Seq<char>, r: Seq<char>)
    requires ident(s), n >= 0, m >= 0, d.contains(s), e.contains(r), dec(n) == dec(m)
{
    lemma_dec(n);
    lemma_dec(m);
    lemma_dec_injective(n, m);
    axiom_numeric();
    lemma_key_order(d);
    lemma_key_order(e);
    lemma_key_order(d.union(e));
    snaking::axiom_heck(s);
    snaking::axiom_heck(r);
    snaking::axiom_heck(prefix(snake(s)));
    assert(false);
}
}
} // verus!
