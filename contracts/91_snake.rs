// Snake case as it is documented, and what follows from it.
verus! {
pub mod snaking {
use super::*;
use super::shim::*;
use super::spec::*;
use super::lemmas::*;

pub open spec fn is_upper(c: char) -> bool { 'A' <= c && c <= 'Z' }
pub open spec fn is_lower(c: char) -> bool { 'a' <= c && c <= 'z' }
pub open spec fn lower(c: char) -> char { if is_upper(c) { ((c as u8) + 32) as u8 as char } else { c } }

/// the case of the last letter of the word so far
pub enum Case { No, Lower, Upper }

/// The snake case of what is left of a name from position `i` on: underscores
/// separate words, a lower-case letter ends a word before an upper-case one, and
/// a run of upper-case letters ends before its last one if a lower-case letter
/// follows. Digits have the case of the letter before them. `fresh`: a word
/// begins here; `some`: there are words before it.
pub open spec fn words_from(s: Seq<char>, i: nat, case: Case, fresh: bool, some: bool) -> Seq<char>
    decreases s.len() - i
{
    if i >= s.len() { Seq::empty() }
    else {
        let c = s[i as int];
        let cut = is_upper(c) && (case is Lower || case is Upper && i + 1 < s.len() && is_lower(s[i as int + 1]));
        if c == '_' { words_from(s, i + 1, Case::No, true, some) }
        else {
            let now = if is_lower(c) { Case::Lower } else if is_upper(c) { Case::Upper } else { case };
            (if some && (fresh || cut) { seq!['_', lower(c)] } else { seq![lower(c)] }) + words_from(s, i + 1, now, false, true)
        }
    }
}
/// the documented snake case of a name
pub open spec fn documented(s: Seq<char>) -> Seq<char> { words_from(s, 0, Case::No, true, false) }

/// Assumed of heck: it does what is documented with ASCII names.
pub axiom fn axiom_heck(s: Seq<char>)
    ensures ident(s) ==> snake(s) == documented(s);

/// lower-case letters, digits and underscores
pub open spec fn low_char(c: char) -> bool { is_lower(c) || ('0' <= c && c <= '9') || c == '_' }
/// words of lower-case letters and digits, with single underscores between them
pub open spec fn neat(r: Seq<char>) -> bool {
    &&& forall|j: int| 0 <= j < r.len() ==> low_char(#[trigger] r[j])
    &&& forall|j: int| 0 <= j && j + 1 < r.len() && #[trigger] r[j] == '_' ==> r[j + 1] != '_'
    &&& r.len() > 0 ==> r[r.len() - 1] != '_'
}
/// and none before the first
pub open spec fn snaked(r: Seq<char>) -> bool { neat(r) && (r.len() > 0 ==> r[0] != '_') }

pub proof fn lemma_lower(c: char)
    requires tail_char(c), c != '_'
    ensures low_char(lower(c)), lower(c) != '_'
{
    if is_upper(c) {
        let n = (c as u8) + 32;
        assert(97 <= n <= 122);
        assert('a' <= (n as u8 as char) && (n as u8 as char) <= 'z');
    }
}
pub proof fn lemma_neat(s: Seq<char>, i: nat, case: Case, fresh: bool, some: bool)
    requires forall|j: int| 0 <= j < s.len() ==> tail_char(#[trigger] s[j])
    ensures
        neat(words_from(s, i, case, fresh, some)),
        !some && words_from(s, i, case, fresh, some).len() > 0 ==> words_from(s, i, case, fresh, some)[0] != '_',
    decreases s.len() - i
{
    let r = words_from(s, i, case, fresh, some);
    if i < s.len() {
        let c = s[i as int];
        let cut = is_upper(c) && (case is Lower || case is Upper && i + 1 < s.len() && is_lower(s[i as int + 1]));
        if c == '_' {
            lemma_neat(s, i + 1, Case::No, true, some);
        } else {
            let now = if is_lower(c) { Case::Lower } else if is_upper(c) { Case::Upper } else { case };
            lemma_neat(s, i + 1, now, false, true);
            lemma_lower(c);
            let rest = words_from(s, i + 1, now, false, true);
            let head = if some && (fresh || cut) { seq!['_', lower(c)] } else { seq![lower(c)] };
            assert(r == head + rest);
            let n = head.len() as int;
            assert forall|j: int| 0 <= j < r.len() implies low_char(#[trigger] r[j]) by { if j >= n { assert(r[j] == rest[j - n]); } }
            assert forall|j: int| 0 <= j && j + 1 < r.len() && #[trigger] r[j] == '_' implies r[j + 1] != '_' by {
                if j >= n { assert(r[j] == rest[j - n]); assert(r[j + 1] == rest[j + 1 - n]); }
            }
            if rest.len() > 0 { assert(r[r.len() - 1] == rest[rest.len() - 1]); }
        }
    }
}
/// what is in snake case stays as it is
pub proof fn lemma_again(o: Seq<char>, i: nat, case: Case, fresh: bool, some: bool)
    requires
        snaked(o), i <= o.len(), !(case is Upper), some == (i > 0), fresh == (i == 0 || o[i - 1] == '_'),
    ensures
        words_from(o, i, case, fresh, some) == (if some && fresh { seq!['_'] } else { Seq::empty() }) + o.subrange(i as int, o.len() as int),
    decreases o.len() - i
{
    let r = words_from(o, i, case, fresh, some);
    if i < o.len() {
        let c = o[i as int];
        assert(low_char(c));
        if c == '_' {
            assert(!fresh) by { if i > 0 && o[i - 1] == '_' { assert(o[(i - 1) + 1] != '_'); } }
            lemma_again(o, i + 1, Case::No, true, some);
            assert(r =~= o.subrange(i as int, o.len() as int));
        } else {
            let now = if is_lower(c) { Case::Lower } else { case };
            lemma_again(o, i + 1, now, false, true);
            assert(r =~= (if some && fresh { seq!['_'] } else { Seq::empty() }) + o.subrange(i as int, o.len() as int));
        }
    } else {
        assert(r =~= Seq::empty());
        if fresh && some { assert(o[o.len() - 1] != '_'); }
        assert(o.subrange(i as int, o.len() as int) =~= Seq::empty());
        assert((if some && fresh { seq!['_'] } else { Seq::empty() }) =~= Seq::<char>::empty());
        assert(r =~= (if some && fresh { seq!['_'] } else { Seq::empty() }) + o.subrange(i as int, o.len() as int));
    }
}
/// an underscore in front changes nothing
pub proof fn lemma_shift(o: Seq<char>, i: nat, case: Case, fresh: bool, some: bool)
    ensures words_from(seq!['_'] + o, i + 1, case, fresh, some) == words_from(o, i, case, fresh, some)
    decreases o.len() - i
{
    let u = seq!['_'] + o;
    if i < o.len() {
        let c = o[i as int];
        assert(u[i as int + 1] == c);
        if i + 1 < o.len() { assert(u[i as int + 2] == o[i as int + 1]); }
        let now = if is_lower(c) { Case::Lower } else if is_upper(c) { Case::Upper } else { case };
        lemma_shift(o, i + 1, now, false, true);
        lemma_shift(o, i + 1, Case::No, true, some);
    }
}
/// the snake case of a name is in snake case, and is its own snake case
pub proof fn lemma_documented(s: Seq<char>)
    requires ident(s)
    ensures
        snaked(documented(s)),
        documented(documented(s)) == documented(s),
        documented(prefix(documented(s))) == documented(s),
{
    let o = documented(s);
    lemma_neat(s, 0, Case::No, true, false);
    lemma_again(o, 0, Case::No, true, false);
    assert(o.subrange(0, o.len() as int) =~= o);
    assert(Seq::<char>::empty() + o =~= o);
    reveal_strlit("_");
    let u = seq!['_'] + o;
    assert("_"@ + o =~= u);
    lemma_shift(o, 0, Case::No, true, false);
    assert(documented(u) == words_from(u, 1, Case::No, true, false));
}
}
} // verus!
