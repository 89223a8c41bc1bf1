// C13: with case normalization, columns are called after the documented snake
// case of properties.
verus! {
pub mod snake_names {
use super::*;
use super::shim::*;
use super::spec::*;
use super::lemmas::*;
use super::snaking::*;
use super::tags::*;
use super::lims::*;
use super::total::*;
use super::valid_bq::*;
use super::closed::*;
use super::resolving::*;
use super::told::*;
use super::ast::{Tag, Type, Object, Union, Tuple, Atom};

/// words of lower-case letters and digits, joined by single underscores, with
/// one more before a digit
pub open spec fn snake_name(k: Seq<char>) -> bool { exists|r: Seq<char>| #[trigger] snaked(r) && k == prefix(r) }
/// the names that do not come of properties
pub open spec fn given(k: Seq<char>) -> bool {
    k == "list"@ || k == "key"@ || k == "value"@ || k == "root"@ || exists|i: int| 0 <= i && #[trigger] tuple_name(i) == k
}
pub open spec fn called(k: Seq<char>) -> bool { snake_name(k) || given(k) }
pub open spec fn called_bq(d: bigquery::Type) -> bool
    decreases d
{
    match d {
        bigquery::Type::Atom(_) => true,
        bigquery::Type::Record(r) => forall|k: Seq<char>| #[trigger] r.fields.m@.contains_key(k) ==> called(k) && r.fields.m@[k].name == Some(st(k)) && called_bq(*r.fields.m@[k].data_type),
    }
}
pub open spec fn called_av(d: avro::Type) -> bool
    decreases d
{
    match d {
        avro::Type::Union(v) => forall|i: int| 0 <= i < v.v@.len() ==> called_av(#[trigger] v.v@[i]),
        avro::Type::Complex(avro::Complex::Record(r)) => called_fields(r.fields),
        avro::Type::Complex(avro::Complex::Array(a)) => called_av(*a.items),
        avro::Type::Complex(avro::Complex::Map(m)) => called_av(*m.values),
        _ => true,
    }
}
pub open spec fn called_fields(f: Vec<avro::Field>) -> bool
    decreases f
{
    forall|i: int| 0 <= i < f.v@.len() ==> called((#[trigger] f.v@[i]).name.s@) && called_av(f.v@[i].data_type)
}
/// what a property is called: the documented snake case of its name
pub proof fn theorem_column(p: Seq<char>)
    ensures
        norm_bq(p) is None ==> column(p, true) is None,
        norm_bq(p) is Some ==> column(p, true) == Some(prefix(documented(norm_bq(p)->0))) && snaked(documented(norm_bq(p)->0)),
{
    if norm_bq(p) is Some {
        axiom_heck(norm_bq(p)->0);
        lemma_documented(norm_bq(p)->0);
    }
}
pub proof fn lemma_own_snake(k: Seq<char>)
    requires own(k, true)
    ensures snake_name(k)
{
    theorem_column(k);
    let r = documented(norm_bq(k)->0);
    assert(snaked(r) && k == prefix(r));
}
pub proof fn lemma_called_bq(w: Tag, p: Seq<char>, c: Context)
    requires good(w, true), bqw(w, p, c) is Val
    ensures called_bq(bqw(w, p, c)->Val_0)
    decreases w
{
    let d = bqw(w, p, c)->Val_0;
    match w.data_type {
        Type::Object(o) => {
            let f = bqw_fields(o.fields, p, c);
            if !(kept(f) =~= Set::empty()) {
                let m = vals(f);
                assert(d == bq_record(m));
                assert(d->Record_0.fields.m@ == m);
                assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies called(k) && m[k].name == Some(st(k)) && called_bq(*m[k].data_type) by {
                    assert(kept(f).contains(k));
                    assert(o.fields.m@.contains_key(k));
                    assert(o.fields.m@.dom().contains(k));
                    lemma_own_snake(k);
                    lemma_called_bq(*o.fields.m@[k], join(p, k), c);
                }
            }
        }
        Type::Tuple(t) => {
            let f = bqw_seq(t.items, p, c);
            if f.len() > 0 {
                let m = bq_tuple(f, f.len());
                lemma_bq_tuple(f, f.len());
                assert(d == bq_record(m));
                assert(d->Record_0.fields.m@ == m);
                assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies called(k) && m[k].name == Some(st(k)) && called_bq(*m[k].data_type) by {
                    let i = choose|i: int| 0 <= i < f.len() && #[trigger] tuple_name(i) == k;
                    assert(!(f[i] is Err) && !(f[i] is Abort));
                    lemma_called_bq(t.items.v@[i], join(p, tuple_name(i)), c);
                }
            }
        }
        Type::Array(a) => {
            lemma_called_bq(*a.items, join(p, "list"@), c);
            let e = bqw(*a.items, join(p, "list"@), c)->Val_0;
            let m = one("list"@, column_of("list"@, *a.items, e));
            if repeated(*a.items) {
                assert(d == bq_record(m));
                let h = d->Record_0.fields.m@;
                assert(h == m);
                assert forall|k: Seq<char>| #[trigger] h.contains_key(k) implies called(k) && h[k].name == Some(st(k)) && called_bq(*h[k].data_type) by { assert(k == "list"@); }
            }
            assert(called_bq(d));
        }
        Type::Map(x) => {
            reveal_strlit("key"); reveal_strlit("value");
            assert("key"@.len() != "value"@.len());
            let m = one("key"@, key_column(*x.key, c));
            match bqw(*x.value, join(p, "value"@), c) {
                Out::Val(e) => {
                    lemma_called_bq(*x.value, join(p, "value"@), c);
                    let n = m.insert("value"@, Box::new(column_of("value"@, *x.value, e)));
                    assert(d == bq_record(n));
                    let h = d->Record_0.fields.m@;
                    assert(h == n);
                    assert forall|k: Seq<char>| #[trigger] h.contains_key(k) implies called(k) && h[k].name == Some(st(k)) && called_bq(*h[k].data_type) by { assert(k == "key"@ || k == "value"@); }
                }
                _ => {
                    assert(d == bq_record(m));
                    let h = d->Record_0.fields.m@;
                    assert(h == m);
                    assert forall|k: Seq<char>| #[trigger] h.contains_key(k) implies called(k) && h[k].name == Some(st(k)) && called_bq(*h[k].data_type) by { assert(k == "key"@); }
                }
            }
            assert(called_bq(d));
        }
        _ => { assert(called_bq(d)); }
    }
}
pub proof fn lemma_called_wrap(w: Tag, d: avro::Type)
    requires called_av(d)
    ensures called_av(av_wrap(w, d))
{
    let z = av_prim(avro::Primitive::Null);
    let v = vc(seq![z, d]);
    assert(v.v@.len() == 2 && v.v@[0] == z && v.v@[1] == d);
    assert(called_av(z));
}
pub proof fn lemma_called_av(w: Tag, k: Seq<char>, p: Seq<char>, c: Context)
    requires good(w, true), avw(w, k, p, c) is Val
    ensures called_av(avw(w, k, p, c)->Val_0)
    decreases w
{
    let q = join(p, k);
    let d = avw(w, k, p, c)->Val_0;
    match w.data_type {
        Type::Object(o) => {
            let f = avw_fields(o.fields, q, c);
            if !(kept(f) =~= Set::empty()) {
                let r = av_fields(o.fields, f);
                assert(d == av_rec(k, p, r));
                lemma_key_order(kept(f));
                let ks = sorted_keys(kept(f));
                assert(vc(r).v@ == r);
                assert forall|i: int| 0 <= i < r.len() implies called((#[trigger] r[i]).name.s@) && called_av(r[i].data_type) by {
                    let j = ks[i];
                    assert(kept(f).contains(j));
                    assert(o.fields.m@.contains_key(j));
                    assert(o.fields.m@.dom().contains(j));
                    lemma_own_snake(j);
                    let x = *o.fields.m@[j];
                    lemma_called_av(x, j, q, c);
                    lemma_called_wrap(x, avw(x, j, q, c)->Val_0);
                    assert(r[i] == av_field(j, f[j]->Val_0, x.nullable));
                    assert(st(j).s@ == j);
                }
                assert(called_fields(vc(r)));
            }
        }
        Type::Tuple(t) => {
            let f = avw_seq(t.items, q, c);
            let v = t.items.v@;
            let r = av_tuple(v, f, f.len());
            if !seq_aborts(f) && r.len() > 0 {
                assert(d == av_rec(k, p, r));
                lemma_av_tuple(v, f, f.len());
                assert(vc(r).v@ == r);
                assert forall|i: int| 0 <= i < r.len() implies called((#[trigger] r[i]).name.s@) && called_av(r[i].data_type) by {
                    assert(from_member(v, f, r[i], f.len() as int));
                    let j = choose|j: int| 0 <= j < f.len() && #[trigger] member_at(v, f, r[i], j);
                    lemma_called_av(v[j], tuple_name(j), q, c);
                    lemma_called_wrap(v[j], avw(v[j], tuple_name(j), q, c)->Val_0);
                    assert(st(tuple_name(j)).s@ == tuple_name(j));
                }
                assert(called_fields(vc(r)));
            }
        }
        Type::Array(a) => {
            lemma_called_av(*a.items, "list"@, q, c);
            let x = avw(*a.items, "list"@, q, c)->Val_0;
            lemma_called_wrap(*a.items, x);
            if a.items.data_type is Array {
                let y = av_field("list"@, av_wrap(*a.items, x), a.items.nullable);
                assert(seq![y][0] == y);
                assert(vc(seq![y]).v@ == seq![y]);
                assert(st("list"@).s@ == "list"@);
                assert(called_fields(vc(seq![y])));
                assert(called_av(av_rec(k, p, seq![y])));
            }
        }
        Type::Map(m) => {
            lemma_called_av(*m.value, "value"@, q, c);
            lemma_called_wrap(*m.value, avw(*m.value, "value"@, q, c)->Val_0);
        }
        _ => {}
    }
}
/// C13: every name in both formats is in snake case, or given; and wherever
/// single types lead, columns are called after their properties
pub proof fn theorem_snake(v: Value, c: Context)
    requires read_ok(v, c), c.normalize_case
    ensures
        bq_translated(v, c) ==> ({
            let b = bq_lim(tag_in(v, c), ctx_in(v, c))->Val_0;
            called_bq(*b.data_type) && laid_out(b, table_of(v, c)) && told(schema_in(v), false, b, ctx_in(v, c))
        }),
        bq_translated(v, c) ==> forall|i: int| 0 <= i < rows(table_of(v, c)).len() ==>
            called((#[trigger] rows(table_of(v, c))[i]).name->0.s@) && called_bq(*rows(table_of(v, c))[i].data_type),
        av_translated(v, c) ==> called_av(avro_of(v, c)),
{
    let w = core_of(v, c);
    let e = ctx_in(v, c);
    theorem_closed(v, c);
    assert(good(w, true));
    if bq_translated(v, c) {
        lemma_called_bq(w, Seq::empty(), e);
        theorem_described(v, c);
        let b = bq_lim(tag_in(v, c), e)->Val_0;
        let s = table_of(v, c);
        if *b.data_type is Record && !(b.mode is Repeated) {
            let r = b.data_type->Record_0;
            lemma_key_order(r.fields.m@.dom());
            assert forall|i: int| 0 <= i < rows(s).len() implies called((#[trigger] rows(s)[i]).name->0.s@) && called_bq(*rows(s)[i].data_type) by {
                let k = sorted_keys(r.fields.m@.dom())[i];
                assert(r.fields.m@.dom().contains(k));
                assert(r.fields.m@.contains_key(k));
                assert(st(k).s@ == k);
            }
        } else {
            assert(rows(s)[0].name == Some(st("root"@)));
            assert(st("root"@).s@ == "root"@);
            assert(given("root"@));
        }
    }
    if av_translated(v, c) {
        lemma_called_av(w, "root"@, Seq::empty(), e);
        lemma_called_wrap(w, avw(w, "root"@, Seq::empty(), e)->Val_0);
    }
}
}
} // verus!
