// C01: the fields of records come out in order.
verus! {
pub mod order {
use super::*;
use super::shim::*;
use super::spec::*;
use super::depth::*;
use super::tags::*;
use super::lims::*;
use super::total::*;
use super::valid_bq::*;
use super::canonical::*;
use super::ast::{Tag, Type, Object, Union, Tuple, Atom};

// ---------------------------------------------------------------- BigQuery

pub open spec fn name_of(v: Value) -> Seq<char> { member(v, "name"@)->String_0.s@ }
/// the columns of a table or a record, and theirs, in strictly ascending order of
/// their names
pub open spec fn rows_ordered(v: Value) -> bool
    decreases v
{
    match v {
        Value::Array(a) => {
            &&& forall|i: int, j: int| 0 <= i < j < a.v@.len() ==> str_le(name_of(#[trigger] a.v@[i]), name_of(#[trigger] a.v@[j]))
            &&& forall|i: int, j: int| 0 <= i < j < a.v@.len() ==> name_of(#[trigger] a.v@[i]) != name_of(#[trigger] a.v@[j])
            &&& forall|i: int| 0 <= i < a.v@.len() ==> row_ordered(#[trigger] a.v@[i])
        }
        _ => false,
    }
}
pub open spec fn row_ordered(v: Value) -> bool
    decreases v
{
    match v {
        Value::Object(o) => {
            &&& o.m@.contains_key("name"@) && o.m@["name"@] is String
            &&& o.m@.contains_key("fields"@) ==> rows_ordered(o.m@["fields"@])
        }
        _ => false,
    }
}
pub proof fn lemma_row(t: bigquery::Tag)
    requires bq_valid(t)
    ensures row_ordered(column_json(t)), name_of(column_json(t)) == t.name->0.s@
    decreases t
{
    lemma_members();
    let o = column_json(t)->Object_0.m@;
    assert(o["name"@] == Value::String(t.name->0));
    if let bigquery::Type::Record(r) = *t.data_type {
        lemma_rows(r);
        assert(o["fields"@] == columns_json(r.fields));
    } else {
        assert(!o.contains_key("fields"@));
    }
}
pub proof fn lemma_rows(r: bigquery::Record)
    requires bq_valid_record(r)
    ensures rows_ordered(columns_json(r.fields))
    decreases r
{
    let h = r.fields;
    let ks = sorted_keys(h.m@.dom());
    let v = columns_json(h)->Array_0.v@;
    lemma_key_order(h.m@.dom());
    assert forall|i: int| 0 <= i < v.len() implies row_ordered(#[trigger] v[i]) && name_of(v[i]) == ks[i] by {
        assert(h.m@.contains_key(ks[i]));
        lemma_row(*h.m@[ks[i]]);
    }
}
pub proof fn lemma_table_ordered(t: bigquery::Tag)
    requires bq_valid_type(*t.data_type), short(t.description)
    ensures rows_ordered(table_json(bq_root(t)))
{
    lemma_table(t);
    let v = bq_root(t)->Root_0.v@;
    let a = table_json(bq_root(t))->Array_0.v@;
    assert forall|i: int| 0 <= i < a.len() implies row_ordered(#[trigger] a[i]) && name_of(a[i]) == v[i].name->0.s@ by { lemma_row(v[i]); }
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies name_of(#[trigger] a[i]) != name_of(#[trigger] a[j]) by {
        assert(v[i].name != v[j].name);
        if v[i].name->0.s@ == v[j].name->0.s@ { assert(v[i].name->0 == v[j].name->0); }
    }
    if let bigquery::Type::Record(r) = *t.data_type { if !(t.mode is Repeated) {
        let d = r.fields.m@.dom();
        lemma_key_order(d);
        assert forall|i: int| 0 <= i < a.len() implies name_of(#[trigger] a[i]) == sorted_keys(d)[i] by {
            assert(r.fields.m@.contains_key(sorted_keys(d)[i]));
        }
    } }
}
pub proof fn theorem_columns_ordered(v: Value, c: Context)
    requires read_ok(v, c), bq_lim(tag_in(v, c), ctx_in(v, c)) is Val
    ensures rows_ordered(serde_spec::print_bigquery(bq_root(bq_lim(tag_in(v, c), ctx_in(v, c))->Val_0)))
{
    theorem_valid_parts(v, c);
    let t = bq_lim(tag_in(v, c), ctx_in(v, c))->Val_0;
    lemma_table_ordered(t);
    theorem_table(bq_root(t));
}

// ---------------------------------------------------------------- Avro

pub open spec fn ascending(f: Seq<avro::Field>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < f.len() ==> str_le((#[trigger] f[i]).name.s@, (#[trigger] f[j]).name.s@)
    &&& forall|i: int, j: int| 0 <= i < j < f.len() ==> (#[trigger] f[i]).name.s@ != (#[trigger] f[j]).name.s@
}
/// members of a tuple, by their positions
pub open spec fn by_position(f: Seq<avro::Field>) -> bool { exists|p: Seq<int>| #[trigger] positions(f, p) }
pub open spec fn positions(f: Seq<avro::Field>, p: Seq<int>) -> bool {
    &&& p.len() == f.len()
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] < #[trigger] p[j]
    &&& forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] && f[i].name.s@ == tuple_name(p[i])
}
pub open spec fn av_ordered(d: avro::Type) -> bool
    decreases d
{
    match d {
        avro::Type::Primitive(_) => true,
        avro::Type::Union(v) => av_ordered_all(v),
        avro::Type::Complex(avro::Complex::Record(r)) => (ascending(r.fields.v@) || by_position(r.fields.v@)) && av_ordered_fields(r.fields),
        avro::Type::Complex(avro::Complex::Array(a)) => av_ordered(*a.items),
        avro::Type::Complex(avro::Complex::Map(m)) => av_ordered(*m.values),
        _ => true,
    }
}
pub open spec fn av_ordered_all(v: Vec<avro::Type>) -> bool
    decreases v
{
    forall|i: int| 0 <= i < v.v@.len() ==> av_ordered(#[trigger] v.v@[i])
}
pub open spec fn av_ordered_fields(f: Vec<avro::Field>) -> bool
    decreases f
{
    forall|i: int| 0 <= i < f.v@.len() ==> av_ordered((#[trigger] f.v@[i]).data_type)
}
pub open spec fn all_ordered(g: spec_fn(Tag) -> Out<avro::Type>) -> bool { forall|x: Tag| (#[trigger] g(x)) is Val ==> av_ordered(g(x)->Val_0) }
pub proof fn lemma_tuple_ordered(v: Seq<Tag>, f: Seq<Out<avro::Type>>, i: nat) -> (p: Seq<int>)
    requires i <= f.len(), f.len() == v.len(), forall|j: int| 0 <= j < f.len() && (#[trigger] f[j]) is Val ==> av_ordered(f[j]->Val_0)
    ensures
        positions(av_tuple(v, f, i), p), p.len() > 0 ==> p.last() < i,
        forall|j: int| 0 <= j < av_tuple(v, f, i).len() ==> av_ordered((#[trigger] av_tuple(v, f, i)[j]).data_type),
    decreases i
{
    if i == 0 { Seq::empty() } else {
        let q = lemma_tuple_ordered(v, f, (i - 1) as nat);
        if f[i - 1] is Val {
            let p = q.push(i - 1);
            assert(av_ordered(f[i - 1]->Val_0));
            p
        } else { q }
    }
}
pub proof fn lemma_record_ordered(u: Tag, f: Seq<avro::Field>)
    requires ascending(f) || by_position(f), forall|i: int| 0 <= i < f.len() ==> av_ordered((#[trigger] f[i]).data_type)
    ensures av_ordered(av_record(u, f))
{
    assert(av_ordered_fields(vc(f)));
}
pub proof fn lemma_type_ordered(u: Tag, c: Context, g: spec_fn(Tag) -> Out<avro::Type>)
    requires all_ordered(g), av_type(u, c, g) is Val
    ensures av_ordered(av_type(u, c, g)->Val_0)
{
    assert(av_ordered(av_string()));
    match u.data_type {
        Type::Object(o) => {
            let f = o_map(o.fields, g);
            lemma_key_order(kept(f));
            let r = av_fields(o.fields, f);
            if !map_aborts(f) && !(kept(f) =~= Set::empty()) {
                assert forall|i: int| 0 <= i < r.len() implies av_ordered((#[trigger] r[i]).data_type) && r[i].name.s@ == sorted_keys(kept(f))[i] by {
                    let k = sorted_keys(kept(f))[i];
                    assert(kept(f).contains(k));
                    assert(f[k] == g(*o.fields.m@[k]));
                }
                assert(ascending(r));
                lemma_record_ordered(u, r);
            }
        }
        Type::Tuple(p) => {
            let f = o_seq(p.items.v@, g);
            assert forall|j: int| 0 <= j < f.len() && (#[trigger] f[j]) is Val implies av_ordered(f[j]->Val_0) by { assert(f[j] == g(p.items.v@[j])); }
            let q = lemma_tuple_ordered(p.items.v@, f, f.len());
            assert(by_position(av_tuple(p.items.v@, f, f.len())));
            lemma_record_ordered(u, av_tuple(p.items.v@, f, f.len()));
        }
        Type::Array(a) => {
            if g(*a.items) is Val {
                let d = g(*a.items)->Val_0;
                assert(av_ordered(d));
                let l = seq![av_field("list"@, d, a.items.nullable)];
                assert(ascending(l));
                lemma_record_ordered(u, l);
            }
        }
        Type::Map(m) => { if g(*m.value) is Val { assert(av_ordered(g(*m.value)->Val_0)); } }
        _ => {}
    }
}
pub proof fn lemma_wrap_ordered(u: Tag, d: avro::Type)
    requires av_ordered(d)
    ensures av_ordered(av_wrap(u, d))
{
    if u.nullable && !(u.data_type is Null) {
        let v = seq![av_prim(avro::Primitive::Null), d];
        assert(v[0] == av_prim(avro::Primitive::Null) && v[1] == d);
        assert(av_ordered(v[0]));
        assert(av_ordered_all(vc(v)));
    }
}
pub proof fn lemma_ordered(t: Tag, c: Context, n: nat)
    ensures av(t, c, n) is Val ==> av_ordered(av(t, c, n)->Val_0)
    decreases n
{
    if n == 0 {
        assert(av_ordered(av_string()));
        lemma_wrap_ordered(inf_null(t, c.force_nullable), av_string());
    } else {
        let u = av_proc(t, c, (n - 1) as nat);
        let g = av_sub(c, (n - 1) as nat);
        assert forall|x: Tag| (#[trigger] g(x)) is Val implies av_ordered(g(x)->Val_0) by { lemma_ordered(x, c, (n - 1) as nat); }
        if av_type(u, c, g) is Val {
            lemma_type_ordered(u, c, g);
            lemma_wrap_ordered(u, av_type(u, c, g)->Val_0);
        }
    }
}
pub proof fn theorem_fields_ordered(t: Tag, c: Context)
    requires av_conv(t, c), av_lim(t, c) is Val
    ensures av_ordered(av_lim(t, c)->Val_0)
{
    lemma_av_conv(t, c);
    let b = av_bound(t, c);
    assert(av(t, c, b) == av_lim(t, c));
    lemma_ordered(t, c, b);
}
}
} // verus!
