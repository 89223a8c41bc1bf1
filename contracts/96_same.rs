// C07: the Avro and the BigQuery schema describe the same data.
verus! {
pub mod same_data {
use super::*;
use super::shim::*;
use super::spec::*;
use super::lemmas::*;
use super::tags::*;
use super::lims::*;
use super::total::*;
use super::valid_bq::*;
use super::closed::*;
use super::resolving::*;
use super::valid_av::*;
use super::ast::{Tag, Type, Object, Union, Tuple, Atom};

pub open spec fn same_atom(b: bigquery::Atom, a: avro::Primitive) -> bool {
    match b {
        bigquery::Atom::Bool => a is Boolean,
        bigquery::Atom::Int64 => a is Long,
        bigquery::Atom::Float64 => a is Double,
        bigquery::Atom::String => a is String,
        bigquery::Atom::Timestamp => a is String,
        bigquery::Atom::Bytes => a is Bytes,
        bigquery::Atom::Json => a is String,
        _ => false,
    }
}
pub open spec fn is_string(d: bigquery::Type) -> bool { d == bq_string() }
/// the type beside null
pub open spec fn beside(a: avro::Type) -> avro::Type { if a is Union { (a->Union_0).v@[1] } else { a } }
/// a column and a type that are the same
pub open spec fn same_col(b: bigquery::Tag, a: avro::Type) -> bool
    decreases a, 2nat
{
    match a {
        avro::Type::Union(v) => v.v@.len() == 2 && is_null(v.v@[0]) && if b.mode is Repeated { same_list(*b.data_type, v.v@[1]) } else { b.mode is Nullable && same_type(*b.data_type, v.v@[1]) },
        _ => if is_null(a) { b.mode is Nullable && is_string(*b.data_type) }
            else if b.mode is Repeated { same_list(*b.data_type, a) } else { b.mode is Required && same_type(*b.data_type, a) },
    }
}
/// the same atoms, or the same fields
pub open spec fn same_type(d: bigquery::Type, a: avro::Type) -> bool
    decreases a, 0nat
{
    match a {
        avro::Type::Primitive(p) => d is Atom && same_atom(d->Atom_0, p),
        avro::Type::Complex(avro::Complex::Record(r)) => d is Record && same_fields(d->Record_0, r.fields),
        _ => false,
    }
}
pub open spec fn has_field(f: Vec<avro::Field>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < f.v@.len() && (#[trigger] f.v@[i]).name == st(k) }
pub open spec fn same_fields(r: bigquery::Record, f: Vec<avro::Field>) -> bool
    decreases f, 0nat
{
    &&& forall|i: int| 0 <= i < f.v@.len() ==> r.fields.m@.contains_key((#[trigger] f.v@[i]).name.s@) && same_col(*r.fields.m@[f.v@[i].name.s@], f.v@[i].data_type)
    &&& forall|k: Seq<char>| #[trigger] r.fields.m@.contains_key(k) ==> has_field(f, k)
}
/// the keys of a record
pub open spec fn only(r: bigquery::Record, k: Seq<char>) -> bool { forall|j: Seq<char>| #[trigger] r.fields.m@.contains_key(j) <==> j == k }
pub open spec fn only_two(r: bigquery::Record, k: Seq<char>, l: Seq<char>) -> bool { forall|j: Seq<char>| #[trigger] r.fields.m@.contains_key(j) <==> j == k || j == l }
/// lists of the same items, or maps of the same values
pub open spec fn same_list(d: bigquery::Type, a: avro::Type) -> bool
    decreases a, 0nat
{
    match a {
        avro::Type::Complex(avro::Complex::Array(x)) => same_items(d, *x.items),
        avro::Type::Complex(avro::Complex::Map(x)) => d is Record && only_two(d->Record_0, "key"@, "value"@)
            && is_string(*d->Record_0.fields.m@["key"@].data_type) && !(d->Record_0.fields.m@["key"@].mode is Repeated)
            && same_col(*d->Record_0.fields.m@["value"@], *x.values),
        _ => false,
    }
}
/// the items of a list; maps within a list are within a record in BigQuery
pub open spec fn same_items(d: bigquery::Type, a: avro::Type) -> bool
    decreases a, 1nat
{
    match a {
        avro::Type::Union(v) => v.v@.len() == 2 && is_null(v.v@[0]) && same_items(d, v.v@[1]),
        avro::Type::Complex(avro::Complex::Map(x)) => d is Record && only(d->Record_0, "list"@) && d->Record_0.fields.m@["list"@].mode is Repeated
            && same_list(*d->Record_0.fields.m@["list"@].data_type, a),
        _ => if is_null(a) { is_string(d) } else { same_type(d, a) },
    }
}
/// both closed forms have a value with the cast resolution, and the same
pub open spec fn pair(w: Tag, d: bigquery::Type, x: avro::Type) -> bool {
    &&& w.data_type is Null ==> is_string(d) && is_null(x)
    &&& !(w.data_type is Null) ==> !is_null(x)
    &&& !(x is Union)
    &&& w.data_type is Array ==> x is Complex && x->Complex_0 is Array && same_list(d, x)
    &&& w.data_type is Map ==> x is Complex && x->Complex_0 is Map && same_list(d, x)
    &&& !repeated(w) && !(w.data_type is Null) ==> same_type(d, x)
}
pub proof fn lemma_pair_col(w: Tag, k: Seq<char>, d: bigquery::Type, x: avro::Type)
    requires pair(w, d, x), w.data_type is Null ==> w.nullable
    ensures same_col(column_of(k, w, d), av_wrap(w, x))
{
    lemma_pair_tag(w, column_of(k, w, d), d, x);
}
pub proof fn lemma_pair_tag(w: Tag, b: bigquery::Tag, d: bigquery::Type, x: avro::Type)
    requires pair(w, d, x), w.data_type is Null ==> w.nullable, *b.data_type == d, b.mode == mode_of(w)
    ensures same_col(b, av_wrap(w, x))
{
    let z = av_prim(avro::Primitive::Null);
    let v = vc(seq![z, x]);
    assert(v.v@.len() == 2 && v.v@[0] == z && v.v@[1] == x);
    if w.nullable && !(w.data_type is Null) {
        assert(av_wrap(w, x) == avro::Type::Union(v));
    }
}
pub proof fn lemma_pair_items(w: Tag, d: bigquery::Type, x: avro::Type)
    requires pair(w, d, x), w.data_type is Null ==> w.nullable, !repeated(w)
    ensures same_items(d, av_wrap(w, x))
{
    let z = av_prim(avro::Primitive::Null);
    let v = vc(seq![z, x]);
    assert(v.v@.len() == 2 && v.v@[0] == z && v.v@[1] == x);
    assert(same_items(d, x)) by { match x { avro::Type::Complex(avro::Complex::Map(_)) => { assert(!same_type(d, x)); } _ => {} } }
    if w.nullable && !(w.data_type is Null) {
        assert(av_wrap(w, x) == avro::Type::Union(v));
    }
}
pub proof fn lemma_pair(w: Tag, k: Seq<char>, p: Seq<char>, q0: Seq<char>, c: Context)
    requires done(w, c.normalize_case, c.force_nullable), cast(c)
    ensures
        bqw(w, p, c) is Val, avw(w, k, q0, c) is Val,
        pair(w, bqw(w, p, c)->Val_0, avw(w, k, q0, c)->Val_0),
    decreases w
{
    reveal_strlit("key"); reveal_strlit("value"); reveal_strlit("list");
    let q = join(q0, k);
    let b = bqw(w, p, c);
    let x = avw(w, k, q0, c);
    lemma_done_kids(w, c);
    match w.data_type {
        Type::Object(o) => {
            let f = bqw_fields(o.fields, p, c);
            let h = avw_fields(o.fields, q, c);
            assert forall|j: Seq<char>| #[trigger] o.fields.m@.contains_key(j) implies f[j] is Val && h[j] is Val && same_col(f[j]->Val_0, h[j]->Val_0) by {
                let e = *o.fields.m@[j];
                lemma_pair(e, j, join(p, j), q, c);
                lemma_pair_col(e, j, bqw(e, join(p, j), c)->Val_0, avw(e, j, q, c)->Val_0);
            }
            lemma_pair_object(w, o, f, h, k, q0);
        }
        Type::Tuple(t) => {
            let f = bqw_seq(t.items, p, c);
            let h = avw_seq(t.items, q, c);
            assert forall|i: int| 0 <= i < t.items.v@.len() implies (#[trigger] f[i]) is Val && h[i] is Val && same_col(f[i]->Val_0, h[i]->Val_0) && (f[i]->Val_0).name == Some(st(tuple_name(i))) by {
                let e = t.items.v@[i];
                lemma_pair(e, tuple_name(i), join(p, tuple_name(i)), q, c);
                lemma_pair_col(e, tuple_name(i), bqw(e, join(p, tuple_name(i)), c)->Val_0, avw(e, tuple_name(i), q, c)->Val_0);
            }
            lemma_pair_tuple(w, t, f, h, k, q0);
        }
        Type::Array(a) => {
            let e = *a.items;
            lemma_pair(e, "list"@, join(p, "list"@), q, c);
            let d = bqw(e, join(p, "list"@), c)->Val_0;
            let y = avw(e, "list"@, q, c)->Val_0;
            lemma_pair_col(e, "list"@, d, y);
            lemma_pair_array(w, a, d, y, k, q0);
        }
        Type::Map(m) => {
            let e = *m.value;
            lemma_pair(e, "value"@, join(p, "value"@), q, c);
            let d = bqw(e, join(p, "value"@), c)->Val_0;
            let y = avw(e, "value"@, q, c)->Val_0;
            lemma_pair_col(e, "value"@, d, y);
            assert("key"@.len() != "value"@.len());
            let s = one("key"@, key_column(*m.key, c));
            let n = s.insert("value"@, Box::new(column_of("value"@, e, d)));
            assert(b == Out::Val(bq_record(n)));
            assert(bq_record(n)->Record_0.fields.m@ == n);
            assert(x == Out::Val(av_map(av_wrap(e, y))));
            assert(same_list(bq_record(n), av_map(av_wrap(e, y))));
        }
        _ => {}
    }
}
pub proof fn lemma_pair_object(w: Tag, o: Object, f: Map<Seq<char>, Out<bigquery::Tag>>, h: Map<Seq<char>, Out<avro::Type>>, k: Seq<char>, q: Seq<char>)
    requires
        w.data_type == Type::Object(o),
        f.dom() == o.fields.m@.dom(), h.dom() == o.fields.m@.dom(),
        forall|j: Seq<char>| #[trigger] o.fields.m@.contains_key(j) ==> f[j] is Val && h[j] is Val && same_col(f[j]->Val_0, h[j]->Val_0),
    ensures
        !map_aborts(f), !map_aborts(h), kept(f) == o.fields.m@.dom(), kept(h) == o.fields.m@.dom(),
        pair(w, if kept(f) =~= Set::empty() { bq_string() } else { bq_record(vals(f)) }, if kept(h) =~= Set::empty() { av_string() } else { av_rec(k, q, av_fields(o.fields, h)) }),
{
    let d = o.fields.m@.dom();
    assert forall|j: Seq<char>| #[trigger] d.contains(j) implies o.fields.m@.contains_key(j) by {}
    assert(!map_aborts(f)) by { if map_aborts(f) { let j = choose|j: Seq<char>| #[trigger] f.contains_key(j) && f[j] is Abort; assert(d.contains(j)); } }
    assert(!map_aborts(h)) by { if map_aborts(h) { let j = choose|j: Seq<char>| #[trigger] h.contains_key(j) && h[j] is Abort; assert(d.contains(j)); } }
    assert(kept(f) =~= d);
    assert(kept(h) =~= d);
    if !(d =~= Set::empty()) {
        let r = bigquery::Record { fields: hm(vals(f)) };
        let v = vc(av_fields(o.fields, h));
        lemma_key_order(d);
        let ks = sorted_keys(d);
        assert(v.v@.len() == ks.len());
        assert forall|i: int| 0 <= i < v.v@.len() implies r.fields.m@.contains_key((#[trigger] v.v@[i]).name.s@) && same_col(*r.fields.m@[v.v@[i].name.s@], v.v@[i].data_type) by {
            assert(d.contains(ks[i]));
            assert(v.v@[i].name == st(ks[i]));
            assert(kept(f).contains(ks[i]));
        }
        assert forall|j: Seq<char>| #[trigger] r.fields.m@.contains_key(j) implies has_field(v, j) by {
            assert(d.contains(j));
            let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == j;
            assert(v.v@[i].name == st(j));
        }
        assert(same_fields(r, v));
    }
}
pub proof fn lemma_pair_tuple(w: Tag, t: Tuple, f: Seq<Out<bigquery::Tag>>, h: Seq<Out<avro::Type>>, k: Seq<char>, q: Seq<char>)
    requires
        w.data_type == Type::Tuple(t),
        f.len() == t.items.v@.len(), h.len() == t.items.v@.len(),
        forall|i: int| 0 <= i < t.items.v@.len() ==> (#[trigger] f[i]) is Val && h[i] is Val && same_col(f[i]->Val_0, h[i]->Val_0) && (f[i]->Val_0).name == Some(st(tuple_name(i))),
    ensures
        !seq_aborts(f), !seq_aborts(h), !seq_fails(f),
        av_tuple(t.items.v@, h, h.len()).len() == h.len(),
        pair(w, if f.len() == 0 { bq_string() } else { bq_record(bq_tuple(f, f.len())) },
            if h.len() == 0 { av_string() } else { av_rec(k, q, av_tuple(t.items.v@, h, h.len())) }),
{
    assert(!seq_aborts(f)) by { if seq_aborts(f) { let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]) is Abort; assert(f[i] is Val); } }
    assert(!seq_fails(f)) by { if seq_fails(f) { let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]) is Err; assert(f[i] is Val); } }
    assert(!seq_aborts(h)) by { if seq_aborts(h) { let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]) is Abort; assert(f[i] is Val); } }
    assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]) is Val by { assert(f[i] is Val); }
    let r = av_tuple(t.items.v@, h, h.len());
    lemma_tuple_all(t.items.v@, h, h.len());
    if f.len() > 0 {
        let m = bq_tuple(f, f.len());
        lemma_bq_tuple(f, f.len());
        let b = bigquery::Record { fields: hm(m) };
        assert(b.fields.m@ == m);
        let v = vc(r);
        assert forall|i: int| 0 <= i < v.v@.len() implies b.fields.m@.contains_key((#[trigger] v.v@[i]).name.s@) && same_col(*b.fields.m@[v.v@[i].name.s@], v.v@[i].data_type) by {
            assert(v.v@[i] == r[i]);
            assert(st(tuple_name(i)).s@ == tuple_name(i));
            assert(f[i] is Val);
            assert(m.contains_key(tuple_name(i)));
            assert(*m[tuple_name(i)] == f[i]->Val_0);
        }
        assert forall|j: Seq<char>| #[trigger] b.fields.m@.contains_key(j) implies has_field(v, j) by {
            let i = choose|i: int| 0 <= i < f.len() && #[trigger] tuple_name(i) == j;
            assert(v.v@[i] == r[i]);
        }
        assert(same_fields(b, v));
    }
}
pub proof fn lemma_tuple_all(v: Seq<Tag>, h: Seq<Out<avro::Type>>, n: nat)
    requires n <= h.len(), forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]) is Val
    ensures av_tuple(v, h, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] av_tuple(v, h, n)[i] == av_field(tuple_name(i), h[i]->Val_0, v[i].nullable)
    decreases n
{
    if n > 0 {
        lemma_tuple_all(v, h, (n - 1) as nat);
        assert(h[n - 1] is Val);
    }
}
pub proof fn lemma_pair_array(w: Tag, a: ast::Array, d: bigquery::Type, y: avro::Type, k: Seq<char>, q: Seq<char>)
    requires
        w.data_type == Type::Array(a), pair(*a.items, d, y), a.items.data_type is Null ==> a.items.nullable,
        same_col(column_of("list"@, *a.items, d), av_wrap(*a.items, y)),
    ensures ({
        let b = if repeated(*a.items) { bq_record(one("list"@, column_of("list"@, *a.items, d))) } else { d };
        let z = av_wrap(*a.items, y);
        pair(w, b, av_list(if a.items.data_type is Array { av_rec(k, q, seq![av_field("list"@, z, a.items.nullable)]) } else { z }))
    })
{
    let e = *a.items;
    let z = av_wrap(e, y);
    let l = column_of("list"@, e, d);
    let m = one("list"@, l);
    let r = bigquery::Record { fields: hm(m) };
    assert(r.fields.m@ == m && m.contains_key("list"@) && *m["list"@] == l);
    assert(only(r, "list"@));
    if e.data_type is Array {
        let f = av_field("list"@, z, e.nullable);
        let v = vc(seq![f]);
        assert(v.v@.len() == 1 && v.v@[0] == f && f.name == st("list"@) && f.name.s@ == "list"@);
        assert(has_field(v, "list"@));
        assert(same_fields(r, v));
        let x = av_rec(k, q, seq![f]);
        assert(same_type(bq_record(m), x));
        assert(same_items(bq_record(m), x));
        assert(same_list(bq_record(m), av_list(x)));
    } else if e.data_type is Map {
        let n = av_prim(avro::Primitive::Null);
        let v = vc(seq![n, y]);
        assert(v.v@.len() == 2 && v.v@[0] == n && v.v@[1] == y);
        assert(same_items(bq_record(m), y));
        if e.nullable { assert(z == avro::Type::Union(v)); }
        assert(same_items(bq_record(m), z));
        assert(same_list(bq_record(m), av_list(z)));
    } else {
        lemma_pair_items(e, d, y);
        assert(same_list(d, av_list(z)));
    }
}
/// a table and a type: the columns are the fields, or the one column is the whole
pub open spec fn same_table(s: bigquery::Schema, a: avro::Type) -> bool {
    let x = beside(a);
    ||| x is Complex && x->Complex_0 is Record && exists|r: bigquery::Record| #[trigger] same_fields(r, x->Complex_0->Record_0.fields) && rows(s) == rows_of(r)
    ||| rows(s).len() == 1 && rows(s)[0].name == Some(st("root"@)) && same_col(rows(s)[0], a)
}
/// C07
pub proof fn theorem_same(v: Value, c: Context)
    requires read_ok(v, c), cast(c)
    ensures
        bq_translated(v, c), av_translated(v, c),
        same_col(bq_lim(tag_in(v, c), ctx_in(v, c))->Val_0, avro_of(v, c)),
        same_table(table_of(v, c), avro_of(v, c)),
{
    theorem_closed(v, c);
    lemma_sound_options(schema_in(v), c);
    let w = core_of(v, c);
    let e = ctx_in(v, c);
    lemma_pair(w, "root"@, Seq::empty(), Seq::empty(), e);
    let t = bq_lim(tag_in(v, c), e)->Val_0;
    let d = bqw(w, Seq::empty(), e)->Val_0;
    let x = avw(w, "root"@, Seq::empty(), e)->Val_0;
    lemma_pair_tag(w, t, d, x);
    let a = avro_of(v, c);
    let n = av_prim(avro::Primitive::Null);
    let u = vc(seq![n, x]);
    assert(u.v@.len() == 2 && u.v@[0] == n && u.v@[1] == x);
    assert(a == av_wrap(w, x));
    if d is Record && !(t.mode is Repeated) {
        assert(beside(a) == x);
        assert(same_type(d, x));
        let r = d->Record_0;
        assert(same_fields(r, x->Complex_0->Record_0.fields));
        assert(rows(table_of(v, c)) == rows_of(r));
    } else {
        let y = bigquery::Tag { name: Some(st("root"@)), ..t };
        assert(rows(table_of(v, c)) == seq![y]);
        lemma_pair_tag(w, y, d, x);
    }
}
}
} // verus!
