// What comes of a tag that is named, free of unions and inferred, as a function
// of its structure and its place.
verus! {
pub mod closed {
use super::*;
use super::shim::*;
use super::spec::*;
use super::lemmas::*;
use super::depth::*;
use super::tags::*;
use super::lims::*;
use super::total::*;
use super::valid_bq::*;
use super::ast::{Tag, Type, Object, Union, Tuple, Atom};

/// the path of `k` within what is at `p`
pub open spec fn join(p: Seq<char>, k: Seq<char>) -> Seq<char> { if p.len() == 0 { k } else { under(p, k) } }
/// the path as the expression sees it
pub open spec fn fqn(p: Seq<char>) -> Seq<char> { if p.len() == 0 { "__unknown__"@ } else { p } }
pub open spec fn space(p: Seq<char>) -> Option<String> { if p.len() == 0 { None } else { Some(st(p)) } }

// ---------------------------------------------------------------- places

/// the tags below are called as columns are, and know their place
pub open spec fn kids_in(u: Tag, p: Seq<char>) -> bool {
    match u.data_type {
        Type::Object(o) => forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) ==> ident(k) && at(*o.fields.m@[k], k, p),
        Type::Map(m) => at(*m.key, "key"@, p) && at(*m.value, "value"@, p),
        Type::Array(a) => at(*a.items, "list"@, p),
        Type::Tuple(t) => forall|i: int| 0 <= i < t.items.v@.len() ==> at(#[trigger] t.items.v@[i], tuple_name(i), p),
        _ => true,
    }
}
pub open spec fn at(t: Tag, k: Seq<char>, p: Seq<char>) -> bool { t.name == Some(st(k)) && t.namespace == space(p) }
pub proof fn lemma_kids_in(t: Tag, ns: Seq<char>, nc: bool)
    ensures kids_in(below(t, ns, nc), ns), below(t, ns, nc).name == t.name, below(t, ns, nc).namespace == t.namespace
{
    let u = below(t, ns, nc);
    assert(u.data_type == below_type(t.data_type, ns, nc));
    match t.data_type {
        Type::Object(o) => {
            let f = below_fields(o.fields, ns, nc);
            assert(u.data_type->Object_0.fields.m@ == f);
            lemma_columns_own(o.fields.m@.dom(), nc);
            lemma_columns(o.fields.m@.dom(), nc);
            assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies ident(k) && at(*f[k], k, ns) by {
                let c = columns(o.fields.m@.dom(), nc);
                assert(c.contains_key(k));
                assert(o.fields.m@.dom().contains(c[k]));
                assert(o.fields.m@.contains_key(c[k]));
                lemma_own_ident(k, nc);
            }
        }
        Type::Map(m) => {
            assert(*u.data_type->Map_0.key == with_name(below(*m.key, under(ns, "key"@), nc), "key"@, ns));
            assert(*u.data_type->Map_0.value == with_name(below(*m.value, under(ns, "value"@), nc), "value"@, ns));
        }
        Type::Array(a) => {
            assert(*u.data_type->Array_0.items == with_name(below(*a.items, under(ns, "list"@), nc), "list"@, ns));
        }
        Type::Tuple(p) => {
            let v = below_tuple(p.items, ns, nc);
            assert(u.data_type->Tuple_0.items.v@ == v);
            assert forall|i: int| 0 <= i < v.len() implies at(#[trigger] v[i], tuple_name(i), ns) by {}
        }
        _ => {}
    }
}
pub proof fn lemma_kids_in_inf(u: Tag, f: bool, p: Seq<char>)
    requires kids_in(u, p)
    ensures kids_in(inf_null(u, f), p), inf_null(u, f).name == u.name, inf_null(u, f).namespace == u.namespace
{
    let r = inf_null(u, f);
    match u.data_type {
        Type::Object(o) => {
            let g = inf_fields(o.fields, o.required, f);
            assert(r.data_type->Object_0.fields.m@ == g);
            assert forall|k: Seq<char>| #[trigger] g.contains_key(k) implies ident(k) && at(*g[k], k, p) by {
                assert(o.fields.m@.contains_key(k));
                assert(*g[k] == optional(inf_null(*o.fields.m@[k], f), f || !demands(o.required, k)));
            }
        }
        Type::Tuple(t) => {
            let v = inf_seq(t.items, f);
            assert(r.data_type->Tuple_0.items.v@ == v);
            assert forall|i: int| 0 <= i < v.len() implies at(#[trigger] v[i], tuple_name(i), p) by { assert(v[i] == inf_null(t.items.v@[i], f)); }
        }
        Type::Array(a) => { assert(*r.data_type->Array_0.items == inf_null(*a.items, f)); }
        Type::Map(m) => { assert(*r.data_type->Map_0.value == inf_null(*m.value, f)); assert(r.data_type->Map_0.key == m.key); }
        _ => {}
    }
}

// ---------------------------------------------------------------- BigQuery

pub open spec fn column_of(k: Seq<char>, w: Tag, d: bigquery::Type) -> bigquery::Tag {
    bigquery::Tag { name: Some(st(k)), data_type: Box::new(d), mode: mode_of(w), description: desc_of(w.title, w.description) }
}
pub open spec fn columned(k: Seq<char>, w: Tag, d: Out<bigquery::Type>) -> Out<bigquery::Tag> {
    match d { Out::Val(x) => Out::Val(column_of(k, w, x)), Out::Err => Out::Err, Out::Abort => Out::Abort }
}
pub open spec fn key_column(w: Tag, c: Context) -> bigquery::Tag {
    bigquery::Tag {
        name: Some(st("key"@)), data_type: Box::new(bigquery::Type::Atom(bq_atom(w.data_type->Atom_0))),
        mode: if c.force_nullable || w.nullable { bigquery::Mode::Nullable } else { bigquery::Mode::Required },
        description: desc_of(w.title, w.description),
    }
}
/// the type of the column for `w` at the path `p`
pub open spec fn bqw(w: Tag, p: Seq<char>, c: Context) -> Out<bigquery::Type>
    decreases w
{
    match w.data_type {
        Type::Atom(a) => if a is Json && !json_path(c, fqn(p)) { resolve(c, bq_string()) } else { Out::Val(bigquery::Type::Atom(bq_atom(a))) },
        Type::Object(o) => {
            let f = bqw_fields(o.fields, p, c);
            if map_aborts(f) { Out::Abort } else if kept(f) =~= Set::empty() { resolve(c, bq_string()) } else { Out::Val(bq_record(vals(f))) }
        }
        Type::Tuple(t) => {
            let f = bqw_seq(t.items, p, c);
            if f.len() == 0 { resolve(c, bq_string()) } else if seq_aborts(f) { Out::Abort } else if seq_fails(f) { Out::Err }
            else { Out::Val(bq_record(bq_tuple(f, f.len()))) }
        }
        Type::Array(a) => match bqw(*a.items, join(p, "list"@), c) {
            Out::Val(d) => if repeated(*a.items) { Out::Val(bq_record(one("list"@, column_of("list"@, *a.items, d)))) } else { Out::Val(d) },
            r => r,
        },
        Type::Map(m) => match bqw(*m.value, join(p, "value"@), c) {
            Out::Val(d) => Out::Val(bq_record(one("key"@, key_column(*m.key, c)).insert("value"@, Box::new(column_of("value"@, *m.value, d))))),
            Out::Err => if c.allow_maps_without_value { Out::Val(bq_record(one("key"@, key_column(*m.key, c)))) } else { Out::Err },
            Out::Abort => Out::Abort,
        },
        _ => resolve(c, bq_string()),
    }
}
pub open spec fn bqw_fields(h: HashMap<Box<Tag>>, p: Seq<char>, c: Context) -> Map<Seq<char>, Out<bigquery::Tag>>
    decreases h
{
    Map::new(h.m@.dom(), |k: Seq<char>| if h.m@.contains_key(k) { columned(k, *h.m@[k], bqw(*h.m@[k], join(p, k), c)) } else { arbitrary() })
}
pub open spec fn bqw_seq(v: Vec<Tag>, p: Seq<char>, c: Context) -> Seq<Out<bigquery::Tag>>
    decreases v
{
    Seq::new(v.v@.len(), |i: int| if 0 <= i < v.v@.len() { columned(tuple_name(i), v.v@[i], bqw(v.v@[i], join(p, tuple_name(i)), c)) } else { arbitrary() })
}
/// the path of a tag, and how the expression sees it
pub proof fn lemma_path(t: Tag, k: Seq<char>, p: Seq<char>)
    requires at(t, k, p)
    ensures base(t) == join(p, k), k.len() > 0 ==> full_name(t) == fqn(base(t)) && base(t).len() > 0
{
}
pub proof fn lemma_er_kind(u: Tag, w: Tag)
    requires w == er(u)
    ensures
        w.nullable == u.nullable, w.title == u.title, w.description == u.description,
        repeated(w) == repeated(u), mode_of(w) == mode_of(u),
        u.data_type is Atom ==> w.data_type == u.data_type,
{
}
pub proof fn lemma_closed(w: Tag, t: Tag, c: Context, k: Seq<char>, p: Seq<char>)
    requires done(t, c.normalize_case, c.force_nullable), w == er(t), at(t, k, p), k.len() > 0
    ensures bq_lim(t, c) == columned(k, w, bqw(w, join(p, k), c))
    decreases w
{
    lemma_bq_lim_done(w, t, c);
    lemma_bq_done(t, c);
    let u = bq_view(t, c);
    lemma_kids_in(t, base(t), c.normalize_case);
    lemma_path(t, k, p);
    lemma_er_kind(u, w);
    assert(full_name(u) == full_name(t));
    lemma_closed_type(w, u, c, base(t));
}
pub proof fn lemma_closed_type(w: Tag, u: Tag, c: Context, p: Seq<char>)
    requires done(u, c.normalize_case, c.force_nullable), w == er(u), kids_in(u, p), full_name(u) == fqn(p)
    ensures bq_type(u, c, bq_lims(c)) == bqw(w, p, c)
    decreases w, 0nat
{
    lemma_done_kids(u, c);
    let g = bq_lims(c);
    reveal_strlit("key"); reveal_strlit("value"); reveal_strlit("list");
    match u.data_type {
        Type::Object(o) => {
            let wm = w.data_type->Object_0.fields;
            assert(wm.m@ == er_fields(o.fields));
            let f = o_map(o.fields, g);
            let h = bqw_fields(wm, p, c);
            assert(f.dom() =~= h.dom());
            assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies f[k] == h[k] by {
                assert(o.fields.m@.contains_key(k));
                assert(wm.m@.contains_key(k));
                lemma_closed(*wm.m@[k], *o.fields.m@[k], c, k, p);
            }
            assert(f =~= h);
        }
        Type::Tuple(x) => {
            let wv = w.data_type->Tuple_0.items;
            assert(wv.v@ == er_seq(x.items));
            let f = o_seq(x.items.v@, g);
            let h = bqw_seq(wv, p, c);
            assert forall|i: int| 0 <= i < f.len() implies #[trigger] f[i] == h[i] by {
                lemma_ident_tuple(i);
                lemma_closed(wv.v@[i], x.items.v@[i], c, tuple_name(i), p);
            }
            assert(f =~= h);
        }
        Type::Array(a) => {
            lemma_closed(*w.data_type->Array_0.items, *a.items, c, "list"@, p);
            lemma_er_kind(*a.items, *w.data_type->Array_0.items);
        }
        Type::Map(m) => {
            let wm = w.data_type->Map_0;
            lemma_closed(*wm.value, *m.value, c, "value"@, p);
            lemma_bq_key_val(*m.key, c);
            lemma_er_kind(*m.key, *wm.key);
            assert(g(*m.key) == Out::Val(key_column(*wm.key, c)));
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- Avro

/// the tags below, at all levels, are called as columns are and know their place
pub open spec fn placed(t: Tag, q: Seq<char>) -> bool
    decreases t
{
    match t.data_type {
        Type::Object(o) => forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) ==> ident(k) && at(*o.fields.m@[k], k, q) && placed(*o.fields.m@[k], under(q, k)),
        Type::Map(m) => at(*m.value, "value"@, q) && placed(*m.value, under(q, "value"@)),
        Type::Array(a) => at(*a.items, "list"@, q) && placed(*a.items, under(q, "list"@)),
        Type::Tuple(u) => forall|i: int| 0 <= i < u.items.v@.len() ==> at(#[trigger] u.items.v@[i], tuple_name(i), q) && placed(u.items.v@[i], under(q, tuple_name(i))),
        _ => true,
    }
}
pub proof fn lemma_placed_type(a: Tag, b: Tag, q: Seq<char>)
    requires placed(a, q), a.data_type == b.data_type
    ensures placed(b, q)
{
}
pub proof fn lemma_placed(t: Tag, q: Seq<char>, nc: bool)
    ensures placed(below(t, q, nc), q)
    decreases t
{
    let u = below(t, q, nc);
    lemma_kids_in(t, q, nc);
    assert(u.data_type == below_type(t.data_type, q, nc));
    match t.data_type {
        Type::Object(o) => {
            let f = below_fields(o.fields, q, nc);
            assert(u.data_type->Object_0.fields.m@ == f);
            lemma_columns(o.fields.m@.dom(), nc);
            assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies ident(k) && at(*f[k], k, q) && placed(*f[k], under(q, k)) by {
                let c = columns(o.fields.m@.dom(), nc);
                assert(c.contains_key(k));
                assert(o.fields.m@.dom().contains(c[k]));
                assert(o.fields.m@.contains_key(c[k]));
                let x = below(*o.fields.m@[c[k]], under(q, k), nc);
                lemma_placed(*o.fields.m@[c[k]], under(q, k), nc);
                assert(*f[k] == with_name(x, k, q));
                lemma_placed_type(x, *f[k], under(q, k));
            }
        }
        Type::Map(m) => {
            let v = below(*m.value, under(q, "value"@), nc);
            assert(*u.data_type->Map_0.value == with_name(v, "value"@, q));
            lemma_placed(*m.value, under(q, "value"@), nc);
            lemma_placed_type(v, *u.data_type->Map_0.value, under(q, "value"@));
        }
        Type::Array(a) => {
            let v = below(*a.items, under(q, "list"@), nc);
            assert(*u.data_type->Array_0.items == with_name(v, "list"@, q));
            lemma_placed(*a.items, under(q, "list"@), nc);
            lemma_placed_type(v, *u.data_type->Array_0.items, under(q, "list"@));
        }
        Type::Tuple(p) => {
            let v = below_tuple(p.items, q, nc);
            assert(u.data_type->Tuple_0.items.v@ == v);
            assert forall|i: int| 0 <= i < v.len() implies at(#[trigger] v[i], tuple_name(i), q) && placed(v[i], under(q, tuple_name(i))) by {
                let x = below(p.items.v@[i], under(q, tuple_name(i)), nc);
                lemma_placed(p.items.v@[i], under(q, tuple_name(i)), nc);
                lemma_placed_type(x, v[i], under(q, tuple_name(i)));
            }
        }
        _ => {}
    }
}
pub proof fn lemma_placed_inf(t: Tag, f: bool, q: Seq<char>)
    requires placed(t, q)
    ensures placed(inf_null(t, f), q), inf_null(t, f).name == t.name, inf_null(t, f).namespace == t.namespace
    decreases t
{
    let r = inf_null(t, f);
    match t.data_type {
        Type::Object(o) => {
            let g = inf_fields(o.fields, o.required, f);
            assert(r.data_type->Object_0.fields.m@ == g);
            assert forall|k: Seq<char>| #[trigger] g.contains_key(k) implies ident(k) && at(*g[k], k, q) && placed(*g[k], under(q, k)) by {
                assert(o.fields.m@.contains_key(k));
                let x = inf_null(*o.fields.m@[k], f);
                lemma_placed_inf(*o.fields.m@[k], f, under(q, k));
                assert(*g[k] == optional(x, f || !demands(o.required, k)));
                lemma_placed_type(x, *g[k], under(q, k));
            }
        }
        Type::Tuple(p) => {
            let v = inf_seq(p.items, f);
            assert(r.data_type->Tuple_0.items.v@ == v);
            assert forall|i: int| 0 <= i < v.len() implies at(#[trigger] v[i], tuple_name(i), q) && placed(v[i], under(q, tuple_name(i))) by {
                assert(v[i] == inf_null(p.items.v@[i], f));
                lemma_placed_inf(p.items.v@[i], f, under(q, tuple_name(i)));
            }
        }
        Type::Array(a) => { assert(*r.data_type->Array_0.items == inf_null(*a.items, f)); lemma_placed_inf(*a.items, f, under(q, "list"@)); }
        Type::Map(m) => { assert(*r.data_type->Map_0.value == inf_null(*m.value, f)); lemma_placed_inf(*m.value, f, under(q, "value"@)); }
        _ => {}
    }
}
pub open spec fn common_at(k: Seq<char>, p: Seq<char>) -> avro::CommonAttributes {
    avro::CommonAttributes { name: st(k), namespace: space(p), doc: None, aliases: None }
}
pub open spec fn av_rec(k: Seq<char>, p: Seq<char>, f: Seq<avro::Field>) -> avro::Type {
    avro::Type::Complex(avro::Complex::Record(avro::Record { common: common_at(k, p), fields: vc(f) }))
}
pub open spec fn av_list(d: avro::Type) -> avro::Type { avro::Type::Complex(avro::Complex::Array(avro::Array { items: Box::new(d) })) }
pub open spec fn av_map(d: avro::Type) -> avro::Type { avro::Type::Complex(avro::Complex::Map(avro::Map { values: Box::new(d) })) }
pub open spec fn wrap(w: Tag, d: Out<avro::Type>) -> Out<avro::Type> {
    match d { Out::Val(x) => Out::Val(av_wrap(w, x)), Out::Err => Out::Err, Out::Abort => Out::Abort }
}
/// the type, null aside, for `w` called `k` in `p`
pub open spec fn avw(w: Tag, k: Seq<char>, p: Seq<char>, c: Context) -> Out<avro::Type>
    decreases w
{
    match w.data_type {
        Type::Null => Out::Val(av_prim(avro::Primitive::Null)),
        Type::Atom(a) => if a is Json { resolve(c, av_string()) } else { Out::Val(av_prim(av_atom(a))) },
        Type::Object(o) => {
            let f = avw_fields(o.fields, join(p, k), c);
            if map_aborts(f) { Out::Abort } else if kept(f) =~= Set::empty() { resolve(c, av_string()) } else { Out::Val(av_rec(k, p, av_fields(o.fields, f))) }
        }
        Type::Tuple(t) => {
            let f = avw_seq(t.items, join(p, k), c);
            let r = av_tuple(t.items.v@, f, f.len());
            if seq_aborts(f) { Out::Abort } else if r.len() == 0 { resolve(c, av_string()) } else { Out::Val(av_rec(k, p, r)) }
        }
        Type::Array(a) => match wrap(*a.items, avw(*a.items, "list"@, join(p, k), c)) {
            Out::Val(d) => Out::Val(av_list(if a.items.data_type is Array { av_rec(k, p, seq![av_field("list"@, d, a.items.nullable)]) } else { d })),
            r => r,
        },
        Type::Map(m) => match wrap(*m.value, avw(*m.value, "value"@, join(p, k), c)) {
            Out::Val(d) => Out::Val(av_map(d)),
            r => r,
        },
        _ => resolve(c, av_string()),
    }
}
pub open spec fn avw_fields(h: HashMap<Box<Tag>>, q: Seq<char>, c: Context) -> Map<Seq<char>, Out<avro::Type>>
    decreases h
{
    Map::new(h.m@.dom(), |k: Seq<char>| if h.m@.contains_key(k) { wrap(*h.m@[k], avw(*h.m@[k], k, q, c)) } else { arbitrary() })
}
pub open spec fn avw_seq(v: Vec<Tag>, q: Seq<char>, c: Context) -> Seq<Out<avro::Type>>
    decreases v
{
    Seq::new(v.v@.len(), |i: int| if 0 <= i < v.v@.len() { wrap(v.v@[i], avw(v.v@[i], tuple_name(i), q, c)) } else { arbitrary() })
}
pub proof fn lemma_closed_av(t: Tag, c: Context, k: Seq<char>, p: Seq<char>)
    requires done_in(t, c), at(t, k, p), k.len() > 0, placed(t, join(p, k))
    ensures av_lim(t, c) == wrap(er(t), avw(er(t), k, p, c))
    decreases t
{
    lemma_av_lim_done(t, c);
    lemma_closed_av_at(t, c, k, p);
}
pub proof fn lemma_closed_av_at(u: Tag, c: Context, k: Seq<char>, p: Seq<char>)
    requires done(u, c.normalize_case, c.force_nullable), at(u, k, p), k.len() > 0, placed(u, join(p, k))
    ensures av_at(u, c, av_lims(c)) == wrap(er(u), avw(er(u), k, p, c))
    decreases u, 0nat
{
    lemma_done_kids(u, c);
    let w = er(u);
    let q = join(p, k);
    assert(q.len() > 0);
    let g = av_lims(c);
    reveal_strlit("key"); reveal_strlit("value"); reveal_strlit("list");
    match u.data_type {
        Type::Object(o) => {
            let wm = w.data_type->Object_0.fields;
            assert(wm.m@ == er_fields(o.fields));
            let f = o_map(o.fields, g);
            let h = avw_fields(wm, q, c);
            assert(f.dom() =~= h.dom());
            assert forall|j: Seq<char>| #[trigger] f.contains_key(j) implies f[j] == h[j] by {
                assert(o.fields.m@.contains_key(j));
                assert(wm.m@.contains_key(j));
                assert(join(q, j) == under(q, j));
                lemma_closed_av(*o.fields.m@[j], c, j, q);
                assert(*wm.m@[j] == er(*o.fields.m@[j]));
            }
            assert(f =~= h);
            assert(av_fields(o.fields, f) =~= av_fields(wm, h)) by {
                lemma_key_order(kept(f));
                assert forall|i: int| 0 <= i < sorted_keys(kept(f)).len() implies #[trigger] av_fields(o.fields, f)[i] == av_fields(wm, h)[i] by {
                    let j = sorted_keys(kept(f))[i];
                    assert(kept(f).contains(j));
                    assert(o.fields.m@.contains_key(j));
                    assert(wm.m@[j].nullable == o.fields.m@[j].nullable);
                }
            }
        }
        Type::Tuple(x) => {
            let wv = w.data_type->Tuple_0.items;
            assert(wv.v@ == er_seq(x.items));
            let f = o_seq(x.items.v@, g);
            let h = avw_seq(wv, q, c);
            assert forall|i: int| 0 <= i < f.len() implies #[trigger] f[i] == h[i] by {
                lemma_ident_tuple(i);
                assert(join(q, tuple_name(i)) == under(q, tuple_name(i)));
                lemma_closed_av(x.items.v@[i], c, tuple_name(i), q);
                assert(wv.v@[i] == er(x.items.v@[i]));
            }
            assert(f =~= h);
            lemma_tuple_null(x.items.v@, wv.v@, f, f.len());
        }
        Type::Array(a) => {
            lemma_closed_av(*a.items, c, "list"@, q);
            assert(*w.data_type->Array_0.items == er(*a.items));
        }
        Type::Map(m) => {
            lemma_closed_av(*m.value, c, "value"@, q);
            assert(*w.data_type->Map_0.value == er(*m.value));
        }
        _ => {}
    }
    assert(av_type(u, c, g) == avw(w, k, p, c));
}
pub proof fn lemma_tuple_null(v: Seq<Tag>, w: Seq<Tag>, f: Seq<Out<avro::Type>>, i: nat)
    requires i <= f.len(), f.len() == v.len(), f.len() == w.len(), forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j]).nullable == w[j].nullable
    ensures av_tuple(v, f, i) == av_tuple(w, f, i)
    decreases i
{
    if i > 0 {
        lemma_tuple_null(v, w, f, (i - 1) as nat);
        assert(v[i - 1].nullable == w[i - 1].nullable);
    }
}

// ---------------------------------------------------------------- the root

/// what is made of a schema, names aside
pub open spec fn core_of(v: Value, c: Context) -> Tag { top_like(tag_in(v, c), ctx_in(v, c)) }
pub open spec fn bq_out(w: Tag, c: Context) -> Out<bigquery::Tag> {
    match bqw(w, Seq::empty(), c) {
        Out::Val(d) => Out::Val(bigquery::Tag { name: None, data_type: Box::new(d), mode: mode_of(w), description: desc_of(w.title, w.description) }),
        Out::Err => Out::Err,
        Out::Abort => Out::Abort,
    }
}
pub open spec fn av_out(w: Tag, c: Context) -> Out<avro::Type> { wrap(w, avw(w, "root"@, Seq::empty(), c)) }
pub proof fn theorem_closed(v: Value, c: Context)
    requires read_ok(v, c)
    ensures
        bq_lim(tag_in(v, c), ctx_in(v, c)) == bq_out(core_of(v, c), ctx_in(v, c)),
        av_lim(tag_in(v, c), ctx_in(v, c)) == av_out(core_of(v, c), ctx_in(v, c)),
        done(core_of(v, c), c.normalize_case, c.force_nullable),
{
    let d = ctx_in(v, c);
    let t = tag_in(v, c);
    lemma_sound_options(schema_in(v), c);
    lemma_root_name(v, c);
    lemma_top(t, d);
    lemma_top_avro(t, d);
    let w = core_of(v, c);
    let nc = d.normalize_case;
    let u = bq_top_tag(t, d);
    lemma_kids_in(col(t), base(col(t)), nc);
    lemma_kids_in_inf(inf_name(col(t), nc), d.force_nullable, base(col(t)));
    lemma_closed_type(w, u, d, Seq::empty());
    lemma_er_kind(u, w);
    let x = av_root(col(t));
    let a = av_top_tag(t, d);
    reveal_strlit("root");
    lemma_placed(x, base(x), nc);
    lemma_placed_inf(inf_name(x, nc), d.force_nullable, base(x));
    lemma_closed_av_at(a, d, "root"@, Seq::empty());
    lemma_er_kind(a, w);
    lemma_done_er(u, nc, d.force_nullable);
}
/// names have no part in what makes a tag done
pub proof fn lemma_done_er(u: Tag, nc: bool, f: bool)
    requires done(u, nc, f)
    ensures done(er(u), nc, f)
    decreases u
{
    let w = er(u);
    match u.data_type {
        Type::Object(o) => {
            let wm = w.data_type->Object_0.fields;
            assert(wm.m@ == er_fields(o.fields));
            assert forall|k: Seq<char>| #[trigger] wm.m@.contains_key(k) implies done(*wm.m@[k], nc, f) && !wm.m@[k].is_root && (wm.m@[k].nullable == o.fields.m@[k].nullable) && o.fields.m@.contains_key(k) by {
                assert(o.fields.m@.contains_key(k));
                lemma_done_er(*o.fields.m@[k], nc, f);
            }
            assert(wm.m@.dom() =~= o.fields.m@.dom());
            assert(good(w, nc));
            assert(nou(w));
            assert(inferred(w, f));
        }
        Type::Tuple(x) => {
            let wv = w.data_type->Tuple_0.items;
            assert(wv.v@ == er_seq(x.items));
            assert forall|i: int| 0 <= i < wv.v@.len() implies done(#[trigger] wv.v@[i], nc, f) && !wv.v@[i].is_root by { lemma_done_er(x.items.v@[i], nc, f); }
            assert(good(w, nc));
            assert(nou(w));
            assert(inferred(w, f));
        }
        Type::Array(a) => { lemma_done_er(*a.items, nc, f); assert(done(w, nc, f)); }
        Type::Map(m) => { lemma_done_er(*m.value, nc, f); lemma_er_kind(*m.key, *w.data_type->Map_0.key); assert(done(w, nc, f)); }
        _ => { assert(done(w, nc, f)); }
    }
}
}
} // verus!
