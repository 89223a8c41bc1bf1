// C03, C08: what a schema is translated into, told from the schema itself.
verus! {
pub mod shape {
use super::*;
use super::shim::*;
use super::spec::*;
use super::lemmas::*;
use super::depth::*;
use super::tags::*;
use super::lims::*;
use super::total::*;
use super::valid_bq::*;
use super::closed::*;
use super::resolving::*;
use super::ast::{Tag, Type, Object, Union, Tuple, Atom};
use super::jsonschema as js;

/// what a schema plainly is; `Open` is a map the values of which have several
/// schemas, and nothing is told of `Other`
pub enum Head { Atom(Atom), Null, Object, Map, Open, Array, Tuple, Other }

pub open spec fn head_of(s: js::Tag, a: js::Atom, ts: bool) -> Head {
    match a {
        js::Atom::Null => Head::Null,
        js::Atom::Boolean => Head::Atom(Atom::Boolean),
        js::Atom::Number => Head::Atom(Atom::Number),
        js::Atom::Integer => Head::Atom(Atom::Integer),
        js::Atom::String => Head::Atom(Atom::String),
        js::Atom::DateTime => Head::Atom(Atom::Datetime),
        js::Atom::Bytes => Head::Atom(Atom::Bytes),
        js::Atom::Object => match s.object.properties {
            Some(_) => Head::Object,
            None => match (s.object.additional_properties, s.object.pattern_properties) {
                (Some(js::AdditionalProperties::Object(_)), None) => Head::Map,
                (Some(js::AdditionalProperties::Object(_)), Some(_)) => Head::Open,
                (_, pat) => if pat is Some && sorted_keys(pat->0.m@.dom()).len() > 0 { Head::Open }
                    else if s.one_of is Some { Head::Other } else { Head::Atom(Atom::Json) },
            },
        },
        js::Atom::Array => match s.array.items {
            Some(js::ArrayType::Tag(_)) => Head::Array,
            Some(js::ArrayType::TagTuple(_)) => if ts { Head::Tuple } else { Head::Atom(Atom::Json) },
            None => Head::Other,
        },
    }
}
/// a single type, or one beside null
pub open spec fn head(s: js::Tag, ts: bool) -> Head {
    match kind(s) {
        js::Type::Atom(a) => head_of(s, a, ts),
        js::Type::List(l) => if l.v@.len() == 1 { head_of(s, l.v@[0], ts) }
            else if l.v@.len() == 2 && ((l.v@[0] is Null) != (l.v@[1] is Null)) {
                let h = head_of(s, beside_null(l.v@), ts);
                if h is Tuple { Head::Other } else { h }
            } else { Head::Other },
    }
}
pub open spec fn beside_null(l: Seq<js::Atom>) -> js::Atom { if l[0] is Null { l[1] } else { l[0] } }
/// whether the schema names null
pub open spec fn nulls(s: js::Tag) -> bool {
    match kind(s) { js::Type::Atom(a) => a is Null, js::Type::List(l) => lists_null(l.v@) }
}
/// the tag that is made of a schema at a place that may be left out (`opt`)
pub open spec fn shows(s: js::Tag, w: Tag, opt: bool, c: Context) -> bool
    decreases s, 1nat
{
    &&& w.title == s.title && w.description == s.description
    &&& !(head(s, c.tuple_struct) is Other) ==> w.nullable == (c.force_nullable || opt || nulls(s)) && shows_type(s, head(s, c.tuple_struct), w.data_type, c)
}
pub open spec fn shows_type(s: js::Tag, h: Head, d: Type, c: Context) -> bool
    decreases s, 0nat
{
    match h {
        Head::Atom(a) => d == Type::Atom(a),
        Head::Null => d is Null,
        Head::Object => match s.object.properties {
            Some(p) => d is Object && shows_fields(p, s.object.required, d->Object_0.fields.m@, c),
            None => false,
        },
        Head::Map => match s.object.additional_properties {
            Some(js::AdditionalProperties::Object(add)) => d is Map && key_tag(*d->Map_0.key) && shows(*add, *d->Map_0.value, false, c),
            _ => false,
        },
        Head::Open => d is Map && key_tag(*d->Map_0.key),
        Head::Array => match s.array.items {
            Some(js::ArrayType::Tag(i)) => d is Array && shows(*i, *d->Array_0.items, false, c),
            _ => false,
        },
        Head::Tuple => match s.array.items {
            Some(js::ArrayType::TagTuple(v)) => {
                &&& d is Tuple
                &&& shows_items(v, min_items(s, v.v@.len()), d->Tuple_0.items.v@, c)
                &&& match s.array.additional_items {
                    Some(js::AdditionalProperties::Object(add)) => d->Tuple_0.items.v@.len() == max_items(s)
                        && forall|i: int| v.v@.len() <= i < d->Tuple_0.items.v@.len() ==> shows(*add, #[trigger] d->Tuple_0.items.v@[i], true, c),
                    _ => d->Tuple_0.items.v@.len() == v.v@.len(),
                }
            }
            _ => false,
        },
        Head::Other => true,
    }
}
pub open spec fn key_tag(w: Tag) -> bool { w == plain(Type::Atom(Atom::String), false) }
/// the fields are the columns of the properties
pub open spec fn shows_fields(p: HashMap<Box<js::Tag>>, req: Option<HashSet>, m: Map<Seq<char>, Box<Tag>>, c: Context) -> bool
    decreases p
{
    let r = columns(p.m@.dom(), c.normalize_case);
    &&& m.dom() == r.dom()
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> p.m@.contains_key(r[k]) && shows(*p.m@[r[k]], *m[k], !demands(norm_opt(req, c.normalize_case), k), c)
}
/// the items of a tuple: those from `min` on may be left out
pub open spec fn shows_items(v: Vec<Box<js::Tag>>, min: int, w: Seq<Tag>, c: Context) -> bool
    decreases v
{
    v.v@.len() <= w.len() && forall|i: int| 0 <= i < v.v@.len() ==> shows(*(#[trigger] v.v@[i]), w[i], i >= min, c)
}

// ---------------------------------------------------------------- collapsing and what a tag carries

pub open spec fn zed(d: Type, n: nat) -> Tag { t_col(plain(d, false), n) }
pub open spec fn dress(a: Tag, z: Tag) -> Tag { Tag { data_type: z.data_type, nullable: a.nullable || z.nullable, ..a } }
/// collapsing looks at the type only
pub proof fn lemma_frame(a: Tag, n: nat)
    ensures t_col(a, n) == dress(a, zed(a.data_type, n))
    decreases n
{
    match a.data_type {
        Type::Union(u) => if n > 0 {
            let r = u_col(u.items.v@, (n - 1) as nat);
            let x = Tag { data_type: r.data_type, nullable: a.nullable || r.nullable, ..a };
            let y = Tag { data_type: r.data_type, nullable: r.nullable, ..plain(a.data_type, false) };
            lemma_frame(x, (n - 1) as nat);
            lemma_frame(y, (n - 1) as nat);
            assert(t_col(a, n) == t_col(x, (n - 1) as nat));
            assert(zed(a.data_type, n) == t_col(y, (n - 1) as nat));
        },
        _ => {}
    }
}
/// the tag the translations see of a tag that was read, names aside
pub open spec fn raw(t: Tag, ns: Seq<char>, c: Context) -> Tag { inf_null(below(t, ns, c.normalize_case), c.force_nullable) }
pub open spec fn fin(t: Tag, c: Context) -> Tag { er(inf_null(t, c.force_nullable)) }
pub open spec fn yy(t: Tag, ns: Seq<char>, n: nat, c: Context) -> Tag { fin(t_col(raw(t, ns, c), n), c) }

pub proof fn lemma_yy_frame(t: Tag, ns: Seq<char>, n: nat, c: Context)
    ensures
        yy(t, ns, n, c).title == t.title,
        yy(t, ns, n, c).description == t.description,
        yy(t, ns, n, c).name is None, yy(t, ns, n, c).namespace is None, !yy(t, ns, n, c).is_root,
{
    lemma_frame(raw(t, ns, c), n);
}
/// a tag called `k` that may be left out
pub open spec fn held(t: Tag, ns: Seq<char>, k: Seq<char>, ns0: Seq<char>, b: bool, c: Context) -> Tag {
    optional(inf_null(with_name(below(t, ns, c.normalize_case), k, ns0), c.force_nullable), b)
}
pub proof fn lemma_held(t: Tag, ns: Seq<char>, k: Seq<char>, ns0: Seq<char>, b: bool, n: nat, c: Context)
    ensures
        held(t, ns, k, ns0, b, c).data_type == raw(t, ns, c).data_type,
        t_col(held(t, ns, k, ns0, b, c), n).data_type == t_col(raw(t, ns, c), n).data_type,
        fin(t_col(held(t, ns, k, ns0, b, c), n), c) == optional(yy(t, ns, n, c), b),
{
    let r = raw(t, ns, c);
    let a = held(t, ns, k, ns0, b, c);
    lemma_frame(r, n);
    lemma_frame(a, n);
    assert(a.data_type == r.data_type);
    let x = t_col(a, n);
    let y = t_col(r, n);
    assert(x.data_type == y.data_type);
    assert(x.nullable == (y.nullable || b));
}
pub proof fn lemma_optional_twice(t: Tag, b: bool)
    ensures optional(optional(t, b), b) == optional(t, b)
{
}
pub proof fn lemma_fin_optional(t: Tag, b: bool, c: Context)
    ensures er(optional(inf_null(t, c.force_nullable), b)) == optional(fin(t, c), b)
{
}

// ---------------------------------------------------------------- the shapes

pub proof fn lemma_yy_object(x: Tag, ns: Seq<char>, n: nat, c: Context)
    requires x.data_type is Object
    ensures ({
        let o = x.data_type->Object_0;
        let r = columns(o.fields.m@.dom(), c.normalize_case);
        let y = yy(x, ns, n, c);
        &&& y.data_type is Object
        &&& y.data_type->Object_0.fields.m@.dom() == r.dom()
        &&& forall|k: Seq<char>| #[trigger] y.data_type->Object_0.fields.m@.contains_key(k) ==> o.fields.m@.contains_key(r[k])
            && *y.data_type->Object_0.fields.m@[k] == optional(yy(*o.fields.m@[r[k]], under(ns, k), n, c), c.force_nullable || !demands(norm_opt(o.required, c.normalize_case), k))
    })
{
    let o = x.data_type->Object_0;
    let nc = c.normalize_case;
    let f = c.force_nullable;
    let r = columns(o.fields.m@.dom(), nc);
    let q = norm_opt(o.required, nc);
    let m1 = below_fields(o.fields, ns, nc);
    let t1 = below(x, ns, nc);
    assert(t1.data_type == Type::Object(Object { fields: hm(m1), required: q }));
    let m2 = inf_fields(hm(m1), q, f);
    let t2 = inf_null(t1, f);
    assert(t2.data_type == Type::Object(Object { fields: hm(m2), required: q }));
    let m3 = col_fields(hm(m2), n);
    let t3 = t_col(t2, n);
    assert(t3.data_type == Type::Object(Object { fields: hm(m3), required: q }));
    let m4 = inf_fields(hm(m3), q, f);
    let t4 = inf_null(t3, f);
    assert(t4.data_type == Type::Object(Object { fields: hm(m4), required: q }));
    let m5 = er_fields(hm(m4));
    let t5 = er(t4);
    assert(t5.data_type == Type::Object(Object { fields: hm(m5), required: q }));
    assert(m5.dom() =~= r.dom());
    lemma_columns(o.fields.m@.dom(), nc);
    assert forall|k: Seq<char>| #[trigger] m5.contains_key(k) implies o.fields.m@.contains_key(r[k])
        && *m5[k] == optional(yy(*o.fields.m@[r[k]], under(ns, k), n, c), f || !demands(q, k)) by {
        assert(r.contains_key(k));
        assert(o.fields.m@.dom().contains(r[k]));
        let e = *o.fields.m@[r[k]];
        let b = f || !demands(q, k);
        assert(m1.contains_key(k) && m2.contains_key(k) && m3.contains_key(k) && m4.contains_key(k));
        assert(*m1[k] == with_name(below(e, under(ns, k), nc), k, ns));
        assert(*m2[k] == held(e, under(ns, k), k, ns, b, c));
        assert(*m3[k] == t_col(*m2[k], n));
        assert(*m4[k] == optional(inf_null(*m3[k], f), b));
        lemma_held(e, under(ns, k), k, ns, b, n, c);
        lemma_fin_optional(*m3[k], b, c);
        lemma_optional_twice(yy(e, under(ns, k), n, c), b);
    }
    assert(yy(x, ns, n, c) == t5);
}
pub proof fn lemma_yy_array(x: Tag, ns: Seq<char>, n: nat, c: Context)
    requires x.data_type is Array
    ensures yy(x, ns, n, c).data_type == Type::Array(ast::Array { items: Box::new(yy(*x.data_type->Array_0.items, under(ns, "list"@), n, c)) })
{
    let e = *x.data_type->Array_0.items;
    let h = held(e, under(ns, "list"@), "list"@, ns, false, c);
    lemma_held(e, under(ns, "list"@), "list"@, ns, false, n, c);
    let t2 = raw(x, ns, c);
    assert(t2.data_type == Type::Array(ast::Array { items: Box::new(h) }));
    let t3 = t_col(t2, n);
    assert(t3.data_type == Type::Array(ast::Array { items: Box::new(t_col(h, n)) }));
    let t4 = inf_null(t3, c.force_nullable);
    assert(t4.data_type == Type::Array(ast::Array { items: Box::new(inf_null(t_col(h, n), c.force_nullable)) }));
    assert(er(t4).data_type == Type::Array(ast::Array { items: Box::new(fin(t_col(h, n), c)) }));
}
pub proof fn lemma_yy_map(x: Tag, ns: Seq<char>, n: nat, c: Context)
    requires x.data_type is Map, *x.data_type->Map_0.key == plain(Type::Atom(Atom::String), false)
    ensures yy(x, ns, n, c).data_type == Type::Map(map_of(yy(*x.data_type->Map_0.value, under(ns, "value"@), n, c)))
{
    let e = *x.data_type->Map_0.value;
    let h = held(e, under(ns, "value"@), "value"@, ns, false, c);
    lemma_held(e, under(ns, "value"@), "value"@, ns, false, n, c);
    let key = Box::new(with_name(plain(Type::Atom(Atom::String), false), "key"@, ns));
    assert(below(*x.data_type->Map_0.key, under(ns, "key"@), c.normalize_case) == plain(Type::Atom(Atom::String), false));
    let t2 = raw(x, ns, c);
    assert(t2.data_type == Type::Map(ast::Map { key: key, value: Box::new(h) }));
    let t3 = t_col(t2, n);
    assert(t3.data_type == Type::Map(ast::Map { key: key, value: Box::new(t_col(h, n)) }));
    let t4 = inf_null(t3, c.force_nullable);
    assert(t4.data_type == Type::Map(ast::Map { key: key, value: Box::new(inf_null(t_col(h, n), c.force_nullable)) }));
    assert(er(*key) == plain(Type::Atom(Atom::String), false));
    assert(er(t4).data_type == Type::Map(ast::Map { key: Box::new(er(*key)), value: Box::new(fin(t_col(h, n), c)) }));
}
pub proof fn lemma_yy_tuple(x: Tag, ns: Seq<char>, n: nat, c: Context)
    requires x.data_type is Tuple
    ensures ({
        let v = x.data_type->Tuple_0.items.v@;
        let y = yy(x, ns, n, c);
        &&& y.data_type is Tuple
        &&& y.data_type->Tuple_0.items.v@.len() == v.len()
        &&& forall|i: int| 0 <= i < v.len() ==> #[trigger] y.data_type->Tuple_0.items.v@[i] == yy(v[i], under(ns, tuple_name(i)), n, c)
    })
{
    let f = c.force_nullable;
    let v = x.data_type->Tuple_0.items;
    let m1 = below_tuple(v, ns, c.normalize_case);
    let t1 = below(x, ns, c.normalize_case);
    assert(t1.data_type == Type::Tuple(Tuple { items: vc(m1) }));
    let m2 = inf_seq(vc(m1), f);
    let t2 = inf_null(t1, f);
    assert(t2.data_type == Type::Tuple(Tuple { items: vc(m2) }));
    let m3 = col_seq(vc(m2), n);
    let t3 = t_col(t2, n);
    assert(t3.data_type == Type::Tuple(Tuple { items: vc(m3) }));
    let m4 = inf_seq(vc(m3), f);
    let t4 = inf_null(t3, f);
    assert(t4.data_type == Type::Tuple(Tuple { items: vc(m4) }));
    let m5 = er_seq(vc(m4));
    assert(er(t4).data_type == Type::Tuple(Tuple { items: vc(m5) }));
    assert forall|i: int| 0 <= i < v.v@.len() implies #[trigger] m5[i] == yy(v.v@[i], under(ns, tuple_name(i)), n, c) by {
        let e = v.v@[i];
        assert(m1[i] == with_name(below(e, under(ns, tuple_name(i)), c.normalize_case), tuple_name(i), ns));
        assert(m2[i] == held(e, under(ns, tuple_name(i)), tuple_name(i), ns, false, c));
        lemma_held(e, under(ns, tuple_name(i)), tuple_name(i), ns, false, n, c);
        assert(m3[i] == t_col(m2[i], n));
        assert(m4[i] == inf_null(m3[i], f));
        assert(m5[i] == er(m4[i]));
    }
}
pub proof fn lemma_yy_leaf(x: Tag, ns: Seq<char>, n: nat, c: Context)
    requires x.data_type is Atom || x.data_type is Null
    ensures yy(x, ns, n, c).data_type == x.data_type, yy(x, ns, n, c).nullable == (c.force_nullable || x.nullable || x.data_type is Null)
{
}
/// null where it was, for all but unions
pub proof fn lemma_yy_null(x: Tag, ns: Seq<char>, n: nat, c: Context)
    requires !(x.data_type is Union)
    ensures yy(x, ns, n, c).nullable == (c.force_nullable || x.nullable || x.data_type is Null)
{
}

// ---------------------------------------------------------------- null beside a type

pub proof fn lemma_inf_again(t: Tag, f: bool)
    ensures inf_null(inf_null(t, f), false) == inf_null(t, f)
    decreases t
{
    let r = inf_null(t, f);
    match t.data_type {
        Type::Object(o) => {
            let g = inf_fields(o.fields, o.required, f);
            assert(r.data_type->Object_0.fields.m@ == g);
            let a = inf_fields(hm(g), o.required, false);
            assert forall|k: Seq<char>| #[trigger] a.contains_key(k) implies a[k] == g[k] by {
                assert(o.fields.m@.contains_key(k));
                let x = *o.fields.m@[k];
                lemma_inf_again(x, f);
                assert(*g[k] == optional(inf_null(x, f), f || !demands(o.required, k)));
                assert(inf_null(*g[k], false) == optional(inf_null(inf_null(x, f), false), f || !demands(o.required, k)));
            }
            assert(a =~= g);
            assert(inf_null(r, false).data_type == inf_type(r.data_type, false));
        }
        Type::Map(m) => { lemma_inf_again(*m.value, f); }
        Type::Array(a) => { lemma_inf_again(*a.items, f); }
        Type::Tuple(u) => {
            let v = inf_seq(u.items, f);
            assert(r.data_type->Tuple_0.items.v@ == v);
            assert forall|i: int| 0 <= i < v.len() implies inf_null(#[trigger] v[i], false) == v[i] by { lemma_inf_again(u.items.v@[i], f); }
            assert(inf_seq(vc(v), false) =~= v);
            assert(inf_null(r, false).data_type == inf_type(r.data_type, false));
        }
        Type::Union(u) => {
            let v = inf_seq(u.items, f);
            assert(r.data_type->Union_0.items.v@ == v);
            assert forall|i: int| 0 <= i < v.len() implies inf_null(#[trigger] v[i], false) == v[i] by { lemma_inf_again(u.items.v@[i], f); }
            assert(inf_seq(vc(v), false) =~= v);
            assert(inf_null(r, false).data_type == inf_type(r.data_type, false));
        }
        _ => {}
    }
}
pub proof fn lemma_inf_first(t: Tag, f: bool)
    ensures inf_null(inf_null(t, false), f) == inf_null(t, f)
    decreases t
{
    let r = inf_null(t, false);
    match t.data_type {
        Type::Object(o) => {
            let g = inf_fields(o.fields, o.required, false);
            assert(r.data_type->Object_0.fields.m@ == g);
            let a = inf_fields(hm(g), o.required, f);
            let b = inf_fields(o.fields, o.required, f);
            assert forall|k: Seq<char>| #[trigger] a.contains_key(k) implies a[k] == b[k] by {
                assert(o.fields.m@.contains_key(k));
                let x = *o.fields.m@[k];
                lemma_inf_first(x, f);
                assert(*g[k] == optional(inf_null(x, false), !demands(o.required, k)));
                assert(inf_null(*g[k], f) == optional(inf_null(inf_null(x, false), f), !demands(o.required, k)));
            }
            assert(a =~= b);
            assert(inf_null(r, f).data_type == inf_type(r.data_type, f));
        }
        Type::Map(m) => { lemma_inf_first(*m.value, f); }
        Type::Array(a) => { lemma_inf_first(*a.items, f); }
        Type::Tuple(u) => {
            let v = inf_seq(u.items, false);
            assert(r.data_type->Tuple_0.items.v@ == v);
            assert forall|i: int| 0 <= i < v.len() implies inf_null(#[trigger] v[i], f) == inf_seq(u.items, f)[i] by { lemma_inf_first(u.items.v@[i], f); }
            assert(inf_seq(vc(v), f) =~= inf_seq(u.items, f));
            assert(inf_null(r, f).data_type == inf_type(r.data_type, f));
        }
        Type::Union(u) => {
            let v = inf_seq(u.items, false);
            assert(r.data_type->Union_0.items.v@ == v);
            assert forall|i: int| 0 <= i < v.len() implies inf_null(#[trigger] v[i], f) == inf_seq(u.items, f)[i] by { lemma_inf_first(u.items.v@[i], f); }
            assert(inf_seq(vc(v), f) =~= inf_seq(u.items, f));
            assert(inf_null(r, f).data_type == inf_type(r.data_type, f));
        }
        _ => {}
    }
}
/// the variants the translations see of a union
pub open spec fn variant(t: Tag, ns: Seq<char>, c: Context) -> Tag { held(t, under(ns, "__union__"@), "__union__"@, ns, false, c) }
pub proof fn lemma_raw_union(x: Tag, v: Seq<Tag>, ns: Seq<char>, c: Context)
    requires x.data_type == union_of(v)
    ensures
        raw(x, ns, c).data_type is Union,
        raw(x, ns, c).data_type->Union_0.items.v@ == Seq::new(v.len(), |i: int| variant(v[i], ns, c)),
{
    let u = x.data_type->Union_0;
    assert(u.items.v@ == v);
    let m1 = below_union(u.items, ns, c.normalize_case);
    let t1 = below(x, ns, c.normalize_case);
    assert(t1.data_type == Type::Union(Union { items: vc(m1) }));
    let m2 = inf_seq(vc(m1), c.force_nullable);
    let t2 = inf_null(t1, c.force_nullable);
    assert(t2.data_type == Type::Union(Union { items: vc(m2) }));
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] m2[i] == variant(v[i], ns, c) by {
        assert(m1[i] == with_name(below(v[i], under(ns, "__union__"@), c.normalize_case), "__union__"@, ns));
        assert(m2[i] == inf_null(m1[i], c.force_nullable));
    }
    assert(m2 =~= Seq::new(v.len(), |i: int| variant(v[i], ns, c)));
}
/// a tag the translation sees, once collapsed
pub proof fn lemma_variant_good(t: Tag, ns: Seq<char>, k: Seq<char>, ns0: Seq<char>, n: nat, c: Context)
    requires rd(t)
    ensures
        good(held(t, ns, k, ns0, false, c), c.normalize_case),
        nou(t_col(held(t, ns, k, ns0, false, c), n)),
{
    let nc = c.normalize_case;
    lemma_good_below(t, ns, nc);
    let a = with_name(below(t, ns, nc), k, ns0);
    lemma_good_type(below(t, ns, nc), a, nc);
    lemma_good_inf(a, c.force_nullable, nc);
    lemma_t_good(held(t, ns, k, ns0, false, c), n, nc);
}
pub proof fn lemma_yy_one(x: Tag, y: Tag, ns: Seq<char>, n: nat, c: Context)
    requires x.data_type == union_of(seq![y]), rd(y), n >= 2
    ensures
        yy(x, ns, n, c).data_type == yy(y, under(ns, "__union__"@), (n - 2) as nat, c).data_type,
        yy(x, ns, n, c).nullable == (c.force_nullable || x.nullable || yy(y, under(ns, "__union__"@), (n - 2) as nat, c).nullable),
{
    let f = c.force_nullable;
    let ms = under(ns, "__union__"@);
    let s = seq![variant(y, ns, c)];
    let t = raw(x, ns, c);
    lemma_raw_union(x, seq![y], ns, c);
    assert(t.data_type->Union_0.items.v@ =~= s);
    let a = (n - 1) as nat;
    let b = (n - 2) as nat;
    lemma_variant_good(y, ms, "__union__"@, ns, b, c);
    lemma_held(y, ms, "__union__"@, ns, false, b, c);
    let w = t_col(s[0], b);
    let r = u_col(s, a);
    assert(r == alone(w, some_null(s) || w.nullable));
    lemma_frame(s[0], b);
    assert(some_null(s) ==> s[0].nullable) by { if some_null(s) { assert(s[0].data_type is Null); } }
    let q = Tag { data_type: r.data_type, nullable: t.nullable || r.nullable, ..t };
    lemma_nou_type(w, q);
    lemma_t_nou(q, a);
    assert(t_col(t, n) == q);
    assert(q.data_type == w.data_type);
    assert(inf_null(q, f).data_type == inf_null(w, f).data_type);
    lemma_er_type(inf_null(q, f), inf_null(w, f));
    assert(fin(w, c) == optional(yy(y, ms, b, c), false));
}
/// only one of the two is left
pub proof fn lemma_flat_two(s: Seq<Tag>, y: Tag, n: nat)
    requires s.len() == 2, !(y.data_type is Null), !(y.data_type is Union),
        s[0] == y && s[1].data_type is Null || s[1] == y && s[0].data_type is Null,
    ensures flat(s, 2, n) == seq![y], some_null(s)
{
    assert(flat(s, 0, n) =~= Seq::<Tag>::empty());
    assert(s[0].data_type is Null || s[1].data_type is Null);
    if s[1].data_type is Null {
        assert(flat(s, 1, n) == flat(s, 0, n).push(y));
        assert(flat(s, 2, n) == flat(s, 1, n));
    } else {
        assert(flat(s, 1, n) == flat(s, 0, n));
        assert(flat(s, 2, n) == flat(s, 1, n).push(y));
    }
    assert(flat(s, 2, n) =~= seq![y]);
}
/// a type with null beside it, the items and values once more collapsed
pub open spec fn two_type(y: Tag, ns: Seq<char>, n: nat, c: Context) -> Type {
    match y.data_type {
        Type::Array(a) => Type::Array(ast::Array { items: Box::new(yy(*a.items, under(ns, "list"@), (n - 3) as nat, c)) }),
        Type::Map(m) => Type::Map(map_of(yy(*m.value, under(ns, "value"@), (n - 3) as nat, c))),
        _ => yy(y, ns, (n - 1) as nat, c).data_type,
    }
}
/// an item of a list, or a value of a map, that is merged with itself
pub proof fn lemma_yy_item(e: Tag, ns: Seq<char>, k: Seq<char>, ns0: Seq<char>, n: nat, m: nat, c: Context)
    requires rd(e), n >= 1
    ensures ({
        let s = seq![held(e, ns, k, ns0, false, c)];
        &&& fin(t_col(inf_null(u_col(s, n), false), m), c) == yy(e, ns, (n - 1) as nat, c)
        &&& nou(inf_null(u_col(s, n), false))
    })
{
    let f = c.force_nullable;
    let h = held(e, ns, k, ns0, false, c);
    let s = seq![h];
    let b = (n - 1) as nat;
    lemma_variant_good(e, ns, k, ns0, b, c);
    lemma_held(e, ns, k, ns0, false, b, c);
    let w = t_col(s[0], b);
    lemma_frame(s[0], b);
    assert(some_null(s) ==> s[0].nullable) by { if some_null(s) { assert(s[0].data_type is Null); } }
    let r = u_col(s, n);
    assert(r == alone(w, w.nullable));
    lemma_nou_type(w, r);
    lemma_inf_inferred(r, false);
    lemma_t_nou(inf_null(r, false), m);
    lemma_inf_first(r, f);
    assert(fin(inf_null(r, false), c) == er(inf_null(r, f)));
    assert(inf_null(r, f).data_type == inf_null(w, f).data_type);
    lemma_er_type(inf_null(r, f), inf_null(w, f));
    assert(er(inf_null(r, f)) == er(inf_null(w, f)));
}
pub proof fn lemma_two_merged(y: Tag, ns: Seq<char>, n: nat, c: Context)
    requires
        n >= 3, rd(y),
        y.data_type is Atom || y.data_type is Object || y.data_type is Array || y.data_type is Map,
        y.data_type is Map ==> *y.data_type->Map_0.key == plain(Type::Atom(Atom::String), false),
    ensures ({
        let d = inf_type(merged(seq![variant(y, ns, c)], (n - 2) as nat), false);
        &&& forall|x: Tag| x.data_type == d ==> fin(#[trigger] t_col(x, (n - 1) as nat), c).data_type == two_type(y, under(ns, "__union__"@), n, c)
    })
{
    let f = c.force_nullable;
    let ms = under(ns, "__union__"@);
    let v = variant(y, ns, c);
    let s = seq![v];
    let a = (n - 1) as nat;
    let b = (n - 2) as nat;
    let z = merged(s, b);
    let d = inf_type(z, false);
    assert(s[0] == v);
    lemma_held(y, ms, "__union__"@, ns, false, a, c);
    match y.data_type {
        Type::Atom(j) => {
            assert(v.data_type == y.data_type);
            assert(all_atoms(s));
            reveal_with_fuel(fold_atoms, 2);
            assert(z == y.data_type);
            assert forall|x: Tag| x.data_type == d implies fin(#[trigger] t_col(x, a), c).data_type == two_type(y, ms, n, c) by {
                lemma_yy_leaf(y, ms, a, c);
            }
        }
        Type::Object(o) => {
            assert(v.data_type is Object);
            assert(!all_atoms(s));
            assert(all_objects(s));
            assert(fold_objects(s, 0, b) is Null);
            assert(fold_objects(s, 1, b) == join_objects(fold_objects(s, 0, b), s[0].data_type, b));
            assert(join_objects(Type::Null, v.data_type, b) == v.data_type);
            assert(z == v.data_type);
            lemma_inf_again(with_name(below(y, ms, c.normalize_case), "__union__"@, ns), f);
            assert(d == v.data_type);
            assert forall|x: Tag| x.data_type == d implies fin(#[trigger] t_col(x, a), c).data_type == two_type(y, ms, n, c) by {
                lemma_frame(x, a);
                lemma_frame(v, a);
                lemma_two_fin(t_col(x, a), t_col(v, a), c);
            }
        }
        Type::Array(i) => {
            let e = *i.items;
            let h = held(e, under(ms, "list"@), "list"@, ms, false, c);
            lemma_raw_array(y, ms, c);
            assert(v.data_type == Type::Array(ast::Array { items: Box::new(h) }));
            assert(!all_atoms(s) && !all_objects(s) && !all_maps(s));
            assert(all_arrays(s));
            assert(array_items(s) =~= seq![h]);
            let r = inf_null(u_col(seq![h], b), false);
            assert(z == Type::Array(ast::Array { items: Box::new(u_col(seq![h], b)) }));
            assert(d == Type::Array(ast::Array { items: Box::new(r) }));
            lemma_yy_item(e, under(ms, "list"@), "list"@, ms, b, a, c);
            assert forall|x: Tag| x.data_type == d implies fin(#[trigger] t_col(x, a), c).data_type == two_type(y, ms, n, c) by {
                let q = t_col(x, a);
                assert(q.data_type == Type::Array(ast::Array { items: Box::new(t_col(r, a)) }));
                assert(inf_null(q, f).data_type == Type::Array(ast::Array { items: Box::new(inf_null(t_col(r, a), f)) }));
                assert(fin(q, c).data_type == Type::Array(ast::Array { items: Box::new(fin(t_col(r, a), c)) }));
            }
        }
        Type::Map(i) => {
            let e = *i.value;
            let h = held(e, under(ms, "value"@), "value"@, ms, false, c);
            lemma_raw_map(y, ms, c);
            assert(v.data_type is Map && *v.data_type->Map_0.value == h);
            assert(!all_atoms(s) && !all_objects(s));
            assert(all_maps(s));
            assert(map_values(s) =~= seq![h]);
            let r = inf_null(u_col(seq![h], b), false);
            assert(z == Type::Map(map_of(u_col(seq![h], b))));
            assert(d == Type::Map(map_of(r)));
            lemma_yy_item(e, under(ms, "value"@), "value"@, ms, b, a, c);
            let key = plain(Type::Atom(Atom::String), false);
            assert(er(key) == key);
            assert forall|x: Tag| x.data_type == d implies fin(#[trigger] t_col(x, a), c).data_type == two_type(y, ms, n, c) by {
                let q = t_col(x, a);
                assert(q.data_type == Type::Map(map_of(t_col(r, a))));
                assert(inf_null(q, f).data_type == Type::Map(map_of(inf_null(t_col(r, a), f))));
                assert(fin(q, c).data_type == Type::Map(ast::Map { key: Box::new(er(key)), value: Box::new(fin(t_col(r, a), c)) }));
            }
        }
        _ => {}
    }
}
pub proof fn lemma_two_fin(x: Tag, y: Tag, c: Context)
    requires x.data_type == y.data_type
    ensures fin(x, c).data_type == fin(y, c).data_type
{
    assert(inf_null(x, c.force_nullable).data_type == inf_null(y, c.force_nullable).data_type);
    lemma_er_type(inf_null(x, c.force_nullable), inf_null(y, c.force_nullable));
}
pub proof fn lemma_raw_array(x: Tag, ns: Seq<char>, c: Context)
    requires x.data_type is Array
    ensures raw(x, ns, c).data_type == Type::Array(ast::Array { items: Box::new(held(*x.data_type->Array_0.items, under(ns, "list"@), "list"@, ns, false, c)) })
{
}
pub proof fn lemma_raw_map(x: Tag, ns: Seq<char>, c: Context)
    requires x.data_type is Map
    ensures
        raw(x, ns, c).data_type is Map,
        *raw(x, ns, c).data_type->Map_0.value == held(*x.data_type->Map_0.value, under(ns, "value"@), "value"@, ns, false, c),
{
}
pub proof fn lemma_yy_two(x: Tag, v: Seq<Tag>, y: Tag, ns: Seq<char>, n: nat, c: Context)
    requires
        x.data_type == union_of(v), v.len() == 2, n >= 3, rd(y), x.nullable,
        v[0] == y && v[1].data_type is Null || v[1] == y && v[0].data_type is Null,
        y.data_type is Atom || y.data_type is Object || y.data_type is Array || y.data_type is Map,
        y.data_type is Map ==> *y.data_type->Map_0.key == plain(Type::Atom(Atom::String), false),
    ensures yy(x, ns, n, c).data_type == two_type(y, under(ns, "__union__"@), n, c), yy(x, ns, n, c).nullable
{
    let t = raw(x, ns, c);
    lemma_raw_union(x, v, ns, c);
    let s = t.data_type->Union_0.items.v@;
    let a = (n - 1) as nat;
    let b = (n - 2) as nat;
    let e = variant(y, ns, c);
    lemma_held(y, under(ns, "__union__"@), "__union__"@, ns, false, a, c);
    assert(s[0] == variant(v[0], ns, c) && s[1] == variant(v[1], ns, c));
    lemma_flat_two(s, e, b);
    let r = u_col(s, a);
    let p = plain(merged(seq![e], b), some_null(s) || some_nullable(seq![e]));
    assert(r == inf_null(p, false));
    assert(r.data_type == inf_type(merged(seq![e], b), false));
    let q = Tag { data_type: r.data_type, nullable: t.nullable || r.nullable, ..t };
    lemma_two_merged(y, ns, n, c);
    lemma_frame(q, a);
    assert(t_col(t, n) == t_col(q, a));
}

// ---------------------------------------------------------------- what is read

/// depths of what is below
pub proof fn lemma_deep_below(x: Tag, ns: Seq<char>, d: nat, c: Context)
    requires deep(raw(x, ns, c), d)
    ensures
        d > 0,
        x.data_type is Array ==> deep(raw(*x.data_type->Array_0.items, under(ns, "list"@), c), (d - 1) as nat),
        x.data_type is Map ==> deep(raw(*x.data_type->Map_0.value, under(ns, "value"@), c), (d - 1) as nat),
        forall|i: int| x.data_type is Tuple && 0 <= i < x.data_type->Tuple_0.items.v@.len() ==> deep(raw(#[trigger] x.data_type->Tuple_0.items.v@[i], under(ns, tuple_name(i)), c), (d - 1) as nat),
{
    let t = raw(x, ns, c);
    let e = (d - 1) as nat;
    match x.data_type {
        Type::Array(a) => {
            lemma_raw_array(x, ns, c);
            lemma_deep_type(*t.data_type->Array_0.items, raw(*a.items, under(ns, "list"@), c), e);
        }
        Type::Map(m) => {
            lemma_raw_map(x, ns, c);
            lemma_deep_type(*t.data_type->Map_0.value, raw(*m.value, under(ns, "value"@), c), e);
        }
        Type::Tuple(u) => {
            let m1 = below_tuple(u.items, ns, c.normalize_case);
            let m2 = inf_seq(vc(m1), c.force_nullable);
            assert(t.data_type == Type::Tuple(Tuple { items: vc(m2) }));
            assert forall|i: int| 0 <= i < u.items.v@.len() implies deep(raw(#[trigger] u.items.v@[i], under(ns, tuple_name(i)), c), e) by {
                assert(m2[i] == held(u.items.v@[i], under(ns, tuple_name(i)), tuple_name(i), ns, false, c));
                assert(deep(t.data_type->Tuple_0.items.v@[i], e));
                lemma_deep_type(m2[i], raw(u.items.v@[i], under(ns, tuple_name(i)), c), e);
            }
        }
        _ => {}
    }
}
pub proof fn lemma_deep_field(x: Tag, ns: Seq<char>, k: Seq<char>, d: nat, c: Context)
    requires deep(raw(x, ns, c), d), x.data_type is Object, columns(x.data_type->Object_0.fields.m@.dom(), c.normalize_case).contains_key(k)
    ensures ({
        let r = columns(x.data_type->Object_0.fields.m@.dom(), c.normalize_case);
        d > 0 && deep(raw(*x.data_type->Object_0.fields.m@[r[k]], under(ns, k), c), (d - 1) as nat)
    })
{
    let o = x.data_type->Object_0;
    let nc = c.normalize_case;
    let r = columns(o.fields.m@.dom(), nc);
    lemma_columns(o.fields.m@.dom(), nc);
    assert(o.fields.m@.dom().contains(r[k]));
    let e = *o.fields.m@[r[k]];
    let m1 = below_fields(o.fields, ns, nc);
    let m2 = inf_fields(hm(m1), norm_opt(o.required, nc), c.force_nullable);
    let t = raw(x, ns, c);
    assert(t.data_type->Object_0.fields.m@ == m2);
    assert(m2.contains_key(k));
    assert(deep(*m2[k], (d - 1) as nat));
    assert(m2[k].data_type == raw(e, under(ns, k), c).data_type);
    lemma_deep_type(*m2[k], raw(e, under(ns, k), c), (d - 1) as nat);
}
pub proof fn lemma_deep_variant(x: Tag, v: Seq<Tag>, ns: Seq<char>, i: int, d: nat, c: Context)
    requires deep(raw(x, ns, c), d), x.data_type == union_of(v), 0 <= i < v.len()
    ensures d > 1, deep(raw(v[i], under(ns, "__union__"@), c), (d - 1) as nat)
{
    lemma_raw_union(x, v, ns, c);
    let t = raw(x, ns, c);
    assert(t.data_type->Union_0.items.v@[i] == variant(v[i], ns, c));
    lemma_deep_type(variant(v[i], ns, c), raw(v[i], under(ns, "__union__"@), c), (d - 1) as nat);
}
/// a place that may be left out
pub proof fn lemma_shows_optional(s: js::Tag, w: Tag, b: bool, c: Context)
    requires shows(s, w, false, c)
    ensures shows(s, optional(w, c.force_nullable || b), b, c)
{
}
pub open spec fn shaped(s: js::Tag, ns: Seq<char>, n: nat, c: Context) -> bool { shows(s, yy(s2a(s, c.tuple_struct)->0, ns, n, c), false, c) }
pub proof fn lemma_shape(s: js::Tag, ns: Seq<char>, n: nat, d: nat, c: Context)
    requires sound(s, c.tuple_struct), deep(raw(s2a(s, c.tuple_struct)->0, ns, c), d), n >= 2 * d
    ensures shaped(s, ns, n, c)
    decreases s, 3nat
{
    let ts = c.tuple_struct;
    lemma_sound(s, ts);
    let x = s2a(s, ts)->0;
    lemma_yy_frame(x, ns, n, c);
    match kind(s) {
        js::Type::Atom(a) => { lemma_shape_atom(s, a, ns, n, d, c); }
        js::Type::List(l) => {
            let v = s2a_list(s, l, ts);
            let w = somes(v);
            assert(x == mk(s, union_of(w), lists_null(l.v@)));
            let h = head(s, ts);
            if l.v@.len() == 1 && !(h is Other) {
                lemma_sound_atom(s, l.v@[0], ts);
                let y = w[0];
                assert(y == s2a_atom(s, l.v@[0], ts)->0);
                assert(w =~= seq![y]);
                lemma_deep_variant(x, w, ns, 0, d, c);
                lemma_yy_one(x, y, ns, n, c);
                lemma_shape_atom(s, l.v@[0], under(ns, "__union__"@), (n - 2) as nat, (d - 1) as nat, c);
                assert(lists_null(l.v@) <==> l.v@[0] is Null);
            } else if l.v@.len() == 2 && !(h is Other) {
                let j = if l.v@[0] is Null { 1int } else { 0int };
                lemma_sound_atom(s, l.v@[j], ts);
                let y = w[j];
                assert(v[j] == s2a_atom(s, l.v@[j], ts));
                assert(y == s2a_atom(s, l.v@[j], ts)->0);
                assert(v[1 - j] == s2a_atom(s, l.v@[1 - j], ts));
                assert(w[1 - j].data_type is Null);
                assert(l.v@[1 - j] is Null);
                assert(lists_null(l.v@));
                lemma_deep_variant(x, w, ns, j, d, c);
                lemma_shape_two(s, l.v@[j], x, w, ns, n, d, c);
            }
        }
    }
}
/// what is read of a type
pub proof fn lemma_read_atom(s: js::Tag, a: js::Atom, ts: bool)
    requires sound_atom(s, a, ts), !(head_of(s, a, ts) is Other)
    ensures
        s2a_atom(s, a, ts) is Some,
        s2a_atom(s, a, ts)->0.nullable == (a is Null),
        s2a_atom(s, a, ts)->0.title == s.title,
        s2a_atom(s, a, ts)->0.description == s.description,
        match head_of(s, a, ts) {
            Head::Atom(j) => s2a_atom(s, a, ts)->0.data_type == Type::Atom(j),
            Head::Null => a is Null && s2a_atom(s, a, ts)->0.data_type is Null,
            Head::Object => s2a_atom(s, a, ts)->0.data_type is Object,
            Head::Map => s2a_atom(s, a, ts)->0.data_type is Map && *s2a_atom(s, a, ts)->0.data_type->Map_0.key == plain(Type::Atom(Atom::String), false),
            Head::Open => s2a_atom(s, a, ts)->0.data_type is Map && *s2a_atom(s, a, ts)->0.data_type->Map_0.key == plain(Type::Atom(Atom::String), false),
            Head::Array => s2a_atom(s, a, ts)->0.data_type is Array,
            Head::Tuple => s2a_atom(s, a, ts)->0.data_type is Tuple,
            Head::Other => true,
        },
{
    reveal(s2a_object);
    reveal(s2a_array);
    lemma_sound_atom(s, a, ts);
}
pub proof fn lemma_shape_two(s: js::Tag, a: js::Atom, x: Tag, v: Seq<Tag>, ns: Seq<char>, n: nat, d: nat, c: Context)
    requires
        sound_atom(s, a, c.tuple_struct), n >= 2 * d, d > 1,
        ({
            let h = head_of(s, a, c.tuple_struct);
            let y = s2a_atom(s, a, c.tuple_struct)->0;
            &&& !(h is Other || h is Null || h is Tuple)
            &&& x.data_type == union_of(v) && v.len() == 2 && x.nullable
            &&& v[0] == y && v[1].data_type is Null || v[1] == y && v[0].data_type is Null
            &&& deep(raw(y, under(ns, "__union__"@), c), (d - 1) as nat)
        }),
    ensures shows_type(s, head_of(s, a, c.tuple_struct), yy(x, ns, n, c).data_type, c), yy(x, ns, n, c).nullable
    decreases s, 2nat
{
    let ts = c.tuple_struct;
    let h = head_of(s, a, ts);
    lemma_sound_atom(s, a, ts);
    lemma_read_atom(s, a, ts);
    let y = s2a_atom(s, a, ts)->0;
    let ms = under(ns, "__union__"@);
    lemma_yy_two(x, v, y, ns, n, c);
    match h {
        Head::Array => {
            reveal(s2a_array);
            let i = s.array.items->0->Tag_0;
            assert(s.array.items == Some(js::ArrayType::Tag(i)));
            lemma_deep_below(y, ms, (d - 1) as nat, c);
            assert(*y.data_type->Array_0.items == s2a(*i, ts)->0);
            lemma_shape(*i, under(ms, "list"@), (n - 3) as nat, (d - 2) as nat, c);
        }
        Head::Map => {
            reveal(s2a_object);
            match s.object.additional_properties {
                Some(js::AdditionalProperties::Object(add)) => {
                    lemma_deep_below(y, ms, (d - 1) as nat, c);
                    assert(*y.data_type->Map_0.value == s2a(*add, ts)->0);
                    lemma_shape(*add, under(ms, "value"@), (n - 3) as nat, (d - 2) as nat, c);
                }
                _ => {}
            }
        }
        Head::Open => {}
        _ => { lemma_shape_atom(s, a, ms, (n - 1) as nat, (d - 1) as nat, c); }
    }
}
pub proof fn lemma_shape_atom(s: js::Tag, a: js::Atom, ns: Seq<char>, n: nat, d: nat, c: Context)
    requires sound_atom(s, a, c.tuple_struct), deep(raw(s2a_atom(s, a, c.tuple_struct)->0, ns, c), d), n >= 2 * d
    ensures
        !(head_of(s, a, c.tuple_struct) is Other) ==> {
            &&& yy(s2a_atom(s, a, c.tuple_struct)->0, ns, n, c).nullable == (c.force_nullable || a is Null)
            &&& shows_type(s, head_of(s, a, c.tuple_struct), yy(s2a_atom(s, a, c.tuple_struct)->0, ns, n, c).data_type, c)
        },
    decreases s, 1nat
{
    let ts = c.tuple_struct;
    let h = head_of(s, a, ts);
    lemma_sound_atom(s, a, ts);
    let y = s2a_atom(s, a, ts)->0;
    if !(h is Other) {
        lemma_read_atom(s, a, ts);
        assert(!(y.data_type is Union));
        lemma_yy_null(y, ns, n, c);
        match h {
            Head::Atom(j) => { lemma_yy_leaf(y, ns, n, c); }
            Head::Null => { lemma_yy_leaf(y, ns, n, c); }
            Head::Object => {
                reveal(s2a_object);
                assert(a is Object);
                assert(s2a_atom(s, js::Atom::Object, ts) == s2a_object(s, ts));
                lemma_shape_object(s, ns, n, d, c);
            }
            Head::Map => {
                reveal(s2a_object);
                match s.object.additional_properties {
                    Some(js::AdditionalProperties::Object(add)) => {
                        lemma_deep_below(y, ns, d, c);
                        lemma_yy_map(y, ns, n, c);
                        assert(*y.data_type->Map_0.value == s2a(*add, ts)->0);
                        lemma_shape(*add, under(ns, "value"@), n, (d - 1) as nat, c);
                    }
                    _ => {}
                }
            }
            Head::Open => { lemma_yy_map(y, ns, n, c); }
            Head::Array => {
                reveal(s2a_array);
                let i = s.array.items->0->Tag_0;
                assert(s.array.items == Some(js::ArrayType::Tag(i)));
                lemma_deep_below(y, ns, d, c);
                lemma_yy_array(y, ns, n, c);
                assert(*y.data_type->Array_0.items == s2a(*i, ts)->0);
                lemma_shape(*i, under(ns, "list"@), n, (d - 1) as nat, c);
            }
            Head::Tuple => {
                reveal(s2a_array);
                assert(a is Array);
                assert(s2a_atom(s, js::Atom::Array, ts) == s2a_array(s, ts));
                lemma_shape_tuple(s, ns, n, d, c);
            }
            Head::Other => {}
        }
    }
}
pub proof fn lemma_shape_object(s: js::Tag, ns: Seq<char>, n: nat, d: nat, c: Context)
    requires
        sound_atom(s, js::Atom::Object, c.tuple_struct), s.object.properties is Some,
        deep(raw(s2a_object(s, c.tuple_struct)->0, ns, c), d), n >= 2 * d,
    ensures shows_type(s, Head::Object, yy(s2a_object(s, c.tuple_struct)->0, ns, n, c).data_type, c)
    decreases s, 0nat
{
    reveal(s2a_object);
    let ts = c.tuple_struct;
    let nc = c.normalize_case;
    let y = s2a_object(s, ts)->0;
    match s.object.properties {
        Some(p) => {
            let f = s2a_map(p, ts);
            lemma_sound_atom(s, js::Atom::Object, ts);
            assert(s2a_atom(s, js::Atom::Object, ts) == s2a_object(s, ts));
            assert(map_some(f));
            let o = y.data_type->Object_0;
            assert(o.fields.m@ == boxed(map_somes(f)));
            assert(o.fields.m@.dom() =~= p.m@.dom());
            let r = columns(p.m@.dom(), nc);
            lemma_columns(p.m@.dom(), nc);
            lemma_yy_object(y, ns, n, c);
            let m = yy(y, ns, n, c).data_type->Object_0.fields.m@;
            assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies p.m@.contains_key(r[k]) && shows(*p.m@[r[k]], *m[k], !demands(norm_opt(s.object.required, nc), k), c) by {
                assert(r.contains_key(k));
                assert(p.m@.dom().contains(r[k]));
                let e = *p.m@[r[k]];
                assert(f.contains_key(r[k]));
                assert(*o.fields.m@[r[k]] == s2a(e, ts)->0);
                lemma_deep_field(y, ns, k, d, c);
                lemma_shape(e, under(ns, k), n, (d - 1) as nat, c);
                lemma_shows_optional(e, yy(s2a(e, ts)->0, under(ns, k), n, c), !demands(norm_opt(s.object.required, nc), k), c);
            }
            assert(shows_fields(p, s.object.required, m, c));
        }
        None => {}
    }
}
pub proof fn lemma_yy_optional(x: Tag, ns: Seq<char>, n: nat, c: Context)
    ensures yy(optional_tag(x), ns, n, c) == optional(yy(x, ns, n, c), true), raw(optional_tag(x), ns, c).data_type == raw(x, ns, c).data_type
{
    let a = raw(optional_tag(x), ns, c);
    let b = raw(x, ns, c);
    assert(a == optional(b, true));
    lemma_frame(a, n);
    lemma_frame(b, n);
}
pub proof fn lemma_shape_tuple(s: js::Tag, ns: Seq<char>, n: nat, d: nat, c: Context)
    requires
        sound_atom(s, js::Atom::Array, c.tuple_struct), head_of(s, js::Atom::Array, c.tuple_struct) is Tuple,
        deep(raw(s2a_array(s, c.tuple_struct)->0, ns, c), d), n >= 2 * d,
    ensures shows_type(s, Head::Tuple, yy(s2a_array(s, c.tuple_struct)->0, ns, n, c).data_type, c)
    decreases s, 0nat
{
    reveal(s2a_array);
    let ts = c.tuple_struct;
    let y = s2a_array(s, ts)->0;
    lemma_sound_atom(s, js::Atom::Array, ts);
    assert(s2a_atom(s, js::Atom::Array, ts) == s2a_array(s, ts));
    match s.array.items {
        Some(js::ArrayType::TagTuple(v)) => {
            let its = s2a_seq(v, ts);
            let min = min_items(s, its.len());
            let b = opt_from(somes(its), min);
            let w = y.data_type->Tuple_0.items.v@;
            lemma_yy_tuple(y, ns, n, c);
            lemma_deep_below(y, ns, d, c);
            let z = yy(y, ns, n, c).data_type->Tuple_0.items.v@;
            assert forall|i: int| 0 <= i < v.v@.len() implies shows(*(#[trigger] v.v@[i]), z[i], i >= min, c) by {
                let x = s2a(*v.v@[i], ts)->0;
                assert(its[i] == s2a(*v.v@[i], ts));
                assert(w[i] == b[i]);
                assert(b[i] == (if i >= min { optional_tag(x) } else { x }));
                lemma_yy_optional(x, under(ns, tuple_name(i)), n, c);
                lemma_deep_type(raw(w[i], under(ns, tuple_name(i)), c), raw(x, under(ns, tuple_name(i)), c), (d - 1) as nat);
                lemma_shape(*v.v@[i], under(ns, tuple_name(i)), n, (d - 1) as nat, c);
                lemma_shows_optional(*v.v@[i], yy(x, under(ns, tuple_name(i)), n, c), true, c);
            }
            assert(shows_items(v, min, z, c));
            match s.array.additional_items {
                Some(js::AdditionalProperties::Object(add)) => {
                    assert forall|i: int| v.v@.len() <= i < z.len() implies shows(*add, #[trigger] z[i], true, c) by {
                        let x = s2a(*add, ts)->0;
                        assert(w[i] == optional_tag(x));
                        lemma_yy_optional(x, under(ns, tuple_name(i)), n, c);
                        lemma_deep_type(raw(w[i], under(ns, tuple_name(i)), c), raw(x, under(ns, tuple_name(i)), c), (d - 1) as nat);
                        lemma_shape(*add, under(ns, tuple_name(i)), n, (d - 1) as nat, c);
                        lemma_shows_optional(*add, yy(x, under(ns, tuple_name(i)), n, c), true, c);
                    }
                }
                _ => {}
            }
        }
        _ => {}
    }
}
/// what is made of a schema shows it
pub proof fn lemma_core_shape(v: Value, c: Context)
    requires read_ok(v, c)
    ensures shows(schema_in(v), core_of(v, c), false, ctx_in(v, c))
{
    let s = schema_in(v);
    let e = ctx_in(v, c);
    lemma_sound_options(s, c);
    let x = s2a(s, e.tuple_struct)->0;
    let ns = base(x);
    let r = raw(x, ns, e);
    let d = lemma_depth(r);
    let t = tag_in(v, c);
    assert(t == Tag { is_root: true, ..r });
    let m = lemma_col_at(t);
    let n = nmax(m, 2 * d);
    assert(t_col(t, n) == col(t));
    lemma_frame(t, n);
    lemma_frame(r, n);
    assert(fin(col(t), e) == yy(x, ns, n, e));
    lemma_shape(s, ns, n, d, e);
}
}
} // verus!
