// C03, C08: the columns a schema is translated into, told from the schema.
verus! {
pub mod told {
use super::*;
use super::shim::*;
use super::spec::*;
use super::lemmas::*;
use super::tags::*;
use super::lims::*;
use super::total::*;
use super::valid_bq::*;
use super::closed::*;
use super::resolving::*;
use super::same_data::*;
use super::shape::*;
use super::ast::{Tag, Type, Object, Union, Tuple, Atom};
use super::jsonschema as js;

pub open spec fn mode_told(h: Head, n: bool) -> bigquery::Mode {
    match h {
        Head::Array => bigquery::Mode::Repeated,
        Head::Map => bigquery::Mode::Repeated,
        Head::Open => bigquery::Mode::Repeated,
        _ => if n { bigquery::Mode::Nullable } else { bigquery::Mode::Required },
    }
}
/// the column that is made of a schema at a place that may be left out (`opt`)
pub open spec fn told(s: js::Tag, opt: bool, b: bigquery::Tag, c: Context) -> bool
    decreases s, 2nat
{
    &&& b.description == desc_of(s.title, s.description)
    &&& !(head(s, c.tuple_struct) is Other) ==> {
        &&& b.mode == mode_told(head(s, c.tuple_struct), c.force_nullable || opt || nulls(s))
        &&& told_type(s, head(s, c.tuple_struct), *b.data_type, c)
    }
}
pub open spec fn told_type(s: js::Tag, h: Head, d: bigquery::Type, c: Context) -> bool
    decreases s, 0nat
{
    match h {
        Head::Atom(a) => if a is Json { d == bigquery::Type::Atom(bigquery::Atom::Json) || d == bq_string() } else { d == bigquery::Type::Atom(bq_atom(a)) },
        Head::Null => d == bq_string(),
        Head::Object => match s.object.properties {
            Some(p) => if d is Record { told_fields(p, s.object.required, d->Record_0.fields.m@, c) }
                else { cast(c) && d == bq_string() && no_columns(p.m@.dom(), c.normalize_case) },
            None => false,
        },
        Head::Map => match s.object.additional_properties {
            Some(js::AdditionalProperties::Object(add)) => map_keys(d, c)
                && (d->Record_0.fields.m@.contains_key("value"@) ==> told(*add, false, *d->Record_0.fields.m@["value"@], c)),
            _ => false,
        },
        Head::Open => map_keys(d, c),
        Head::Array => match s.array.items {
            Some(js::ArrayType::Tag(i)) => told_item(*i, d, c),
            _ => false,
        },
        Head::Tuple => match s.array.items {
            Some(js::ArrayType::TagTuple(v)) => {
                let n = match s.array.additional_items { Some(js::AdditionalProperties::Object(_)) => max_items(s), _ => v.v@.len() as int };
                if n == 0 { d == bq_string() } else {
                    &&& d is Record
                    &&& forall|k: Seq<char>| #[trigger] d->Record_0.fields.m@.contains_key(k) <==> place(k, n)
                    &&& told_items(v, min_items(s, v.v@.len()), d->Record_0.fields.m@, c)
                    &&& match s.array.additional_items {
                        Some(js::AdditionalProperties::Object(add)) =>
                            forall|i: int| v.v@.len() <= i < n ==> told(*add, true, *d->Record_0.fields.m@[#[trigger] tuple_name(i)], c),
                        _ => true,
                    }
                }
            }
            _ => false,
        },
        Head::Other => true,
    }
}
pub open spec fn place(k: Seq<char>, n: int) -> bool { exists|j: int| 0 <= j < n && #[trigger] tuple_name(j) == k }
/// lists within a list are within a record
pub open spec fn told_item(s: js::Tag, d: bigquery::Type, c: Context) -> bool
    decreases s, 3nat
{
    match head(s, c.tuple_struct) {
        Head::Other => true,
        Head::Array => d is Record && only(d->Record_0, "list"@) && told(s, false, *d->Record_0.fields.m@["list"@], c),
        Head::Map => d is Record && only(d->Record_0, "list"@) && told(s, false, *d->Record_0.fields.m@["list"@], c),
        Head::Open => d is Record && only(d->Record_0, "list"@) && told(s, false, *d->Record_0.fields.m@["list"@], c),
        h => told_type(s, h, d, c),
    }
}
/// the columns of a map; the value is left out only when it is dropped
pub open spec fn map_keys(d: bigquery::Type, c: Context) -> bool {
    &&& d is Record
    &&& d->Record_0.fields.m@.contains_key("key"@)
    &&& *d->Record_0.fields.m@["key"@].data_type == bq_string()
    &&& d->Record_0.fields.m@["key"@].mode == (if c.force_nullable { bigquery::Mode::Nullable } else { bigquery::Mode::Required })
    &&& d->Record_0.fields.m@["key"@].description is None
    &&& only_two(d->Record_0, "key"@, "value"@) || !cast(c) && only(d->Record_0, "key"@)
}
pub open spec fn no_columns(d: Set<Seq<char>>, nc: bool) -> bool { forall|p: Seq<char>| #[trigger] d.contains(p) ==> column(p, nc) is None }
/// the property a column is made of
pub open spec fn source(d: Set<Seq<char>>, k: Seq<char>, nc: bool) -> Seq<char> { columns(d, nc)[k] }
/// every column is made of a property that is called so, and with the cast
/// resolution every property that can be a column is one
pub open spec fn told_fields(p: HashMap<Box<js::Tag>>, req: Option<HashSet>, m: Map<Seq<char>, Box<bigquery::Tag>>, c: Context) -> bool
    decreases p
{
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> {
        let x = source(p.m@.dom(), k, c.normalize_case);
        &&& p.m@.contains_key(x) && column(x, c.normalize_case) == Some(k)
        &&& told(*p.m@[x], !demands(norm_opt(req, c.normalize_case), k), *m[k], c)
    }
    &&& cast(c) ==> forall|x: Seq<char>| #[trigger] p.m@.contains_key(x) && column(x, c.normalize_case) is Some ==> m.contains_key(column(x, c.normalize_case)->0)
}
pub open spec fn told_items(v: Vec<Box<js::Tag>>, min: int, m: Map<Seq<char>, Box<bigquery::Tag>>, c: Context) -> bool
    decreases v
{
    forall|i: int| 0 <= i < v.v@.len() ==> told(*(#[trigger] v.v@[i]), i >= min, *m[tuple_name(i)], c)
}

// ---------------------------------------------------------------- columns and properties

/// what is renamed after the first `i` properties
pub open spec fn ren_from(d: Set<Seq<char>>, i: nat, nc: bool) -> bool {
    let m = ren(d, i, nc);
    let ks = sorted_keys(d);
    &&& forall|r: Seq<char>| #[trigger] m.contains_key(r) ==> d.contains(m[r]) && (column(m[r], nc) == Some(r) || m[r] == r && exists|j: int| i <= j < ks.len() && #[trigger] ks[j] == r)
    &&& forall|j: int| 0 <= j < i ==> column(#[trigger] ks[j], nc) is Some ==> m.contains_key(column(ks[j], nc)->0)
    &&& forall|j: int| i <= j < ks.len() ==> m.contains_key(#[trigger] ks[j])
}
pub proof fn lemma_ren_from(d: Set<Seq<char>>, i: nat, nc: bool)
    requires key_order(d), i <= sorted_keys(d).len()
    ensures ren_from(d, i, nc)
    decreases i
{
    let ks = sorted_keys(d);
    if i == 0 {
        let m = ren(d, 0, nc);
        assert(m.dom() =~= d);
        assert forall|r: Seq<char>| #[trigger] m.contains_key(r) implies d.contains(m[r]) && m[r] == r && exists|j: int| 0 <= j < ks.len() && #[trigger] ks[j] == r by {
            assert(d.contains(r));
        }
    } else {
        let h = (i - 1) as nat;
        lemma_ren_from(d, h, nc);
        let a = ren(d, h, nc);
        let m = ren(d, i, nc);
        let k = ks[i - 1];
        lemma_column(k, nc);
        assert(a.contains_key(k));
        if column(a[k], nc) == Some(k) { lemma_column(a[k], nc); }
        match column(k, nc) {
            Some(r) => if r == k {
                assert(m == a);
                assert forall|q: Seq<char>| #[trigger] m.contains_key(q) implies d.contains(m[q]) && (column(m[q], nc) == Some(q) || m[q] == q && exists|j: int| i <= j < ks.len() && #[trigger] ks[j] == q) by {
                    if column(m[q], nc) != Some(q) {
                        let j = choose|j: int| h <= j < ks.len() && #[trigger] ks[j] == q;
                        assert(j != h);
                    }
                }
                assert forall|j: int| 0 <= j < i && column(#[trigger] ks[j], nc) is Some implies m.contains_key(column(ks[j], nc)->0) by {
                    if j == i - 1 { assert(m.contains_key(k)); }
                }
            } else {
                assert(column(a[k], nc) != Some(k));
                assert(a[k] == k);
                assert(m == a.insert(r, k).remove(k));
                assert forall|q: Seq<char>| #[trigger] m.contains_key(q) implies d.contains(m[q]) && (column(m[q], nc) == Some(q) || m[q] == q && exists|j: int| i <= j < ks.len() && #[trigger] ks[j] == q) by {
                    if q != r {
                        assert(a.contains_key(q) && m[q] == a[q]);
                        if column(m[q], nc) != Some(q) {
                            let j = choose|j: int| h <= j < ks.len() && #[trigger] ks[j] == q;
                            assert(j != h);
                        }
                    }
                }
                assert forall|j: int| 0 <= j < i && column(#[trigger] ks[j], nc) is Some implies m.contains_key(column(ks[j], nc)->0) by {
                    lemma_column(ks[j], nc);
                    assert(column(ks[j], nc)->0 != k);
                }
                assert forall|j: int| i <= j < ks.len() implies m.contains_key(#[trigger] ks[j]) by { assert(ks[h as int] != ks[j]); }
            },
            None => {
                assert(m == a.remove(k));
                assert forall|q: Seq<char>| #[trigger] m.contains_key(q) implies d.contains(m[q]) && (column(m[q], nc) == Some(q) || m[q] == q && exists|j: int| i <= j < ks.len() && #[trigger] ks[j] == q) by {
                    assert(a.contains_key(q) && m[q] == a[q]);
                    if column(m[q], nc) != Some(q) {
                        let j = choose|j: int| h <= j < ks.len() && #[trigger] ks[j] == q;
                        assert(j != h);
                    }
                }
                assert forall|j: int| 0 <= j < i && column(#[trigger] ks[j], nc) is Some implies m.contains_key(column(ks[j], nc)->0) by {
                    lemma_column(ks[j], nc);
                    assert(column(ks[j], nc)->0 != k);
                    assert(j != i - 1);
                }
                assert forall|j: int| i <= j < ks.len() implies m.contains_key(#[trigger] ks[j]) by { assert(ks[h as int] != ks[j]); }
            }
        }
    }
}
/// the columns are what the properties are called
pub proof fn lemma_named(d: Set<Seq<char>>, nc: bool)
    ensures
        forall|k: Seq<char>| #[trigger] columns(d, nc).contains_key(k) ==> d.contains(source(d, k, nc)) && column(source(d, k, nc), nc) == Some(k),
        forall|x: Seq<char>| #[trigger] d.contains(x) && column(x, nc) is Some ==> columns(d, nc).contains_key(column(x, nc)->0),
{
    lemma_key_order(d);
    let ks = sorted_keys(d);
    lemma_ren_from(d, ks.len(), nc);
    assert forall|x: Seq<char>| #[trigger] d.contains(x) && column(x, nc) is Some implies columns(d, nc).contains_key(column(x, nc)->0) by {
        let j = choose|j: int| 0 <= j < ks.len() && #[trigger] ks[j] == x;
        assert(column(ks[j], nc) is Some);
    }
}

// ---------------------------------------------------------------- from the tag to the columns

pub proof fn lemma_told_col(s: js::Tag, opt: bool, w: Tag, k: Seq<char>, p: Seq<char>, c: Context)
    requires shows(s, w, opt, c), bqw(w, p, c) is Val
    ensures told(s, opt, column_of(k, w, bqw(w, p, c)->Val_0), c)
    decreases s, 2nat
{
    let h = head(s, c.tuple_struct);
    if !(h is Other) {
        lemma_told_type(s, h, w, p, c);
        lemma_mode(s, h, w, c);
    }
}
pub proof fn lemma_mode(s: js::Tag, h: Head, w: Tag, c: Context)
    requires shows_type(s, h, w.data_type, c), !(h is Other)
    ensures
        repeated(w) == (h is Array || h is Map || h is Open),
        !(w.data_type is Null) || w.nullable ==> mode_of(w) == mode_told(h, w.nullable),
        (w.data_type is Null) == (h is Null),
{
}
pub proof fn lemma_told_map(w: Tag, p: Seq<char>, c: Context)
    requires w.data_type is Map, key_tag(*w.data_type->Map_0.key), bqw(w, p, c) is Val
    ensures ({
        let d = bqw(w, p, c)->Val_0;
        let v = *w.data_type->Map_0.value;
        &&& map_keys(d, c)
        &&& d->Record_0.fields.m@.contains_key("value"@) ==> bqw(v, join(p, "value"@), c) is Val
            && *d->Record_0.fields.m@["value"@] == column_of("value"@, v, bqw(v, join(p, "value"@), c)->Val_0)
    })
{
    reveal_strlit("key"); reveal_strlit("value");
    assert("key"@.len() != "value"@.len());
    let m = w.data_type->Map_0;
    let d = bqw(w, p, c)->Val_0;
    let y = key_column(*m.key, c);
    let s = one("key"@, y);
    assert(s.contains_key("key"@) && !s.contains_key("value"@));
    match bqw(*m.value, join(p, "value"@), c) {
        Out::Val(e) => {
            let n = s.insert("value"@, Box::new(column_of("value"@, *m.value, e)));
            assert(d == bq_record(n));
            assert(d->Record_0.fields.m@ == n);
        }
        Out::Err => {
            assert(d == bq_record(s));
            assert(d->Record_0.fields.m@ == s);
            if cast(c) { lemma_cast_bqw(*m.value, join(p, "value"@), c); }
        }
        Out::Abort => {}
    }
}
/// with the cast resolution there is always a type
pub proof fn lemma_cast_bqw(w: Tag, p: Seq<char>, c: Context)
    requires cast(c)
    ensures bqw(w, p, c) is Val
    decreases w
{
    match w.data_type {
        Type::Object(o) => {
            assert forall|k: Seq<char>| #[trigger] bqw_fields(o.fields, p, c).contains_key(k) implies bqw_fields(o.fields, p, c)[k] is Val by {
                assert(o.fields.m@.contains_key(k));
                lemma_cast_bqw(*o.fields.m@[k], join(p, k), c);
            }
        }
        Type::Tuple(t) => {
            assert forall|i: int| 0 <= i < t.items.v@.len() implies (#[trigger] bqw_seq(t.items, p, c)[i]) is Val by { lemma_cast_bqw(t.items.v@[i], join(p, tuple_name(i)), c); }
        }
        Type::Array(a) => { lemma_cast_bqw(*a.items, join(p, "list"@), c); }
        Type::Map(m) => { lemma_cast_bqw(*m.value, join(p, "value"@), c); }
        _ => {}
    }
}
pub proof fn lemma_told_type(s: js::Tag, h: Head, w: Tag, p: Seq<char>, c: Context)
    requires shows_type(s, h, w.data_type, c), !(h is Other), bqw(w, p, c) is Val
    ensures told_type(s, h, bqw(w, p, c)->Val_0, c)
    decreases s, 1nat
{
    let d = bqw(w, p, c)->Val_0;
    match h {
        Head::Object => match s.object.properties {
            Some(x) => { lemma_told_object(s, x, w, p, c); }
            None => {}
        },
        Head::Map => match s.object.additional_properties {
            Some(js::AdditionalProperties::Object(add)) => {
                lemma_told_map(w, p, c);
                if d->Record_0.fields.m@.contains_key("value"@) { lemma_told_col(*add, false, *w.data_type->Map_0.value, "value"@, join(p, "value"@), c); }
            }
            _ => {}
        },
        Head::Open => { lemma_told_map(w, p, c); }
        Head::Array => match s.array.items {
            Some(js::ArrayType::Tag(i)) => {
                let e = *w.data_type->Array_0.items;
                let q = join(p, "list"@);
                let g = head(*i, c.tuple_struct);
                if !(g is Other) {
                    lemma_mode(*i, g, e, c);
                    lemma_told_type(*i, g, e, q, c);
                    lemma_told_col(*i, false, e, "list"@, q, c);
                    if repeated(e) {
                        let x = column_of("list"@, e, bqw(e, q, c)->Val_0);
                        assert(d == bq_record(one("list"@, x)));
                        assert(d->Record_0.fields.m@ == one("list"@, x));
                    }
                }
            }
            _ => {}
        },
        Head::Tuple => { lemma_told_tuple(s, w, p, c); }
        _ => {}
    }
}
pub proof fn lemma_told_object(s: js::Tag, x: HashMap<Box<js::Tag>>, w: Tag, p: Seq<char>, c: Context)
    requires s.object.properties == Some(x), shows_type(s, Head::Object, w.data_type, c), bqw(w, p, c) is Val
    ensures told_type(s, Head::Object, bqw(w, p, c)->Val_0, c)
    decreases s, 0nat
{
    let nc = c.normalize_case;
    let d = bqw(w, p, c)->Val_0;
    match s.object.properties {
        Some(y) => {
            let o = w.data_type->Object_0;
            let f = bqw_fields(o.fields, p, c);
            let r = columns(y.m@.dom(), nc);
            lemma_named(y.m@.dom(), nc);
            assert(f.dom() =~= r.dom());
            if cast(c) {
                assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies f[k] is Val by {
                    assert(o.fields.m@.contains_key(k));
                    lemma_cast_bqw(*o.fields.m@[k], join(p, k), c);
                }
                assert(kept(f) =~= f.dom());
            }
            if kept(f) =~= Set::empty() {
                assert(d == bq_string());
                assert forall|z: Seq<char>| #[trigger] y.m@.dom().contains(z) implies column(z, nc) is None by {
                    if column(z, nc) is Some { assert(kept(f).contains(column(z, nc)->0)); }
                }
            } else {
                assert(d == bq_record(vals(f)));
                let m = d->Record_0.fields.m@;
                assert(m == vals(f));
                assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies ({
                    let z = source(y.m@.dom(), k, nc);
                    &&& y.m@.contains_key(z) && column(z, nc) == Some(k)
                    &&& told(*y.m@[z], !demands(norm_opt(s.object.required, nc), k), *m[k], c)
                }) by {
                    assert(kept(f).contains(k));
                    assert(r.contains_key(k));
                    assert(o.fields.m@.contains_key(k));
                    let z = source(y.m@.dom(), k, nc);
                    assert(y.m@.dom().contains(z));
                    lemma_told_col(*y.m@[z], !demands(norm_opt(s.object.required, nc), k), *o.fields.m@[k], k, join(p, k), c);
                }
                if cast(c) {
                    assert forall|z: Seq<char>| #[trigger] y.m@.contains_key(z) && column(z, nc) is Some implies m.contains_key(column(z, nc)->0) by {
                        assert(y.m@.dom().contains(z));
                        assert(r.contains_key(column(z, nc)->0));
                        assert(kept(f).contains(column(z, nc)->0));
                    }
                }
                assert(told_fields(y, s.object.required, m, c));
            }
        }
        None => {}
    }
}
/// a tuple comes out as a record of its members, or as a string without any
pub proof fn lemma_tuple_columns(w: Tag, p: Seq<char>, c: Context)
    requires w.data_type is Tuple, bqw(w, p, c) is Val
    ensures ({
        let d = bqw(w, p, c)->Val_0;
        let l = w.data_type->Tuple_0.items.v@;
        if l.len() == 0 { d == bq_string() } else {
            &&& d is Record
            &&& forall|k: Seq<char>| #[trigger] d->Record_0.fields.m@.contains_key(k) <==> place(k, l.len() as int)
            &&& forall|i: int| 0 <= i < l.len() ==> bqw(l[i], join(p, tuple_name(i)), c) is Val
                && *d->Record_0.fields.m@[#[trigger] tuple_name(i)] == column_of(tuple_name(i), l[i], bqw(l[i], join(p, tuple_name(i)), c)->Val_0)
        }
    })
{
    let d = bqw(w, p, c)->Val_0;
    let t = w.data_type->Tuple_0;
    let f = bqw_seq(t.items, p, c);
    if f.len() > 0 {
        lemma_bq_tuple(f, f.len());
        let m = bq_tuple(f, f.len());
        assert(d == bq_record(m));
        assert(d->Record_0.fields.m@ == m);
        assert forall|i: int| 0 <= i < f.len() implies bqw(t.items.v@[i], join(p, tuple_name(i)), c) is Val
            && *m[#[trigger] tuple_name(i)] == column_of(tuple_name(i), t.items.v@[i], bqw(t.items.v@[i], join(p, tuple_name(i)), c)->Val_0) by {
            assert(!(f[i] is Abort) && !(f[i] is Err));
        }
        assert forall|k: Seq<char>| #[trigger] m.contains_key(k) <==> place(k, f.len() as int) by {}
    }
}
pub proof fn lemma_told_tuple(s: js::Tag, w: Tag, p: Seq<char>, c: Context)
    requires shows_type(s, Head::Tuple, w.data_type, c), bqw(w, p, c) is Val
    ensures told_type(s, Head::Tuple, bqw(w, p, c)->Val_0, c)
    decreases s, 0nat
{
    let d = bqw(w, p, c)->Val_0;
    match s.array.items {
        Some(js::ArrayType::TagTuple(v)) => {
            let l = w.data_type->Tuple_0.items.v@;
            let n = match s.array.additional_items { Some(js::AdditionalProperties::Object(_)) => max_items(s), _ => v.v@.len() as int };
            lemma_tuple_columns(w, p, c);
            assert(l.len() == n);
            if n > 0 {
                let m = d->Record_0.fields.m@;
                assert forall|i: int| 0 <= i < v.v@.len() implies told(*(#[trigger] v.v@[i]), i >= min_items(s, v.v@.len()), *m[tuple_name(i)], c) by {
                    lemma_told_col(*v.v@[i], i >= min_items(s, v.v@.len()), l[i], tuple_name(i), join(p, tuple_name(i)), c);
                }
                assert(told_items(v, min_items(s, v.v@.len()), m, c));
                match s.array.additional_items {
                    Some(js::AdditionalProperties::Object(add)) => {
                        assert forall|i: int| v.v@.len() <= i < n implies told(*add, true, *m[#[trigger] tuple_name(i)], c) by {
                            assert(shows(*add, l[i], true, c));
                            lemma_told_col(*add, true, l[i], tuple_name(i), join(p, tuple_name(i)), c);
                        }
                    }
                    _ => {}
                }
            }
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- the table

/// the columns of a table
pub open spec fn laid_out(b: bigquery::Tag, s: bigquery::Schema) -> bool {
    if *b.data_type is Record && !(b.mode is Repeated) { rows(s) == rows_of(b.data_type->Record_0) }
    else { rows(s) == seq![bigquery::Tag { name: Some(st("root"@)), ..b }] }
}
/// C08: wherever single types lead, columns have the descriptions of the schemas
pub proof fn theorem_described(v: Value, c: Context)
    requires read_ok(v, c), bq_translated(v, c)
    ensures
        told(schema_in(v), false, bq_lim(tag_in(v, c), ctx_in(v, c))->Val_0, ctx_in(v, c)),
        laid_out(bq_lim(tag_in(v, c), ctx_in(v, c))->Val_0, table_of(v, c)),
{
    let e = ctx_in(v, c);
    let w = core_of(v, c);
    theorem_closed(v, c);
    lemma_core_shape(v, c);
    lemma_told_col(schema_in(v), false, w, Seq::empty(), Seq::empty(), e);
    let b = bq_lim(tag_in(v, c), e)->Val_0;
    let k = column_of(Seq::empty(), w, bqw(w, Seq::empty(), e)->Val_0);
    assert(b == (bigquery::Tag { name: None, ..k }));
    assert(told(schema_in(v), false, b, e));
}
/// C03: and both formats are exactly what the schema says
pub proof fn theorem_exact(v: Value, c: Context)
    requires read_ok(v, c), cast(c)
    ensures
        bq_translated(v, c), av_translated(v, c),
        told(schema_in(v), false, bq_lim(tag_in(v, c), ctx_in(v, c))->Val_0, ctx_in(v, c)),
        laid_out(bq_lim(tag_in(v, c), ctx_in(v, c))->Val_0, table_of(v, c)),
        same_col(bq_lim(tag_in(v, c), ctx_in(v, c))->Val_0, avro_of(v, c)),
        same_table(table_of(v, c), avro_of(v, c)),
{
    theorem_same(v, c);
    theorem_described(v, c);
}
}
} // verus!
