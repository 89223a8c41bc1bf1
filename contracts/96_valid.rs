// C04: the BigQuery output is a valid BigQuery schema.
verus! {
pub mod valid_bq {
use super::*;
use super::shim::*;
use super::spec::*;
use super::lemmas::*;
use super::depth::*;
use super::tags::*;
use super::lims::*;
use super::total::*;
use super::ast::{Tag, Type, Object, Union, Tuple, Atom};

pub open spec fn column_name(n: Option<String>) -> bool { n is Some && ident(n->0.s@) }
pub open spec fn short(d: Option<String>) -> bool { d is Some ==> d->0.s@.len() <= 1024 }
/// a type BigQuery knows, of valid columns with distinct names
pub open spec fn bq_valid_type(d: bigquery::Type) -> bool
    decreases d
{
    match d {
        bigquery::Type::Atom(_) => true,
        bigquery::Type::Record(r) => bq_valid_record(r),
    }
}
pub open spec fn bq_valid_record(r: bigquery::Record) -> bool
    decreases r
{
    !(r.fields.m@.dom() =~= Set::empty())
        && forall|k: Seq<char>| #[trigger] r.fields.m@.contains_key(k) ==> bq_valid(*r.fields.m@[k]) && r.fields.m@[k].name == Some(st(k))
}
pub open spec fn bq_valid(t: bigquery::Tag) -> bool
    decreases t
{
    column_name(t.name) && short(t.description) && bq_valid_type(*t.data_type)
}
/// the tags below are called as columns are
pub open spec fn kids_named(u: Tag) -> bool {
    match u.data_type {
        Type::Object(o) => forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) ==> ident(k) && o.fields.m@[k].name == Some(st(k)),
        Type::Map(m) => m.key.name == Some(st("key"@)) && m.value.name == Some(st("value"@)),
        Type::Array(a) => a.items.name == Some(st("list"@)),
        Type::Tuple(p) => forall|i: int| 0 <= i < p.items.v@.len() ==> (#[trigger] p.items.v@[i]).name == Some(st(tuple_name(i))),
        _ => true,
    }
}
pub proof fn lemma_ident_words()
    ensures ident("key"@), ident("value"@), ident("list"@), ident("root"@)
{
    reveal_strlit("key"); reveal_strlit("value"); reveal_strlit("list"); reveal_strlit("root");
}
pub proof fn lemma_ident_tuple(i: int)
    requires i >= 0
    ensures ident(tuple_name(i))
{
    reveal_strlit("f"); reveal_strlit("_");
    lemma_dec(i);
    let s = tuple_name(i);
    let d = dec(i);
    assert("f"@.len() == 1 && "_"@.len() == 1);
    assert(s[0] == 'f');
    assert forall|j: int| 0 <= j < s.len() implies tail_char(#[trigger] s[j]) by {
        if j == 0 { } else if j < 1 + d.len() { assert(s[j] == d[j - 1]); } else { assert(s[j] == '_'); }
    }
}
pub proof fn lemma_kids_named(t: Tag, ns: Seq<char>, nc: bool)
    ensures kids_named(below(t, ns, nc)), below(t, ns, nc).name == t.name
{
    let u = below(t, ns, nc);
    assert(u.data_type == below_type(t.data_type, ns, nc));
    match t.data_type {
        Type::Object(o) => {
            let f = below_fields(o.fields, ns, nc);
            assert(u.data_type->Object_0.fields.m@ == f);
            lemma_columns_own(o.fields.m@.dom(), nc);
            lemma_columns(o.fields.m@.dom(), nc);
            assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies ident(k) && f[k].name == Some(st(k)) by {
                let c = columns(o.fields.m@.dom(), nc);
                assert(c.contains_key(k));
                assert(o.fields.m@.dom().contains(c[k]));
                assert(o.fields.m@.contains_key(c[k]));
                lemma_own_ident(k, nc);
            }
        }
        Type::Map(m) => {
            assert(*u.data_type->Map_0.key == with_name(below(*m.key, under(ns, "key"@), nc), "key"@, ns));
            assert(*u.data_type->Map_0.value == with_name(below(*m.value, under(ns, "value"@), nc), "value"@, ns));
        }
        Type::Array(a) => {
            assert(*u.data_type->Array_0.items == with_name(below(*a.items, under(ns, "list"@), nc), "list"@, ns));
        }
        Type::Tuple(p) => {
            let v = below_tuple(p.items, ns, nc);
            assert(u.data_type->Tuple_0.items.v@ == v);
            assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).name == Some(st(tuple_name(i))) by {}
        }
        _ => {}
    }
}
pub proof fn lemma_kids_named_inf(u: Tag, f: bool)
    requires kids_named(u)
    ensures kids_named(inf_null(u, f)), inf_null(u, f).name == u.name
{
    let r = inf_null(u, f);
    match u.data_type {
        Type::Object(o) => {
            let g = inf_fields(o.fields, o.required, f);
            assert(r.data_type->Object_0.fields.m@ == g);
            assert forall|k: Seq<char>| #[trigger] g.contains_key(k) implies ident(k) && g[k].name == Some(st(k)) by {
                assert(o.fields.m@.contains_key(k));
                assert(*g[k] == optional(inf_null(*o.fields.m@[k], f), f || !demands(o.required, k)));
            }
        }
        Type::Tuple(p) => {
            let v = inf_seq(p.items, f);
            assert(r.data_type->Tuple_0.items.v@ == v);
            assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).name == Some(st(tuple_name(i))) by { assert(v[i] == inf_null(p.items.v@[i], f)); }
        }
        Type::Array(a) => { assert(*r.data_type->Array_0.items == inf_null(*a.items, f)); }
        Type::Map(m) => { assert(*r.data_type->Map_0.value == inf_null(*m.value, f)); assert(r.data_type->Map_0.key == m.key); }
        _ => {}
    }
}
/// the key of a map becomes a column of an atom
pub proof fn lemma_bq_key_val(t: Tag, c: Context)
    requires t.data_type is Atom, t.data_type != json()
    ensures
        bq_conv(t, c),
        bq_lim(t, c) == Out::Val(bigquery::Tag {
            name: t.name, data_type: Box::new(bigquery::Type::Atom(bq_atom(t.data_type->Atom_0))),
            mode: if c.force_nullable || t.nullable { bigquery::Mode::Nullable } else { bigquery::Mode::Required },
            description: desc_of(t.title, t.description) }),
{
    lemma_bq_key(t, c);
    lemma_bq_conv(t, c);
    let n = bq_bound(t, c) + 1;
    assert(bq(t, c, n) == bq_lim(t, c));
    let m = (n - 1) as nat;
    assert(t_col(t, m) == t);
    let u = bq_proc(t, c, m);
    assert(inf_name(t, c.normalize_case).data_type == t.data_type);
    assert(u.data_type == t.data_type);
    assert(u.nullable == (c.force_nullable || t.nullable));
    assert(u.name == t.name && u.title == t.title && u.description == t.description);
}
pub proof fn lemma_desc_short(a: Option<String>, b: Option<String>)
    ensures short(desc_of(a, b))
{
}
/// what comes of a done tag has its name and what its type is made into
pub proof fn lemma_bq_head(t: Tag, c: Context)
    requires done(t, c.normalize_case, c.force_nullable)
    ensures ({
        let r = bq_lim(t, c);
        let u = bq_view(t, c);
        &&& r == bq_at(u, c, bq_lims(c))
        &&& u.name == t.name && u.title == t.title && u.description == t.description && u.nullable == t.nullable
        &&& kids_named(u) && like(u, t) && done(u, c.normalize_case, c.force_nullable)
        &&& r is Val ==> r->Val_0.name == t.name && r->Val_0.description == desc_of(t.title, t.description) && r->Val_0.mode == mode_of(u)
            && bq_type(u, c, bq_lims(c)) == Out::Val(*r->Val_0.data_type)
    })
{
    lemma_bq_lim_done(er(t), t, c);
    lemma_bq_done(t, c);
    lemma_kids_named(t, base(t), c.normalize_case);
}
pub proof fn lemma_valid(w: Tag, t: Tag, c: Context)
    requires done(t, c.normalize_case, c.force_nullable), w == er(t), bq_lim(t, c) is Val
    ensures column_name(t.name) ==> bq_valid(bq_lim(t, c)->Val_0), bq_valid_type(*bq_lim(t, c)->Val_0.data_type)
    decreases w
{
    lemma_bq_head(t, c);
    lemma_desc_short(t.title, t.description);
    lemma_valid_type(w, bq_view(t, c), c);
}
pub proof fn lemma_valid_type(w: Tag, u: Tag, c: Context)
    requires done(u, c.normalize_case, c.force_nullable), w == er(u), kids_named(u), bq_type(u, c, bq_lims(c)) is Val
    ensures bq_valid_type(bq_type(u, c, bq_lims(c))->Val_0)
    decreases w, 0nat
{
    lemma_done_kids(u, c);
    lemma_ident_words();
    let g = bq_lims(c);
    let d = bq_type(u, c, g)->Val_0;
    match u.data_type {
        Type::Object(o) => {
            let f = o_map(o.fields, g);
            if !(kept(f) =~= Set::empty()) {
                let m = vals(f);
                assert(d == bq_record(m));
                assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies bq_valid(*m[k]) && m[k].name == Some(st(k)) by {
                    assert(kept(f).contains(k));
                    assert(o.fields.m@.contains_key(k));
                    let wm = w.data_type->Object_0.fields;
                    assert(wm.m@ == er_fields(o.fields));
                    assert(wm.m@.contains_key(k));
                    lemma_valid(*wm.m@[k], *o.fields.m@[k], c);
                    lemma_bq_head(*o.fields.m@[k], c);
                }
                assert(m.dom() =~= kept(f));
                assert(!(m.dom() =~= Set::empty()));
                assert(bq_valid_record(bigquery::Record { fields: hm(m) }));
            }
        }
        Type::Tuple(p) => {
            let f = o_seq(p.items.v@, g);
            if f.len() > 0 {
                assert(!seq_aborts(f) && !seq_fails(f));
                let m = bq_tuple(f, f.len());
                lemma_bq_tuple(f, f.len());
                assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies bq_valid(*m[k]) && m[k].name == Some(st(k)) by {
                    let i = choose|i: int| 0 <= i < f.len() && #[trigger] tuple_name(i) == k;
                    lemma_ident_tuple(i);
                    assert(!(f[i] is Err) && !(f[i] is Abort));
                    let wv = w.data_type->Tuple_0.items;
                    assert(wv.v@ == er_seq(p.items));
                    lemma_valid(wv.v@[i], p.items.v@[i], c);
                    lemma_bq_head(p.items.v@[i], c);
                }
                assert(m.contains_key(tuple_name(0)));
                assert(m.dom().contains(tuple_name(0)));
                assert(bq_valid_record(bigquery::Record { fields: hm(m) }));
                assert(d == bq_record(m));
            }
        }
        Type::Array(a) => {
            lemma_valid(*w.data_type->Array_0.items, *a.items, c);
            lemma_bq_head(*a.items, c);
            let t = g(*a.items)->Val_0;
            let m = one("list"@, t);
            assert(m.dom().contains("list"@));
            if repeated(*a.items) { assert(d == bq_record(m)); assert(bq_valid_record(bigquery::Record { fields: hm(m) })); }
            assert(bq_valid_type(d));
        }
        Type::Map(x) => {
            lemma_bq_key_val(*x.key, c);
            lemma_desc_short(x.key.title, x.key.description);
            let k = g(*x.key)->Val_0;
            let m = one("key"@, k);
            assert(m.dom().contains("key"@));
            if g(*x.value) is Val {
                lemma_valid(*w.data_type->Map_0.value, *x.value, c);
                lemma_bq_head(*x.value, c);
                let v = g(*x.value)->Val_0;
                let n = m.insert("value"@, Box::new(v));
                assert(n.dom().contains("key"@));
                reveal_strlit("key"); reveal_strlit("value");
                assert("key"@.len() != "value"@.len());
                assert(bq_valid_record(bigquery::Record { fields: hm(n) }));
                assert(d == bq_record(n));
            } else {
                assert(bq_valid_record(bigquery::Record { fields: hm(m) }));
                assert(d == bq_record(m));
            }
            assert(bq_valid_type(d));
        }
        _ => {}
    }
}
/// a table: valid columns, in ascending order of their names, each once
pub open spec fn table_valid(s: bigquery::Schema) -> bool {
    match s {
        bigquery::Schema::Root(v) => v.v@.len() > 0
            && (forall|i: int| 0 <= i < v.v@.len() ==> bq_valid(#[trigger] v.v@[i]))
            && forall|i: int, j: int| 0 <= i < j < v.v@.len() ==> (#[trigger] v.v@[i]).name != (#[trigger] v.v@[j]).name,
    }
}
pub proof fn lemma_table(t: bigquery::Tag)
    requires bq_valid_type(*t.data_type), short(t.description)
    ensures table_valid(bq_root(t))
{
    lemma_ident_words();
    match *t.data_type {
        bigquery::Type::Record(r) => if !(t.mode is Repeated) {
            let d = r.fields.m@.dom();
            lemma_key_order(d);
            let v = sorted_keys(d).map_values(|k: Seq<char>| *r.fields.m@[k]);
            assert(bq_root(t) == bigquery::Schema::Root(vc(v)));
            assert forall|i: int| 0 <= i < v.len() implies bq_valid(#[trigger] v[i]) && v[i].name == Some(st(sorted_keys(d)[i])) by {
                assert(r.fields.m@.contains_key(sorted_keys(d)[i]));
            }
            assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).name != (#[trigger] v[j]).name by {
                assert(v[i].name == Some(st(sorted_keys(d)[i])));
                assert(v[j].name == Some(st(sorted_keys(d)[j])));
                assert(st(sorted_keys(d)[i]).s@ != st(sorted_keys(d)[j]).s@);
            }
            if v.len() == 0 {
                assert forall|k: Seq<char>| !d.contains(k) by {}
                assert(d =~= Set::empty());
            }
        },
        _ => {}
    }
}
/// what the rows of the table are made of
pub proof fn theorem_valid_parts(v: Value, c: Context)
    requires read_ok(v, c), bq_lim(tag_in(v, c), ctx_in(v, c)) is Val
    ensures
        bq_valid_type(*bq_lim(tag_in(v, c), ctx_in(v, c))->Val_0.data_type),
        short(bq_lim(tag_in(v, c), ctx_in(v, c))->Val_0.description),
{
    let d = ctx_in(v, c);
    let t = tag_in(v, c);
    lemma_sound_options(schema_in(v), c);
    lemma_root_name(v, c);
    lemma_top(t, d);
    let u = bq_top_tag(t, d);
    let nc = d.normalize_case;
    lemma_kids_named(col(t), base(col(t)), nc);
    lemma_kids_named_inf(inf_name(col(t), nc), d.force_nullable);
    lemma_valid_type(er(u), u, d);
    lemma_desc_short(u.title, u.description);
}
/// C04
pub proof fn theorem_valid(v: Value, c: Context)
    requires read_ok(v, c), bq_lim(tag_in(v, c), ctx_in(v, c)) is Val
    ensures table_valid(bq_root(bq_lim(tag_in(v, c), ctx_in(v, c))->Val_0))
{
    theorem_valid_parts(v, c);
    lemma_table(bq_lim(tag_in(v, c), ctx_in(v, c))->Val_0);
}
}
} // verus!
