// C09: where JSON columns appear.
verus! {
pub mod paths {
use super::*;
use super::shim::*;
use super::spec::*;
use super::lemmas::*;
use super::tags::*;
use super::lims::*;
use super::total::*;
use super::valid_bq::*;
use super::closed::*;
use super::ast::{Tag, Type, Object, Union, Tuple, Atom};

pub open spec fn is_json(d: bigquery::Type) -> bool { d == bigquery::Type::Atom(bigquery::Atom::Json) }
/// the columns made of `w` at the path `p` are JSON exactly where the
/// expression selects something under-specified
pub open spec fn selected(w: Tag, p: Seq<char>, d: bigquery::Type, c: Context) -> bool
    decreases w
{
    match w.data_type {
        Type::Atom(a) => (is_json(d) <==> a is Json && json_path(c, fqn(p)))
            && (a is Json && !is_json(d) ==> c.resolve_method is Cast && d == bq_string()),
        Type::Object(o) => !is_json(d) && (d is Record ==> selected_fields(o.fields, p, d->Record_0, c)),
        Type::Tuple(t) => !is_json(d) && (d is Record ==> selected_seq(t.items, p, d->Record_0, c)),
        Type::Array(a) => if repeated(*a.items) {
            d is Record && d->Record_0.fields.m@.contains_key("list"@) && selected(*a.items, join(p, "list"@), *d->Record_0.fields.m@["list"@].data_type, c)
        } else { selected(*a.items, join(p, "list"@), d, c) },
        Type::Map(m) => {
            &&& d is Record && d->Record_0.fields.m@.contains_key("key"@) && !is_json(*d->Record_0.fields.m@["key"@].data_type)
            &&& d->Record_0.fields.m@.contains_key("value"@) ==> selected(*m.value, join(p, "value"@), *d->Record_0.fields.m@["value"@].data_type, c)
        }
        _ => !is_json(d),
    }
}
pub open spec fn selected_fields(h: HashMap<Box<Tag>>, p: Seq<char>, r: bigquery::Record, c: Context) -> bool
    decreases h
{
    forall|k: Seq<char>| #[trigger] r.fields.m@.contains_key(k) ==> h.m@.contains_key(k) && selected(*h.m@[k], join(p, k), *r.fields.m@[k].data_type, c)
}
pub open spec fn selected_seq(v: Vec<Tag>, p: Seq<char>, r: bigquery::Record, c: Context) -> bool
    decreases v
{
    forall|i: int| 0 <= i < v.v@.len() ==> r.fields.m@.contains_key(tuple_name(i)) && selected(#[trigger] v.v@[i], join(p, tuple_name(i)), *r.fields.m@[tuple_name(i)].data_type, c)
}
pub proof fn lemma_selected(w: Tag, p: Seq<char>, c: Context, nc: bool)
    requires bqw(w, p, c) is Val, good(w, nc), nou(w)
    ensures selected(w, p, bqw(w, p, c)->Val_0, c)
    decreases w
{
    reveal_strlit("key"); reveal_strlit("value"); reveal_strlit("list");
    let d = bqw(w, p, c)->Val_0;
    match w.data_type {
        Type::Atom(a) => {}
        Type::Object(o) => {
            let f = bqw_fields(o.fields, p, c);
            if !(kept(f) =~= Set::empty()) {
                assert(d == bq_record(vals(f)));
                let r = d->Record_0;
                assert(r.fields.m@ == vals(f));
                assert forall|k: Seq<char>| #[trigger] r.fields.m@.contains_key(k) implies o.fields.m@.contains_key(k) && selected(*o.fields.m@[k], join(p, k), *r.fields.m@[k].data_type, c) by {
                    assert(kept(f).contains(k));
                    assert(o.fields.m@.contains_key(k));
                    lemma_selected(*o.fields.m@[k], join(p, k), c, nc);
                }
                assert(selected_fields(o.fields, p, r, c));
            }
        }
        Type::Tuple(t) => {
            let f = bqw_seq(t.items, p, c);
            if f.len() > 0 {
                let m = bq_tuple(f, f.len());
                lemma_bq_tuple(f, f.len());
                assert(d == bq_record(m));
                let r = d->Record_0;
                assert(r.fields.m@ == m);
                assert forall|i: int| 0 <= i < t.items.v@.len() implies r.fields.m@.contains_key(tuple_name(i)) && selected(#[trigger] t.items.v@[i], join(p, tuple_name(i)), *r.fields.m@[tuple_name(i)].data_type, c) by {
                    assert(!(f[i] is Abort) && !(f[i] is Err));
                    lemma_selected(t.items.v@[i], join(p, tuple_name(i)), c, nc);
                    assert(m.contains_key(tuple_name(i)));
                    assert(*m[tuple_name(i)].data_type == *(f[i]->Val_0).data_type);
                }
                assert(selected_seq(t.items, p, r, c));
            }
        }
        Type::Array(a) => {
            lemma_selected(*a.items, join(p, "list"@), c, nc);
            if repeated(*a.items) {
                let x = column_of("list"@, *a.items, bqw(*a.items, join(p, "list"@), c)->Val_0);
                assert(d == bq_record(one("list"@, x)));
                assert(d->Record_0.fields.m@ == one("list"@, x));
            }
        }
        Type::Map(m) => {
            let y = key_column(*m.key, c);
            assert("key"@.len() != "value"@.len());
            let s = one("key"@, y);
            assert(s.contains_key("key"@) && !s.contains_key("value"@));
            match bqw(*m.value, join(p, "value"@), c) {
                Out::Val(e) => {
                    lemma_selected(*m.value, join(p, "value"@), c, nc);
                    let n = s.insert("value"@, Box::new(column_of("value"@, *m.value, e)));
                    assert(d == bq_record(n));
                    assert(d->Record_0.fields.m@ == n);
                }
                _ => { assert(d == bq_record(s)); assert(d->Record_0.fields.m@ == s); }
            }
        }
        _ => {}
    }
}
pub open spec fn with_path(c: Context, r: Option<String>) -> Context { Context { json_object_path_regex: r, ..c } }
pub proof fn lemma_avro_apart(w: Tag, k: Seq<char>, p: Seq<char>, c: Context, r: Option<String>)
    ensures avw(w, k, p, c) == avw(w, k, p, with_path(c, r))
    decreases w
{
    let d = with_path(c, r);
    let q = join(p, k);
    match w.data_type {
        Type::Object(o) => {
            assert forall|j: Seq<char>| #[trigger] o.fields.m@.contains_key(j) implies avw(*o.fields.m@[j], j, q, c) == avw(*o.fields.m@[j], j, q, d) by { lemma_avro_apart(*o.fields.m@[j], j, q, c, r); }
            assert(avw_fields(o.fields, q, c) =~= avw_fields(o.fields, q, d));
        }
        Type::Tuple(t) => {
            assert forall|i: int| 0 <= i < t.items.v@.len() implies avw(#[trigger] t.items.v@[i], tuple_name(i), q, c) == avw(t.items.v@[i], tuple_name(i), q, d) by { lemma_avro_apart(t.items.v@[i], tuple_name(i), q, c, r); }
            assert(avw_seq(t.items, q, c) =~= avw_seq(t.items, q, d));
        }
        Type::Array(a) => { lemma_avro_apart(*a.items, "list"@, q, c, r); }
        Type::Map(m) => { lemma_avro_apart(*m.value, "value"@, q, c, r); }
        _ => {}
    }
}
/// C09
pub proof fn theorem_paths(v: Value, c: Context, r: Option<String>)
    requires read_ok(v, c)
    ensures
        ctx_in(v, c).json_object_path_regex == (match meta(schema_in(v)) { Some(x) => Some(x), None => c.json_object_path_regex }),
        bq_lim(tag_in(v, c), ctx_in(v, c)) is Val ==> selected(core_of(v, c), Seq::empty(), *(bq_lim(tag_in(v, c), ctx_in(v, c))->Val_0).data_type, ctx_in(v, c)),
        core_of(v, with_path(c, r)) == core_of(v, c),
        read_ok(v, with_path(c, r)),
        av_lim(tag_in(v, with_path(c, r)), ctx_in(v, with_path(c, r))) == av_lim(tag_in(v, c), ctx_in(v, c)),
        av_lim(tag_in(v, c), ctx_in(v, c)) == av_out(core_of(v, c), with_path(ctx_in(v, c), None)),
{
    theorem_closed(v, c);
    let d = ctx_in(v, c);
    let w = core_of(v, c);
    lemma_sound_options(schema_in(v), c);
    if bqw(w, Seq::empty(), d) is Val { lemma_selected(w, Seq::empty(), d, c.normalize_case); }
    let e = with_path(c, r);
    assert(readable(schema_in(v), e));
    theorem_closed(v, e);
    lemma_avro_apart(w, "root"@, Seq::empty(), d, None);
    lemma_avro_apart(w, "root"@, Seq::empty(), ctx_in(v, e), None);
    assert(with_path(d, None) == with_path(ctx_in(v, e), None));
}
}
} // verus!
