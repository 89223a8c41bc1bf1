// C10: with the cast resolution the translation of a supported schema succeeds.
verus! {
pub mod total {
use super::*;
use super::shim::*;
use super::spec::*;
use super::lemmas::*;
use super::depth::*;
use super::tags::*;
use super::lims::*;
use super::ast::{Tag, Type, Object, Union, Tuple, Atom};

pub open spec fn cast(c: Context) -> bool { c.resolve_method is Cast }

pub proof fn lemma_cast_bq(w: Tag, t: Tag, c: Context)
    requires done(t, c.normalize_case, c.force_nullable), w == er(t), cast(c)
    ensures bq_lim(t, c) is Val
    decreases w
{
    lemma_bq_lim_done(w, t, c);
    lemma_bq_done(t, c);
    lemma_cast_bq_at(w, bq_view(t, c), c);
}
pub proof fn lemma_cast_bq_at(w: Tag, u: Tag, c: Context)
    requires done(u, c.normalize_case, c.force_nullable), w == er(u), cast(c)
    ensures bq_at(u, c, bq_lims(c)) is Val
    decreases w, 0nat
{
    lemma_done_kids(u, c);
    let g = bq_lims(c);
    match u.data_type {
        Type::Object(o) => {
            let f = o_map(o.fields, g);
            assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies f[k] is Val by {
                assert(o.fields.m@.contains_key(k));
                let wm = w.data_type->Object_0.fields;
                assert(wm.m@ == er_fields(o.fields));
                assert(wm.m@.contains_key(k));
                lemma_cast_bq(*wm.m@[k], *o.fields.m@[k], c);
            }
        }
        Type::Tuple(p) => {
            let f = o_seq(p.items.v@, g);
            assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i]) is Val by {
                let wv = w.data_type->Tuple_0.items;
                assert(wv.v@ == er_seq(p.items));
                lemma_cast_bq(wv.v@[i], p.items.v@[i], c);
            }
        }
        Type::Array(a) => { lemma_cast_bq(*w.data_type->Array_0.items, *a.items, c); }
        Type::Map(m) => {
            lemma_bq_key(*m.key, c);
            lemma_cast_bq(*w.data_type->Map_0.value, *m.value, c);
        }
        _ => {}
    }
}
pub proof fn lemma_cast_av(t: Tag, c: Context)
    requires done_in(t, c), cast(c)
    ensures av_lim(t, c) is Val
    decreases t
{
    lemma_av_lim_done(t, c);
    lemma_cast_av_at(t, c);
}
pub proof fn lemma_cast_av_at(u: Tag, c: Context)
    requires done(u, c.normalize_case, c.force_nullable), cast(c)
    ensures av_at(u, c, av_lims(c)) is Val
    decreases u, 0nat
{
    lemma_done_kids(u, c);
    let g = av_lims(c);
    match u.data_type {
        Type::Object(o) => {
            let f = o_map(o.fields, g);
            assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies f[k] is Val by {
                assert(o.fields.m@.contains_key(k));
                lemma_cast_av(*o.fields.m@[k], c);
            }
        }
        Type::Tuple(p) => {
            let f = o_seq(p.items.v@, g);
            assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i]) is Val by { lemma_cast_av(p.items.v@[i], c); }
        }
        Type::Array(a) => { lemma_cast_av(*a.items, c); }
        Type::Map(m) => { lemma_cast_av(*m.value, c); }
        _ => {}
    }
}
/// the root of a schema has no name of its own
pub proof fn lemma_t_name(t: Tag, n: nat)
    ensures t_col(t, n).name == t.name, t_col(t, n).namespace == t.namespace, t_col(t, n).title == t.title, t_col(t, n).description == t.description
    decreases n, t
{
    match t.data_type {
        Type::Union(u) => if n > 0 {
            let r = u_col(u.items.v@, (n - 1) as nat);
            lemma_t_name(Tag { data_type: r.data_type, nullable: t.nullable || r.nullable, ..t }, (n - 1) as nat);
        },
        _ => {}
    }
}
pub proof fn lemma_s2a_named(s: jsonschema::Tag, ts: bool)
    ensures s2a(s, ts) is Some ==> ({
        let t = s2a(s, ts)->0;
        t.name is None && t.namespace is None && t.title == s.title && t.description == s.description && !t.is_root
    })
{
    reveal(s2a_object);
    reveal(s2a_array);
    match kind(s) {
        jsonschema::Type::Atom(a) => { assert(s2a(s, ts) == s2a_atom(s, a, ts)); }
        jsonschema::Type::List(l) => {}
    }
}
pub proof fn lemma_root_name(v: Value, c: Context)
    requires read_ok(v, c)
    ensures ({
        let t = tag_in(v, c);
        &&& t.name is None && t.namespace is None && t.is_root
        &&& good(t, ctx_in(v, c).normalize_case)
        &&& bq_top_tag(t, ctx_in(v, c)).name is None && bq_top_tag(t, ctx_in(v, c)).namespace is None
        &&& av_top_tag(t, ctx_in(v, c)).name == Some(st("root"@)) && av_top_tag(t, ctx_in(v, c)).namespace is None
    })
{
    let s = schema_in(v);
    let d = ctx_in(v, c);
    let t = tag_in(v, c);
    lemma_sound_options(s, c);
    lemma_readable(s, d);
    lemma_s2a_named(s, d.tuple_struct);
    let n = lemma_col_at(t);
    lemma_t_name(t, n);
    assert(t_col(t, n) == col(t));
}
pub proof fn lemma_sound_options(s: jsonschema::Tag, c: Context)
    ensures
        readable(s, options(s, c)) == readable(s, c),
        options(s, c).normalize_case == c.normalize_case,
        options(s, c).force_nullable == c.force_nullable,
        options(s, c).tuple_struct == c.tuple_struct,
        options(s, c).resolve_method == c.resolve_method,
        options(s, c).allow_maps_without_value == c.allow_maps_without_value,
{
}
/// C10
pub proof fn theorem_total(v: Value, c: Context)
    ensures
        read_ok(v, c) && cast(c) ==> av_conv(tag_in(v, c), ctx_in(v, c)) && av_ok(tag_in(v, c), ctx_in(v, c)) && av_lim(tag_in(v, c), ctx_in(v, c)) is Val,
        read_ok(v, c) && cast(c) ==> bq_conv(tag_in(v, c), ctx_in(v, c)) && bq_ok(tag_in(v, c), ctx_in(v, c)) && bq_table(tag_in(v, c), ctx_in(v, c)),
{
    if read_ok(v, c) && cast(c) {
        let d = ctx_in(v, c);
        let t = tag_in(v, c);
        lemma_sound_options(schema_in(v), c);
        lemma_root_name(v, c);
        lemma_top(t, d);
        lemma_cast_bq_at(er(bq_top_tag(t, d)), bq_top_tag(t, d), d);
        lemma_bq_conv(t, d);
        assert forall|n: nat| n >= bq_bound(t, d) implies !(#[trigger] bq(t, d, n) is Abort) by { assert(bq(t, d, n) == bq_lim(t, d)); }
        assert(bq_no_abort_from(t, d, bq_bound(t, d)));
        lemma_top_avro(t, d);
        lemma_cast_av_at(av_top_tag(t, d), d);
        lemma_av_conv(t, d);
        assert forall|n: nat| n >= av_bound(t, d) implies !(#[trigger] av(t, d, n) is Abort) by { assert(av(t, d, n) == av_lim(t, d)); }
        assert(av_no_abort_from(t, d, av_bound(t, d)));
    }
}
}
} // verus!
