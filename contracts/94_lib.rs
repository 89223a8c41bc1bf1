// What the crate makes of a JSON schema.
verus! {
pub mod spec_lib {
use super::*;
use super::shim::*;
use super::spec::*;
use super::lemmas::*;
use super::tags::*;
use super::ast::{Tag, Type};
use super::jsonschema as js;
use super::serde_spec::*;

/// the expression a schema names the paths of JSON columns by
pub open spec fn meta(s: js::Tag) -> Option<String> {
    if s.extra.m@.contains_key("mozPipelineMetadata"@) {
        match member(s.extra.m@["mozPipelineMetadata"@], "json_object_path_regex"@) { Value::String(x) => Some(x), _ => None }
    } else { None }
}
/// the options, with what the schema itself says
pub open spec fn options(s: js::Tag, c: Context) -> Context {
    match meta(s) { Some(x) => Context { json_object_path_regex: Some(x), ..c }, None => c }
}
/// the intermediate form of a schema
pub open spec fn ast_of(s: js::Tag, c: Context) -> Tag {
    Tag { is_root: true, ..inf_null(inf_name(s2a(s, c.tuple_struct)->0, c.normalize_case), c.force_nullable) }
}
/// the schema is one the translation is made for
pub open spec fn readable(s: js::Tag, c: Context) -> bool { sound(s, c.tuple_struct) }

/// full, and no root
pub open spec fn rd(t: Tag) -> bool { full(t) && inner(t) && !t.is_root }
pub proof fn lemma_rd_type(a: Tag, b: Tag)
    requires rd(b), a.data_type == b.data_type, !a.is_root
    ensures rd(a)
{
}
pub proof fn lemma_sound(s: js::Tag, ts: bool)
    requires sound(s, ts)
    ensures s2a(s, ts) is Some, rd(s2a(s, ts)->0)
    decreases s, 2nat
{
    match kind(s) {
        js::Type::Atom(a) => { lemma_sound_atom(s, a, ts); }
        js::Type::List(l) => {
            let v = s2a_list(s, l, ts);
            assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]) is Some && rd(v[i]->0) by {
                lemma_sound_atom(s, l.v@[i], ts);
            }
            assert forall|i: int| 0 <= i < somes(v).len() implies rd(#[trigger] somes(v)[i]) by { assert(v[i] is Some); }
            lemma_union_full(s2a(s, ts)->0, somes(v));
        }
    }
}
pub proof fn lemma_union_full(t: Tag, v: Seq<Tag>)
    requires !t.is_root, v.len() > 0, t.data_type == union_of(v), forall|i: int| 0 <= i < v.len() ==> rd(#[trigger] v[i])
    ensures rd(t)
{
}
pub proof fn lemma_sound_sorted(h: BTreeMap<Box<js::Tag>>, ts: bool)
    requires sound_sorted(h, ts)
    ensures
        all_some(s2a_sorted(h, ts)),
        forall|i: int| 0 <= i < somes(s2a_sorted(h, ts)).len() ==> rd(#[trigger] somes(s2a_sorted(h, ts))[i]),
    decreases h
{
    let v = s2a_sorted(h, ts);
    lemma_key_order(h.m@.dom());
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]) is Some && rd(v[i]->0) by {
        let k = sorted_keys(h.m@.dom())[i];
        assert(h.m@.dom().contains(k));
        assert(h.m@.contains_key(k));
        lemma_sound(*h.m@[k], ts);
    }
    assert forall|i: int| 0 <= i < somes(v).len() implies rd(#[trigger] somes(v)[i]) by { assert(v[i] is Some); }
}
pub proof fn lemma_sound_seq(h: Vec<Box<js::Tag>>, ts: bool)
    requires sound_seq(h, ts)
    ensures
        all_some(s2a_seq(h, ts)),
        forall|i: int| 0 <= i < somes(s2a_seq(h, ts)).len() ==> rd(#[trigger] somes(s2a_seq(h, ts))[i]),
    decreases h
{
    let v = s2a_seq(h, ts);
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]) is Some && rd(v[i]->0) by {
        lemma_sound(*h.v@[i], ts);
    }
    assert forall|i: int| 0 <= i < somes(v).len() implies rd(#[trigger] somes(v)[i]) by { assert(v[i] is Some); }
}
pub proof fn lemma_map_full(t: Tag, v: Tag)
    requires !t.is_root, t.data_type == Type::Map(map_of(v)), rd(v)
    ensures rd(t)
{
}
pub proof fn lemma_tuple_full(t: Tag, v: Seq<Tag>)
    requires !t.is_root, t.data_type == Type::Tuple(ast::Tuple { items: vc(v) }), forall|i: int| 0 <= i < v.len() ==> rd(#[trigger] v[i])
    ensures rd(t)
{
}
pub proof fn lemma_object_full(t: Tag, m: Map<Seq<char>, Tag>, r: Option<HashSet>)
    requires !t.is_root, t.data_type == Type::Object(ast::Object { fields: hm(boxed(m)), required: r }), forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> rd(m[k])
    ensures rd(t)
{
    let f = t.data_type->Object_0.fields.m@;
    assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies rd(*f[k]) by { assert(m.contains_key(k)); }
}
pub proof fn lemma_sound_atom(s: js::Tag, a: js::Atom, ts: bool)
    requires sound_atom(s, a, ts)
    ensures s2a_atom(s, a, ts) is Some, rd(s2a_atom(s, a, ts)->0)
    decreases s, 1nat
{
    match a {
        js::Atom::Object => { reveal(s2a_object); lemma_sound_object(s, ts); assert(s2a_atom(s, js::Atom::Object, ts) == s2a_object(s, ts)); }
        js::Atom::Array => { reveal(s2a_array); lemma_sound_array(s, ts); assert(s2a_atom(s, js::Atom::Array, ts) == s2a_array(s, ts)); }
        _ => { assert(s2a_atom(s, a, ts) is Some); let t = s2a_atom(s, a, ts)->0; assert(t.data_type is Null || t.data_type is Atom); assert(rd(t)); }
    }
}
pub proof fn lemma_sound_object(s: js::Tag, ts: bool)
    requires sound_atom(s, js::Atom::Object, ts)
    ensures s2a_object(s, ts) is Some, rd(s2a_object(s, ts)->0)
    decreases s, 0nat
{
    reveal(s2a_object);
    let r = s2a_object(s, ts);
    match s.object.properties {
        Some(p) => {
            let f = s2a_map(p, ts);
            assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies f[k] is Some && rd(f[k]->0) by {
                assert(p.m@.contains_key(k));
                lemma_sound(*p.m@[k], ts);
            }
            let m = map_somes(f);
            assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies rd(m[k]) by { assert(f.contains_key(k)); }
            lemma_object_full(r->0, m, s.object.required);
        }
        None => match (s.object.additional_properties, s.object.pattern_properties) {
            (Some(js::AdditionalProperties::Object(add)), Some(pat)) => {
                lemma_sound(*add, ts);
                lemma_sound_sorted(pat, ts);
                let v = seq![s2a(*add, ts)->0] + somes(s2a_sorted(pat, ts));
                assert forall|i: int| 0 <= i < v.len() implies rd(#[trigger] v[i]) by {
                    if i > 0 { assert(v[i] == somes(s2a_sorted(pat, ts))[i - 1]); }
                }
                lemma_union_full(plain(union_of(v), false), v);
                lemma_map_full(r->0, plain(union_of(v), false));
            }
            (Some(js::AdditionalProperties::Object(add)), None) => {
                lemma_sound(*add, ts);
                lemma_map_full(r->0, s2a(*add, ts)->0);
            }
            (_, pat) => if pat is Some && sorted_keys(pat->0.m@.dom()).len() > 0 {
                lemma_sound_sorted(pat->0, ts);
                let v = somes(s2a_sorted(pat->0, ts));
                lemma_union_full(plain(union_of(v), false), v);
                lemma_map_full(r->0, plain(union_of(v), false));
            } else {
                match s.one_of {
                    Some(o) => { lemma_sound_seq(o, ts); lemma_union_full(r->0, somes(s2a_seq(o, ts))); }
                    None => {}
                }
            }
        }
    }
}
pub proof fn lemma_sound_array(s: js::Tag, ts: bool)
    requires sound_atom(s, js::Atom::Array, ts)
    ensures s2a_array(s, ts) is Some, rd(s2a_array(s, ts)->0)
    decreases s, 0nat
{
    reveal(s2a_array);
    let r = s2a_array(s, ts);
    match s.array.items {
        None => {}
        Some(js::ArrayType::Tag(i)) => { lemma_sound(*i, ts); }
        Some(js::ArrayType::TagTuple(v)) => if ts {
            lemma_sound_seq(v, ts);
            let its = s2a_seq(v, ts);
            let w = somes(its);
            let b = opt_from(w, min_items(s, its.len()));
            let max = max_items(s);
            assert forall|i: int| 0 <= i < b.len() implies rd(#[trigger] b[i]) by { lemma_rd_type(b[i], w[i]); }
            match s.array.additional_items {
                Some(js::AdditionalProperties::Object(add)) => if max > its.len() {
                    lemma_sound(*add, ts);
                    let x = s2a(*add, ts)->0;
                    lemma_rd_type(optional_tag(x), x);
                    let d = b + copies(optional_tag(x), max - its.len());
                    assert forall|i: int| 0 <= i < d.len() implies rd(#[trigger] d[i]) by {
                        if i < b.len() { assert(d[i] == b[i]); } else { assert(d[i] == optional_tag(x)); }
                    }
                    lemma_tuple_full(r->0, d);
                } else { lemma_tuple_full(r->0, b); },
                _ => { lemma_tuple_full(r->0, b); }
            }
        },
    }
}
/// a readable schema is read as a tag the translation can work on
pub proof fn lemma_readable(s: js::Tag, c: Context)
    requires readable(s, c)
    ensures s2a(s, c.tuple_struct) is Some, full(ast_of(s, c)), good(ast_of(s, c), c.normalize_case), ast_of(s, c).is_root
{
    lemma_sound(s, c.tuple_struct);
    let t = s2a(s, c.tuple_struct)->0;
    lemma_good_below(t, base(t), c.normalize_case);
    lemma_good_inf(inf_name(t, c.normalize_case), c.force_nullable, c.normalize_case);
    lemma_good_type(inf_null(inf_name(t, c.normalize_case), c.force_nullable), ast_of(s, c), c.normalize_case);
    lemma_good_full(ast_of(s, c), c.normalize_case);
}
/// what is translated, and with which options
pub open spec fn schema_in(v: Value) -> js::Tag { parse_schema(v)->0 }
pub open spec fn tag_in(v: Value, c: Context) -> Tag { ast_of(schema_in(v), options(schema_in(v), c)) }
pub open spec fn ctx_in(v: Value, c: Context) -> Context { options(schema_in(v), c) }
pub open spec fn read_ok(v: Value, c: Context) -> bool { parse_schema(v) is Some && readable(schema_in(v), c) }
/// Avro can be made of it: always with the cast resolution
pub open spec fn avro_ok(v: Value, c: Context) -> bool {
    read_ok(v, c) && (c.resolve_method is Cast || av_ok(tag_in(v, c), ctx_in(v, c)) && av_lim(tag_in(v, c), ctx_in(v, c)) is Val)
}
/// a table can be made of it: always with the cast resolution
pub open spec fn bigquery_ok(v: Value, c: Context) -> bool {
    read_ok(v, c) && rx_ok(ctx_in(v, c)) && (c.resolve_method is Cast || bq_ok(tag_in(v, c), ctx_in(v, c)) && bq_table(tag_in(v, c), ctx_in(v, c)))
}
}
} // verus!
