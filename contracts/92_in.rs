// What a JSON schema is read as.
verus! {
pub mod spec_in {
use super::*;
use super::shim::*;
use super::spec::*;
use super::ast::{Tag, Type, Object, Union, Tuple};
use super::jsonschema as js;

pub open spec fn atoms(v: Vec<js::Atom>) -> Seq<js::Atom> { v.v@ }

/// the outcome of reading a schema
pub open spec fn is_read<E>(r: Result<Tag, E>, s: Option<Tag>) -> bool {
    match r { Ok(t) => s == Some(t), Err(_) => s is None }
}
pub open spec fn results<E>(v: Vec<Result<Tag, E>>) -> Seq<Result<Tag, E>> { v.v@ }

/// the types a schema names
pub open spec fn kind(s: js::Tag) -> js::Type {
    match s.data_type {
        Value::String(x) => js::Type::Atom(
            if x.s@ == "string"@ && s.format == Some(js::Format::DateTime) { js::Atom::DateTime }
            else if x.s@ == "string"@ && s.format == Some(js::Format::Bytes) { js::Atom::Bytes }
            else { <js::Atom as VDe>::de(s.data_type)->0 }),
        Value::Array(v) => js::Type::List(vc(Seq::new(v.v@.len(), |i: int| <js::Atom as VDe>::de(v.v@[i])->0))),
        _ => js::Type::Atom(js::Atom::Object),
    }
}
/// the types it names exist
pub open spec fn kind_ok(s: js::Tag) -> bool {
    match s.data_type {
        Value::String(x) => <js::Atom as VDe>::de(s.data_type) is Some,
        Value::Array(v) => forall|i: int| 0 <= i < v.v@.len() ==> <js::Atom as VDe>::de(#[trigger] v.v@[i]) is Some,
        _ => true,
    }
}
pub open spec fn mk(s: js::Tag, d: Type, n: bool) -> Tag {
    Tag { data_type: d, name: None, namespace: None, nullable: n, is_root: false, description: s.description, title: s.title }
}
pub open spec fn all_some(v: Seq<Option<Tag>>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is Some }
pub open spec fn somes(v: Seq<Option<Tag>>) -> Seq<Tag> { v.map_values(|x: Option<Tag>| x->0) }
pub open spec fn lists_null(v: Seq<js::Atom>) -> bool { exists|i: int| 0 <= i < v.len() && #[trigger] v[i] is Null }
pub open spec fn union_of(v: Seq<Tag>) -> Type { Type::Union(Union { items: vc(v) }) }
pub open spec fn optional_tag(t: Tag) -> Tag { Tag { nullable: true, ..t } }

pub open spec fn opt_from(v: Seq<Tag>, min: int) -> Seq<Tag> { Seq::new(v.len(), |i: int| if i >= min { optional_tag(v[i]) } else { v[i] }) }
pub open spec fn copies(t: Tag, n: int) -> Seq<Tag> { Seq::new(if n < 0 { 0 } else { n as nat }, |i: int| t) }
pub open spec fn min_items(s: js::Tag, n: nat) -> int { match s.array.min_items { Some(m) => m as int, None => n as int } }
pub open spec fn max_items(s: js::Tag) -> int { match s.array.max_items { Some(m) => m as int, None => 0int } }

pub open spec fn s2a(s: js::Tag, ts: bool) -> Option<Tag>
    decreases s, 3nat
{
    match kind(s) {
        js::Type::Atom(a) => s2a_atom(s, a, ts),
        js::Type::List(l) => {
            let v = s2a_list(s, l, ts);
            if all_some(v) { Some(mk(s, union_of(somes(v)), lists_null(l.v@))) } else { None }
        }
    }
}
pub open spec fn s2a_list(s: js::Tag, l: Vec<js::Atom>, ts: bool) -> Seq<Option<Tag>>
    decreases s, 2nat
{
    Seq::new(l.v@.len(), |i: int| s2a_atom(s, l.v@[i], ts))
}
pub open spec fn s2a_atom(s: js::Tag, a: js::Atom, ts: bool) -> Option<Tag>
    decreases s, 1nat
{
    match a {
        js::Atom::Null => Some(mk(s, Type::Null, true)),
        js::Atom::Boolean => Some(mk(s, Type::Atom(ast::Atom::Boolean), false)),
        js::Atom::Number => Some(mk(s, Type::Atom(ast::Atom::Number), false)),
        js::Atom::Integer => Some(mk(s, Type::Atom(ast::Atom::Integer), false)),
        js::Atom::String => Some(mk(s, Type::Atom(ast::Atom::String), false)),
        js::Atom::DateTime => Some(mk(s, Type::Atom(ast::Atom::Datetime), false)),
        js::Atom::Bytes => Some(mk(s, Type::Atom(ast::Atom::Bytes), false)),
        js::Atom::Object => s2a_object(s, ts),
        js::Atom::Array => s2a_array(s, ts),
    }
}
#[verifier::opaque]
pub open spec fn s2a_object(s: js::Tag, ts: bool) -> Option<Tag>
    decreases s, 0nat
{
        match s.object.properties {
            Some(p) => {
                let f = s2a_map(p, ts);
                if map_some(f) {
                    Some(mk(s, Type::Object(Object { fields: hm(boxed(map_somes(f))), required: s.object.required }), false))
                } else { None }
            }
            None => match (s.object.additional_properties, s.object.pattern_properties) {
                (Some(js::AdditionalProperties::Object(add)), Some(pat)) => {
                    let first = s2a(*add, ts);
                    let rest = s2a_sorted(pat, ts);
                    if first is Some && all_some(rest) {
                        Some(mk(s, Type::Map(map_of(plain(union_of(seq![first->0] + somes(rest)), false))), false))
                    } else { None }
                }
                (Some(js::AdditionalProperties::Object(add)), None) => match s2a(*add, ts) {
                    Some(v) => Some(mk(s, Type::Map(map_of(v)), false)),
                    None => None,
                },
                (_, pat) => if pat is Some && sorted_keys(pat->0.m@.dom()).len() > 0 {
                    let v = s2a_sorted(pat->0, ts);
                    if all_some(v) { Some(mk(s, Type::Map(map_of(plain(union_of(somes(v)), false))), false)) } else { None }
                } else {
                    match s.one_of {
                        Some(o) => {
                            let v = s2a_seq(o, ts);
                            if all_some(v) { Some(mk(s, union_of(somes(v)), some_null(somes(v)))) } else { None }
                        }
                        None => Some(mk(s, json(), false)),
                    }
                },
            },
        }
}
#[verifier::opaque]
pub open spec fn s2a_array(s: js::Tag, ts: bool) -> Option<Tag>
    decreases s, 0nat
{
        match s.array.items {
            None => None,
            Some(js::ArrayType::Tag(i)) => match s2a(*i, ts) {
                Some(x) => Some(mk(s, Type::Array(ast::Array { items: Box::new(x) }), false)),
                None => None,
            },
            Some(js::ArrayType::TagTuple(v)) => if !ts { Some(mk(s, json(), false)) } else {
                let its = s2a_seq(v, ts);
                if all_some(its) {
                    let b = opt_from(somes(its), min_items(s, its.len()));
                    let max = max_items(s);
                    match s.array.additional_items {
                        Some(js::AdditionalProperties::Object(add)) => if max < its.len() { None } else if max == its.len() {
                            Some(mk(s, Type::Tuple(Tuple { items: vc(b) }), false))
                        } else {
                            match s2a(*add, ts) {
                                Some(x) => Some(mk(s, Type::Tuple(Tuple { items: vc(b + copies(optional_tag(x), max - its.len())) }), false)),
                                None => None,
                            }
                        },
                        Some(js::AdditionalProperties::Bool(false)) => Some(mk(s, Type::Tuple(Tuple { items: vc(b) }), false)),
                        None => if max == its.len() { Some(mk(s, Type::Tuple(Tuple { items: vc(b) }), false)) } else { None },
                        _ => None,
                    }
                } else { None }
            },
        }
}
pub open spec fn s2a_map(h: HashMap<Box<js::Tag>>, ts: bool) -> Map<Seq<char>, Option<Tag>>
    decreases h
{
    Map::new(h.m@.dom(), |k: Seq<char>| if h.m@.contains_key(k) { s2a(*h.m@[k], ts) } else { arbitrary() })
}
pub open spec fn map_some(f: Map<Seq<char>, Option<Tag>>) -> bool { forall|k: Seq<char>| #[trigger] f.contains_key(k) ==> f[k] is Some }
pub open spec fn map_somes(f: Map<Seq<char>, Option<Tag>>) -> Map<Seq<char>, Tag> { Map::new(f.dom(), |k: Seq<char>| f[k]->0) }
pub open spec fn s2a_sorted(h: BTreeMap<Box<js::Tag>>, ts: bool) -> Seq<Option<Tag>>
    decreases h
{
    let ks = sorted_keys(h.m@.dom());
    Seq::new(ks.len(), |i: int| if h.m@.contains_key(ks[i]) { s2a(*h.m@[ks[i]], ts) } else { arbitrary() })
}
pub open spec fn s2a_seq(v: Vec<Box<js::Tag>>, ts: bool) -> Seq<Option<Tag>>
    decreases v
{
    Seq::new(v.v@.len(), |i: int| if 0 <= i < v.v@.len() { s2a(*v.v@[i], ts) } else { arbitrary() })
}

/// Schemas the translation supports: every type that is reached exists, lists
/// have a type of item, variants are not empty, tuples have a definite size.
pub open spec fn sound(s: js::Tag, ts: bool) -> bool
    decreases s, 1nat
{
    kind_ok(s) && match kind(s) {
        js::Type::Atom(a) => sound_atom(s, a, ts),
        js::Type::List(l) => l.v@.len() > 0 && forall|i: int| 0 <= i < l.v@.len() ==> sound_atom(s, #[trigger] l.v@[i], ts),
    }
}
pub open spec fn sound_atom(s: js::Tag, a: js::Atom, ts: bool) -> bool
    decreases s, 0nat
{
    match a {
        js::Atom::Object => match s.object.properties {
            Some(p) => sound_map(p, ts),
            None => match (s.object.additional_properties, s.object.pattern_properties) {
                (Some(js::AdditionalProperties::Object(add)), Some(pat)) => sound(*add, ts) && sound_sorted(pat, ts),
                (Some(js::AdditionalProperties::Object(add)), None) => sound(*add, ts),
                (_, pat) => if pat is Some && sorted_keys(pat->0.m@.dom()).len() > 0 { sound_sorted(pat->0, ts) } else {
                    match s.one_of { Some(o) => o.v@.len() > 0 && sound_seq(o, ts), None => true }
                },
            },
        },
        js::Atom::Array => match s.array.items {
            None => false,
            Some(js::ArrayType::Tag(i)) => sound(*i, ts),
            Some(js::ArrayType::TagTuple(v)) => ts ==> sound_seq(v, ts) && {
                let max = max_items(s);
                match s.array.additional_items {
                    Some(js::AdditionalProperties::Object(add)) => max >= v.v@.len() && (max > v.v@.len() ==> sound(*add, ts)),
                    Some(js::AdditionalProperties::Bool(b)) => !b,
                    None => max == v.v@.len(),
                }
            },
        },
        _ => true,
    }
}
pub open spec fn sound_map(h: HashMap<Box<js::Tag>>, ts: bool) -> bool
    decreases h
{
    forall|k: Seq<char>| #[trigger] h.m@.contains_key(k) ==> sound(*h.m@[k], ts)
}
pub open spec fn sound_sorted(h: BTreeMap<Box<js::Tag>>, ts: bool) -> bool
    decreases h
{
    forall|k: Seq<char>| #[trigger] h.m@.contains_key(k) ==> sound(*h.m@[k], ts)
}
pub open spec fn sound_seq(v: Vec<Box<js::Tag>>, ts: bool) -> bool
    decreases v
{
    forall|i: int| 0 <= i < v.v@.len() ==> sound(*(#[trigger] v.v@[i]), ts)
}
}
} // verus!
