// C02: every document valid under a schema fits what is generated for it.
verus! {
pub mod fitting {
use super::*;
use super::shim::*;
use super::spec::*;
use super::lemmas::*;
use super::depth::*;
use super::tags::*;
use super::lims::*;
use super::total::*;
use super::valid_bq::*;
use super::closed::*;
use super::same_data::*;
use super::resolving::*;
use super::jsonschema as js;
use super::ast::{Tag, Type, Object, Union, Tuple, Atom};

/// a JSON document; `Frac` is a number that is no integer
pub enum Doc {
    Null,
    Bool,
    Int,
    Frac,
    Str(Seq<char>),
    List(Seq<Doc>),
    Obj(Map<Seq<char>, Doc>),
}
/// a point in time, and bytes in base64: the formats of strings
pub uninterp spec fn instant(s: Seq<char>) -> bool;
pub uninterp spec fn base64(s: Seq<char>) -> bool;

// ---------------------------------------------------------------- documents and schemas

/// `d` is valid under `s` and holds declared members only.  Null is valid where
/// the schema names it; keys are not compared with patterns.
pub open spec fn valid(d: Doc, s: js::Tag, ts: bool) -> bool
    decreases s, 2nat
{
    match s.data_type {
        Value::String(x) => valid_word(d, s, x.s@, s.format, ts),
        Value::Array(v) => exists|i: int| 0 <= i < v.v@.len() && valid_name(d, s, #[trigger] v.v@[i], ts),
        _ => valid_object(d, s, ts),
    }
}
/// one of the types of a list
pub open spec fn valid_name(d: Doc, s: js::Tag, w: Value, ts: bool) -> bool
    decreases s, 1nat, 1nat
{
    match w { Value::String(x) => valid_word(d, s, x.s@, None, ts), _ => false }
}
pub open spec fn valid_word(d: Doc, s: js::Tag, w: Seq<char>, f: Option<js::Format>, ts: bool) -> bool
    decreases s, 1nat, 0nat
{
    if w == "null"@ { d is Null }
    else if w == "boolean"@ { d is Bool }
    else if w == "integer"@ { d is Int }
    else if w == "number"@ { d is Int || d is Frac }
    else if w == "string"@ {
        d is Str && (f == Some(js::Format::DateTime) ==> instant(d->Str_0)) && (f == Some(js::Format::Bytes) ==> base64(d->Str_0))
    }
    else if w == "array"@ { valid_array(d, s, ts) }
    else if w == "object"@ { valid_object(d, s, ts) }
    else { false }
}
pub open spec fn required_in(r: Option<HashSet>, m: Map<Seq<char>, Doc>) -> bool { forall|k: Seq<char>| #[trigger] demands(r, k) ==> m.contains_key(k) }
pub open spec fn valid_object(d: Doc, s: js::Tag, ts: bool) -> bool
    decreases s, 0nat
{
    match s.object.properties {
        Some(p) => d is Obj && required_in(s.object.required, d->Obj_0) && valid_members(d->Obj_0, p, ts),
        None => match (s.object.additional_properties, s.object.pattern_properties) {
            (Some(js::AdditionalProperties::Object(add)), Some(pat)) =>
                d is Obj && forall|k: Seq<char>| #[trigger] d->Obj_0.contains_key(k) ==> valid(d->Obj_0[k], *add, ts) || valid_some(d->Obj_0[k], pat, ts),
            (Some(js::AdditionalProperties::Object(add)), None) =>
                d is Obj && forall|k: Seq<char>| #[trigger] d->Obj_0.contains_key(k) ==> valid(d->Obj_0[k], *add, ts),
            (_, pat) => if pat is Some && exists|k: Seq<char>| #[trigger] pat->0.m@.contains_key(k) {
                d is Obj && forall|k: Seq<char>| #[trigger] d->Obj_0.contains_key(k) ==> valid_some(d->Obj_0[k], pat->0, ts)
            } else {
                match s.one_of {
                    Some(o) => exists|i: int| 0 <= i < o.v@.len() && valid(d, *#[trigger] o.v@[i], ts),
                    None => !(d is Null),
                }
            },
        },
    }
}
/// the members are declared, and valid
pub open spec fn valid_members(m: Map<Seq<char>, Doc>, p: HashMap<Box<js::Tag>>, ts: bool) -> bool
    decreases p
{
    forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> p.m@.contains_key(k) && valid(m[k], *p.m@[k], ts)
}
/// valid under the schema of one of the patterns
pub open spec fn valid_some(d: Doc, p: BTreeMap<Box<js::Tag>>, ts: bool) -> bool
    decreases p
{
    exists|k: Seq<char>| #[trigger] p.m@.contains_key(k) && valid(d, *p.m@[k], ts)
}
/// Tuples are of no more than the members they declare, and of no fewer than
/// `minItems`, or else of all.
pub open spec fn valid_array(d: Doc, s: js::Tag, ts: bool) -> bool
    decreases s, 0nat
{
    d is List && match s.array.items {
        None => true,
        Some(js::ArrayType::Tag(i)) => forall|j: int| 0 <= j < d->List_0.len() ==> valid(#[trigger] d->List_0[j], *i, ts),
        Some(js::ArrayType::TagTuple(v)) => ts ==> {
            let l = d->List_0;
            &&& min_items(s, v.v@.len()) <= l.len()
            &&& forall|j: int| 0 <= j < l.len() && j < v.v@.len() ==> valid(#[trigger] l[j], *v.v@[j], ts)
            &&& match s.array.additional_items {
                Some(js::AdditionalProperties::Object(add)) =>
                    l.len() <= max_items(s) && forall|j: int| v.v@.len() <= j < l.len() ==> valid(#[trigger] l[j], *add, ts),
                _ => l.len() <= v.v@.len(),
            }
        },
    }
}

// ---------------------------------------------------------------- documents and tags

/// what a member is called: by its own name, or as its column
pub open spec fn stored(k: Seq<char>, h: Option<bool>) -> Option<Seq<char>> { match h { None => Some(k), Some(nc) => column(k, nc) } }
pub open spec fn given_for(m: Map<Seq<char>, Doc>, c: Seq<char>, h: Option<bool>) -> bool { exists|k: Seq<char>| #[trigger] m.contains_key(k) && stored(k, h) == Some(c) }

/// null may be where the tag is
pub open spec fn takes_null(t: Tag) -> bool
    decreases t
{
    match t.data_type {
        Type::Null => true,
        Type::Union(u) => exists|i: int| 0 <= i < u.items.v@.len() && takes_null(#[trigger] u.items.v@[i]),
        _ => t.nullable,
    }
}
pub open spec fn fits(d: Doc, t: Tag, h: Option<bool>) -> bool
    decreases t, 1nat
{
    if d is Null { takes_null(t) } else { fits_type(d, t.data_type, h) }
}
pub open spec fn atom_takes(d: Doc, a: Atom) -> bool {
    match a {
        Atom::Boolean => d is Bool,
        Atom::Integer => d is Int,
        Atom::Number => d is Int || d is Frac,
        Atom::String => d is Str,
        Atom::Datetime => d is Str && instant(d->Str_0),
        Atom::Bytes => d is Str && base64(d->Str_0),
        Atom::Json => !(d is Null),
    }
}
pub open spec fn fits_type(d: Doc, t: Type, h: Option<bool>) -> bool
    decreases t
{
    match t {
        Type::Null => false,
        Type::Atom(a) => atom_takes(d, a),
        Type::Object(o) => d is Obj && fits_members(d->Obj_0, o.fields, h) && forall|c: Seq<char>| #[trigger] demands(o.required, c) ==> given_for(d->Obj_0, c, h),
        Type::Map(m) => d is Obj && forall|k: Seq<char>| #[trigger] d->Obj_0.contains_key(k) ==> fits(d->Obj_0[k], *m.value, h),
        Type::Array(a) => d is List && forall|i: int| 0 <= i < d->List_0.len() ==> fits(#[trigger] d->List_0[i], *a.items, h),
        Type::Tuple(u) => d is List && fits_tuple(d->List_0, u.items, h),
        Type::Union(u) => exists|i: int| 0 <= i < u.items.v@.len() && fits(d, #[trigger] u.items.v@[i], h),
    }
}
pub open spec fn fits_members(m: Map<Seq<char>, Doc>, f: HashMap<Box<Tag>>, h: Option<bool>) -> bool
    decreases f
{
    forall|k: Seq<char>| #[trigger] m.contains_key(k) && stored(k, h) is Some ==> f.m@.contains_key(stored(k, h)->0) && fits(m[k], *f.m@[stored(k, h)->0], h)
}
/// the members there are fit, and those that are not there may be missing
pub open spec fn fits_tuple(l: Seq<Doc>, v: Vec<Tag>, h: Option<bool>) -> bool
    decreases v
{
    &&& l.len() <= v.v@.len()
    &&& forall|i: int| 0 <= i < l.len() ==> fits(#[trigger] l[i], v.v@[i], h)
    &&& forall|i: int| l.len() <= i < v.v@.len() ==> (#[trigger] v.v@[i]).nullable
}
pub open spec fn fits_one(d: Doc, s: Seq<Tag>, h: Option<bool>) -> bool { exists|i: int| 0 <= i < s.len() && fits(d, #[trigger] s[i], h) }

// ---------------------------------------------------------------- a schema and its tag

pub proof fn lemma_words()
    ensures
        "null"@ != "boolean"@, "null"@ != "integer"@, "null"@ != "number"@, "null"@ != "string"@, "null"@ != "array"@, "null"@ != "object"@,
        "boolean"@ != "integer"@, "boolean"@ != "number"@, "boolean"@ != "string"@, "boolean"@ != "array"@, "boolean"@ != "object"@,
        "integer"@ != "number"@, "integer"@ != "string"@, "integer"@ != "array"@, "integer"@ != "object"@,
        "number"@ != "string"@, "number"@ != "array"@, "number"@ != "object"@, "string"@ != "array"@, "string"@ != "object"@, "array"@ != "object"@,
        "date-time"@ != "string"@, "bytes"@ != "string"@,
{
    reveal_strlit("null"); reveal_strlit("boolean"); reveal_strlit("integer"); reveal_strlit("number"); reveal_strlit("string");
    reveal_strlit("array"); reveal_strlit("object"); reveal_strlit("date-time"); reveal_strlit("bytes");
    assert("null"@.len() == 4 && "boolean"@.len() == 7 && "integer"@.len() == 7 && "number"@.len() == 6 && "string"@.len() == 6 && "array"@.len() == 5 && "object"@.len() == 6);
    assert("boolean"@[0] == 'b' && "integer"@[0] == 'i' && "number"@[0] == 'n' && "string"@[0] == 's' && "object"@[0] == 'o');
    assert("date-time"@.len() == 9 && "bytes"@.len() == 5);
}
/// a valid document fits the tag of the schema
pub proof fn lemma_valid(d: Doc, s: js::Tag, ts: bool)
    requires sound(s, ts), valid(d, s, ts)
    ensures s2a(s, ts) is Some, fits(d, s2a(s, ts)->0, None)
    decreases s, 4nat
{
    lemma_sound(s, ts);
    lemma_words();
    let t = s2a(s, ts)->0;
    match s.data_type {
        Value::String(x) => { lemma_valid_word(d, s, x.s@, s.format, kind(s)->Atom_0, ts); }
        Value::Array(v) => {
            let i = choose|i: int| 0 <= i < v.v@.len() && valid_name(d, s, #[trigger] v.v@[i], ts);
            let l = kind(s)->List_0;
            let w = s2a_list(s, l, ts);
            assert(sound_atom(s, l.v@[i], ts));
            assert(<js::Atom as VDe>::de(v.v@[i]) is Some);
            let x = v.v@[i]->String_0;
            lemma_valid_word(d, s, x.s@, None, l.v@[i], ts);
            assert(w[i] == s2a_atom(s, l.v@[i], ts));
            assert(somes(w)[i] == w[i]->0);
            assert(t.data_type == union_of(somes(w)));
            assert(t.data_type->Union_0.items.v@[i] == w[i]->0);
        }
        _ => { lemma_valid_object(d, s, ts); assert(s2a_atom(s, js::Atom::Object, ts) == s2a_object(s, ts)) by { reveal(s2a_object); } }
    }
}
/// the atom a word is read as
pub open spec fn reads(w: Seq<char>, f: Option<js::Format>, a: js::Atom) -> bool {
    match a {
        js::Atom::Null => w == "null"@,
        js::Atom::Boolean => w == "boolean"@,
        js::Atom::Number => w == "number"@,
        js::Atom::Integer => w == "integer"@,
        js::Atom::String => w == "string"@,
        js::Atom::Array => w == "array"@,
        js::Atom::Object => w == "object"@,
        js::Atom::DateTime => w == "string"@ ==> f == Some(js::Format::DateTime),
        js::Atom::Bytes => w == "string"@ ==> f == Some(js::Format::Bytes),
    }
}
pub proof fn lemma_valid_word(d: Doc, s: js::Tag, w: Seq<char>, f: Option<js::Format>, a: js::Atom, ts: bool)
    requires valid_word(d, s, w, f, ts), sound_atom(s, a, ts), reads(w, f, a), (a is DateTime || a is Bytes) ==> w == "string"@
    ensures s2a_atom(s, a, ts) is Some, fits(d, s2a_atom(s, a, ts)->0, None)
    decreases s, 3nat
{
    lemma_sound_atom(s, a, ts);
    lemma_words();
    match a {
        js::Atom::Object => { lemma_valid_object(d, s, ts); assert(s2a_atom(s, a, ts) == s2a_object(s, ts)) by { reveal(s2a_object); } }
        js::Atom::Array => { lemma_valid_array(d, s, ts); assert(s2a_atom(s, a, ts) == s2a_array(s, ts)) by { reveal(s2a_array); } }
        _ => {}
    }
}
pub proof fn lemma_some_sorted(d: Doc, p: BTreeMap<Box<js::Tag>>, ts: bool)
    requires sound_sorted(p, ts), valid_some(d, p, ts)
    ensures all_some(s2a_sorted(p, ts)), fits_one(d, somes(s2a_sorted(p, ts)), None)
    decreases p
{
    lemma_sound_sorted(p, ts);
    let k = choose|k: Seq<char>| #[trigger] p.m@.contains_key(k) && valid(d, *p.m@[k], ts);
    lemma_key_order(p.m@.dom());
    let ks = sorted_keys(p.m@.dom());
    assert(p.m@.dom().contains(k));
    let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k;
    lemma_valid(d, *p.m@[k], ts);
    let v = s2a_sorted(p, ts);
    assert(v[i] == s2a(*p.m@[k], ts));
    assert(fits(d, somes(v)[i], None));
}
pub proof fn lemma_in_union(d: Doc, t: Tag, s: Seq<Tag>)
    requires t.data_type == union_of(s), fits_one(d, s, None)
    ensures fits(d, t, None)
{
    let i = choose|i: int| 0 <= i < s.len() && fits(d, #[trigger] s[i], None);
    assert(t.data_type->Union_0.items.v@[i] == s[i]);
}
pub proof fn lemma_valid_object(d: Doc, s: js::Tag, ts: bool)
    requires sound_atom(s, js::Atom::Object, ts), valid_object(d, s, ts)
    ensures s2a_object(s, ts) is Some, fits(d, s2a_object(s, ts)->0, None)
    decreases s, 2nat
{
    lemma_sound_object(s, ts);
    reveal(s2a_object);
    let t = s2a_object(s, ts)->0;
    match s.object.properties {
        Some(p) => {
            let f = s2a_map(p, ts);
            let m = d->Obj_0;
            let o = t.data_type->Object_0;
            assert(o.fields.m@ == boxed(map_somes(f)));
            assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies o.fields.m@.contains_key(k) && fits(m[k], *o.fields.m@[k], None) by {
                assert(p.m@.contains_key(k));
                lemma_valid(m[k], *p.m@[k], ts);
                assert(f.contains_key(k));
                assert(*o.fields.m@[k] == f[k]->0);
            }
            assert forall|c: Seq<char>| #[trigger] demands(o.required, c) implies given_for(m, c, None) by { assert(m.contains_key(c) && stored(c, None) == Some(c)); }
            assert(fits_members(m, o.fields, None));
        }
        None => match (s.object.additional_properties, s.object.pattern_properties) {
            (Some(js::AdditionalProperties::Object(add)), Some(pat)) => {
                lemma_sound(*add, ts);
                lemma_sound_sorted(pat, ts);
                let rest = somes(s2a_sorted(pat, ts));
                let v = seq![s2a(*add, ts)->0] + rest;
                let m = d->Obj_0;
                assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies fits(m[k], plain(union_of(v), false), None) by {
                    if valid(m[k], *add, ts) {
                        lemma_valid(m[k], *add, ts);
                        assert(v[0] == s2a(*add, ts)->0);
                    } else {
                        lemma_some_sorted(m[k], pat, ts);
                        let i = choose|i: int| 0 <= i < rest.len() && fits(m[k], #[trigger] rest[i], None);
                        assert(v[i + 1] == rest[i]);
                    }
                    lemma_in_union(m[k], plain(union_of(v), false), v);
                }
            }
            (Some(js::AdditionalProperties::Object(add)), None) => {
                lemma_sound(*add, ts);
                let m = d->Obj_0;
                assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies fits(m[k], s2a(*add, ts)->0, None) by { lemma_valid(m[k], *add, ts); }
            }
            (_, pat) => {
                if pat is Some { lemma_some_keys(pat->0); }
                if pat is Some && sorted_keys(pat->0.m@.dom()).len() > 0 {
                    let v = somes(s2a_sorted(pat->0, ts));
                    let m = d->Obj_0;
                    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies fits(m[k], plain(union_of(v), false), None) by {
                        lemma_some_sorted(m[k], pat->0, ts);
                        lemma_in_union(m[k], plain(union_of(v), false), v);
                    }
                } else {
                    match s.one_of {
                        Some(o) => {
                            lemma_sound_seq(o, ts);
                            let w = s2a_seq(o, ts);
                            let i = choose|i: int| 0 <= i < o.v@.len() && valid(d, *#[trigger] o.v@[i], ts);
                            lemma_valid(d, *o.v@[i], ts);
                            assert(w[i] == s2a(*o.v@[i], ts));
                            assert(fits(d, somes(w)[i], None));
                            lemma_in_union(d, t, somes(w));
                        }
                        None => {}
                    }
                }
            }
        }
    }
}
pub proof fn lemma_some_keys(p: BTreeMap<Box<js::Tag>>)
    ensures (sorted_keys(p.m@.dom()).len() > 0) == (exists|k: Seq<char>| #[trigger] p.m@.contains_key(k))
{
    lemma_key_order(p.m@.dom());
    let ks = sorted_keys(p.m@.dom());
    if ks.len() > 0 { assert(p.m@.dom().contains(ks[0])); assert(p.m@.contains_key(ks[0])); }
    assert forall|k: Seq<char>| #[trigger] p.m@.contains_key(k) implies ks.len() > 0 by { assert(p.m@.dom().contains(k)); }
}
pub proof fn lemma_valid_array(d: Doc, s: js::Tag, ts: bool)
    requires sound_atom(s, js::Atom::Array, ts), valid_array(d, s, ts)
    ensures s2a_array(s, ts) is Some, fits(d, s2a_array(s, ts)->0, None)
    decreases s, 2nat
{
    lemma_sound_array(s, ts);
    reveal(s2a_array);
    let t = s2a_array(s, ts)->0;
    let l = d->List_0;
    match s.array.items {
        None => {}
        Some(js::ArrayType::Tag(i)) => {
            assert forall|j: int| 0 <= j < l.len() implies fits(#[trigger] l[j], s2a(*i, ts)->0, None) by { lemma_valid(l[j], *i, ts); }
        }
        Some(js::ArrayType::TagTuple(v)) => if ts {
            lemma_sound_seq(v, ts);
            let its = s2a_seq(v, ts);
            let w = somes(its);
            let min = min_items(s, its.len());
            let b = opt_from(w, min);
            let r = t.data_type->Tuple_0.items;
            assert forall|j: int| 0 <= j < l.len() && j < b.len() implies fits(#[trigger] l[j], b[j], None) by {
                lemma_valid(l[j], *v.v@[j], ts);
                assert(its[j] == s2a(*v.v@[j], ts));
                lemma_fits_flag(l[j], w[j], b[j], None);
            }
            assert forall|j: int| l.len() <= j < b.len() implies (#[trigger] b[j]).nullable by {}
            match s.array.additional_items {
                Some(js::AdditionalProperties::Object(add)) => if max_items(s) > its.len() {
                    lemma_sound(*add, ts);
                    let x = s2a(*add, ts)->0;
                    let y = optional_tag(x);
                    assert(r.v@ == b + copies(y, max_items(s) - its.len()));
                    assert forall|j: int| 0 <= j < l.len() implies fits(#[trigger] l[j], r.v@[j], None) by {
                        if j < b.len() { assert(r.v@[j] == b[j]); } else { lemma_valid(l[j], *add, ts); lemma_fits_flag(l[j], x, y, None); assert(r.v@[j] == y); }
                    }
                    assert forall|j: int| l.len() <= j < r.v@.len() implies (#[trigger] r.v@[j]).nullable by { if j < b.len() { assert(r.v@[j] == b[j]); } else { assert(r.v@[j] == y); } }
                    assert(fits_tuple(l, r, None));
                } else { assert(r.v@ == b); assert(fits_tuple(l, r, None)); },
                _ => { assert(r.v@ == b); assert(fits_tuple(l, r, None)); }
            }
        },
    }
}

// ---------------------------------------------------------------- what keeps documents fitting

/// only the type matters, and being nullable does no harm
pub proof fn lemma_fits_flag(d: Doc, a: Tag, b: Tag, h: Option<bool>)
    requires fits(d, a, h), a.data_type == b.data_type, a.nullable ==> b.nullable
    ensures fits(d, b, h)
{
}
pub proof fn lemma_fits_er(d: Doc, t: Tag, h: Option<bool>)
    requires fits(d, t, h)
    ensures fits(d, er(t), h)
    decreases t
{
    let r = er(t);
    match t.data_type {
        Type::Object(o) => if !(d is Null) {
            let m = d->Obj_0;
            assert(fits_members(m, o.fields, h));
            let f = r.data_type->Object_0.fields;
            assert(f.m@ == er_fields(o.fields));
            assert forall|k: Seq<char>| #[trigger] m.contains_key(k) && stored(k, h) is Some implies f.m@.contains_key(stored(k, h)->0) && fits(m[k], *f.m@[stored(k, h)->0], h) by {
                let c = stored(k, h)->0;
                assert(o.fields.m@.contains_key(c));
                lemma_fits_er(m[k], *o.fields.m@[c], h);
            }
            assert(fits_members(m, f, h));
        },
        Type::Map(x) => if !(d is Null) {
            let m = d->Obj_0;
            assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies fits(m[k], er(*x.value), h) by { lemma_fits_er(m[k], *x.value, h); }
        },
        Type::Array(a) => if !(d is Null) {
            let l = d->List_0;
            assert forall|i: int| 0 <= i < l.len() implies fits(#[trigger] l[i], er(*a.items), h) by { lemma_fits_er(l[i], *a.items, h); }
        },
        Type::Tuple(u) => if !(d is Null) {
            let l = d->List_0;
            assert(fits_tuple(l, u.items, h));
            let v = r.data_type->Tuple_0.items;
            assert(v.v@ == er_seq(u.items));
            assert forall|i: int| 0 <= i < l.len() implies fits(#[trigger] l[i], v.v@[i], h) by { lemma_fits_er(l[i], u.items.v@[i], h); }
            assert forall|i: int| l.len() <= i < v.v@.len() implies (#[trigger] v.v@[i]).nullable by { assert(u.items.v@[i].nullable); }
            assert(fits_tuple(l, v, h));
        },
        Type::Union(u) => {
            let v = r.data_type->Union_0.items;
            assert(v.v@ == er_seq(u.items));
            lemma_fits_variant(d, t, h);
            let i = choose|i: int| 0 <= i < u.items.v@.len() && fits(d, #[trigger] u.items.v@[i], h);
            lemma_fits_er(d, u.items.v@[i], h);
            assert(fits(d, v.v@[i], h));
        }
        _ => {}
    }
}
/// what fits a union fits one of its variants
pub proof fn lemma_fits_variant(d: Doc, t: Tag, h: Option<bool>)
    requires t.data_type is Union
    ensures fits(d, t, h) == fits_one(d, t.data_type->Union_0.items.v@, h)
{
    let s = t.data_type->Union_0.items.v@;
    if d is Null {
        if takes_null(t) { let i = choose|i: int| 0 <= i < s.len() && takes_null(#[trigger] s[i]); assert(fits(d, s[i], h)); }
        if fits_one(d, s, h) { let i = choose|i: int| 0 <= i < s.len() && fits(d, #[trigger] s[i], h); assert(takes_null(s[i])); }
    }
}
pub proof fn lemma_fits_inf(d: Doc, t: Tag, f: bool, h: Option<bool>)
    requires fits(d, t, h)
    ensures fits(d, inf_null(t, f), h)
    decreases t
{
    let r = inf_null(t, f);
    match t.data_type {
        Type::Object(o) => if !(d is Null) {
            let m = d->Obj_0;
            assert(fits_members(m, o.fields, h));
            let g = r.data_type->Object_0.fields;
            assert(g.m@ == inf_fields(o.fields, o.required, f));
            assert forall|k: Seq<char>| #[trigger] m.contains_key(k) && stored(k, h) is Some implies g.m@.contains_key(stored(k, h)->0) && fits(m[k], *g.m@[stored(k, h)->0], h) by {
                let c = stored(k, h)->0;
                assert(o.fields.m@.contains_key(c));
                lemma_fits_inf(m[k], *o.fields.m@[c], f, h);
                lemma_fits_flag(m[k], inf_null(*o.fields.m@[c], f), *g.m@[c], h);
            }
            assert(fits_members(m, g, h));
        },
        Type::Map(x) => if !(d is Null) {
            let m = d->Obj_0;
            assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies fits(m[k], inf_null(*x.value, f), h) by { lemma_fits_inf(m[k], *x.value, f, h); }
        },
        Type::Array(a) => if !(d is Null) {
            let l = d->List_0;
            assert forall|i: int| 0 <= i < l.len() implies fits(#[trigger] l[i], inf_null(*a.items, f), h) by { lemma_fits_inf(l[i], *a.items, f, h); }
        },
        Type::Tuple(u) => if !(d is Null) {
            let l = d->List_0;
            assert(fits_tuple(l, u.items, h));
            let v = r.data_type->Tuple_0.items;
            assert(v.v@ == inf_seq(u.items, f));
            assert forall|i: int| 0 <= i < l.len() implies fits(#[trigger] l[i], v.v@[i], h) by { lemma_fits_inf(l[i], u.items.v@[i], f, h); }
            assert forall|i: int| l.len() <= i < v.v@.len() implies (#[trigger] v.v@[i]).nullable by { assert(u.items.v@[i].nullable); }
            assert(fits_tuple(l, v, h));
        },
        Type::Union(u) => {
            let v = r.data_type->Union_0.items;
            assert(v.v@ == inf_seq(u.items, f));
            lemma_fits_variant(d, t, h);
            let i = choose|i: int| 0 <= i < u.items.v@.len() && fits(d, #[trigger] u.items.v@[i], h);
            lemma_fits_inf(d, u.items.v@[i], f, h);
            assert(fits(d, v.v@[i], h));
            lemma_fits_variant(d, r, h);
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- naming

/// no two properties of an object are one column
pub open spec fn clear(d: Set<Seq<char>>, nc: bool) -> bool {
    forall|a: Seq<char>, b: Seq<char>| #[trigger] d.contains(a) && #[trigger] d.contains(b) && column(a, nc) is Some && column(a, nc) == column(b, nc) ==> a == b
}
pub open spec fn clear_in(t: Tag, nc: bool) -> bool
    decreases t
{
    match t.data_type {
        Type::Object(o) => clear(o.fields.m@.dom(), nc) && forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) ==> clear_in(*o.fields.m@[k], nc),
        Type::Map(m) => clear_in(*m.value, nc),
        Type::Array(a) => clear_in(*a.items, nc),
        Type::Tuple(u) => forall|i: int| 0 <= i < u.items.v@.len() ==> clear_in(#[trigger] u.items.v@[i], nc),
        Type::Union(u) => forall|i: int| 0 <= i < u.items.v@.len() ==> clear_in(#[trigger] u.items.v@[i], nc),
        _ => true,
    }
}
/// the first properties have their columns, the others still their names
pub open spec fn ren_exact(d: Set<Seq<char>>, i: nat, nc: bool) -> bool {
    let m = ren(d, i, nc);
    let ks = sorted_keys(d);
    &&& forall|j: int| i <= j < ks.len() ==> m.contains_key(#[trigger] ks[j]) && m[ks[j]] == ks[j]
    &&& forall|j: int| 0 <= j < i && column(#[trigger] ks[j], nc) is Some ==> m.contains_key(column(ks[j], nc)->0) && m[column(ks[j], nc)->0] == ks[j]
}
pub proof fn lemma_ren_exact(d: Set<Seq<char>>, i: nat, nc: bool)
    requires key_order(d), clear(d, nc), i <= sorted_keys(d).len()
    ensures ren_exact(d, i, nc)
    decreases i
{
    let ks = sorted_keys(d);
    if i == 0 {
        assert forall|j: int| 0 <= j < ks.len() implies ren(d, 0, nc).contains_key(#[trigger] ks[j]) && ren(d, 0, nc)[ks[j]] == ks[j] by { assert(d.contains(ks[j])); }
    } else {
        lemma_ren_exact(d, (i - 1) as nat, nc);
        let m = ren(d, (i - 1) as nat, nc);
        let k = ks[i - 1];
        let z = ren(d, i, nc);
        assert(d.contains(k));
        assert(z == ren_step(m, k, nc));
        assert(m.contains_key(k) && m[k] == k);
        lemma_column(k, nc);
        assert forall|j: int| 0 <= j < ks.len() && j != i - 1 implies d.contains(#[trigger] ks[j]) && ks[j] != k && (column(k, nc) is Some ==> ks[j] != column(k, nc)->0)
            && (column(ks[j], nc) is Some ==> column(ks[j], nc) != column(k, nc) && column(ks[j], nc)->0 != k) by {
            assert(d.contains(ks[j]));
            assert(ks[j] != k);
            lemma_column(ks[j], nc);
        }
        assert forall|j: int| i <= j < ks.len() implies z.contains_key(#[trigger] ks[j]) && z[ks[j]] == ks[j] by { assert(ks[j] != k); }
        assert forall|j: int| 0 <= j < i && column(#[trigger] ks[j], nc) is Some implies z.contains_key(column(ks[j], nc)->0) && z[column(ks[j], nc)->0] == ks[j] by {
            if j < i - 1 { assert(m.contains_key(column(ks[j], nc)->0)); }
        }
    }
}
/// a property that can be a column is the one it is called after
pub proof fn lemma_columns_exact(d: Set<Seq<char>>, k: Seq<char>, nc: bool)
    requires clear(d, nc), d.contains(k), column(k, nc) is Some
    ensures columns(d, nc).contains_key(column(k, nc)->0), columns(d, nc)[column(k, nc)->0] == k
{
    lemma_key_order(d);
    let ks = sorted_keys(d);
    lemma_ren_exact(d, ks.len(), nc);
    let j = choose|j: int| 0 <= j < ks.len() && #[trigger] ks[j] == k;
    assert(column(ks[j], nc) is Some);
}
pub proof fn lemma_fits_below(d: Doc, t: Tag, ns: Seq<char>, nc: bool)
    requires fits(d, t, None), clear_in(t, nc)
    ensures fits(d, below(t, ns, nc), Some(nc))
    decreases t
{
    let h = Some(nc);
    let r = below(t, ns, nc);
    assert(r.data_type == below_type(t.data_type, ns, nc));
    match t.data_type {
        Type::Object(o) => if !(d is Null) {
            let m = d->Obj_0;
            assert(fits_members(m, o.fields, None));
            let dom = o.fields.m@.dom();
            let g = r.data_type->Object_0.fields;
            assert(g.m@ == below_fields(o.fields, ns, nc));
            assert forall|k: Seq<char>| #[trigger] m.contains_key(k) && stored(k, h) is Some implies g.m@.contains_key(stored(k, h)->0) && fits(m[k], *g.m@[stored(k, h)->0], h) by {
                let c = stored(k, h)->0;
                assert(stored(k, None) == Some(k));
                assert(o.fields.m@.contains_key(k));
                assert(dom.contains(k));
                lemma_columns_exact(dom, k, nc);
                let x = below(*o.fields.m@[k], under(ns, c), nc);
                lemma_fits_below(m[k], *o.fields.m@[k], under(ns, c), nc);
                assert(*g.m@[c] == with_name(x, c, ns));
                lemma_fits_flag(m[k], x, *g.m@[c], h);
            }
            assert(fits_members(m, g, h));
            let q = norm_opt(o.required, nc);
            assert forall|c: Seq<char>| #[trigger] demands(q, c) implies given_for(m, c, h) by {
                let rq = o.required->0.e@;
                assert(norm_req(rq, nc).contains(c));
                let k = choose|k: Seq<char>| rq.contains(k) && #[trigger] column(k, nc) is Some && column(k, nc)->0 == c;
                assert(rq.contains(k) && column(k, nc) == Some(c));
                assert(demands(o.required, k));
                assert(given_for(m, k, None));
                assert(m.contains_key(k) && stored(k, h) == Some(c));
            }
        },
        Type::Map(x) => if !(d is Null) {
            let m = d->Obj_0;
            let v = below(*x.value, under(ns, "value"@), nc);
            assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies fits(m[k], with_name(v, "value"@, ns), h) by {
                lemma_fits_below(m[k], *x.value, under(ns, "value"@), nc);
                lemma_fits_flag(m[k], v, with_name(v, "value"@, ns), h);
            }
        },
        Type::Array(a) => if !(d is Null) {
            let l = d->List_0;
            let v = below(*a.items, under(ns, "list"@), nc);
            assert forall|i: int| 0 <= i < l.len() implies fits(#[trigger] l[i], with_name(v, "list"@, ns), h) by {
                lemma_fits_below(l[i], *a.items, under(ns, "list"@), nc);
                lemma_fits_flag(l[i], v, with_name(v, "list"@, ns), h);
            }
        },
        Type::Tuple(u) => if !(d is Null) {
            let l = d->List_0;
            assert(fits_tuple(l, u.items, None));
            let v = r.data_type->Tuple_0.items;
            assert(v.v@ == below_tuple(u.items, ns, nc));
            assert forall|i: int| 0 <= i < l.len() implies fits(#[trigger] l[i], v.v@[i], h) by {
                let x = below(u.items.v@[i], under(ns, tuple_name(i)), nc);
                lemma_fits_below(l[i], u.items.v@[i], under(ns, tuple_name(i)), nc);
                lemma_fits_flag(l[i], x, v.v@[i], h);
            }
            assert forall|i: int| l.len() <= i < v.v@.len() implies (#[trigger] v.v@[i]).nullable by { assert(u.items.v@[i].nullable); }
            assert(fits_tuple(l, v, h));
        },
        Type::Union(u) => {
            let v = r.data_type->Union_0.items;
            assert(v.v@ == below_union(u.items, ns, nc));
            lemma_fits_variant(d, t, None);
            let i = choose|i: int| 0 <= i < u.items.v@.len() && fits(d, #[trigger] u.items.v@[i], None);
            let x = below(u.items.v@[i], under(ns, "__union__"@), nc);
            lemma_fits_below(d, u.items.v@[i], under(ns, "__union__"@), nc);
            lemma_fits_flag(d, x, v.v@[i], h);
            lemma_fits_variant(d, r, h);
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- collapsing

pub proof fn lemma_col_flags(t: Tag, n: nat)
    ensures !(t_col(t, n).data_type is Union), t.nullable ==> t_col(t, n).nullable, t.data_type is Null ==> t_col(t, n) == t
    decreases n
{
    match t.data_type {
        Type::Union(u) => if n > 0 {
            let r = u_col(u.items.v@, (n - 1) as nat);
            lemma_col_flags(Tag { data_type: r.data_type, nullable: t.nullable || r.nullable, ..t }, (n - 1) as nat);
        },
        _ => {}
    }
}
pub proof fn lemma_fold_kind(s: Seq<Tag>, i: nat, n: nat)
    requires i <= s.len()
    ensures
        !(fold_atoms(s, i) is Union), !(fold_objects(s, i, n) is Union),
        fold_objects(s, i, n) is Object || fold_objects(s, i, n) == json() || (i == 0 && fold_objects(s, i, n) is Null),
    decreases i
{
    if i > 0 {
        lemma_fold_kind(s, (i - 1) as nat, n);
        let x = fold_atoms(s, (i - 1) as nat);
        assert(fold_atoms(s, i) == join_atoms(x, s[i - 1].data_type));
        assert(fold_objects(s, i, n) == join_objects(fold_objects(s, (i - 1) as nat, n), s[i - 1].data_type, n));
    }
}
pub proof fn lemma_u_kind(s: Seq<Tag>, n: nat)
    ensures !(u_col(s, n).data_type is Union)
{
    if n > 0 {
        if s.len() == 1 { lemma_col_flags(s[0], (n - 1) as nat); } else {
            let a = flat(s, s.len(), (n - 1) as nat);
            lemma_fold_kind(a, a.len(), (n - 1) as nat);
        }
    }
}
/// a document that fits a variant fits what the union collapses into
pub proof fn lemma_fits_u(d: Doc, s: Seq<Tag>, n: nat, h: Option<bool>)
    requires fits_one(d, s, h)
    ensures fits(d, u_col(s, n), h), d is Null ==> u_col(s, n).nullable
    decreases n, 0nat, 0nat
{
    let j = choose|j: int| 0 <= j < s.len() && fits(d, #[trigger] s[j], h);
    if n > 0 {
        let q = (n - 1) as nat;
        if s.len() == 1 {
            let item = t_col(s[0], q);
            lemma_fits_t(d, s[0], q, h);
            lemma_col_flags(s[0], q);
            if d is Null {
                if s[0].data_type is Null { assert(some_null(s)); } else { assert(item.nullable); }
            }
            lemma_fits_flag(d, item, u_col(s, n), h);
        } else {
            let a = flat(s, s.len(), q);
            lemma_fits_flat(d, s, s.len(), q, h, j);
            let x = plain(merged(a, q), some_null(s) || some_nullable(a));
            if d is Null {
                lemma_u_kind(s, n);
                assert(u_col(s, n) == inf_null(x, false));
                assert(u_col(s, n).nullable);
            } else {
                lemma_fits_merged(d, a, q, h);
                assert(fits(d, x, h));
                lemma_fits_inf(d, x, false, h);
                assert(u_col(s, n) == inf_null(x, false));
            }
        }
    }
}
pub proof fn lemma_fits_flat(d: Doc, s: Seq<Tag>, i: nat, n: nat, h: Option<bool>, j: int)
    requires 0 <= j < i <= s.len(), fits(d, s[j], h)
    ensures
        !(d is Null) ==> fits_one(d, flat(s, i, n), h),
        d is Null ==> some_null(s) || some_nullable(flat(s, i, n)),
    decreases n, 1nat, i
{
    let x = s[i - 1];
    let b = flat(s, (i - 1) as nat, n);
    let r = flat(s, i, n);
    if j < i - 1 {
        lemma_fits_flat(d, s, (i - 1) as nat, n, h, j);
        if !(d is Null) {
            let k = choose|k: int| 0 <= k < b.len() && fits(d, #[trigger] b[k], h);
            assert(r[k] == b[k]);
        } else if some_nullable(b) {
            let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).nullable;
            assert(r[k] == b[k]);
        }
    } else {
        match x.data_type {
            Type::Null => { assert(some_null(s)); }
            Type::Union(u) => {
                lemma_fits_variant(d, x, h);
                lemma_fits_u(d, u.items.v@, n, h);
                let y = Tag { name: x.name, ..u_col(u.items.v@, n) };
                assert(r == b.push(y));
                assert(r[b.len() as int] == y);
                lemma_fits_flag(d, u_col(u.items.v@, n), y, h);
            }
            _ => { assert(r[b.len() as int] == x); }
        }
    }
}
pub proof fn lemma_fits_merged(d: Doc, s: Seq<Tag>, n: nat, h: Option<bool>)
    requires fits_one(d, s, h), !(d is Null)
    ensures fits_type(d, merged(s, n), h)
    decreases n, 2nat, 0nat
{
    let j = choose|j: int| 0 <= j < s.len() && fits(d, #[trigger] s[j], h);
    if all_atoms(s) { lemma_fits_atoms(d, s, s.len(), j, h); }
    else if all_objects(s) { lemma_fits_objects(d, s, s.len(), n, h, j); }
    else if all_maps(s) {
        let v = map_values(s);
        let m = d->Obj_0;
        assert(s[j].data_type is Map);
        assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies fits(m[k], u_col(v, n), h) by {
            assert(fits(m[k], v[j], h));
            lemma_fits_u(m[k], v, n, h);
        }
    } else if all_arrays(s) {
        let v = array_items(s);
        let l = d->List_0;
        assert(s[j].data_type is Array);
        assert forall|i: int| 0 <= i < l.len() implies fits(#[trigger] l[i], u_col(v, n), h) by {
            assert(fits(l[i], v[j], h));
            lemma_fits_u(l[i], v, n, h);
        }
    }
}
pub proof fn lemma_fits_atoms(d: Doc, s: Seq<Tag>, i: nat, j: int, h: Option<bool>)
    requires all_atoms(s), 0 <= j < i <= s.len(), fits(d, s[j], h), !(d is Null)
    ensures fits_type(d, fold_atoms(s, i), h), fold_atoms(s, i) is Atom
    decreases i
{
    let x = fold_atoms(s, (i - 1) as nat);
    let y = s[i - 1].data_type;
    assert(s[i - 1].data_type is Atom);
    assert(fold_atoms(s, i) == join_atoms(x, y));
    lemma_fold_atoms(s, (i - 1) as nat);
    if j < i - 1 { lemma_fits_atoms(d, s, (i - 1) as nat, j, h); }
}
pub proof fn lemma_fits_objects(d: Doc, s: Seq<Tag>, i: nat, n: nat, h: Option<bool>, j: int)
    requires all_objects(s), 0 <= j < i <= s.len(), fits(d, s[j], h), !(d is Null)
    ensures fits_type(d, fold_objects(s, i, n), h)
    decreases n, 1nat, i
{
    let x = fold_objects(s, (i - 1) as nat, n);
    let y = s[i - 1].data_type;
    assert(y is Object);
    lemma_fold_kind(s, (i - 1) as nat, n);
    if j < i - 1 { lemma_fits_objects(d, s, (i - 1) as nat, n, h, j); }
    assert(fold_objects(s, i, n) == join_objects(x, y, n));
    if x is Object {
        lemma_fits_join(d, x->Object_0, y->Object_0, n, h);
    }
}
/// a member fits the type its key has on one side, and so what the two sides give
pub proof fn lemma_fits_member(d: Doc, x: HashMap<Box<Tag>>, y: HashMap<Box<Tag>>, c: Seq<char>, left: bool, n: nat, h: Option<bool>)
    requires (if left { x.m@.contains_key(c) && fits(d, *x.m@[c], h) } else { y.m@.contains_key(c) && fits(d, *y.m@[c], h) })
    ensures merge_fields(x.m@, y.m@, n).contains_key(c), fits(d, merge_fields(x.m@, y.m@, n)[c], h)
    decreases n, 0nat, 1nat
{
    let l = x.m@;
    let r = y.m@;
    assert(l.dom().contains(c) || r.dom().contains(c));
    let v = parts(l, r, c);
    if left { assert(v[0] == *l[c]); } else { assert(v[v.len() - 1] == *r[c]); }
    assert(fits_one(d, v, h));
    lemma_fits_u(d, v, n, h);
}
pub proof fn lemma_fits_joined_members(m: Map<Seq<char>, Doc>, x: HashMap<Box<Tag>>, y: HashMap<Box<Tag>>, left: bool, n: nat, h: Option<bool>)
    requires fits_members(m, if left { x } else { y }, h)
    ensures fits_members(m, hm(boxed(merge_fields(x.m@, y.m@, n))), h)
    decreases n, 0nat, 2nat
{
    let z = hm(boxed(merge_fields(x.m@, y.m@, n)));
    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) && stored(k, h) is Some implies z.m@.contains_key(stored(k, h)->0) && fits(m[k], *z.m@[stored(k, h)->0], h) by {
        let c = stored(k, h)->0;
        lemma_fits_member(m[k], x, y, c, left, n, h);
        assert(*z.m@[c] == merge_fields(x.m@, y.m@, n)[c]);
    }
}
pub proof fn lemma_fits_join(d: Doc, x: Object, y: Object, n: nat, h: Option<bool>)
    requires fits_type(d, Type::Object(x), h) || fits_type(d, Type::Object(y), h), !(d is Null)
    ensures fits_type(d, join_objects(Type::Object(x), Type::Object(y), n), h)
    decreases n, 0nat, 3nat
{
    let f = merge_fields(x.fields.m@, y.fields.m@, n);
    if !conflict(f) {
        let z = Object { fields: hm(boxed(f)), required: both_req(x.required, y.required) };
        let m = d->Obj_0;
        let left = fits_type(d, Type::Object(x), h);
        let o = if left { x } else { y };
        lemma_fits_joined_members(m, x.fields, y.fields, left, n, h);
        assert forall|c: Seq<char>| #[trigger] demands(z.required, c) implies given_for(m, c, h) by { assert(demands(o.required, c)); }
    }
}
pub proof fn lemma_fits_t(d: Doc, t: Tag, n: nat, h: Option<bool>)
    requires fits(d, t, h)
    ensures fits(d, t_col(t, n), h), d is Null && !(t.data_type is Null) ==> t_col(t, n).nullable
    decreases n, 3nat, 0nat, t
{
    let r = t_col(t, n);
    match t.data_type {
        Type::Union(u) => if n > 0 {
            let q = (n - 1) as nat;
            let x = u_col(u.items.v@, q);
            lemma_fits_variant(d, t, h);
            lemma_fits_u(d, u.items.v@, q, h);
            lemma_u_kind(u.items.v@, q);
            let y = Tag { data_type: x.data_type, nullable: t.nullable || x.nullable, ..t };
            lemma_fits_flag(d, x, y, h);
            lemma_fits_t(d, y, q, h);
            lemma_col_flags(y, q);
        },
        Type::Object(o) => if !(d is Null) {
            let m = d->Obj_0;
            assert(fits_members(m, o.fields, h));
            let g = r.data_type->Object_0.fields;
            assert(g.m@ == col_fields(o.fields, n));
            assert forall|k: Seq<char>| #[trigger] m.contains_key(k) && stored(k, h) is Some implies g.m@.contains_key(stored(k, h)->0) && fits(m[k], *g.m@[stored(k, h)->0], h) by {
                let c = stored(k, h)->0;
                assert(o.fields.m@.contains_key(c));
                lemma_fits_t(m[k], *o.fields.m@[c], n, h);
            }
            assert(fits_members(m, g, h));
        },
        Type::Map(x) => if !(d is Null) {
            let m = d->Obj_0;
            assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies fits(m[k], t_col(*x.value, n), h) by { lemma_fits_t(m[k], *x.value, n, h); }
        },
        Type::Array(a) => if !(d is Null) {
            let l = d->List_0;
            assert forall|i: int| 0 <= i < l.len() implies fits(#[trigger] l[i], t_col(*a.items, n), h) by { lemma_fits_t(l[i], *a.items, n, h); }
        },
        Type::Tuple(u) => if !(d is Null) {
            let l = d->List_0;
            assert(fits_tuple(l, u.items, h));
            let v = r.data_type->Tuple_0.items;
            assert(v.v@ == col_seq(u.items, n));
            assert forall|i: int| 0 <= i < l.len() implies fits(#[trigger] l[i], v.v@[i], h) by { lemma_fits_t(l[i], u.items.v@[i], n, h); }
            assert forall|i: int| l.len() <= i < v.v@.len() implies (#[trigger] v.v@[i]).nullable by { assert(u.items.v@[i].nullable); lemma_col_flags(u.items.v@[i], n); }
            assert(fits_tuple(l, v, h));
        },
        _ => {}
    }
}

// ---------------------------------------------------------------- the root

/// a valid document fits the core of what is generated
pub proof fn lemma_fits_core(d: Doc, v: Value, c: Context)
    requires
        read_ok(v, c), valid(d, schema_in(v), c.tuple_struct),
        clear_in(s2a(schema_in(v), c.tuple_struct)->0, c.normalize_case),
    ensures fits(d, core_of(v, c), Some(c.normalize_case)), done(core_of(v, c), c.normalize_case, c.force_nullable)
{
    let s = schema_in(v);
    let nc = c.normalize_case;
    let h = Some(nc);
    let f = c.force_nullable;
    theorem_closed(v, c);
    lemma_sound_options(s, c);
    lemma_valid(d, s, c.tuple_struct);
    let t = s2a(s, c.tuple_struct)->0;
    lemma_fits_below(d, t, base(t), nc);
    lemma_fits_inf(d, inf_name(t, nc), f, h);
    let a = tag_in(v, c);
    lemma_fits_flag(d, inf_null(inf_name(t, nc), f), a, h);
    let n = lemma_col_at(a);
    assert(t_col(a, n) == col(a));
    lemma_fits_t(d, a, n, h);
    lemma_fits_inf(d, col(a), f, h);
    lemma_fits_er(d, inf_null(col(a), f), h);
}

// ---------------------------------------------------------------- documents and tables

/// a value, not null, of a column's type; a column of strings keeps anything as JSON
pub open spec fn bq_atom_takes(d: Doc, a: bigquery::Atom) -> bool {
    match a {
        bigquery::Atom::Bool => d is Bool,
        bigquery::Atom::Int64 => d is Int,
        bigquery::Atom::Float64 => d is Int || d is Frac,
        bigquery::Atom::Timestamp => d is Str && instant(d->Str_0),
        bigquery::Atom::Bytes => d is Str && base64(d->Str_0),
        bigquery::Atom::String => !(d is Null),
        bigquery::Atom::Json => !(d is Null),
        _ => false,
    }
}
pub open spec fn holds_bq(d: Doc, t: bigquery::Type, nc: bool) -> bool
    decreases t, 0nat
{
    match t {
        bigquery::Type::Atom(a) => bq_atom_takes(d, a),
        bigquery::Type::Record(r) => match d {
            Doc::Obj(m) => record_takes(m, r, nc) || list_takes(d, r, nc),
            Doc::List(l) => tuple_takes(l, r, nc) || list_takes(d, r, nc),
            _ => false,
        },
    }
}
/// all members have columns, and nothing required is absent
pub open spec fn record_takes(m: Map<Seq<char>, Doc>, r: bigquery::Record, nc: bool) -> bool
    decreases r, 0nat
{
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) && column(k, nc) is Some ==> r.fields.m@.contains_key(column(k, nc)->0) && col_takes(m[k], *r.fields.m@[column(k, nc)->0], nc)
    &&& forall|j: Seq<char>| #[trigger] r.fields.m@.contains_key(j) ==> given_for(m, j, Some(nc)) || !(r.fields.m@[j].mode is Required)
}
pub open spec fn positioned(k: Seq<char>, n: nat) -> bool { exists|i: int| 0 <= i < n && #[trigger] tuple_name(i) == k }
pub open spec fn tuple_takes(l: Seq<Doc>, r: bigquery::Record, nc: bool) -> bool
    decreases r, 0nat
{
    &&& forall|i: int| 0 <= i < l.len() ==> r.fields.m@.contains_key(tuple_name(i)) && col_takes(#[trigger] l[i], *r.fields.m@[tuple_name(i)], nc)
    &&& forall|j: Seq<char>| #[trigger] r.fields.m@.contains_key(j) ==> positioned(j, l.len()) || !(r.fields.m@[j].mode is Required)
}
/// a list or a map within a list is wrapped
pub open spec fn list_takes(d: Doc, r: bigquery::Record, nc: bool) -> bool
    decreases r, 0nat
{
    only(r, "list"@) && r.fields.m@.contains_key("list"@) && r.fields.m@["list"@].mode is Repeated && col_takes(d, *r.fields.m@["list"@], nc)
}
pub open spec fn col_takes(d: Doc, t: bigquery::Tag, nc: bool) -> bool
    decreases t, 0nat
{
    match t.mode {
        bigquery::Mode::Required => !(d is Null) && holds_bq(d, *t.data_type, nc),
        bigquery::Mode::Nullable => d is Null || holds_bq(d, *t.data_type, nc),
        bigquery::Mode::Repeated => d is Null || each_takes(d, *t.data_type, nc),
    }
}
/// the values of a repeated column: of a list, where null is left out, or the entries of a map
pub open spec fn each_takes(d: Doc, t: bigquery::Type, nc: bool) -> bool
    decreases t, 1nat
{
    match d {
        Doc::List(l) => forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) is Null || holds_bq(l[i], t, nc),
        Doc::Obj(m) => t is Record && entries_take(m, t->Record_0, nc),
        _ => false,
    }
}
pub open spec fn entries_take(m: Map<Seq<char>, Doc>, r: bigquery::Record, nc: bool) -> bool
    decreases r, 0nat
{
    &&& only_two(r, "key"@, "value"@) && r.fields.m@.contains_key("key"@) && r.fields.m@.contains_key("value"@)
    &&& is_string(*r.fields.m@["key"@].data_type)
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> col_takes(m[k], *r.fields.m@["value"@], nc)
}
pub open spec fn row_takes(d: Doc, r: bigquery::Record, nc: bool) -> bool { d is Null || holds_bq(d, bigquery::Type::Record(r), nc) }
/// a row of the table; a table that is not one of columns has the one called root
pub open spec fn table_takes(d: Doc, s: bigquery::Schema, nc: bool) -> bool {
    ||| exists|r: bigquery::Record| #[trigger] row_takes(d, r, nc) && rows(s) == rows_of(r)
    ||| rows(s).len() == 1 && rows(s)[0].name == Some(st("root"@)) && col_takes(d, rows(s)[0], nc)
}

pub proof fn lemma_takes_null(w: Tag, nc: bool, f: bool)
    requires done(w, nc, f), takes_null(w)
    ensures w.nullable
{
}
pub proof fn lemma_fits_col(d: Doc, k: Seq<char>, w: Tag, p: Seq<char>, c: Context)
    requires done(w, c.normalize_case, c.force_nullable), cast(c), fits(d, w, Some(c.normalize_case))
    ensures bqw(w, p, c) is Val, col_takes(d, column_of(k, w, bqw(w, p, c)->Val_0), c.normalize_case)
    decreases w, 2nat
{
    lemma_pair(w, k, p, p, c);
    if d is Null { lemma_takes_null(w, c.normalize_case, c.force_nullable); } else { lemma_fits_bq(d, w, p, c); }
}
pub proof fn lemma_fits_bq(d: Doc, w: Tag, p: Seq<char>, c: Context)
    requires done(w, c.normalize_case, c.force_nullable), cast(c), fits(d, w, Some(c.normalize_case)), !(d is Null)
    ensures
        bqw(w, p, c) is Val,
        if repeated(w) { each_takes(d, bqw(w, p, c)->Val_0, c.normalize_case) } else { holds_bq(d, bqw(w, p, c)->Val_0, c.normalize_case) },
    decreases w, 1nat
{
    match w.data_type {
        Type::Object(_) => { lemma_fits_bq_obj(d, w, p, c); }
        Type::Tuple(_) => { lemma_fits_bq_tuple(d, w, p, c); }
        Type::Array(_) => { lemma_fits_bq_list(d, w, p, c); }
        Type::Map(_) => { lemma_fits_bq_map(d, w, p, c); }
        _ => {
            lemma_pair(w, "x"@, p, p, c);
            lemma_done_kids(w, c);
        }
    }
}
pub proof fn lemma_fits_bq_obj(d: Doc, w: Tag, p: Seq<char>, c: Context)
    requires done(w, c.normalize_case, c.force_nullable), cast(c), fits(d, w, Some(c.normalize_case)), !(d is Null), w.data_type is Object
    ensures
        bqw(w, p, c) is Val,
        if repeated(w) { each_takes(d, bqw(w, p, c)->Val_0, c.normalize_case) } else { holds_bq(d, bqw(w, p, c)->Val_0, c.normalize_case) },
    decreases w, 0nat
{
    let nc = c.normalize_case;
    let h = Some(nc);
    let t = bqw(w, p, c)->Val_0;
    lemma_pair(w, "x"@, p, p, c);
    lemma_done_kids(w, c);
    let o = w.data_type->Object_0;
    let m = d->Obj_0;
    assert(fits_members(m, o.fields, h));
    let f = bqw_fields(o.fields, p, c);
    assert forall|j: Seq<char>| #[trigger] o.fields.m@.contains_key(j) implies f[j] is Val && f[j]->Val_0 == column_of(j, *o.fields.m@[j], bqw(*o.fields.m@[j], join(p, j), c)->Val_0) by {
        lemma_pair(*o.fields.m@[j], j, join(p, j), p, c);
    }
    if !(kept(f) =~= Set::empty()) {
        let r = bigquery::Record { fields: hm(vals(f)) };
        assert(t == bq_record(vals(f)));
        assert(r.fields.m@ == vals(f));
        assert forall|k: Seq<char>| #[trigger] m.contains_key(k) && column(k, nc) is Some implies r.fields.m@.contains_key(column(k, nc)->0) && col_takes(m[k], *r.fields.m@[column(k, nc)->0], nc) by {
            let j = column(k, nc)->0;
            assert(stored(k, h) == Some(j));
            assert(o.fields.m@.contains_key(j));
            assert(f.dom().contains(j));
            assert(kept(f).contains(j));
            lemma_fits_col(m[k], j, *o.fields.m@[j], join(p, j), c);
        }
        assert forall|j: Seq<char>| #[trigger] r.fields.m@.contains_key(j) implies given_for(m, j, h) || !(r.fields.m@[j].mode is Required) by {
            assert(kept(f).contains(j));
            assert(o.fields.m@.contains_key(j));
            if !given_for(m, j, h) { assert(!demands(o.required, j)); assert(o.fields.m@[j].nullable); }
        }
        assert(record_takes(m, r, nc));
    }
}
pub proof fn lemma_fits_bq_tuple(d: Doc, w: Tag, p: Seq<char>, c: Context)
    requires done(w, c.normalize_case, c.force_nullable), cast(c), fits(d, w, Some(c.normalize_case)), !(d is Null), w.data_type is Tuple
    ensures
        bqw(w, p, c) is Val,
        if repeated(w) { each_takes(d, bqw(w, p, c)->Val_0, c.normalize_case) } else { holds_bq(d, bqw(w, p, c)->Val_0, c.normalize_case) },
    decreases w, 0nat
{
    let nc = c.normalize_case;
    let h = Some(nc);
    let t = bqw(w, p, c)->Val_0;
    lemma_pair(w, "x"@, p, p, c);
    lemma_done_kids(w, c);
    let u = w.data_type->Tuple_0;
    let l = d->List_0;
    assert(fits_tuple(l, u.items, h));
    let f = bqw_seq(u.items, p, c);
    assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i]) is Val && f[i]->Val_0 == column_of(tuple_name(i), u.items.v@[i], bqw(u.items.v@[i], join(p, tuple_name(i)), c)->Val_0) by {
        lemma_pair(u.items.v@[i], tuple_name(i), join(p, tuple_name(i)), p, c);
    }
    if f.len() > 0 {
        assert(!seq_aborts(f)) by { if seq_aborts(f) { let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]) is Abort; assert(f[i] is Val); } }
        assert(!seq_fails(f)) by { if seq_fails(f) { let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]) is Err; assert(f[i] is Val); } }
        let m = bq_tuple(f, f.len());
        lemma_bq_tuple(f, f.len());
        let r = bigquery::Record { fields: hm(m) };
        assert(t == bq_record(m));
        assert(r.fields.m@ == m);
        assert forall|i: int| 0 <= i < f.len() implies m.contains_key(#[trigger] tuple_name(i)) && *m[tuple_name(i)] == f[i]->Val_0 by { assert(f[i] is Val); }
        assert forall|i: int| 0 <= i < l.len() implies r.fields.m@.contains_key(tuple_name(i)) && col_takes(#[trigger] l[i], *r.fields.m@[tuple_name(i)], nc) by {
            assert(f[i] is Val);
            lemma_fits_col(l[i], tuple_name(i), u.items.v@[i], join(p, tuple_name(i)), c);
        }
        assert forall|j: Seq<char>| #[trigger] r.fields.m@.contains_key(j) implies positioned(j, l.len()) || !(r.fields.m@[j].mode is Required) by {
            let i = choose|i: int| 0 <= i < f.len() && #[trigger] tuple_name(i) == j;
            assert(f[i] is Val);
            if i >= l.len() { assert(u.items.v@[i].nullable); }
        }
        assert(tuple_takes(l, r, nc));
    }
}
pub proof fn lemma_fits_bq_list(d: Doc, w: Tag, p: Seq<char>, c: Context)
    requires done(w, c.normalize_case, c.force_nullable), cast(c), fits(d, w, Some(c.normalize_case)), !(d is Null), w.data_type is Array
    ensures
        bqw(w, p, c) is Val,
        if repeated(w) { each_takes(d, bqw(w, p, c)->Val_0, c.normalize_case) } else { holds_bq(d, bqw(w, p, c)->Val_0, c.normalize_case) },
    decreases w, 0nat
{
    let nc = c.normalize_case;
    let h = Some(nc);
    let t = bqw(w, p, c)->Val_0;
    lemma_pair(w, "x"@, p, p, c);
    lemma_done_kids(w, c);
    let a = w.data_type->Array_0;
    let l = d->List_0;
    let e = *a.items;
    let q = join(p, "list"@);
    lemma_pair(e, "list"@, q, p, c);
    let x = bqw(e, q, c)->Val_0;
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]) is Null || holds_bq(l[i], t, nc) by {
        if !(l[i] is Null) {
            lemma_fits_bq(l[i], e, q, c);
            if repeated(e) {
                let k = column_of("list"@, e, x);
                let m = one("list"@, k);
                let r = bigquery::Record { fields: hm(m) };
                assert(t == bq_record(m));
                assert(r.fields.m@ == m && m.contains_key("list"@) && *m["list"@] == k);
                assert(col_takes(l[i], k, nc));
                assert(list_takes(l[i], r, nc));
                assert(l[i] is List || l[i] is Obj);
            }
        }
    }
}
pub proof fn lemma_fits_bq_map(d: Doc, w: Tag, p: Seq<char>, c: Context)
    requires done(w, c.normalize_case, c.force_nullable), cast(c), fits(d, w, Some(c.normalize_case)), !(d is Null), w.data_type is Map
    ensures
        bqw(w, p, c) is Val,
        if repeated(w) { each_takes(d, bqw(w, p, c)->Val_0, c.normalize_case) } else { holds_bq(d, bqw(w, p, c)->Val_0, c.normalize_case) },
    decreases w, 0nat
{
    let nc = c.normalize_case;
    let h = Some(nc);
    let t = bqw(w, p, c)->Val_0;
    lemma_pair(w, "x"@, p, p, c);
    lemma_done_kids(w, c);
    let y = w.data_type->Map_0;
    reveal_strlit("key"); reveal_strlit("value");
    assert("key"@.len() != "value"@.len());
    let m = d->Obj_0;
    let e = *y.value;
    let q = join(p, "value"@);
    lemma_pair(e, "value"@, q, p, c);
    let x = bqw(e, q, c)->Val_0;
    let k0 = column_of("value"@, e, x);
    let s = one("key"@, key_column(*y.key, c)).insert("value"@, Box::new(k0));
    let r = bigquery::Record { fields: hm(s) };
    assert(t == bq_record(s));
    assert(r.fields.m@ == s);
    assert(*s["value"@] == k0);
    assert(*s["key"@] == key_column(*y.key, c));
    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies col_takes(m[k], *r.fields.m@["value"@], nc) by { lemma_fits_col(m[k], "value"@, e, q, c); }
    assert(entries_take(m, r, nc));
}

// ---------------------------------------------------------------- documents and Avro types

pub open spec fn prim_takes(d: Doc, a: avro::Primitive) -> bool {
    match a {
        avro::Primitive::Null => d is Null,
        avro::Primitive::Boolean => d is Bool,
        avro::Primitive::Int => d is Int,
        avro::Primitive::Long => d is Int,
        avro::Primitive::Float => d is Int || d is Frac,
        avro::Primitive::Double => d is Int || d is Frac,
        avro::Primitive::Bytes => d is Str && base64(d->Str_0),
        avro::Primitive::String => !(d is Null),
    }
}
pub open spec fn av_takes(d: Doc, t: avro::Type, nc: bool) -> bool
    decreases t
{
    match t {
        avro::Type::Primitive(a) => prim_takes(d, a),
        avro::Type::Union(v) => exists|i: int| 0 <= i < v.v@.len() && av_takes(d, #[trigger] v.v@[i], nc),
        avro::Type::Complex(avro::Complex::Array(a)) => d is List && forall|i: int| 0 <= i < d->List_0.len() ==> av_takes(#[trigger] d->List_0[i], *a.items, nc),
        avro::Type::Complex(avro::Complex::Map(m)) => d is Obj && forall|k: Seq<char>| #[trigger] d->Obj_0.contains_key(k) ==> av_takes(d->Obj_0[k], *m.values, nc),
        avro::Type::Complex(avro::Complex::Record(r)) => list_field(d, r.fields, nc) || match d {
            Doc::Obj(m) => fields_take(m, r.fields, nc),
            Doc::List(l) => places_take(l, r.fields, nc),
            _ => false,
        },
        _ => false,
    }
}
/// a list within a list is wrapped
pub open spec fn list_field(d: Doc, f: Vec<avro::Field>, nc: bool) -> bool
    decreases f
{
    f.v@.len() == 1 && f.v@[0].name == st("list"@) && av_takes(d, f.v@[0].data_type, nc)
}
pub open spec fn defaulted(f: avro::Field) -> bool { f.default == Some(Value::Null) }
/// all members have fields, and what is absent is null by default
pub open spec fn fields_take(m: Map<Seq<char>, Doc>, f: Vec<avro::Field>, nc: bool) -> bool
    decreases f
{
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) && column(k, nc) is Some ==> same_data::has_field(f, column(k, nc)->0)
    &&& forall|k: Seq<char>, i: int| #[trigger] m.contains_key(k) && 0 <= i < f.v@.len() && column(k, nc) == Some((#[trigger] f.v@[i]).name.s@) ==> av_takes(m[k], f.v@[i].data_type, nc)
    &&& forall|i: int| 0 <= i < f.v@.len() ==> given_for(m, (#[trigger] f.v@[i]).name.s@, Some(nc)) || (defaulted(f.v@[i]) && av_takes(Doc::Null, f.v@[i].data_type, nc))
}
pub open spec fn places_take(l: Seq<Doc>, f: Vec<avro::Field>, nc: bool) -> bool
    decreases f
{
    &&& l.len() <= f.v@.len()
    &&& forall|i: int| 0 <= i < f.v@.len() ==> (#[trigger] f.v@[i]).name.s@ == tuple_name(i)
    &&& forall|i: int| 0 <= i < l.len() ==> av_takes(#[trigger] l[i], f.v@[i].data_type, nc)
    &&& forall|i: int| l.len() <= i < f.v@.len() ==> defaulted(#[trigger] f.v@[i]) && av_takes(Doc::Null, f.v@[i].data_type, nc)
}
pub proof fn lemma_av_choice(d: Doc, v: Vec<avro::Type>, i: int, nc: bool)
    requires 0 <= i < v.v@.len(), av_takes(d, v.v@[i], nc)
    ensures av_takes(d, avro::Type::Union(v), nc)
{
    let t = avro::Type::Union(v);
    assert(t->Union_0 == v);
    assert(t is Union);
    let j = i;
    assert(0 <= j < t->Union_0.v@.len() && av_takes(d, t->Union_0.v@[j], nc));
    assert(exists|i: int| 0 <= i < v.v@.len() && av_takes(d, #[trigger] v.v@[i], nc));
}
pub proof fn lemma_av_null(w: Tag, x: avro::Type, nc: bool)
    requires w.nullable, w.data_type is Null ==> x == av_prim(avro::Primitive::Null)
    ensures av_takes(Doc::Null, av_wrap(w, x), nc)
{
    let n = av_prim(avro::Primitive::Null);
    assert(prim_takes(Doc::Null, avro::Primitive::Null));
    assert(av_takes(Doc::Null, n, nc));
    let v: Vec<avro::Type> = vc(seq![n, x]);
    assert(v.v@ == seq![n, x]);
    if w.data_type is Null { assert(av_wrap(w, x) == x); } else {
        assert(av_wrap(w, x) == avro::Type::Union(v));
        lemma_av_choice(Doc::Null, v, 0, nc);
    }
}
pub proof fn lemma_av_other(d: Doc, w: Tag, x: avro::Type, nc: bool)
    requires av_takes(d, x, nc)
    ensures av_takes(d, av_wrap(w, x), nc)
{
    let v: Vec<avro::Type> = vc(seq![av_prim(avro::Primitive::Null), x]);
    assert(v.v@ == seq![av_prim(avro::Primitive::Null), x]);
    if w.nullable && !(w.data_type is Null) {
        assert(av_wrap(w, x) == avro::Type::Union(v));
        lemma_av_choice(d, v, 1, nc);
    } else { assert(av_wrap(w, x) == x); }
}
pub proof fn lemma_fits_field(d: Doc, k: Seq<char>, w: Tag, p: Seq<char>, c: Context)
    requires done(w, c.normalize_case, c.force_nullable), cast(c), fits(d, w, Some(c.normalize_case))
    ensures avw(w, k, p, c) is Val, av_takes(d, av_wrap(w, avw(w, k, p, c)->Val_0), c.normalize_case)
    decreases w, 1nat
{
    lemma_pair(w, k, p, p, c);
    let x = avw(w, k, p, c)->Val_0;
    if d is Null {
        lemma_takes_null(w, c.normalize_case, c.force_nullable);
        lemma_av_null(w, x, c.normalize_case);
    } else {
        lemma_fits_av(d, k, w, p, c);
        lemma_av_other(d, w, x, c.normalize_case);
    }
}
pub proof fn lemma_fits_av(d: Doc, k: Seq<char>, w: Tag, p: Seq<char>, c: Context)
    requires done(w, c.normalize_case, c.force_nullable), cast(c), fits(d, w, Some(c.normalize_case)), !(d is Null)
    ensures avw(w, k, p, c) is Val, av_takes(d, avw(w, k, p, c)->Val_0, c.normalize_case)
    decreases w, 0nat
{
    let nc = c.normalize_case;
    let h = Some(nc);
    let q = join(p, k);
    let t = avw(w, k, p, c)->Val_0;
    lemma_pair(w, k, p, p, c);
    lemma_done_kids(w, c);
    match w.data_type {
        Type::Object(o) => {
            let m = d->Obj_0;
            assert(fits_members(m, o.fields, h));
            let f = avw_fields(o.fields, q, c);
            assert forall|j: Seq<char>| #[trigger] o.fields.m@.contains_key(j) implies f[j] is Val && f[j]->Val_0 == av_wrap(*o.fields.m@[j], avw(*o.fields.m@[j], j, q, c)->Val_0) by {
                lemma_pair(*o.fields.m@[j], j, join(p, j), q, c);
            }
            if !(kept(f) =~= Set::empty()) {
                let s = av_fields(o.fields, f);
                let v = vc(s);
                assert(t == av_rec(k, p, s));
                lemma_key_order(kept(f));
                let ks = sorted_keys(kept(f));
                assert forall|i: int| 0 <= i < v.v@.len() implies kept(f).contains(ks[i]) && o.fields.m@.contains_key(ks[i]) && #[trigger] v.v@[i] == av_field(ks[i], f[ks[i]]->Val_0, o.fields.m@[ks[i]].nullable) by {
                    assert(kept(f).contains(ks[i]));
                    assert(f.dom().contains(ks[i]));
                }
                assert forall|a: Seq<char>| #[trigger] m.contains_key(a) && column(a, nc) is Some implies same_data::has_field(v, column(a, nc)->0) by {
                    let j = column(a, nc)->0;
                    assert(stored(a, h) == Some(j));
                    assert(o.fields.m@.contains_key(j));
                    assert(f.dom().contains(j));
                    assert(kept(f).contains(j));
                    let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == j;
                    assert(v.v@[i].name == st(j));
                }
                assert forall|a: Seq<char>, i: int| #[trigger] m.contains_key(a) && 0 <= i < v.v@.len() && column(a, nc) == Some((#[trigger] v.v@[i]).name.s@) implies av_takes(m[a], v.v@[i].data_type, nc) by {
                    let j = ks[i];
                    assert(v.v@[i] == av_field(j, f[j]->Val_0, o.fields.m@[j].nullable));
                    assert(st(j).s@ == j);
                    assert(stored(a, h) == Some(j));
                    assert(o.fields.m@.contains_key(j));
                    lemma_fits_field(m[a], j, *o.fields.m@[j], q, c);
                }
                assert forall|i: int| 0 <= i < v.v@.len() implies given_for(m, (#[trigger] v.v@[i]).name.s@, h) || (defaulted(v.v@[i]) && av_takes(Doc::Null, v.v@[i].data_type, nc)) by {
                    let j = ks[i];
                    assert(v.v@[i] == av_field(j, f[j]->Val_0, o.fields.m@[j].nullable));
                    assert(st(j).s@ == j);
                    assert(o.fields.m@.contains_key(j));
                    if !given_for(m, j, h) {
                        assert(!demands(o.required, j));
                        let e = *o.fields.m@[j];
                        assert(e.nullable);
                        lemma_av_null(e, avw(e, j, q, c)->Val_0, nc);
                    }
                }
                assert(fields_take(m, v, nc));
                assert(t->Complex_0->Record_0.fields == v);
            }
        }
        Type::Tuple(u) => {
            let l = d->List_0;
            assert(fits_tuple(l, u.items, h));
            let f = avw_seq(u.items, q, c);
            assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i]) is Val && f[i]->Val_0 == av_wrap(u.items.v@[i], avw(u.items.v@[i], tuple_name(i), q, c)->Val_0) by {
                lemma_pair(u.items.v@[i], tuple_name(i), join(p, tuple_name(i)), q, c);
            }
            assert(!seq_aborts(f)) by { if seq_aborts(f) { let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]) is Abort; assert(f[i] is Val); } }
            lemma_tuple_all(u.items.v@, f, f.len());
            let r = av_tuple(u.items.v@, f, f.len());
            if r.len() > 0 {
                let v = vc(r);
                assert(t == av_rec(k, p, r));
                assert forall|i: int| 0 <= i < v.v@.len() implies (#[trigger] v.v@[i]).name.s@ == tuple_name(i) && v.v@[i] == av_field(tuple_name(i), f[i]->Val_0, u.items.v@[i].nullable) by {
                    assert(v.v@[i] == r[i]);
                    assert(st(tuple_name(i)).s@ == tuple_name(i));
                }
                assert forall|i: int| 0 <= i < l.len() implies av_takes(#[trigger] l[i], v.v@[i].data_type, nc) by {
                    assert(f[i] is Val);
                    lemma_fits_field(l[i], tuple_name(i), u.items.v@[i], q, c);
                    assert(v.v@[i].name.s@ == tuple_name(i));
                }
                assert forall|i: int| l.len() <= i < v.v@.len() implies defaulted(#[trigger] v.v@[i]) && av_takes(Doc::Null, v.v@[i].data_type, nc) by {
                    let e = u.items.v@[i];
                    assert(f[i] is Val);
                    assert(e.nullable);
                    assert(v.v@[i].name.s@ == tuple_name(i));
                    lemma_av_null(e, avw(e, tuple_name(i), q, c)->Val_0, nc);
                }
                assert(places_take(l, v, nc));
                assert(t->Complex_0->Record_0.fields == v);
            }
        }
        Type::Array(a) => {
            let l = d->List_0;
            let e = *a.items;
            lemma_pair(e, "list"@, join(p, "list"@), q, c);
            let x = avw(e, "list"@, q, c)->Val_0;
            let z = av_wrap(e, x);
            let fs = seq![av_field("list"@, z, e.nullable)];
            let v = vc(fs);
            assert(v.v@.len() == 1 && v.v@[0] == fs[0]);
            let y = if e.data_type is Array { av_rec(k, p, fs) } else { z };
            assert(t == av_list(y));
            assert forall|i: int| 0 <= i < l.len() implies av_takes(#[trigger] l[i], y, nc) by {
                lemma_fits_field(l[i], "list"@, e, q, c);
                if e.data_type is Array {
                    assert(list_field(l[i], v, nc));
                    assert(y->Complex_0->Record_0.fields == v);
                }
            }
        }
        Type::Map(y) => {
            let m = d->Obj_0;
            let e = *y.value;
            lemma_pair(e, "value"@, join(p, "value"@), q, c);
            let x = avw(e, "value"@, q, c)->Val_0;
            assert(t == av_map(av_wrap(e, x)));
            assert forall|j: Seq<char>| #[trigger] m.contains_key(j) implies av_takes(m[j], av_wrap(e, x), nc) by { lemma_fits_field(m[j], "value"@, e, q, c); }
        }
        _ => {}
    }
}

/// C02
pub proof fn theorem_fits(d: Doc, v: Value, c: Context)
    requires
        read_ok(v, c), cast(c),
        valid(d, schema_in(v), c.tuple_struct),
        clear_in(s2a(schema_in(v), c.tuple_struct)->0, c.normalize_case),
    ensures
        bq_translated(v, c), table_takes(d, table_of(v, c), c.normalize_case),
        av_translated(v, c), av_takes(d, avro_of(v, c), c.normalize_case),
{
    theorem_closed(v, c);
    lemma_sound_options(schema_in(v), c);
    lemma_fits_core(d, v, c);
    let nc = c.normalize_case;
    let w = core_of(v, c);
    let e = ctx_in(v, c);
    let s = table_of(v, c);
    lemma_fits_field(d, "root"@, w, Seq::empty(), e);
    lemma_fits_col(d, "root"@, w, Seq::empty(), e);
    let t = bq_lim(tag_in(v, c), e)->Val_0;
    let x = bqw(w, Seq::empty(), e)->Val_0;
    let k = column_of("root"@, w, x);
    assert(bq_out(w, e) == Out::Val(t));
    assert(*t.data_type == x && t.mode == k.mode && t.description == k.description);
    assert(s == bq_root(t));
    if x is Record && !(t.mode is Repeated) {
        let r = x->Record_0;
        assert(x == bigquery::Type::Record(r));
        assert(row_takes(d, r, nc));
        assert(s == bigquery::Schema::Root(vc(rows_of(r))));
        assert(rows(s) == rows_of(r));
        assert(table_takes(d, s, nc));
    } else {
        let y = bigquery::Tag { name: Some(st("root"@)), ..t };
        assert(s == bigquery::Schema::Root(vc(seq![y])));
        assert(rows(s) == seq![y]);
        assert(rows(s)[0] == y);
        assert(y == k);
        assert(rows(s).len() == 1);
        assert(col_takes(d, k, nc));
        assert(table_takes(d, s, nc));
    }
}
}
} // verus!
