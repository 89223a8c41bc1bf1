// What a schema is read as: the JSON Schema it is, keyword by keyword.
verus! {
pub mod keywords {
use super::*;
use super::shim::*;
use super::serde_spec::*;
use super::reading::*;
use super::read::*;
use super::jsonschema as js;

/// the value of a keyword; null and absent are the same
pub open spec fn at(v: Value, k: Seq<char>) -> Value {
    match v { Value::Object(o) => if o.m@.contains_key(k) { o.m@[k] } else { Value::Null }, _ => Value::Null }
}
pub open spec fn is_schema(y: Value) -> bool { parse_schema(y) is Some }
pub open spec fn list_of_schemas(y: Value) -> bool { y is Array && forall|i: int| 0 <= i < y->Array_0.v@.len() ==> is_schema(#[trigger] y->Array_0.v@[i]) }
pub open spec fn map_of_schemas(y: Value) -> bool { y is Object && forall|k: Seq<char>| #[trigger] y->Object_0.m@.contains_key(k) ==> is_schema(y->Object_0.m@[k]) }
pub open spec fn words(y: Value) -> bool { y is Array && forall|i: int| 0 <= i < y->Array_0.v@.len() ==> (#[trigger] y->Array_0.v@[i]) is String }
pub open spec fn size(y: Value) -> bool { y is Number && number_usize(y->Number_0@) is Some }

/// what is read for sure
pub open spec fn readable_schema(v: Value) -> bool {
    &&& v is Object
    &&& at(v, "format"@) is Null || at(v, "format"@) is String || read_unit::<js::Format>(at(v, "format"@)) is Some
    &&& at(v, "description"@) is Null || at(v, "description"@) is String
    &&& at(v, "title"@) is Null || at(v, "title"@) is String
    &&& at(v, "oneOf"@) is Null || list_of_schemas(at(v, "oneOf"@))
    &&& at(v, "allOf"@) is Null || list_of_schemas(at(v, "allOf"@))
    &&& readable_object(v)
    &&& readable_array(v)
}
pub open spec fn readable_object(v: Value) -> bool {
    &&& at(v, "properties"@) is Null || map_of_schemas(at(v, "properties"@))
    &&& at(v, "patternProperties"@) is Null || map_of_schemas(at(v, "patternProperties"@))
    &&& at(v, "additionalProperties"@) is Null || at(v, "additionalProperties"@) is Bool || is_schema(at(v, "additionalProperties"@))
    &&& at(v, "required"@) is Null || words(at(v, "required"@))
}
pub open spec fn readable_array(v: Value) -> bool {
    &&& at(v, "items"@) is Null || is_schema(at(v, "items"@)) || list_of_schemas(at(v, "items"@))
    &&& at(v, "additionalItems"@) is Null || at(v, "additionalItems"@) is Bool || is_schema(at(v, "additionalItems"@))
    &&& at(v, "minItems"@) is Null || size(at(v, "minItems"@))
    &&& at(v, "maxItems"@) is Null || size(at(v, "maxItems"@))
}
pub open spec fn reads_text(y: Value, t: Option<String>) -> bool { t == match y { Value::String(s) => Some(s), _ => None } }
/// the formats there are columns for
pub open spec fn reads_format(y: Value, t: Option<js::Format>) -> bool {
    match y {
        Value::Null => t is None,
        Value::String(s) => t is Some && (t == Some(js::Format::DateTime)) == (s.s@ == "date-time"@) && (t == Some(js::Format::Bytes)) == (s.s@ == "bytes"@),
        _ => true,
    }
}
pub open spec fn reads_list(s: Seq<Value>, t: Seq<Box<js::Tag>>) -> bool {
    s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> parse_schema(s[i]) == Some(*#[trigger] t[i])
}
pub open spec fn reads_some(y: Value, t: Option<Vec<Box<js::Tag>>>) -> bool {
    match y { Value::Array(a) => t is Some && reads_list(a.v@, t->0.v@), _ => t is None }
}
pub open spec fn reads_map(m: Map<Seq<char>, Value>, t: Map<Seq<char>, Box<js::Tag>>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] t.contains_key(k) <==> m.contains_key(k)
    &&& forall|k: Seq<char>| #[trigger] t.contains_key(k) ==> parse_schema(m[k]) == Some(*t[k])
}
pub open spec fn reads_more(y: Value, t: Option<js::AdditionalProperties>) -> bool {
    match y {
        Value::Null => t is None,
        Value::Bool(b) => t == Some(js::AdditionalProperties::Bool(b)),
        _ => match t { Some(js::AdditionalProperties::Object(x)) => parse_schema(y) == Some(*x), _ => false },
    }
}
pub open spec fn reads_items(y: Value, t: Option<js::ArrayType>) -> bool {
    match y {
        Value::Null => t is None,
        Value::Array(a) => match t { Some(js::ArrayType::TagTuple(x)) => reads_list(a.v@, x.v@), _ => false },
        _ => match t { Some(js::ArrayType::Tag(x)) => parse_schema(y) == Some(*x), _ => false },
    }
}
pub open spec fn reads_words(y: Value, t: Option<HashSet>) -> bool {
    match y {
        Value::Array(a) => t is Some && forall|k: Seq<char>| #[trigger] t->0.e@.contains(k) <==> a.v@.contains(Value::String(st(k))),
        _ => t is None,
    }
}
pub open spec fn reads_size(y: Value, t: Option<usize>) -> bool { t == match y { Value::Number(n) => number_usize(n@), _ => None } }
pub open spec fn reads_object(v: Value, t: js::Object) -> bool {
    &&& match at(v, "properties"@) { Value::Object(o) => t.properties is Some && reads_map(o.m@, t.properties->0.m@), _ => t.properties is None }
    &&& match at(v, "patternProperties"@) { Value::Object(o) => t.pattern_properties is Some && reads_map(o.m@, t.pattern_properties->0.m@), _ => t.pattern_properties is None }
    &&& reads_more(at(v, "additionalProperties"@), t.additional_properties)
    &&& reads_words(at(v, "required"@), t.required)
}
pub open spec fn reads_array(v: Value, t: js::Array) -> bool {
    &&& reads_items(at(v, "items"@), t.items)
    &&& reads_more(at(v, "additionalItems"@), t.additional_items)
    &&& reads_size(at(v, "minItems"@), t.min_items)
    &&& reads_size(at(v, "maxItems"@), t.max_items)
}
/// what is read
pub open spec fn reads(v: Value, t: js::Tag) -> bool {
    &&& t.data_type == at(v, "type"@)
    &&& reads_format(at(v, "format"@), t.format)
    &&& reads_text(at(v, "description"@), t.description)
    &&& reads_text(at(v, "title"@), t.title)
    &&& reads_some(at(v, "oneOf"@), t.one_of)
    &&& reads_object(v, t.object)
    &&& reads_array(v, t.array)
    &&& t.extra.m@.contains_key("mozPipelineMetadata"@) == v->Object_0.m@.contains_key("mozPipelineMetadata"@)
    &&& t.extra.m@.contains_key("mozPipelineMetadata"@) ==> t.extra.m@["mozPipelineMetadata"@] == v->Object_0.m@["mozPipelineMetadata"@]
}
pub proof fn lemma_keywords()
    ensures
        "items"@ != "title"@, "items"@ != "oneOf"@, "items"@ != "allOf"@, "items"@.len() == 5, "title"@.len() == 5, "oneOf"@.len() == 5, "allOf"@.len() == 5,
        "required"@ != "minItems"@, "required"@ != "maxItems"@, "minItems"@ != "maxItems"@, "required"@.len() == 8, "minItems"@.len() == 8, "maxItems"@.len() == 8,
        "type"@.len() == 4, "format"@.len() == 6, "properties"@.len() == 10, "description"@.len() == 11, "additionalItems"@.len() == 15,
        "patternProperties"@.len() == 17, "mozPipelineMetadata"@.len() == 19, "date-time"@ != "bytes"@,
        "additionalProperties"@.len() == 20,
{
    reveal_strlit("items"); reveal_strlit("title"); reveal_strlit("oneOf"); reveal_strlit("allOf");
    reveal_strlit("required"); reveal_strlit("minItems"); reveal_strlit("maxItems"); reveal_strlit("type");
    reveal_strlit("format"); reveal_strlit("properties"); reveal_strlit("description"); reveal_strlit("additionalItems");
    reveal_strlit("mozPipelineMetadata"); reveal_strlit("date-time"); reveal_strlit("bytes"); reveal_strlit("json");
    reveal_strlit("patternProperties"); reveal_strlit("additionalProperties");
    assert("date-time"@.len() == 9 && "bytes"@.len() == 5);
    assert("items"@[0] == 'i' && "title"@[0] == 't' && "oneOf"@[0] == 'o' && "allOf"@[0] == 'a');
    assert("required"@[0] == 'r' && "minItems"@[0] == 'm' && "maxItems"@[0] == 'm' && "minItems"@[1] == 'i' && "maxItems"@[1] == 'a');
}
/// keywords no one else takes
pub open spec fn free_array(z: Set<Seq<char>>) -> bool { !z.contains("items"@) && !z.contains("additionalItems"@) && !z.contains("minItems"@) && !z.contains("maxItems"@) }
pub open spec fn free_object(z: Set<Seq<char>>) -> bool { !z.contains("properties"@) && !z.contains("patternProperties"@) && !z.contains("additionalProperties"@) && !z.contains("required"@) }
pub proof fn lemma_reads_list(s: Seq<Value>, t: Seq<Box<js::Tag>>)
    requires reads_list(s, t)
    ensures forall|i: int| 0 <= i < s.len() ==> is_schema(#[trigger] s[i])
{
    assert forall|i: int| 0 <= i < s.len() implies is_schema(#[trigger] s[i]) by { assert(parse_schema(s[i]) == Some(*t[i])); }
}
pub proof fn lemma_reads_map(m: Map<Seq<char>, Value>, t: Map<Seq<char>, Box<js::Tag>>)
    requires reads_map(m, t)
    ensures forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> is_schema(m[k])
{
    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies is_schema(m[k]) by { assert(t.contains_key(k)); }
}
pub proof fn lemma_more(y: Value)
    ensures
        y is Null || ((rd_jsonschema_AdditionalProperties(y) is Some) == (y is Bool || is_schema(y))),
        !(y is Null) && rd_jsonschema_AdditionalProperties(y) is Some ==> reads_more(y, rd_jsonschema_AdditionalProperties(y)),
{
    reveal(parse_schema);
}
pub proof fn lemma_items(y: Value)
    ensures
        y is Null || ((rd_jsonschema_ArrayType(y) is Some) == (is_schema(y) || list_of_schemas(y))),
        !(y is Null) && rd_jsonschema_ArrayType(y) is Some ==> reads_items(y, rd_jsonschema_ArrayType(y)),
{
    reveal(parse_schema);
    let r = rd_jsonschema_ArrayType(y);
    if y is Array && r is Some {
        assert(reads_items(y, r));
        match r->0 { js::ArrayType::TagTuple(x) => lemma_reads_list(y->Array_0.v@, x.v@), _ => {} }
    }
}
pub proof fn lemma_array(v: Value, z: Set<Seq<char>>)
    requires v is Object, free_array(z)
    ensures
        (rd_jsonschema_Array(v, z) is Some) == readable_array(v),
        rd_jsonschema_Array(v, z) is Some ==> reads_array(v, rd_jsonschema_Array(v, z)->0),
{
    reveal(parse_schema);
    lemma_items(at(v, "items"@));
    lemma_more(at(v, "additionalItems"@));
}
pub proof fn lemma_words(s: Seq<Value>)
    ensures some_words(s) is Some ==> forall|k: Seq<char>| #[trigger] some_words(s)->0.e@.contains(k) <==> s.contains(Value::String(st(k)))
{
    if some_words(s) is Some {
        let w = s.map_values(|v: Value| v->String_0.s@);
        assert forall|k: Seq<char>| #[trigger] some_words(s)->0.e@.contains(k) <==> s.contains(Value::String(st(k))) by {
            if w.to_set().contains(k) {
                let i = choose|i: int| 0 <= i < w.len() && w[i] == k;
                assert(w[i] == s[i]->String_0.s@);
                assert(s[i] == Value::String(st(k)));
            }
            if s.contains(Value::String(st(k))) {
                let i = choose|i: int| 0 <= i < s.len() && s[i] == Value::String(st(k));
                assert(w[i] == k);
                assert(w.to_set().contains(k));
            }
        }
    }
}
pub proof fn lemma_object(v: Value, z: Set<Seq<char>>)
    requires v is Object, free_object(z)
    ensures
        (rd_jsonschema_Object(v, z) is Some) == readable_object(v),
        rd_jsonschema_Object(v, z) is Some ==> reads_object(v, rd_jsonschema_Object(v, z)->0),
{
    reveal(parse_schema);
    lemma_more(at(v, "additionalProperties"@));
    let r = rd_jsonschema_Object(v, z);
    if at(v, "required"@) is Array { lemma_words(at(v, "required"@)->Array_0.v@); }
    if r is Some {
        let t = r->0;
        assert(reads_object(v, t));
        if at(v, "properties"@) is Object { lemma_reads_map(at(v, "properties"@)->Object_0.m@, t.properties->0.m@); }
        if at(v, "patternProperties"@) is Object { lemma_reads_map(at(v, "patternProperties"@)->Object_0.m@, t.pattern_properties->0.m@); }
    }
}
/// what is read is what the schema says, and it is refused only where a keyword has no such value
pub proof fn theorem_read(v: Value)
    ensures
        readable_schema(v) ==> parse_schema(v) is Some,
        parse_schema(v) is Some ==> reads(v, parse_schema(v)->0),
{
    reveal(parse_schema);
    lemma_keywords();
    if v is Object {
        lemma_object(v, Set::empty());
        lemma_array(v, Set::empty());
        if parse_schema(v) is Some {
            let t = parse_schema(v)->0;
            assert(reads(v, t));
        }
    }
}
}
} // verus!
