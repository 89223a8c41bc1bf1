// What the hand-written serializers of the crate print.
verus! {
pub mod printing {
use super::*;
use super::shim::*;
use super::printed::*;

/// the members of a flattened value
pub open spec fn members(v: Value) -> Map<Seq<char>, Value> {
    match v { Value::Object(o) => o.m@, _ => Map::empty() }
}
/// bigquery::fields_as_vec: the columns, in the ascending order of their keys
pub open spec fn with_fields_as_vec(h: HashMap<Box<bigquery::Tag>>) -> Value
    decreases h
{
    Value::Array(vc(Seq::new(sorted_keys(h.m@.dom()).len(), |i: int| if h.m@.contains_key(sorted_keys(h.m@.dom())[i]) { js_bigquery_Tag(*h.m@[sorted_keys(h.m@.dom())[i]]) } else { arbitrary() })))
}
/// the columns of a record, by key
pub open spec fn refs<'a>(m: Map<Seq<char>, Box<bigquery::Tag>>) -> Map<Seq<char>, &'a bigquery::Tag> {
    Map::new(m.dom(), |k: Seq<char>| &*m[k])
}
pub open spec fn tag_refs<'a>(v: Vec<(String, &'a bigquery::Tag)>) -> Seq<(String, &'a bigquery::Tag)> { v.v@ }
pub open spec fn texts(v: Vec<String>) -> Seq<String> { v.v@ }
}
}
