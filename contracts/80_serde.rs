// The derived serde implementations: assumed to be functions of the value.
verus! {
pub mod serde_spec {
use super::*;
use super::shim::*;

/// what the JSON text of a schema is read as
#[verifier::opaque]
pub open spec fn parse_schema(v: Value) -> Option<jsonschema::Tag> { read::rd_jsonschema_Tag(v, Set::empty()) }
/// what a generated schema is printed as
pub open spec fn print_avro(t: avro::Type) -> Value { printed::js_avro_Type(t) }
pub open spec fn print_bigquery(s: bigquery::Schema) -> Value { printed::js_bigquery_Schema(s) }

impl VDe for jsonschema::Tag {
    open spec fn de(v: Value) -> Option<jsonschema::Tag> { parse_schema(v) }
    #[verifier::external_body]
    fn v_from_value(v: Value) -> (r: Result<jsonschema::Tag, DeError>) { unimplemented!() }
}
impl avro::Type {
    #[verifier::external_body]
    pub fn v_json(&self) -> (r: Value) ensures r == print_avro(*self) { unimplemented!() }
}
impl bigquery::Schema {
    #[verifier::external_body]
    pub fn v_json(&self) -> (r: Value) ensures r == print_bigquery(*self) { unimplemented!() }
}
}
} // verus!
