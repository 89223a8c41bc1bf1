// What is printed is JSON of the two formats: the columns of a BigQuery table,
// and Avro types.
verus! {
pub mod canonical {
use super::*;
use super::shim::*;
use super::spec::*;
use super::printing::*;
use super::printed::*;

pub open spec fn text(s: Seq<char>) -> Value { Value::String(st(s)) }
pub open spec fn some_text(m: Map<Seq<char>, Value>, k: Seq<char>, o: Option<String>) -> Map<Seq<char>, Value> {
    match o { Some(s) => m.insert(k, Value::String(s)), None => m }
}

// ---------------------------------------------------------------- BigQuery

pub open spec fn type_word(d: bigquery::Type) -> Seq<char> {
    match d {
        bigquery::Type::Atom(a) => match a {
            bigquery::Atom::Int64 => "INT64"@,
            bigquery::Atom::Numeric => "NUMERIC"@,
            bigquery::Atom::Float64 => "FLOAT64"@,
            bigquery::Atom::Bool => "BOOL"@,
            bigquery::Atom::String => "STRING"@,
            bigquery::Atom::Bytes => "BYTES"@,
            bigquery::Atom::Date => "DATE"@,
            bigquery::Atom::Datetime => "DATETIME"@,
            bigquery::Atom::Geography => "GEOGRAPHY"@,
            bigquery::Atom::Time => "TIME"@,
            bigquery::Atom::Timestamp => "TIMESTAMP"@,
            bigquery::Atom::Json => "JSON"@,
        },
        bigquery::Type::Record(_) => "RECORD"@,
    }
}
pub open spec fn mode_word(m: bigquery::Mode) -> Seq<char> {
    match m {
        bigquery::Mode::Nullable => "NULLABLE"@,
        bigquery::Mode::Required => "REQUIRED"@,
        bigquery::Mode::Repeated => "REPEATED"@,
    }
}
/// a column: its name, type, mode and description, and its own columns in the order
/// of their names
pub open spec fn column_json(t: bigquery::Tag) -> Value
    decreases t
{
    let m = some_text(some_text(Map::empty(), "name"@, t.name), "description"@, t.description);
    let m = m.insert("type"@, text(type_word(*t.data_type))).insert("mode"@, text(mode_word(t.mode)));
    Value::Object(hm(match *t.data_type {
        bigquery::Type::Record(r) => m.insert("fields"@, columns_json(r.fields)),
        _ => m,
    }))
}
pub open spec fn columns_json(h: HashMap<Box<bigquery::Tag>>) -> Value
    decreases h
{
    Value::Array(vc(Seq::new(sorted_keys(h.m@.dom()).len(), |i: int| if h.m@.contains_key(sorted_keys(h.m@.dom())[i]) {
        column_json(*h.m@[sorted_keys(h.m@.dom())[i]])
    } else { arbitrary() })))
}
pub open spec fn table_json(s: bigquery::Schema) -> Value {
    match s { bigquery::Schema::Root(v) => Value::Array(vc(v.v@.map_values(|t: bigquery::Tag| column_json(t)))) }
}
/// the names of members are different ones
pub proof fn lemma_members()
    ensures
        "name"@ != "type"@, "name"@ != "mode"@, "name"@ != "description"@, "name"@ != "fields"@, "type"@ != "mode"@, "type"@ != "description"@,
        "type"@ != "fields"@, "mode"@ != "description"@, "mode"@ != "fields"@, "description"@ != "fields"@,
        "type"@ != "doc"@, "type"@ != "default"@, "type"@ != "items"@, "type"@ != "values"@, "name"@ != "doc"@, "name"@ != "default"@, "doc"@ != "default"@,
        "namespace"@ != "type"@, "namespace"@ != "fields"@, "namespace"@ != "name"@, "namespace"@ != "doc"@, "aliases"@ != "type"@,
        "aliases"@ != "fields"@, "aliases"@ != "name"@, "aliases"@ != "doc"@, "aliases"@ != "namespace"@, "doc"@ != "fields"@
{
    reveal_strlit("name"); reveal_strlit("type"); reveal_strlit("mode"); reveal_strlit("description"); reveal_strlit("fields");
    reveal_strlit("doc"); reveal_strlit("default"); reveal_strlit("items"); reveal_strlit("values"); reveal_strlit("namespace"); reveal_strlit("aliases");
    assert("name"@[0] == 'n' && "type"@[0] == 't' && "mode"@[0] == 'm' && "fields"@[0] == 'f' && "items"@[0] == 'i' && "values"@[0] == 'v' && "aliases"@[0] == 'a');
    assert("description"@.len() == 11 && "doc"@.len() == 3 && "default"@.len() == 7 && "namespace"@.len() == 9 && "name"@.len() == 4);
    assert("description"@[0] == 'd' && "doc"@[0] == 'd' && "default"@[0] == 'd' && "namespace"@[0] == 'n');
}
pub proof fn lemma_column(t: bigquery::Tag)
    ensures js_bigquery_Tag(t) == column_json(t)
    decreases t
{
    lemma_members();
    if let bigquery::Type::Record(r) = *t.data_type { lemma_columns(r.fields); }
    assert(js_bigquery_Tag(t)->Object_0.m@ =~= column_json(t)->Object_0.m@);
}
pub proof fn lemma_columns(h: HashMap<Box<bigquery::Tag>>)
    ensures with_fields_as_vec(h) == columns_json(h)
    decreases h
{
    let ks = sorted_keys(h.m@.dom());
    assert forall|i: int| 0 <= i < ks.len() && h.m@.contains_key(ks[i]) implies js_bigquery_Tag(*(#[trigger] h.m@[ks[i]])) == column_json(*h.m@[ks[i]]) by {
        lemma_column(*h.m@[ks[i]]);
    }
    assert(with_fields_as_vec(h)->Array_0.v@ =~= columns_json(h)->Array_0.v@);
}
/// what is printed for BigQuery
pub proof fn theorem_table(s: bigquery::Schema)
    ensures serde_spec::print_bigquery(s) == table_json(s)
{
    let v = s->Root_0.v@;
    assert forall|i: int| 0 <= i < v.len() implies js_bigquery_Tag(#[trigger] v[i]) == column_json(v[i]) by { lemma_column(v[i]); }
    assert(js_bigquery_Schema(s)->Array_0.v@ =~= table_json(s)->Array_0.v@);
}

// ---------------------------------------------------------------- Avro

pub open spec fn prim_word(p: avro::Primitive) -> Seq<char> {
    match p {
        avro::Primitive::Null => "null"@,
        avro::Primitive::Boolean => "boolean"@,
        avro::Primitive::Int => "int"@,
        avro::Primitive::Long => "long"@,
        avro::Primitive::Float => "float"@,
        avro::Primitive::Double => "double"@,
        avro::Primitive::Bytes => "bytes"@,
        avro::Primitive::String => "string"@,
    }
}
pub open spec fn one(w: Seq<char>) -> Map<Seq<char>, Value> { Map::empty().insert("type"@, text(w)) }
pub open spec fn avro_json(d: avro::Type) -> Value
    decreases d
{
    match d {
        avro::Type::Primitive(p) => Value::Object(hm(one(prim_word(p)))),
        avro::Type::Union(v) => Value::Array(vc(Seq::new(v.v@.len(), |i: int| if 0 <= i < v.v@.len() { avro_json(v.v@[i]) } else { arbitrary() }))),
        avro::Type::Complex(avro::Complex::Record(r)) => Value::Object(hm({
            let m = some_text(some_text(one("record"@).insert("name"@, Value::String(r.common.name)), "namespace"@, r.common.namespace), "doc"@, r.common.doc);
            let m = m.insert("fields"@, fields_json(r.fields));
            match r.common.aliases { Some(a) => m.insert("aliases"@, Value::Array(vc(a.v@.map_values(|s: String| Value::String(s))))), None => m }
        })),
        avro::Type::Complex(avro::Complex::Array(a)) => Value::Object(hm(one("array"@).insert("items"@, avro_json(*a.items)))),
        avro::Type::Complex(avro::Complex::Map(m)) => Value::Object(hm(one("map"@).insert("values"@, avro_json(*m.values)))),
        // not generated
        avro::Type::Complex(c) => js_avro_Complex(c),
    }
}
pub open spec fn fields_json(f: Vec<avro::Field>) -> Value
    decreases f
{
    Value::Array(vc(Seq::new(f.v@.len(), |i: int| if 0 <= i < f.v@.len() { field_json(f.v@[i]) } else { arbitrary() })))
}
/// a field: its name, type, documentation and default
pub open spec fn field_json(f: avro::Field) -> Value
    decreases f
{
    let m = some_text(Map::empty(), "doc"@, f.doc).insert("name"@, Value::String(f.name)).insert("type"@, avro_json(f.data_type));
    Value::Object(hm(match f.default { Some(v) => m.insert("default"@, v), None => m }))
}
pub proof fn lemma_avro(d: avro::Type)
    ensures js_avro_Type(d) == avro_json(d)
    decreases d
{
    lemma_members();
    match d {
        avro::Type::Primitive(p) => {}
        avro::Type::Union(v) => {
            assert forall|i: int| 0 <= i < v.v@.len() implies js_avro_Type(#[trigger] v.v@[i]) == avro_json(v.v@[i]) by { lemma_avro(v.v@[i]); }
            assert(js_avro_Type(d)->Array_0.v@ =~= avro_json(d)->Array_0.v@);
        }
        avro::Type::Complex(avro::Complex::Record(r)) => {
            lemma_fields(r);
            if let Some(a) = r.common.aliases {
                assert(Seq::new(a.v@.len(), |i0: int| if 0 <= i0 < a.v@.len() { Value::String(a.v@[i0]) } else { arbitrary() }) =~= a.v@.map_values(|s: String| Value::String(s)));
            }
            assert(js_avro_Type(d)->Object_0.m@ =~= avro_json(d)->Object_0.m@);
        }
        avro::Type::Complex(avro::Complex::Array(a)) => {
            lemma_avro(*a.items);
            assert(js_avro_Type(d)->Object_0.m@ =~= avro_json(d)->Object_0.m@);
        }
        avro::Type::Complex(avro::Complex::Map(m)) => {
            lemma_avro(*m.values);
            assert(js_avro_Type(d)->Object_0.m@ =~= avro_json(d)->Object_0.m@);
        }
        _ => {}
    }
}
pub proof fn lemma_fields(r: avro::Record)
    ensures members(js_avro_Record(r)) =~= members(js_avro_CommonAttributes(r.common)).insert("fields"@, fields_json(r.fields))
    decreases r
{
    let f = r.fields;
    assert forall|i: int| 0 <= i < f.v@.len() implies js_avro_Field(#[trigger] f.v@[i]) == field_json(f.v@[i]) by { lemma_field(f.v@[i]); }
    let m = members(js_avro_Record(r));
    assert(m["fields"@]->Array_0.v@ =~= fields_json(f)->Array_0.v@);
    assert(m["fields"@] == fields_json(f));
}
pub proof fn lemma_field(f: avro::Field)
    ensures js_avro_Field(f) == field_json(f)
    decreases f
{
    lemma_members();
    lemma_avro(f.data_type);
    assert(js_avro_Field(f)->Object_0.m@ =~= field_json(f)->Object_0.m@);
}
/// what is printed for Avro
pub proof fn theorem_avro(d: avro::Type)
    ensures serde_spec::print_avro(d) == avro_json(d)
{
    lemma_avro(d);
}
}
} // verus!
