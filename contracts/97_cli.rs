// C12: the documented command line.
verus! {
pub mod spec_cli {
use super::*;
use super::shim::*;
use super::spec::*;
use super::world::*;
use super::serde_spec::*;
use super::lims::*;

pub open spec fn words2(a: Seq<char>, b: Seq<char>) -> Set<Seq<char>> { Set::empty().insert(a).insert(b) }
pub open spec fn words3(a: Seq<char>, b: Seq<char>, c: Seq<char>) -> Set<Seq<char>> { Set::empty().insert(a).insert(b).insert(c) }

/// `-t`, `--type`: avro or bigquery
pub open spec fn asked_type() -> Seq<char> { clap_choice(Some('t'), Some("type"@), words2("avro"@, "bigquery"@), "avro"@) }
/// `-r`, `--resolve`: cast, panic or drop
pub open spec fn asked_method() -> Seq<char> { clap_choice(Some('r'), Some("resolve"@), words3("cast"@, "panic"@, "drop"@), "cast"@) }
/// clap takes no other value than those it is given
pub open spec fn clap_checks() -> bool {
    &&& asked_type() == "avro"@ || asked_type() == "bigquery"@
    &&& asked_method() == "cast"@ || asked_method() == "panic"@ || asked_method() == "drop"@
}
/// the options of the library that the command line stands for
pub open spec fn asked() -> Context {
    Context {
        resolve_method: if asked_method() == "cast"@ { ResolveMethod::Cast } else if asked_method() == "panic"@ { ResolveMethod::Panic } else { ResolveMethod::Drop },
        normalize_case: clap_flag(Some('c'), Some("normalize-case"@)),
        force_nullable: clap_flag(Some('n'), Some("force-nullable"@)),
        tuple_struct: clap_flag(None, Some("tuple-struct"@)),
        allow_maps_without_value: clap_flag(Some('w'), Some("allow-maps-without-value"@)),
        json_object_path_regex: None,
    }
}
/// the schema: from the file, or from standard input if there is none or it is `-`
pub open spec fn given() -> Option<Seq<char>> {
    match clap_positional(0) {
        None => Some(stdin_text()),
        Some(p) => if p.s@ == "-"@ { Some(stdin_text()) } else { file_text(p.s@) },
    }
}
pub open spec fn given_value() -> Option<Value> { match given() { Some(t) => json_value(t), None => None } }
/// what the library returns for it
pub open spec fn returned() -> Value {
    let v = given_value()->0;
    if asked_type() == "avro"@ { print_avro(av_lim(tag_in(v, asked()), ctx_in(v, asked()))->Val_0) }
    else { print_bigquery(bq_root(bq_lim(tag_in(v, asked()), ctx_in(v, asked()))->Val_0)) }
}
/// it returns something
pub open spec fn returns() -> bool {
    &&& given_value() is Some
    &&& if asked_type() == "avro"@ { avro_ok(given_value()->0, asked()) } else { bigquery_ok(given_value()->0, asked()) }
}
/// one JSON text is printed, and its value is what the library returns
pub open spec fn printed(before: Seq<char>, after: Seq<char>) -> bool {
    exists|s: Seq<char>| after == #[trigger] (before + s) && json_value(s) == Some(returned())
}
/// the words are different ones
pub proof fn lemma_words()
    ensures
        "avro"@ != "bigquery"@, "cast"@ != "panic"@, "cast"@ != "drop"@, "panic"@ != "drop"@,
{
    reveal_strlit("avro"); reveal_strlit("bigquery"); reveal_strlit("cast"); reveal_strlit("panic"); reveal_strlit("drop");
    assert("avro"@.len() == 4 && "bigquery"@.len() == 8 && "panic"@.len() == 5);
    assert("cast"@[0] == 'c' && "drop"@[0] == 'd');
}
}
} // verus!
