# One entry per property: the code and the lemma modules its theorem rests on.
JSON = ("serde and serde_json read and print what the attributes of the types say (extractor/src/serde_spec.rs), so that a member printed twice counts once, as in serde_json::to_value; "
        "what is read beside JSON Schema (unit variants written as objects) and sizes of numbers are uninterpreted")
ONLY = "bounded search beside the proof: it supplies failing inputs and covers the reading by serde"
prop("C01", IN + BQ + AV, ["order::*"], ["order::theorem_columns_ordered", "order::theorem_fields_ordered"], "proof",
     "Proved: convert_avro and convert_bigquery return a function of the schema and the options, which every order of iteration and every run gives; "
     "the fields of records come out in ascending order, the members of a tuple by position in Avro. " + ONLY,
     assumptions=[JSON, "the order of the members of an object and of a required list is lost when the schema is read (serde_json::Value holds objects as ordered maps; required is read into a HashSet)"])
prop("C02", IN + BQ + AV, ["same_data::*", "fitting::*"], ["fitting::theorem_fits"], "proof",
     "Proved for every schema that is read, every document and every option, for both formats. " + ONLY,
     assumptions=[JSON, "which strings are points in time or base64 is uninterpreted (instant, base64): the same ones where the schema asks for the format and where the column has the type"])
prop("C03", IN + BQ + AV, ["valid_av::*", "same_data::*", "shape::*", "told::*"], ["told::theorem_exact"], "proof",
     "Proved for every schema that is read: wherever single types (with or without null) lead, columns are exactly what the schema says. " + ONLY,
     exact=True, assumptions=[JSON])
prop("C04", IN + BQ, [], ["valid_bq::theorem_valid"], "proof",
     "Proved: what convert_bigquery prints is a valid table, whatever the schema and the options. " + ONLY, exact=True, assumptions=[JSON])
prop("C05", IN + AV, ["valid_av::*"], ["valid_av::theorem_avro_valid"], "proof",
     "Proved: what convert_avro prints is a valid Avro schema, whatever the schema and the options. " + ONLY, exact=True, assumptions=[JSON])
prop("C06", IN + BQ + AV, [], ["resolving::theorem_resolution"], "proof",
     "Proved for both formats, every schema that is read and every option. " + ONLY, assumptions=[JSON])
prop("C07", IN + BQ + AV, ["valid_av::*", "same_data::*"], ["same_data::theorem_same"], "proof",
     "Proved for every schema that is read and every option beside the resolution. " + ONLY, assumptions=[JSON])
prop("C08", IN + BQ, ["shape::*", "told::*"], ["told::theorem_described"], "proof",
     "Proved for every schema that is read and every option, for the places that single types (with or without null) lead to. " + ONLY, exact=True, assumptions=[JSON])
prop("C09", IN + BQ + AV, ["paths::*"], ["paths::theorem_paths"], "proof",
     "Proved for every schema that is read and every option. " + ONLY, exact=True, assumptions=[JSON])
prop("C10", IN + BQ + AV, [], ["total::theorem_total"], "proof",
     "Proved: with the cast resolution no abort is reached and a schema results (partial correctness: termination is not proved). " + ONLY,
     assumptions=[JSON])
prop("C11", IN + BQ + AV, ["valid_av::*", "forcing::*"], ["forcing::theorem_forced"], "proof",
     "Proved for every schema that is read and every option beside force_nullable, for both formats. " + ONLY, assumptions=[JSON])
prop("C12", ["cli::*"], ["spec_cli::*"], [], "proof",
     "Proved: main prints what the library returns for the options of the same names, for every command line, file and standard input. What clap "
     "does is taken from the attributes it is given. bounded search beside the proof: it runs the tool as a process and compares with the library",
     base=["shim::*", "serde_spec::*", "world::*"], tool=True,
     assumptions=["clap reads the command line as its attributes say (switches, values, defaults): uninterpreted functions of the attributes",
                  "std::io reads what is there; serde_json reads back what it prints; the library's functions meet their contracts (C03 to C11)"])
prop("C13", IN + BQ + AV + ["casing::*"], ["snaking::*", "shape::*", "told::*", "snake_names::*"], ["snake_names::theorem_snake", "snake_names::theorem_column"], "proof",
     "Proved for every schema that is read and every option beside normalization: every name in both formats is in snake case or one the tool gives, and "
     "wherever single types lead it is the documented snake case of its property. That heck does what is documented is assumed (axiom_heck), and compared "
     "for all short names on every run. " + ONLY, assumptions=[JSON])
