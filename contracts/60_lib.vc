## lib.rs
@fn Context::is_json_object_path
@requires
    spec::lenient() || spec::rx_ok(*self),
@ensures
    res == spec::json_path(*self, fqn.s@),
@may spec::lenient()

@fn into_ast
@requires
    spec::lenient() || spec::read_ok(*input, *old(context)),
@ensures
    serde_spec::parse_schema(*input) is Some,
    *final(context) == spec::ctx_in(*input, *old(context)),
    res == spec::tag_in(*input, *old(context)),
    spec::read_ok(*input, *old(context)) ==> spec::full(res),
@may spec::lenient()
@at ast::Tag::translate_from
    proof {
        assert(*context == spec::ctx_in(*input, *old(context)));
        if spec::read_ok(*input, *old(context)) { spec::lemma_readable(jsonschema, *context); }
    }

@fn convert_avro
@requires
    spec::lenient() || spec::avro_ok(*input, context),
@ensures
    spec::av_lim(spec::tag_in(*input, context), spec::ctx_in(*input, context)) is Val,
    res == serde_spec::print_avro(spec::av_lim(spec::tag_in(*input, context), spec::ctx_in(*input, context))->Val_0),
@may spec::lenient()
@start
    proof { total::theorem_total(*input, context); }

@fn convert_bigquery
@requires
    spec::lenient() || spec::bigquery_ok(*input, context),
@ensures
    spec::bq_lim(spec::tag_in(*input, context), spec::ctx_in(*input, context)) is Val,
    res == serde_spec::print_bigquery(spec::bq_root(spec::bq_lim(spec::tag_in(*input, context), spec::ctx_in(*input, context))->Val_0)),
@may spec::lenient()
@start
    proof { total::theorem_total(*input, context); }
