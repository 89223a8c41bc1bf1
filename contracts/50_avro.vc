## avro.rs
@fn avro::Type::translate_from
@requires
    lenient() || (full(tag) && av_ok(tag, *context)),
@ensures
    av_conv(tag, *context) && av_lim(tag, *context) == out(res),
@decreases depth::dep(tag)
@may lenient()
@hide depth::dep depth::deep full below below_type inf_null inf_type av_is av_from t_col t_is av_ok key_order
@start
    let ghost t0 = tag;
    let ghost c = *context;
    let ghost g = av_lims(c);
    let ghost mut t1 = tag;
@post tag.collapse
    proof { t1 = tag; }
@post tag.infer_nullability
    let ghost u = tag;
    proof {
        lemma_av_proc(t0, t1, c);
        lemma_av_step(t0, u, c);
        depth::lemma_dep_proc(t0, t1, c);
        depth::lemma_dep_kids(u);
        if !lenient() {
            lemma_av_ok(t0, u, c);
            if t0.is_root {
                lemma_full_type(av_root(t1), t1);
                lemma_below_full(av_root(t1), base(av_root(t1)), c.normalize_case);
                lemma_inf_full1(inf_name(av_root(t1), c.normalize_case), c.force_nullable);
            } else {
                lemma_inf_full1(t0, c.force_nullable);
            }
            lemma_full_kids(u);
        }
        if u.data_type is Object { lemma_kid_fields(u.data_type->Object_0.fields); }
        if u.data_type is Array { assert(av_kids(u)[0] == *u.data_type->Array_0.items); }
        if u.data_type is Map { assert(av_kids(u)[0] == *u.data_type->Map_0.value); }
    }
@loop object.fields.iter().map.filter.map.collect as o
    lists(object.fields.m@, src_o.v@),
    forall|j: int| 0 <= j < i_o ==> av_conv(*object.fields.m@[(#[trigger] src_o.v@[j]).0.s@], c),
    forall|j: int| 0 <= j < i_o && g(**(#[trigger] src_o.v@[j]).1) is Val ==> has_field(fields_in(out_o), src_o.v@[j].0.s@),
    forall|j: int| 0 <= j < i_o ==> !(g(**(#[trigger] src_o.v@[j]).1) is Abort),
    forall|i: int| 0 <= i < fields_in(out_o).len() ==> field_is(object.fields, f0, #[trigger] fields_in(out_o)[i]),
    forall|i: int| 0 <= i < fields_in(out_o).len() ==> seen(src_o.v@, i_o as int, (#[trigger] fields_in(out_o)[i]).name.s@),
    forall|i: int, j: int| 0 <= i < j < fields_in(out_o).len() ==> (#[trigger] fields_in(out_o)[i]).name.s@ != (#[trigger] fields_in(out_o)[j]).name.s@,
@pre o
    let ghost f0 = o_map(object.fields, g);
@begin o
    let ghost out0 = fields_in(out_o);
    let ghost i0 = i_o as int;
    proof { lemma_seen(src_o.v@, i_o as int); }
@end o
    proof {
        if fields_in(out_o).len() > out0.len() {
            let e = fields_in(out_o)[out0.len() as int];
            lemma_has_field(out0, e);
            assert(!seen(src_o.v@, i0, e.name.s@));
            assert(kept(f0).contains(e.name.s@));
        }
    }
@after o
    proof {
        lemma_av_fields(object.fields, src_o.v@, fields_in(out_o), c);
        assert(av_kids_conv(u, c));
    }
@at if fields.is_empty() { handle_error("empty object")
    let ghost fm = o_map(object.fields, g);
    proof {
        assert(fields_are(object.fields, fm, fields_in(fields)));
        assert(!map_aborts(fm));
        assert(av_kids_conv(u, c));
        lemma_sort_fields(object.fields, fm, fields_in(fields));
    }
@at fields.sort_by_key
    let ghost rows = fields_in(fields);
@loop fields.sort_by_key as s
    src_s.v@.len() == rows.len(),
    forall|i: int| 0 <= i < src_s.v@.len() ==> *(#[trigger] src_s.v@[i]) == rows[i],
    strs(out_s).len() == i_s,
    forall|i: int| 0 <= i < i_s ==> (#[trigger] strs(out_s)[i]).s@ == rows[i].name.s@,
@after s
    proof { assert(names_are(rows, strs(out_s))); }
@loop tuple.items.iter().enumerate.map.filter.map.collect as t
    src_t.v@.len() == tuple.items.v@.len(),
    forall|i: int| 0 <= i < src_t.v@.len() ==> *(#[trigger] src_t.v@[i]) == tuple.items.v@[i],
    forall|i: int| 0 <= i < i_t ==> av_conv(#[trigger] tuple.items.v@[i], c) && !(g(tuple.items.v@[i]) is Abort),
    fields_in(out_t) == av_tuple(tuple.items.v@, o_seq(tuple.items.v@, g), i_t as nat),
@after t
    proof {
        assert forall|i: int| 0 <= i < av_kids(u).len() implies av_conv(#[trigger] av_kids(u)[i], c) by {
            assert(av_conv(tuple.items.v@[i], c));
        }
        assert(!seq_aborts(o_seq(tuple.items.v@, g))) by {
            if seq_aborts(o_seq(tuple.items.v@, g)) {
                let i = choose|i: int| 0 <= i < o_seq(tuple.items.v@, g).len() && (#[trigger] o_seq(tuple.items.v@, g)[i]) is Abort;
                assert(!(g(tuple.items.v@[i]) is Abort)) by { assert(av_conv(tuple.items.v@[i], c)); }
            }
        }
    }
@at if tag.nullable && !tag.is_null()
    proof {
        assert(av_kids_conv(u, c));
        assert(Out::Val(data_type) == av_type(u, c, g));
        assert(seq![av_prim(Primitive::Null), data_type] =~= Seq::empty().push(Type::Primitive(Primitive::Null)).push(data_type));
    }
