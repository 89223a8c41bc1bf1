## bigquery.rs
@fn bigquery::Tag::translate_from
@requires
    lenient() || (full(tag) && rx_ok(*context) && bq_ok(tag, *context)),
@ensures
    bq_conv(tag, *context) && bq_lim(tag, *context) == out(res),
@decreases depth::dep(tag)
@may lenient()
@hide depth::dep depth::deep full below below_type inf_null inf_type bq_is bq_from bq_tuple t_col bq_proc t_is bq_ok key_order
@start
    let ghost t0 = tag;
    let ghost c = *context;
    let ghost g = bq_lims(c);
@post tag.collapse
    let ghost t1 = tag;
@post tag.infer_nullability
    let ghost u = tag;
    proof {
        lemma_bq_proc(t0, t1, c);
        lemma_bq_step(t0, u, c);
        depth::lemma_dep_proc(t0, t1, c);
        depth::lemma_dep_kids(u);
        if !lenient() {
            lemma_bq_ok(t0, u, c);
            lemma_below_full(t1, base(t1), c.normalize_case);
            lemma_inf_full1(inf_name(t1, c.normalize_case), c.force_nullable);
            lemma_full_kids(u);
        }
        if u.data_type is Object { lemma_kid_fields(u.data_type->Object_0.fields); }
        if u.data_type is Array { assert(bq_kids(u)[0] == *u.data_type->Array_0.items); }
        if u.data_type is Map { assert(bq_kids(u)[0] == *u.data_type->Map_0.key); assert(bq_kids(u)[1] == *u.data_type->Map_0.value); }
    }
@loop object.fields.iter().map.filter.map.collect as o
    lists(object.fields.m@, src_o.v@),
    forall|j: int| 0 <= j < i_o ==> bq_conv(*object.fields.m@[(#[trigger] src_o.v@[j]).0.s@], c),
    forall|j: int| 0 <= j < i_o && g(**(#[trigger] src_o.v@[j]).1) is Val ==> has_key(columns_of(out_o), src_o.v@[j].0.s@),
    forall|j: int| 0 <= j < i_o ==> !(g(**(#[trigger] src_o.v@[j]).1) is Abort),
    forall|i: int| 0 <= i < columns_of(out_o).len() ==> f0.contains_key((#[trigger] columns_of(out_o)[i]).0.s@) && f0[columns_of(out_o)[i].0.s@] == columns_of(out_o)[i].1,
@pre o
    let ghost f0 = vals(o_map(object.fields, g));
@begin o
    let ghost out0 = columns_of(out_o);
@end o
    proof {
        if columns_of(out_o).len() > out0.len() { lemma_has_key(out0, columns_of(out_o)[out0.len() as int]); }
    }
@after o
    proof {
        lemma_bq_fields(object.fields, src_o.v@, columns_of(out_o), c);
        assert(bq_kids_conv(u, c));
    }
@at if fields.is_empty()
    proof {
        assert(fields.m@ =~= vals(o_map(object.fields, g)));
        assert(!map_aborts(o_map(object.fields, g)));
        assert(bq_kids_conv(u, c));
    }
@loop tuple.items.iter().map.collect as t
    src_t.v@.len() == tuple.items.v@.len(),
    forall|i: int| 0 <= i < src_t.v@.len() ==> *(#[trigger] src_t.v@[i]) == tuple.items.v@[i],
    bq_results(out_t).len() == i_t,
    forall|i: int| 0 <= i < i_t ==> bq_conv(tuple.items.v@[i], c) && out(#[trigger] bq_results(out_t)[i]) == g(tuple.items.v@[i]),
@after t
    let ghost ft = o_seq(tuple.items.v@, g);
    proof {
        lemma_collect_all(bq_results(out_t), o_seq(tuple.items.v@, g));
        assert forall|i: int| 0 <= i < bq_kids(u).len() implies bq_conv(#[trigger] bq_kids(u)[i], c) by {
            assert(out(bq_results(out_t)[i]) == g(tuple.items.v@[i]));
        }
    }
@loop fields?.into_iter().enumerate.map.collect as n
    columns_of(out_n).len() == i_n,
    src_n.v@.len() == tuple.items.v@.len(),
    forall|i: int| 0 <= i < src_n.v@.len() ==> (#[trigger] src_n.v@[i]) == o_seq(tuple.items.v@, g)[i]->Val_0,
    forall|i: int| 0 <= i < i_n ==> (#[trigger] columns_of(out_n)[i]).0.s@ == tuple_name(i)
        && *columns_of(out_n)[i].1 == (Tag { name: Some(st(tuple_name(i))), ..src_n.v@[i] }),
@after n
    proof { lemma_tuple_columns(o_seq(tuple.items.v@, g), columns_of(out_n)); }
@at let key = Tag::translate_from
    proof { if !lenient() { lemma_bq_key(*map.key, c); } }
@at let fields: HashMap<String, Box<Tag>> = vec
    let ghost kk = key;
    let ghost vv = value;
@loop vec![Some(("key",key)),value.map(|v|("value",v))].into_iter().flatten.map.collect as m
    src_m.v@.len() == 2,
    src_m.v@[0] is Some && (src_m.v@[0]->0).0.s@ == "key"@ && (src_m.v@[0]->0).1 == kk,
    (src_m.v@[1] is Some) == (vv is Some),
    vv is Some ==> (src_m.v@[1]->0).0.s@ == "value"@ && (src_m.v@[1]->0).1 == vv->0,
    columns_of(out_m) == map_entries(kk, vv, i_m as int),
@end m
    proof { assert(columns_of(out_m) =~= map_entries(kk, vv, i_m as int)); }
@after m
    proof {
        assert(columns_of(out_m) == map_entries(kk, vv, 2));
        lemma_map_entries(kk, vv);
        assert forall|i: int| 0 <= i < bq_kids(u).len() implies bq_conv(#[trigger] bq_kids(u)[i], c) by {}
    }
@fn bigquery::Schema::translate_from
@requires
    lenient() || (full(tag) && rx_ok(*context) && bq_ok(tag, *context) && bq_table(tag, *context)),
@ensures
    bq_conv(tag, *context) && bq_lim(tag, *context) is Val && res is Ok && res->Ok_0 == bq_root(bq_lim(tag, *context)->Val_0),
@may lenient()
@post let mut bq_tag
    let ghost t0 = bq_tag;
@loop record.fields.into_iter().collect as c
    lists_own(record.fields.m@, src_c.v@),
    columns_of(out_c).len() == i_c,
    forall|i: int| 0 <= i < i_c ==> (#[trigger] columns_of(out_c)[i]) == src_c.v@[i],
@after c
    proof { assert(columns_of(out_c) =~= src_c.v@); }
@post let mut vec: Vec<_>
    let ghost rows = columns_of(vec);
    let ghost fm = record.fields.m@;
    proof { lemma_sort_any(fm, rows); }
@loop vec.sort_by_key as s
    src_s.v@.len() == rows.len(),
    forall|i: int| 0 <= i < src_s.v@.len() ==> *(#[trigger] src_s.v@[i]) == rows[i],
    strs(out_s).len() == i_s,
    forall|i: int| 0 <= i < i_s ==> (#[trigger] strs(out_s)[i]).s@ == rows[i].0.s@,
@after s
    proof { assert(keys_are(rows, strs(out_s))); }
@loop vec.into_iter().map.collect as m
    entries_sorted(fm, src_m.v@),
    bq_columns(out_m).len() == i_m,
    forall|i: int| 0 <= i < i_m ==> (#[trigger] bq_columns(out_m)[i]) == *src_m.v@[i].1,
@post let columns = vec
    assert(bq_columns(columns) =~= sorted_keys(fm.dom()).map_values(|k: Seq<char>| *fm[k]));

@fn bigquery::fields_as_vec::serialize
@ensures
    res is Ok && res->Ok_0 == printing::with_fields_as_vec(*map),
@start
    let ghost fm = printing::refs(map.m@);
@loop map.iter().map.collect as c
    lists(map.m@, src_c.v@),
    printing::tag_refs(out_c).len() == i_c,
    forall|i: int| 0 <= i < i_c ==> (#[trigger] printing::tag_refs(out_c)[i]).0 == *src_c.v@[i].0,
    forall|i: int| 0 <= i < i_c ==> *(#[trigger] printing::tag_refs(out_c)[i]).1 == **src_c.v@[i].1,
@after c
    proof { spec::lemma_refs(map.m@, src_c.v@, printing::tag_refs(out_c)); }
@post let mut vec: Vec<(String, &Tag)>
    let ghost rows = printing::tag_refs(vec);
    proof { spec::lemma_sort_any(fm, rows); }
@loop vec.sort_by_key as s
    src_s.v@.len() == rows.len(),
    forall|i: int| 0 <= i < src_s.v@.len() ==> *(#[trigger] src_s.v@[i]) == rows[i],
    printing::texts(out_s).len() == i_s,
    forall|i: int| 0 <= i < i_s ==> (#[trigger] printing::texts(out_s)[i]).s@ == rows[i].0.s@,
@after s
    proof { assert(spec::keys_are(rows, printing::texts(out_s))); }
@loop forvec as w
    spec::entries_sorted(fm, src_w.v@),
    seq.v@.len() == i_w,
    forall|i: int| 0 <= i < i_w ==> (#[trigger] seq.v@[i]) == printed::js_bigquery_Tag(*src_w.v@[i].1),
@at seq.end()
    proof { assert(printing::with_fields_as_vec(*map)->Array_0.v@ =~= seq.v@); }
