## jsonschema.rs: reading a schema into the intermediate form
@fn jsonschema::Tag::get_type
@requires
    lenient() || kind_ok(*self),
@ensures
    res == kind(*self),
    kind_ok(*self),
@may lenient()
@loop array.iter().map.collect as l
    src_l.v@.len() == array.v@.len(),
    forall|i: int| 0 <= i < src_l.v@.len() ==> *(#[trigger] src_l.v@[i]) == array.v@[i],
    atoms(out_l).len() == i_l,
    forall|i: int| 0 <= i < i_l ==> <Atom as VDe>::de(#[trigger] array.v@[i]) is Some && atoms(out_l)[i] == <Atom as VDe>::de(array.v@[i])->0,
@after l
    assert(atoms(out_l) =~= kind(*self)->List_0.v@);

@fn jsonschema::Tag::type_into_ast
@requires
    lenient() || sound(*self, context.tuple_struct),
@ensures
    match res { Ok(t) => s2a(*self, context.tuple_struct) == Some(t), Err(_) => s2a(*self, context.tuple_struct) is None },
@decreases *self, 1int
@start
    let ghost l0 = kind(*self)->List_0;
    let ghost v0 = s2a_list(*self, l0, context.tuple_struct);
    
@loop forlist as l
    src_l.v@ == l0.v@,
    items.v@.len() == i_l,
    forall|i: int| 0 <= i < i_l ==> (#[trigger] v0[i]) is Some && items.v@[i] == v0[i]->0,
    nullable == (exists|i: int| 0 <= i < i_l && #[trigger] l0.v@[i] is Null),
@begin l
    assert(v0[i_l as int] == s2a_atom(*self, l0.v@[i_l as int], context.tuple_struct));
@after l
    assert(items.v@ =~= somes(v0));

@fn jsonschema::Tag::atom_into_ast
@attr #[verifier::spinoff_prover]
@attr #[verifier::rlimit(100)]
@requires
    lenient() || sound_atom(*self, data_type, context.tuple_struct),
@ensures
    match res { Ok(t) => s2a_atom(*self, data_type, context.tuple_struct) == Some(t), Err(_) => s2a_atom(*self, data_type, context.tuple_struct) is None },
@decreases *self, 0int
@start
    let ghost ts = context.tuple_struct;
    proof {
        if data_type is Object { reveal(s2a_object); }
        if data_type is Array { reveal(s2a_array); }
    }
@loop forproperties as p
    lists(p0.m@, src_p.v@),
    forall|k: Seq<char>| #[trigger] fields.m@.contains_key(k) <==> seen(src_p.v@, i_p as int, k),
    forall|k: Seq<char>| #[trigger] fields.m@.contains_key(k) ==> f0[k] == Some(fields.m@[k]),
@pre p
    let ghost p0 = *properties;
    let ghost f0 = s2a_map(p0, ts);
@begin p
    let ghost k0 = src_p.v@[i_p as int].0.s@;
    assert(f0.contains_key(k0) && f0[k0] == s2a(*p0.m@[k0], ts));
@end p
    proof { lemma_seen(src_p.v@, j_p as int); }
@after p
    proof {
        lemma_seen_all(p0.m@, src_p.v@);
        assert(fields.m@.dom() =~= p0.m@.dom());
        assert(f0.dom() =~= p0.m@.dom());
        assert(map_some(f0));
        assert(fields.m@ =~= map_somes(f0));
    }
@loop pat.values().map.collect as v
    forall|i: int| 0 <= i < src_v.v@.len() ==> **(#[trigger] src_v.v@[i]) == *pat.m@[ks[i]],
    results(out_v).len() == i_v,
    forall|i: int| #![trigger results(out_v)[i]] #![trigger v0[i]] 0 <= i < i_v ==> is_read(results(out_v)[i], v0[i]),
@pre v
    let ghost ks = sorted_keys(pat.m@.dom());
    let ghost v0 = s2a_sorted(*pat, ts);
@begin v
    assert(pat.m@.dom().contains(ks[i_v as int]));
    assert(v0[i_v as int] == s2a(*pat.m@[ks[i_v as int]], ts));
@loop tag.values().map.collect as t
    forall|i: int| 0 <= i < src_t.v@.len() ==> **(#[trigger] src_t.v@[i]) == *tag.m@[ks[i]],
    results(out_t).len() == i_t,
    forall|i: int| #![trigger results(out_t)[i]] #![trigger v0[i]] 0 <= i < i_t ==> is_read(results(out_t)[i], v0[i]),
@pre t
    let ghost ks = sorted_keys(tag.m@.dom());
    let ghost v0 = s2a_sorted(*tag, ts);
@begin t
    assert(tag.m@.dom().contains(ks[i_t as int]));
    assert(v0[i_t as int] == s2a(*tag.m@[ks[i_t as int]], ts));
@loop vec.iter().map.collect as o
    src_o.v@.len() == vec.v@.len(),
    forall|i: int| 0 <= i < src_o.v@.len() ==> *(#[trigger] src_o.v@[i]) == vec.v@[i],
    results(out_o).len() == i_o,
    forall|i: int| #![trigger results(out_o)[i]] #![trigger v0[i]] 0 <= i < i_o ==> is_read(results(out_o)[i], v0[i]),
@pre o
    let ghost v0 = s2a_seq(*vec, ts);
@begin o
    assert(v0[i_o as int] == s2a(*vec.v@[i_o as int], ts));
@loop unwrapped.iter().any as n
    src_n.v@.len() == unwrapped.v@.len(),
    forall|i: int| 0 <= i < src_n.v@.len() ==> *(#[trigger] src_n.v@[i]) == unwrapped.v@[i],
    found_n == (exists|i: int| 0 <= i < i_n && (#[trigger] unwrapped.v@[i]).data_type is Null),
@loop items.iter().map.collect as u
    src_u.v@.len() == items.v@.len(),
    forall|i: int| 0 <= i < src_u.v@.len() ==> *(#[trigger] src_u.v@[i]) == items.v@[i],
    results(out_u).len() == i_u,
    forall|i: int| #![trigger results(out_u)[i]] #![trigger v0[i]] 0 <= i < i_u ==> is_read(results(out_u)[i], v0[i]),
@pre u
    let ghost v0 = s2a_seq(*items, ts);
@begin u
    assert(v0[i_u as int] == s2a(*items.v@[i_u as int], ts));
@loop forunwrapped.iter_mut().skip(min_items) as s
    unwrapped.v@.len() == w0.len(),
    i_s >= min_items,
    forall|i: int| 0 <= i < w0.len() && i < i_s ==> #[trigger] unwrapped.v@[i] == opt_from(w0, min_items as int)[i],
    forall|i: int| i_s <= i < w0.len() ==> #[trigger] unwrapped.v@[i] == w0[i],
@pre s
    let ghost w0 = unwrapped.v@;
@after s
    assert(unwrapped.v@ =~= opt_from(w0, min_items as int));
@loop forunwrapped.len()..max_items as m
    lo_m <= i_m <= hi_m,
    unwrapped.v@ =~= w1 + copies(optional_tag(s2a(**tag, ts)->0), i_m - lo_m),
    i_m > lo_m ==> s2a(**tag, ts) is Some,
@pre m
    let ghost w1 = unwrapped.v@;
@after m
    assert(hi_m == lo_m ==> unwrapped.v@ =~= w1);
    assert(hi_m > lo_m ==> s2a(**tag, ts) is Some);
@at let value
    assert(vec.v@ =~= seq![s2a(**add, ts)->0] + somes(s2a_sorted(*pat, ts)));
@at let union
    assert(items is Ok ==> items->Ok_0.v@ =~= somes(s2a_sorted(*tag, ts)));
@post let unwrapped
    assert(unwrapped.v@ =~= somes(s2a_seq(*vec, ts)));
@post let mut unwrapped
    assert(unwrapped.v@ =~= somes(s2a_seq(self.array.items->0->TagTuple_0, ts)));
