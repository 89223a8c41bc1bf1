## ast.rs: construction and predicates
@fn ast::Object::new
@ensures
    res == (Object { fields: hm(boxed(fields.m@)), required }),
@loop fields.into_iter().map.collect as l
    lists_own(fields.m@, src_l.v@),
    out_l.v@.len() == i_l,
    forall|i: int| 0 <= i < i_l ==> #[trigger] out_l.v@[i] == (src_l.v@[i].0, Box::new(src_l.v@[i].1)),
@after l
    proof { lemma_collect_own(fields.m@, src_l.v@, out_l.v@, boxed(fields.m@)); }

@fn ast::Array::new
@ensures
    res == (Array { items: Box::new(items) }),
@fn ast::Tuple::new
@ensures
    res == (Tuple { items }),
@fn ast::Map::new
@ensures
    res == (Map { key: Box::new(Tag { name: key, namespace: None, data_type: Type::Atom(Atom::String), nullable: false, is_root: false, description: None, title: None }), value: Box::new(value) }),
@fn ast::Union::new
@ensures
    res == (Union { items }),
@fn ast::Tag::new
@ensures
    res == (Tag { data_type, name, namespace: None, nullable, is_root: false, description, title }),
@fn ast::Tag::is_null
@ensures
    res == (self.data_type is Null),
@fn ast::Tag::is_atom
@ensures
    res == (self.data_type is Atom),
@fn ast::Tag::is_object
@ensures
    res == (self.data_type is Object),
@fn ast::Tag::is_map
@ensures
    res == (self.data_type is Map),
@fn ast::Tag::is_array
@ensures
    res == (self.data_type is Array),
@fn ast::Tag::fully_qualified_name
@ensures
    res.s@ == full_name(*self),

@fn ast::Tag::infer_nullability
@ensures
    *final(self) == inf_null(*old(self), force_nullable),
@decreases *old(self)
@loop for&mutobject.fields as f
    keyed(h0.m@.dom(), src_f.v@),
    object.fields.m@.dom() =~= h0.m@.dom(),
    object.required == r0,
    forall|i: int| 0 <= i < i_f ==> object.fields.m@[(#[trigger] src_f.v@[i]).s@] == inf_fields(h0, r0, force_nullable)[src_f.v@[i].s@],
    forall|i: int| i_f <= i < src_f.v@.len() ==> object.fields.m@[(#[trigger] src_f.v@[i]).s@] == h0.m@[src_f.v@[i].s@],
@pre f
    let ghost h0 = object.fields;
    let ghost r0 = object.required;
@after f
    assert(object.fields.m@ =~= inf_fields(h0, r0, force_nullable));
@loop fortuple.items.iter_mut() as t
    tuple.items.v@.len() == v0.v@.len(),
    forall|i: int| 0 <= i < i_t ==> #[trigger] tuple.items.v@[i] == inf_null(v0.v@[i], force_nullable),
    forall|i: int| i_t <= i < v0.v@.len() ==> #[trigger] tuple.items.v@[i] == v0.v@[i],
@pre t
    let ghost v0 = tuple.items;
@after t
    assert(tuple.items.v@ =~= inf_seq(v0, force_nullable));
@loop forunion.items.iter_mut() as u
    union.items.v@.len() == v0.v@.len(),
    forall|i: int| 0 <= i < i_u ==> #[trigger] union.items.v@[i] == inf_null(v0.v@[i], force_nullable),
    forall|i: int| i_u <= i < v0.v@.len() ==> #[trigger] union.items.v@[i] == v0.v@[i],
@pre u
    let ghost v0 = union.items;
@after u
    assert(union.items.v@ =~= inf_seq(v0, force_nullable));

## names
@fn ast::Tag::normalize_numeric_prefix
@ensures
    res.s@ == prefix(name.s@),
@start
    proof { axiom_numeric(); }

@fn ast::Tag::normalize_name_bigquery
@ensures
    res == (match norm_bq(string.s@) { Some(r) => Some(st(r)), None => None::<String> }),
@start
    proof { lemma_ident(); lemma_undot(string.s@); }


@fn ast::Tag::normalize_properties
@ensures
    *final(self) == norm_tag(*old(self), normalize_case),
@loop fields.keys().cloned.collect as k
    keyed_ref(h0.dom(), src_k.v@),
    out_k.v@.len() == i_k,
    forall|i: int| 0 <= i < i_k ==> #[trigger] out_k.v@[i] == *src_k.v@[i],
@start
    let ghost h0 = fields_of(*self).m@;
@after k
    proof { lemma_keyed(h0.dom(), src_k.v@, out_k.v@); }
@loop forkeys as r
    in_order(h0.dom(), src_r.v@),
    fields.m@ == pick(h0, ren(h0.dom(), i_r as nat, normalize_case)),
    forall|i: int| i_r <= i < src_r.v@.len() ==> ren(h0.dom(), i_r as nat, normalize_case).contains_key((#[trigger] src_r.v@[i]).s@),
    forall|k: Seq<char>| #[trigger] ren(h0.dom(), i_r as nat, normalize_case).contains_key(k) ==> h0.contains_key(ren(h0.dom(), i_r as nat, normalize_case)[k]),
@pre r
    proof { assert(pick(h0, ren(h0.dom(), 0, normalize_case)) =~= h0); }
@end r
    proof { assert(fields.m@ =~= pick(h0, ren(h0.dom(), i_r as nat, normalize_case))); }
@loop required.iter().map.filter_map.collect as q
    keyed_ref(required.e@, src_q.v@),
    forall|i: int| 0 <= i < strs(out_q).len() ==> norm_req(required.e@, false).contains((#[trigger] strs(out_q)[i]).s@),
    forall|j: int| 0 <= j < i_q && norm_bq((#[trigger] src_q.v@[j]).s@) is Some ==> holds(strs(out_q), norm_bq(src_q.v@[j].s@)->0),
@begin q
    let ghost out0 = strs(out_q);
@end q
    proof {
        lemma_req(required.e@, x_q_0.s@, false);
        lemma_holds(out0, strs(out_q));
        assert(norm_bq(x_q_0.s@) is Some ==> strs(out_q)[out0.len() as int].s@ == norm_bq(x_q_0.s@)->0);
    }
@after q
    proof { lemma_collect_req(required.e@, src_q.v@, strs(out_q)); }
@loop renamed.iter().map.collect as n
    keyed_ref(renamed.e@, src_n.v@),
    strs(out_n).len() == i_n,
    forall|i: int| 0 <= i < i_n ==> (#[trigger] strs(out_n)[i]).s@ == prefix(snake(src_n.v@[i].s@)),
@after n
    proof { lemma_collect_snake(required.e@, src_n.v@, strs(out_n)); }

@fn ast::Tag::set_name
@ensures
    *final(self) == with_name(*old(self), name.s@, namespace.s@),

@fn ast::Tag::recurse_infer_name
@ensures
    *final(self) == below(*old(self), namespace.s@, normalize_case),
@decreases old(self).data_type
@start
    let ghost h0 = fields_of(*self);
    let ghost ns = namespace.s@;
    proof { lemma_columns(h0.m@.dom(), normalize_case); reveal_with_fuel(below, 3); }
@loop forobject.fields.iter_mut() as f
    keyed(h1.dom(), src_f.v@),
    object.fields.m@.dom() =~= h1.dom(),
    object.required == r1,
    forall|i: int| 0 <= i < i_f ==> object.fields.m@[(#[trigger] src_f.v@[i]).s@] == Box::new(named(*h1[src_f.v@[i].s@], src_f.v@[i].s@, ns, normalize_case)),
    forall|i: int| i_f <= i < src_f.v@.len() ==> object.fields.m@[(#[trigger] src_f.v@[i]).s@] == h1[src_f.v@[i].s@],
@pre f
    let ghost h1 = object.fields.m@;
    let ghost r1 = object.required;
@after f
    assert(object.fields.m@ =~= below_fields(h0, ns, normalize_case));
@loop forunion.items.iter_mut() as u
    union.items.v@.len() == v0.v@.len(),
    forall|i: int| 0 <= i < i_u ==> #[trigger] union.items.v@[i] == named(v0.v@[i], "__union__"@, ns, normalize_case),
    forall|i: int| i_u <= i < v0.v@.len() ==> #[trigger] union.items.v@[i] == v0.v@[i],
@pre u
    let ghost v0 = union.items;
@after u
    assert(union.items.v@ =~= below_union(v0, ns, normalize_case));
@loop fortuple.items.iter_mut().enumerate() as t
    tuple.items.v@.len() == v0.v@.len(),
    forall|i: int| 0 <= i < i_t ==> #[trigger] tuple.items.v@[i] == named(v0.v@[i], tuple_name(i), ns, normalize_case),
    forall|i: int| i_t <= i < v0.v@.len() ==> #[trigger] tuple.items.v@[i] == v0.v@[i],
@pre t
    let ghost v0 = tuple.items;
@after t
    assert(tuple.items.v@ =~= below_tuple(v0, ns, normalize_case));

@fn ast::Tag::infer_name
@ensures
    *final(self) == inf_name(*old(self), normalize_case),
@start
    assert(""@ =~= Seq::<char>::empty());

@fn ast::Tag::translate_from
@requires
    lenient() || readable(tag, *context),
@ensures
    match res { Ok(t) => s2a(tag, context.tuple_struct) is Some && t == ast_of(tag, *context), Err(_) => s2a(tag, context.tuple_struct) is None },
@may lenient()
