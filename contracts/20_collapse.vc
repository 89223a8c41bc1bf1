## ast.rs: collapse
@fn ast::Union::collapse
@requires
    lenient() || (self.items.v@.len() > 0 && full_seq(self.items.v@)),
@ensures
    u_is(self.items.v@, res),
    lenient() || full(res),
@decreases 2 * depth::deps(self.items.v@) + 1
@may lenient()
@attr #[verifier::rlimit(100)] #[verifier::spinoff_prover]
@hide depth::deep depth::dep depth::deps full all_atoms all_objects all_maps all_arrays some_null some_nullable keyed keyed_ref lists lists_own conflict null_to nullable_to atoms_to objects_to maps_to arrays_to u_from flat_from objects_from merged_from join_from full_fields
@start
    let ghost s = self.items.v@;
    let ghost dd = depth::deps(s);
    let ghost mut nf: nat = 0;
    let ghost mut nm: nat = 0;
    let ghost mut nr: nat = 0;
    proof { lemma_single(s); depth::lemma_deps(s); }
@loop self.items.iter().any as a
    found_a == null_to(s, i_a as int),
@pre a
    proof { lemma_to_all(s); }
@end a
    proof { lemma_to(s, j_a as int); }
@after a
    assert(found_a == null_to(s, s.len() as int));
@loop self.items.iter().filter.map.collect as f
    flat_from(s, i_f as nat, out_f.v@, nf),
    depth::deep_seq(out_f.v@, dd),
    lenient() || full_seq(out_f.v@),
@pre f
    assert(flat_from(s, 0, Seq::empty(), nf)) by { reveal(flat_from); }
@begin f
    let ghost out0 = out_f.v@;
    proof {
        lemma_full_in(s[i_f as int]);
        if s[i_f as int].data_type is Union { depth::lemma_dep_union(s[i_f as int], dd); }
    }
@end f
    proof {
        let x = s[j_f as int];
        if x.data_type is Union {
            let us = x.data_type->Union_0.items.v@;
            let e = out_f.v@[out0.len() as int];
            let r = choose|r: Tag| #[trigger] u_is(us, r) && e == (Tag { name: x.name, ..r }) && (lenient() || full(r));
            lemma_flat_union(s, j_f as nat, out0, r, nf);
            lemma_full_type(r, e);
            assert(depth::same_type(e, r));
            nf = nmax(nf, u_bound(us, r));
        } else {
            lemma_flat_other(s, j_f as nat, out0, nf);
        }
    }
@loop items.iter().any as b
    found_b == nullable_to(items.v@, i_b as int),
@pre b
    proof { lemma_to_all(items.v@); }
@end b
    proof { lemma_to(items.v@, j_b as int); }
@after b
    assert(found_b == nullable_to(items.v@, items.v@.len() as int));
@loop items.iter().all as c
    found_c == atoms_to(items.v@, i_c as int),
@pre c
    proof { lemma_to_all(items.v@); }
@end c
    proof { lemma_to(items.v@, j_c as int); }
@after c
    assert(found_c == atoms_to(items.v@, items.v@.len() as int));
@loop items.into_iter().fold as t
    src_t.v@ == items.v@,
    acc_t == fold_atoms(src_t.v@, i_t as nat),
@loop items.iter().all#2 as d
    found_d == objects_to(items.v@, i_d as int),
@pre d
    proof { lemma_to_all(items.v@); }
@end d
    proof { lemma_to(items.v@, j_d as int); }
@after d
    assert(found_d == objects_to(items.v@, items.v@.len() as int));
@loop items.into_iter().fold#2 as o
    src_o.v@ == items.v@,
    objects_from(src_o.v@, i_o as nat, acc_o, nm),
    depth::deep(plain(acc_o, false), dd),
    lenient() || full(plain(acc_o, false)),
@pre o
    assert(objects_from(items.v@, 0, Type::Null, nm)) by { reveal(objects_from); }
    proof { lemma_full_of(plain(Type::Null, false)); depth::lemma_dep_null(dd); }
@begin o
    let ghost acc0 = acc_o;
    proof {
        nr = 0;
        lemma_full_type(src_o.v@[i_o as int], plain(src_o.v@[i_o as int].data_type, false));
        depth::lemma_deep_type(src_o.v@[i_o as int], plain(src_o.v@[i_o as int].data_type, false), dd);
    }
@end o
    proof {
        if !lenient() { lemma_join_full(plain(acc0, false), x_o_0, acc_o, nr); }
        lemma_join(acc0, x_o_0.data_type, acc_o, nr);
        depth::lemma_deep_type(src_o.v@[j_o as int], plain(x_o_0.data_type, false), dd);
        depth::lemma_dep_join(acc0, x_o_0.data_type, acc_o, nr, dd);
        lemma_objects_step(src_o.v@, j_o as nat, acc0, acc_o, nm, nr);
        nm = nmax(nm, nr);
    }
@loop for&left.fields as p
    lists(left.fields.m@, src_p.v@),
    forall|k: Seq<char>| #[trigger] union.m@.contains_key(k) == seen(src_p.v@, i_p as int, k),
    forall|k: Seq<char>| #[trigger] union.m@.contains_key(k) ==> union.m@[k].v@ == seq![*left.fields.m@[k]],
@end p
    proof {
        lemma_seen(src_p.v@, j_p as int);
        lemma_lists_at(left.fields.m@, src_p.v@, j_p as int);
    }
@after p
    proof { lemma_seen_all(left.fields.m@, src_p.v@); }
@loop for&right.fields as q
    lists(right.fields.m@, src_q.v@),
    forall|k: Seq<char>| #[trigger] union.m@.contains_key(k) == (left.fields.m@.contains_key(k) || seen(src_q.v@, i_q as int, k)),
    forall|k: Seq<char>| #[trigger] union.m@.contains_key(k) ==> union.m@[k].v@ == some_parts(left.fields.m@, right.fields.m@, k, seen(src_q.v@, i_q as int, k)),
@end q
    proof {
        lemma_seen(src_q.v@, j_q as int);
        lemma_lists_at(right.fields.m@, src_q.v@, j_q as int);
        let k = src_q.v@[j_q as int].0.s@;
        assert(seq![*left.fields.m@[k]].push(*right.fields.m@[k]) =~= seq![*left.fields.m@[k], *right.fields.m@[k]]);
    }
@after q
    proof { lemma_seen_all(right.fields.m@, src_q.v@); }
@loop union.into_iter().map.collect as r
    lists_own(union.m@, src_r.v@),
    pairs(out_r).len() == i_r,
    forall|j: int| 0 <= j < i_r ==> (#[trigger] pairs(out_r)[j]).0.s@ == src_r.v@[j].0.s@ && u_from(src_r.v@[j].1.v@, pairs(out_r)[j].1, nr),
    lenient() || forall|j: int| 0 <= j < i_r ==> full((#[trigger] pairs(out_r)[j]).1),
@begin r
    proof {
        lemma_own_at(union.m@, src_r.v@, i_r as int);
        depth::lemma_dep_parts(*left, *right, src_r.v@[i_r as int].0.s@, dd);
        if !lenient() { lemma_parts_full(*left, *right, src_r.v@[i_r as int].0.s@); }
    }
@end r
    proof {
        let n0 = nr;
        nr = nmax(nr, u_bound(src_r.v@[j_r as int].1.v@, pairs(out_r)[j_r as int].1));
        assert forall|j: int| 0 <= j < i_r implies u_from(src_r.v@[j].1.v@, (#[trigger] pairs(out_r)[j]).1, nr) by { reveal(u_from); }
    }
@after r
    proof { lemma_merge(left.fields.m@, right.fields.m@, union.m@, src_r.v@, pairs(out_r), nr); }
@loop result.iter().any as g
    found_g == (exists|j: int| 0 <= j < i_g && (#[trigger] src_g.v@[j]).1.data_type == json()),
@after g
    proof { lemma_conflict(result.m@, src_g.v@); }
@loop x.intersection(y).map.collect as h
    strs(out_h).len() == i_h,
    forall|j: int| 0 <= j < i_h ==> (#[trigger] strs(out_h)[j]).s@ == src_h.v@[j].s@,
@after h
    proof { lemma_collect_set(x.e@.intersect(y.e@), src_h.v@, strs(out_h)); }
@loop items.iter().all#3 as k
    found_k == maps_to(items.v@, i_k as int),
@pre k
    proof { lemma_to_all(items.v@); }
@end k
    proof { lemma_to(items.v@, j_k as int); }
@after k
    assert(found_k == maps_to(items.v@, items.v@.len() as int));
@loop items.into_iter().map.collect as m
    src_m.v@ == items.v@,
    out_m.v@.len() == i_m,
    forall|j: int| 0 <= j < i_m ==> #[trigger] out_m.v@[j] == *src_m.v@[j].data_type->Map_0.value,
    lenient() || full_seq(out_m.v@),
@begin m
    assert(src_m.v@[i_m as int].data_type is Map) by { reveal(all_maps); }
    proof { lemma_full_in(src_m.v@[i_m as int]); }
@after m
    assert(out_m.v@ =~= map_values(items.v@));
    proof { depth::lemma_dep_maps(items.v@, dd); }
@loop items.iter().all#4 as l
    found_l == arrays_to(items.v@, i_l as int),
@pre l
    proof { lemma_to_all(items.v@); }
@end l
    proof { lemma_to(items.v@, j_l as int); }
@after l
    assert(found_l == arrays_to(items.v@, items.v@.len() as int));
@loop items.into_iter().map.collect#2 as n
    src_n.v@ == items.v@,
    out_n.v@.len() == i_n,
    forall|j: int| 0 <= j < i_n ==> #[trigger] out_n.v@[j] == *src_n.v@[j].data_type->Array_0.items,
    lenient() || full_seq(out_n.v@),
@begin n
    assert(src_n.v@[i_n as int].data_type is Array) by { reveal(all_arrays); }
    proof { lemma_full_in(src_n.v@[i_n as int]); }
@after n
    assert(out_n.v@ =~= array_items(items.v@));
    proof { depth::lemma_dep_arrays(items.v@, dd); }
@tail
    proof {
        let l = items.v@;
        if !lenient() { lemma_multi_full(l, data_type, nullable); }
        lemma_merged(l, data_type, nm);
        lemma_multi(s, l, data_type, nf, merged_bound(l, data_type, nm));
    }

@fn ast::Tag::collapse
@requires
    lenient() || full(*old(self)),
@ensures
    t_is(*old(self), *final(self)),
    lenient() || full(*final(self)),
@decreases 2 * depth::dep(*old(self))
@may lenient()
@hide depth::deep depth::dep depth::deps
@at self.collapse()
    proof { assert(depth::same_type(*self, tag)); }
@start
    let ghost t0 = *self;
    let ghost mut b: nat = 0;
    proof {
        lemma_col_down(t0);
        depth::lemma_dep(t0);
        depth::lemma_dep_kids(t0);
        if t0.data_type is Union { depth::lemma_dep_union(t0, depth::dep(t0)); }
    }
@loop for&mutobject.fields.values_mut() as f
    keyed(h0.m@.dom(), src_f.v@),
    object.fields.m@.dom() =~= h0.m@.dom(),
    object.required == r0,
    forall|i: int| 0 <= i < i_f ==> t_from(*h0.m@[(#[trigger] src_f.v@[i]).s@], *object.fields.m@[src_f.v@[i].s@], b)
        && (lenient() || full(*object.fields.m@[src_f.v@[i].s@])),
    forall|i: int| i_f <= i < src_f.v@.len() ==> object.fields.m@[(#[trigger] src_f.v@[i]).s@] == h0.m@[src_f.v@[i].s@],
@pre f
    let ghost h0 = object.fields;
    let ghost r0 = object.required;
@end f
    proof { b = nmax(b, t_bound(*h0.m@[src_f.v@[j_f as int].s@], *object.fields.m@[src_f.v@[j_f as int].s@])); }
@after f
    proof { lemma_col_fields(t0, src_f.v@, object.fields.m@, b); }
@loop fortuple.items.iter_mut() as t
    tuple.items.v@.len() == v0.v@.len(),
    forall|i: int| 0 <= i < i_t ==> t_from(v0.v@[i], #[trigger] tuple.items.v@[i], b) && (lenient() || full(tuple.items.v@[i])),
    forall|i: int| i_t <= i < v0.v@.len() ==> #[trigger] tuple.items.v@[i] == v0.v@[i],
@pre t
    let ghost v0 = tuple.items;
@end t
    proof { b = nmax(b, t_bound(v0.v@[j_t as int], tuple.items.v@[j_t as int])); }
@after t
    proof { lemma_col_seq(t0, tuple.items.v@, b); }
