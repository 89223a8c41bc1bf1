// C11: forcing nullability changes nothing but nullability.
verus! {
pub mod forcing {
use super::*;
use super::shim::*;
use super::spec::*;
use super::lemmas::*;
use super::depth::*;
use super::tags::*;
use super::lims::*;
use super::total::*;
use super::valid_bq::*;
use super::closed::*;
use super::resolving::*;
use super::valid_av::*;
use super::ast::{Tag, Type, Object, Union, Tuple, Atom};

/// the tag with everything in it nullable
pub open spec fn fu(t: Tag) -> Tag { inf_null(t, true) }
pub open spec fn fu_type(d: Type) -> Type { inf_type(d, true) }
pub open spec fn sim(a: Tag, b: Tag) -> bool { fu(a) == fu(b) }
pub open spec fn sim_seq(a: Seq<Tag>, b: Seq<Tag>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> sim(#[trigger] a[i], b[i]) }

pub proof fn lemma_fu_inf(t: Tag, f: bool)
    ensures fu(inf_null(t, f)) == fu(t)
    decreases t
{
    let r = inf_null(t, f);
    match t.data_type {
        Type::Object(o) => {
            let g = inf_fields(o.fields, o.required, f);
            assert(r.data_type->Object_0.fields.m@ == g);
            let a = inf_fields(hm(g), o.required, true);
            let b = inf_fields(o.fields, o.required, true);
            assert forall|k: Seq<char>| #[trigger] a.contains_key(k) implies a[k] == b[k] by {
                assert(o.fields.m@.contains_key(k));
                let x = *o.fields.m@[k];
                lemma_fu_inf(x, f);
                assert(*g[k] == optional(inf_null(x, f), f || !demands(o.required, k)));
                lemma_fu_type(inf_null(x, f), *g[k]);
            }
            assert(a =~= b);
            assert(fu(r).data_type == inf_type(r.data_type, true));
        }
        Type::Map(m) => { lemma_fu_inf(*m.value, f); }
        Type::Array(a) => { lemma_fu_inf(*a.items, f); }
        Type::Tuple(u) => {
            let v = inf_seq(u.items, f);
            assert(r.data_type->Tuple_0.items.v@ == v);
            assert forall|i: int| 0 <= i < v.len() implies fu(#[trigger] v[i]) == inf_seq(u.items, true)[i] by { lemma_fu_inf(u.items.v@[i], f); }
            assert(inf_seq(vc(v), true) =~= inf_seq(u.items, true));
            assert(fu(r).data_type == inf_type(r.data_type, true));
        }
        Type::Union(u) => {
            let v = inf_seq(u.items, f);
            assert(r.data_type->Union_0.items.v@ == v);
            assert forall|i: int| 0 <= i < v.len() implies fu(#[trigger] v[i]) == inf_seq(u.items, true)[i] by { lemma_fu_inf(u.items.v@[i], f); }
            assert(inf_seq(vc(v), true) =~= inf_seq(u.items, true));
            assert(fu(r).data_type == inf_type(r.data_type, true));
        }
        _ => {}
    }
}
/// whether a tag is nullable has no part in it
pub proof fn lemma_fu_type(a: Tag, b: Tag)
    requires b == (Tag { nullable: b.nullable, ..a })
    ensures fu(a) == fu(b)
{
}
/// tags of the same types are the same but for what else they carry
pub proof fn lemma_sim_type(a: Tag, b: Tag)
    requires fu_type(a.data_type) == fu_type(b.data_type), b == (Tag { nullable: b.nullable, data_type: b.data_type, ..a })
    ensures sim(a, b)
{
}
/// what tags that are the same have in common
pub proof fn lemma_sim(a: Tag, b: Tag)
    requires sim(a, b)
    ensures
        fu_type(a.data_type) == fu_type(b.data_type),
        a.name == b.name, a.namespace == b.namespace, a.title == b.title, a.description == b.description, a.is_root == b.is_root,
        match a.data_type {
            Type::Null => b.data_type is Null,
            Type::Atom(x) => b.data_type == a.data_type,
            Type::Object(x) => b.data_type is Object && x.required == b.data_type->Object_0.required && sim_map(x.fields.m@, b.data_type->Object_0.fields.m@),
            Type::Map(m) => b.data_type is Map && m.key == b.data_type->Map_0.key && sim(*m.value, *b.data_type->Map_0.value),
            Type::Array(x) => b.data_type is Array && sim(*x.items, *b.data_type->Array_0.items),
            Type::Tuple(x) => b.data_type is Tuple && sim_seq(x.items.v@, b.data_type->Tuple_0.items.v@),
            Type::Union(x) => b.data_type is Union && sim_seq(x.items.v@, b.data_type->Union_0.items.v@),
        },
{
    let c = fu(a);
    assert(c.data_type == inf_type(a.data_type, true));
    assert(c.data_type == inf_type(b.data_type, true));
    match a.data_type {
        Type::Object(x) => {
            let y = b.data_type->Object_0;
            let f = inf_fields(x.fields, x.required, true);
            let g = inf_fields(y.fields, y.required, true);
            assert(c.data_type->Object_0.fields.m@ == f);
            assert(c.data_type->Object_0.fields.m@ == g);
            assert(f.dom() == x.fields.m@.dom());
            assert(g.dom() == y.fields.m@.dom());
            assert forall|k: Seq<char>| #[trigger] x.fields.m@.contains_key(k) implies sim(*x.fields.m@[k], *y.fields.m@[k]) by {
                assert(f.contains_key(k) && g.contains_key(k));
                assert(y.fields.m@.contains_key(k));
                assert(*f[k] == optional(fu(*x.fields.m@[k]), true));
                assert(*g[k] == optional(fu(*y.fields.m@[k]), true));
                assert(fu(*x.fields.m@[k]).nullable && fu(*y.fields.m@[k]).nullable);
            }
        }
        Type::Tuple(x) => {
            let y = b.data_type->Tuple_0;
            let f = inf_seq(x.items, true);
            let g = inf_seq(y.items, true);
            assert(c.data_type->Tuple_0.items.v@ == f);
            assert(c.data_type->Tuple_0.items.v@ == g);
            assert(f.len() == x.items.v@.len() && g.len() == y.items.v@.len());
            assert forall|i: int| 0 <= i < x.items.v@.len() implies sim(#[trigger] x.items.v@[i], y.items.v@[i]) by {
                assert(f[i] == fu(x.items.v@[i]));
                assert(g[i] == fu(y.items.v@[i]));
            }
        }
        Type::Union(x) => {
            let y = b.data_type->Union_0;
            let f = inf_seq(x.items, true);
            let g = inf_seq(y.items, true);
            assert(c.data_type->Union_0.items.v@ == f);
            assert(c.data_type->Union_0.items.v@ == g);
            assert(f.len() == x.items.v@.len() && g.len() == y.items.v@.len());
            assert forall|i: int| 0 <= i < x.items.v@.len() implies sim(#[trigger] x.items.v@[i], y.items.v@[i]) by {
                assert(f[i] == fu(x.items.v@[i]));
                assert(g[i] == fu(y.items.v@[i]));
            }
        }
        _ => {}
    }
}
pub open spec fn sim_map(a: Map<Seq<char>, Box<Tag>>, b: Map<Seq<char>, Box<Tag>>) -> bool {
    a.dom() == b.dom() && forall|k: Seq<char>| #[trigger] a.contains_key(k) ==> sim(*a[k], *b[k])
}
// and what makes them the same
pub proof fn lemma_make_object(x: Object, y: Object)
    requires x.required == y.required, sim_map(x.fields.m@, y.fields.m@)
    ensures fu_type(Type::Object(x)) == fu_type(Type::Object(y))
{
    let f = inf_fields(x.fields, x.required, true);
    let g = inf_fields(y.fields, y.required, true);
    assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies f[k] == g[k] by {
        assert(x.fields.m@.contains_key(k));
        assert(y.fields.m@.contains_key(k));
    }
    assert(f =~= g);
}
pub proof fn lemma_make_seq(x: Seq<Tag>, y: Seq<Tag>)
    requires sim_seq(x, y)
    ensures inf_seq(vc(x), true) == inf_seq(vc(y), true)
{
    assert forall|i: int| 0 <= i < x.len() implies #[trigger] inf_seq(vc(x), true)[i] == inf_seq(vc(y), true)[i] by { assert(sim(x[i], y[i])); }
    assert(inf_seq(vc(x), true) =~= inf_seq(vc(y), true));
}

// ---------------------------------------------------------------- collapsing

pub proof fn lemma_u_sim(s: Seq<Tag>, t: Seq<Tag>, n: nat)
    requires sim_seq(s, t)
    ensures sim(u_col(s, n), u_col(t, n))
    decreases n, 0nat, 0nat
{
    if n > 0 {
        let m = (n - 1) as nat;
        if s.len() == 1 {
            assert(sim(s[0], t[0]));
            lemma_t_sim(s[0], t[0], m);
            lemma_sim(t_col(s[0], m), t_col(t[0], m));
            lemma_sim_type(u_col(s, n), u_col(t, n));
        } else {
            let a = flat(s, s.len(), m);
            let b = flat(t, t.len(), m);
            lemma_flat_sim(s, t, s.len(), m);
            lemma_merged_sim(a, b, m);
            let x = plain(merged(a, m), some_null(s) || some_nullable(a));
            let y = plain(merged(b, m), some_null(t) || some_nullable(b));
            lemma_sim_type(x, y);
            lemma_fu_inf(x, false);
            lemma_fu_inf(y, false);
            assert(u_col(s, n) == inf_null(x, false));
            assert(u_col(t, n) == inf_null(y, false));
        }
    }
}
pub proof fn lemma_flat_sim(s: Seq<Tag>, t: Seq<Tag>, i: nat, n: nat)
    requires sim_seq(s, t), i <= s.len()
    ensures sim_seq(flat(s, i, n), flat(t, i, n))
    decreases n, 1nat, i
{
    if i > 0 {
        lemma_flat_sim(s, t, (i - 1) as nat, n);
        let x = s[i - 1];
        let y = t[i - 1];
        assert(sim(x, y));
        lemma_sim(x, y);
        match x.data_type {
            Type::Union(u) => {
                let w = y.data_type->Union_0;
                lemma_u_sim(u.items.v@, w.items.v@, n);
                let p = u_col(u.items.v@, n);
                let q = u_col(w.items.v@, n);
                lemma_sim(p, q);
                lemma_sim_type(Tag { name: x.name, ..p }, Tag { name: y.name, ..q });
            }
            _ => {}
        }
    }
}
pub proof fn lemma_kinds_sim(s: Seq<Tag>, t: Seq<Tag>)
    requires sim_seq(s, t)
    ensures
        all_atoms(s) == all_atoms(t), all_objects(s) == all_objects(t), all_maps(s) == all_maps(t), all_arrays(s) == all_arrays(t),
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).data_type is Atom ==> s[i].data_type == t[i].data_type,
        forall|i: int| 0 <= i < s.len() ==> fu_type((#[trigger] s[i]).data_type) == fu_type(t[i].data_type),
        all_maps(s) ==> sim_seq(map_values(s), map_values(t)),
        all_arrays(s) ==> sim_seq(array_items(s), array_items(t)),
{
    assert forall|i: int| 0 <= i < s.len() implies
        (s[i].data_type is Atom <==> t[i].data_type is Atom) && (s[i].data_type is Object <==> t[i].data_type is Object)
        && (s[i].data_type is Map <==> t[i].data_type is Map) && (s[i].data_type is Array <==> t[i].data_type is Array)
        && (s[i].data_type is Atom ==> s[i].data_type == t[i].data_type)
        && fu_type((#[trigger] s[i]).data_type) == fu_type(t[i].data_type)
        && (s[i].data_type is Map ==> sim(*s[i].data_type->Map_0.value, *t[i].data_type->Map_0.value))
        && (s[i].data_type is Array ==> sim(*s[i].data_type->Array_0.items, *t[i].data_type->Array_0.items)) by {
        assert(sim(s[i], t[i]));
        lemma_sim(s[i], t[i]);
    }
    assert forall|i: int| 0 <= i < t.len() implies
        (s[i].data_type is Atom <==> (#[trigger] t[i]).data_type is Atom) && (s[i].data_type is Object <==> t[i].data_type is Object)
        && (s[i].data_type is Map <==> t[i].data_type is Map) && (s[i].data_type is Array <==> t[i].data_type is Array) by {
        assert(sim(s[i], t[i]));
        lemma_sim(s[i], t[i]);
    }
    if all_atoms(s) || all_atoms(t) { assert(all_atoms(t) == all_atoms(s)); }
    if all_maps(s) {
        assert forall|i: int| 0 <= i < map_values(s).len() implies sim(#[trigger] map_values(s)[i], map_values(t)[i]) by { assert(s[i].data_type is Map); }
    }
    if all_arrays(s) {
        assert forall|i: int| 0 <= i < array_items(s).len() implies sim(#[trigger] array_items(s)[i], array_items(t)[i]) by { assert(s[i].data_type is Array); }
    }
}
pub proof fn lemma_atoms_sim(s: Seq<Tag>, t: Seq<Tag>, i: nat)
    requires i <= s.len(), s.len() == t.len(), forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).data_type == t[j].data_type
    ensures fold_atoms(s, i) == fold_atoms(t, i)
    decreases i
{
    if i > 0 { lemma_atoms_sim(s, t, (i - 1) as nat); assert(s[i - 1].data_type == t[i - 1].data_type); }
}
pub proof fn lemma_merged_sim(s: Seq<Tag>, t: Seq<Tag>, n: nat)
    requires sim_seq(s, t)
    ensures fu_type(merged(s, n)) == fu_type(merged(t, n))
    decreases n, 2nat, 0nat
{
    lemma_kinds_sim(s, t);
    if all_atoms(s) { lemma_atoms_sim(s, t, s.len()); }
    else if all_objects(s) { lemma_objects_sim(s, t, s.len(), n); }
    else if all_maps(s) { lemma_u_sim(map_values(s), map_values(t), n); }
    else if all_arrays(s) { lemma_u_sim(array_items(s), array_items(t), n); }
}
pub proof fn lemma_objects_sim(s: Seq<Tag>, t: Seq<Tag>, i: nat, n: nat)
    requires sim_seq(s, t), i <= s.len(), all_objects(s), all_objects(t)
    ensures fu_type(fold_objects(s, i, n)) == fu_type(fold_objects(t, i, n))
    decreases n, 1nat, i
{
    if i > 0 {
        lemma_objects_sim(s, t, (i - 1) as nat, n);
        let l = fold_objects(s, (i - 1) as nat, n);
        let m = fold_objects(t, (i - 1) as nat, n);
        assert(sim(s[i - 1], t[i - 1]));
        lemma_sim(s[i - 1], t[i - 1]);
        let a = plain(l, false);
        let b = plain(m, false);
        lemma_sim_type(a, b);
        lemma_sim(a, b);
        match (l, s[i - 1].data_type) {
            (Type::Object(x), Type::Object(y)) => { lemma_join_sim(x, m->Object_0, y, t[i - 1].data_type->Object_0, n); }
            _ => {}
        }
        assert(fold_objects(s, i, n) == join_objects(l, s[i - 1].data_type, n));
        assert(fold_objects(t, i, n) == join_objects(m, t[i - 1].data_type, n));
    }
}
pub proof fn lemma_join_sim(x: Object, u: Object, y: Object, v: Object, n: nat)
    requires x.required == u.required, y.required == v.required, sim_map(x.fields.m@, u.fields.m@), sim_map(y.fields.m@, v.fields.m@)
    ensures fu_type(join_objects(Type::Object(x), Type::Object(y), n)) == fu_type(join_objects(Type::Object(u), Type::Object(v), n))
    decreases n, 0nat, 1nat
{
    let f = merge_fields(x.fields.m@, y.fields.m@, n);
    let g = merge_fields(u.fields.m@, v.fields.m@, n);
    assert(f.dom() =~= g.dom());
    assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies sim(f[k], g[k]) && (f[k].data_type == json() <==> g[k].data_type == json()) by {
        let p = parts(x.fields.m@, y.fields.m@, k);
        let q = parts(u.fields.m@, v.fields.m@, k);
        assert(x.fields.m@.contains_key(k) == u.fields.m@.contains_key(k));
        assert(y.fields.m@.contains_key(k) == v.fields.m@.contains_key(k));
        assert(x.fields.m@.contains_key(k) || y.fields.m@.contains_key(k));
        assert(sim_seq(p, q));
        lemma_u_sim(p, q, n);
        lemma_sim(f[k], g[k]);
        lemma_sim(g[k], f[k]);
    }
    assert(conflict(f) == conflict(g)) by {
        if conflict(f) { let k = choose|k: Seq<char>| #[trigger] f.contains_key(k) && f[k].data_type == json(); assert(g.contains_key(k)); }
        if conflict(g) { let k = choose|k: Seq<char>| #[trigger] g.contains_key(k) && g[k].data_type == json(); assert(f.contains_key(k)); }
    }
    if !conflict(f) {
        let a = Object { fields: hm(boxed(f)), required: both_req(x.required, y.required) };
        let b = Object { fields: hm(boxed(g)), required: both_req(u.required, v.required) };
        assert forall|k: Seq<char>| #[trigger] a.fields.m@.contains_key(k) implies sim(*a.fields.m@[k], *b.fields.m@[k]) by { assert(f.contains_key(k)); }
        assert(a.fields.m@.dom() == b.fields.m@.dom());
        lemma_make_object(a, b);
    }
}
pub proof fn lemma_t_sim(a: Tag, b: Tag, n: nat)
    requires sim(a, b)
    ensures sim(t_col(a, n), t_col(b, n))
    decreases n, 3nat, 0nat, a
{
    lemma_sim(a, b);
    let p = t_col(a, n);
    let q = t_col(b, n);
    match a.data_type {
        Type::Union(u) => {
            let w = b.data_type->Union_0;
            if n > 0 {
                let m = (n - 1) as nat;
                lemma_u_sim(u.items.v@, w.items.v@, m);
                let r = u_col(u.items.v@, m);
                let s = u_col(w.items.v@, m);
                lemma_sim(r, s);
                let x = Tag { data_type: r.data_type, nullable: a.nullable || r.nullable, ..a };
                let y = Tag { data_type: s.data_type, nullable: b.nullable || s.nullable, ..b };
                lemma_sim_type(x, y);
                lemma_t_sim(x, y, m);
            } else { lemma_sim_type(p, q); }
        }
        Type::Object(o) => {
            let w = b.data_type->Object_0;
            let f = col_fields(o.fields, n);
            let g = col_fields(w.fields, n);
            assert(f.dom() == o.fields.m@.dom() && g.dom() == w.fields.m@.dom());
            assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies sim(*f[k], *g[k]) by {
                assert(o.fields.m@.contains_key(k));
                assert(w.fields.m@.contains_key(k));
                lemma_t_sim(*o.fields.m@[k], *w.fields.m@[k], n);
            }
            lemma_make_object(p.data_type->Object_0, q.data_type->Object_0);
            lemma_sim_type(p, q);
        }
        Type::Map(m) => { lemma_t_sim(*m.value, *b.data_type->Map_0.value, n); lemma_sim_type(p, q); }
        Type::Array(x) => { lemma_t_sim(*x.items, *b.data_type->Array_0.items, n); lemma_sim_type(p, q); }
        Type::Tuple(x) => {
            let w = b.data_type->Tuple_0;
            let f = col_seq(x.items, n);
            let g = col_seq(w.items, n);
            assert forall|i: int| 0 <= i < f.len() implies sim(#[trigger] f[i], g[i]) by {
                assert(sim(x.items.v@[i], w.items.v@[i]));
                lemma_t_sim(x.items.v@[i], w.items.v@[i], n);
            }
            lemma_make_seq(f, g);
            lemma_sim_type(p, q);
        }
        _ => {}
    }
}
pub proof fn lemma_col_sim(a: Tag, b: Tag)
    requires sim(a, b)
    ensures sim(col(a), col(b))
{
    let m = lemma_col_at(a);
    let k = lemma_col_at(b);
    let n = nmax(m, k);
    lemma_t_sim(a, b, n);
    assert(t_col(a, n) == col(a));
    assert(t_col(b, n) == col(b));
}
pub open spec fn forced(c: Context) -> Context { Context { force_nullable: true, ..c } }
/// the tag that is translated is the same, all of it nullable
pub proof fn lemma_core_forced(v: Value, c: Context)
    requires read_ok(v, c), !c.force_nullable
    ensures read_ok(v, forced(c)), ctx_in(v, forced(c)) == forced(ctx_in(v, c)), core_of(v, forced(c)) == fu(core_of(v, c))
{
    let s = schema_in(v);
    let c0 = ctx_in(v, c);
    let c1 = ctx_in(v, forced(c));
    lemma_sound_options(s, c);
    lemma_sound_options(s, forced(c));
    let x = inf_name(s2a(s, c.tuple_struct)->0, c.normalize_case);
    let t0 = tag_in(v, c);
    let t1 = tag_in(v, forced(c));
    assert(t0 == Tag { is_root: true, ..inf_null(x, false) });
    assert(t1 == Tag { is_root: true, ..fu(x) });
    lemma_fu_inf(x, false);
    lemma_fu_inf(x, true);
    assert(fu(t0) == (Tag { is_root: true, ..fu(inf_null(x, false)) }));
    assert(fu(t1) == (Tag { is_root: true, ..fu(fu(x)) }));
    lemma_col_sim(t0, t1);
    lemma_readable(s, c0);
    let n = lemma_col_at(t0);
    lemma_t_good(t0, n, c.normalize_case);
    assert(t_col(t0, n) == col(t0));
    lemma_inf_inferred(col(t0), false);
    lemma_er_inf(inf_null(col(t0), false), true);
    lemma_fu_inf(col(t0), false);
    assert(core_of(v, c) == er(inf_null(col(t0), false)));
    assert(core_of(v, forced(c)) == er(fu(col(t1))));
}

// ---------------------------------------------------------------- BigQuery

/// `b` is `a` with null allowed
pub open spec fn eased(a: bigquery::Tag, b: bigquery::Tag) -> bool
    decreases a
{
    &&& a.name == b.name && a.description == b.description
    &&& if a.mode is Repeated { b.mode is Repeated } else { b.mode is Nullable }
    &&& eased_type(*a.data_type, *b.data_type)
}
pub open spec fn eased_type(a: bigquery::Type, b: bigquery::Type) -> bool
    decreases a
{
    match a {
        bigquery::Type::Atom(x) => b == a,
        bigquery::Type::Record(r) => b is Record && eased_record(r, b->Record_0),
    }
}
pub open spec fn eased_record(a: bigquery::Record, b: bigquery::Record) -> bool
    decreases a
{
    a.fields.m@.dom() == b.fields.m@.dom() && forall|k: Seq<char>| #[trigger] a.fields.m@.contains_key(k) ==> eased(*a.fields.m@[k], *b.fields.m@[k])
}
pub open spec fn eased_out(a: Out<bigquery::Type>, b: Out<bigquery::Type>) -> bool {
    match a { Out::Val(x) => b is Val && eased_type(x, b->Val_0), Out::Err => b is Err, Out::Abort => b is Abort }
}
pub open spec fn eased_col(a: Out<bigquery::Tag>, b: Out<bigquery::Tag>) -> bool {
    match a { Out::Val(x) => b is Val && eased(x, b->Val_0), Out::Err => b is Err, Out::Abort => b is Abort }
}
pub proof fn lemma_fu_kind(w: Tag)
    ensures repeated(fu(w)) == repeated(w), fu(w).nullable, fu(w).title == w.title, fu(w).description == w.description,
        (fu(w).data_type is Null) == (w.data_type is Null), (fu(w).data_type is Array) == (w.data_type is Array)
{
    match w.data_type { Type::Object(_) => {} _ => {} }
}
pub proof fn lemma_eased_column(k: Seq<char>, w: Tag, a: Out<bigquery::Type>, b: Out<bigquery::Type>)
    requires eased_out(a, b)
    ensures eased_col(columned(k, w, a), columned(k, fu(w), b))
{
    lemma_fu_kind(w);
}
pub proof fn lemma_eased(w: Tag, p: Seq<char>, c: Context)
    ensures eased_out(bqw(w, p, c), bqw(fu(w), p, forced(c)))
    decreases w
{
    reveal_strlit("key"); reveal_strlit("value");
    let z = fu(w);
    let d = forced(c);
    match w.data_type {
        Type::Object(o) => {
            let zf = z.data_type->Object_0.fields;
            assert(zf.m@ == inf_fields(o.fields, o.required, true));
            let f = bqw_fields(o.fields, p, c);
            let g = bqw_fields(zf, p, d);
            assert(f.dom() =~= g.dom());
            assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies eased_col(f[k], g[k]) by {
                assert(o.fields.m@.contains_key(k));
                assert(zf.m@.contains_key(k));
                let x = *o.fields.m@[k];
                assert(*zf.m@[k] == fu(x));
                lemma_eased(x, join(p, k), c);
                lemma_eased_column(k, x, bqw(x, join(p, k), c), bqw(fu(x), join(p, k), d));
            }
            lemma_eased_object(f, g);
        }
        Type::Tuple(t) => {
            let zt = z.data_type->Tuple_0.items;
            assert(zt.v@ == inf_seq(t.items, true));
            let f = bqw_seq(t.items, p, c);
            let g = bqw_seq(zt, p, d);
            assert forall|i: int| 0 <= i < f.len() implies eased_col(#[trigger] f[i], g[i]) by {
                let x = t.items.v@[i];
                let q = join(p, tuple_name(i));
                assert(zt.v@[i] == fu(x));
                lemma_eased(x, q, c);
                lemma_eased_column(tuple_name(i), x, bqw(x, q, c), bqw(fu(x), q, d));
            }
            lemma_eased_tuple(f, g);
        }
        Type::Array(a) => {
            let x = *a.items;
            assert(*z.data_type->Array_0.items == fu(x));
            lemma_eased(x, join(p, "list"@), c);
            lemma_fu_kind(x);
            let r = bqw(x, join(p, "list"@), c);
            let s = bqw(fu(x), join(p, "list"@), d);
            lemma_eased_column("list"@, x, r, s);
            if r is Val && repeated(x) {
                let m = one("list"@, column_of("list"@, x, r->Val_0));
                let n = one("list"@, column_of("list"@, fu(x), s->Val_0));
                assert(m.dom() =~= n.dom());
                assert(eased_record(bq_record(m)->Record_0, bq_record(n)->Record_0));
            }
        }
        Type::Map(m) => {
            let x = *m.value;
            assert(*z.data_type->Map_0.value == fu(x));
            assert(z.data_type->Map_0.key == m.key);
            lemma_eased(x, join(p, "value"@), c);
            let r = bqw(x, join(p, "value"@), c);
            let s = bqw(fu(x), join(p, "value"@), d);
            lemma_eased_column("value"@, x, r, s);
            let a = one("key"@, key_column(*m.key, c));
            let b = one("key"@, key_column(*m.key, d));
            assert(a.dom() =~= b.dom());
            assert(eased(key_column(*m.key, c), key_column(*m.key, d)));
            assert(eased_record(bq_record(a)->Record_0, bq_record(b)->Record_0));
            if r is Val {
                let a2 = a.insert("value"@, Box::new(column_of("value"@, x, r->Val_0)));
                let b2 = b.insert("value"@, Box::new(column_of("value"@, fu(x), s->Val_0)));
                assert(a2.dom() =~= b2.dom());
                assert("key"@.len() != "value"@.len());
                assert(eased_record(bq_record(a2)->Record_0, bq_record(b2)->Record_0));
            }
        }
        _ => {}
    }
}
pub proof fn lemma_eased_object(f: Map<Seq<char>, Out<bigquery::Tag>>, g: Map<Seq<char>, Out<bigquery::Tag>>)
    requires f.dom() == g.dom(), forall|k: Seq<char>| #[trigger] f.contains_key(k) ==> eased_col(f[k], g[k])
    ensures map_aborts(f) == map_aborts(g), kept(f) == kept(g), eased_record(bq_record(vals(f))->Record_0, bq_record(vals(g))->Record_0)
{
    assert(map_aborts(f) == map_aborts(g)) by {
        if map_aborts(f) { let k = choose|k: Seq<char>| #[trigger] f.contains_key(k) && f[k] is Abort; assert(g.contains_key(k)); }
        if map_aborts(g) { let k = choose|k: Seq<char>| #[trigger] g.contains_key(k) && g[k] is Abort; assert(f.contains_key(k)); }
    }
    assert forall|k: Seq<char>| kept(f).contains(k) == kept(g).contains(k) by {
        assert(f.contains_key(k) == g.contains_key(k));
        if f.contains_key(k) { assert(eased_col(f[k], g[k])); }
    }
    assert(kept(f) =~= kept(g));
    let a = bq_record(vals(f))->Record_0;
    let b = bq_record(vals(g))->Record_0;
    assert forall|k: Seq<char>| #[trigger] a.fields.m@.contains_key(k) implies eased(*a.fields.m@[k], *b.fields.m@[k]) by {
        assert(kept(f).contains(k));
        assert(f.contains_key(k));
        assert(eased_col(f[k], g[k]));
    }
    assert(a.fields.m@.dom() == b.fields.m@.dom());
}
pub proof fn lemma_eased_tuple(f: Seq<Out<bigquery::Tag>>, g: Seq<Out<bigquery::Tag>>)
    requires f.len() == g.len(), forall|i: int| 0 <= i < f.len() ==> eased_col(#[trigger] f[i], g[i])
    ensures
        seq_aborts(f) == seq_aborts(g), seq_fails(f) == seq_fails(g),
        !seq_aborts(f) && !seq_fails(f) ==> eased_record(bq_record(bq_tuple(f, f.len()))->Record_0, bq_record(bq_tuple(g, g.len()))->Record_0),
{
    assert(seq_aborts(f) == seq_aborts(g)) by {
        if seq_aborts(f) { let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]) is Abort; assert(eased_col(f[i], g[i])); }
        if seq_aborts(g) { let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]) is Abort; assert(eased_col(f[i], g[i])); }
    }
    assert(seq_fails(f) == seq_fails(g)) by {
        if seq_fails(f) { let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]) is Err; assert(eased_col(f[i], g[i])); }
        if seq_fails(g) { let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]) is Err; assert(eased_col(f[i], g[i])); }
    }
    if !seq_aborts(f) && !seq_fails(f) {
        assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i]) is Val by { if f[i] is Err { } if f[i] is Abort { } }
        lemma_eased_tuple_map(f, g, f.len());
    }
}
pub proof fn lemma_eased_tuple_map(f: Seq<Out<bigquery::Tag>>, g: Seq<Out<bigquery::Tag>>, n: nat)
    requires n <= f.len(), f.len() == g.len(), forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]) is Val && eased_col(f[i], g[i])
    ensures eased_record(bq_record(bq_tuple(f, n))->Record_0, bq_record(bq_tuple(g, n))->Record_0)
    decreases n
{
    let a = bq_record(bq_tuple(f, n))->Record_0;
    let b = bq_record(bq_tuple(g, n))->Record_0;
    if n > 0 {
        lemma_eased_tuple_map(f, g, (n - 1) as nat);
        let x = bq_tuple(f, (n - 1) as nat);
        let y = bq_tuple(g, (n - 1) as nat);
        assert(bq_record(x)->Record_0.fields.m@ == x);
        assert(bq_record(y)->Record_0.fields.m@ == y);
        assert(f[n - 1] is Val);
        assert(a.fields.m@ == x.insert(tuple_name(n - 1), Box::new(bigquery::Tag { name: Some(st(tuple_name(n - 1))), ..f[n - 1]->Val_0 })));
        assert(b.fields.m@ == y.insert(tuple_name(n - 1), Box::new(bigquery::Tag { name: Some(st(tuple_name(n - 1))), ..g[n - 1]->Val_0 })));
        assert(a.fields.m@.dom() =~= b.fields.m@.dom());
        assert forall|k: Seq<char>| #[trigger] a.fields.m@.contains_key(k) implies eased(*a.fields.m@[k], *b.fields.m@[k]) by {
            if k != tuple_name(n - 1) { assert(x.contains_key(k)); }
        }
    } else {
        assert(a.fields.m@ == Map::<Seq<char>, Box<bigquery::Tag>>::empty());
        assert(b.fields.m@ == Map::<Seq<char>, Box<bigquery::Tag>>::empty());
    }
}

// ---------------------------------------------------------------- Avro

/// `b` is `a` with null allowed
pub open spec fn eased_av(a: avro::Type, b: avro::Type) -> bool
    decreases a, 2nat
{
    match a {
        avro::Type::Union(v) => v.v@.len() == 2 && is_null(v.v@[0]) && b is Union && (b->Union_0).v@.len() == 2 && is_null((b->Union_0).v@[0]) && eased_in(v.v@[1], (b->Union_0).v@[1]),
        _ => if is_null(a) { b == a } else { b is Union && (b->Union_0).v@.len() == 2 && is_null((b->Union_0).v@[0]) && eased_in(a, (b->Union_0).v@[1]) },
    }
}
/// the same within
pub open spec fn eased_in(a: avro::Type, b: avro::Type) -> bool
    decreases a, 1nat
{
    match a {
        avro::Type::Primitive(_) => b == a,
        avro::Type::Complex(avro::Complex::Record(r)) => b is Complex && b->Complex_0 is Record && r.common == b->Complex_0->Record_0.common && eased_fields(r.fields, b->Complex_0->Record_0.fields),
        avro::Type::Complex(avro::Complex::Array(x)) => b is Complex && b->Complex_0 is Array && eased_items(*x.items, *b->Complex_0->Array_0.items),
        avro::Type::Complex(avro::Complex::Map(x)) => b is Complex && b->Complex_0 is Map && eased_av(*x.values, *b->Complex_0->Map_0.values),
        _ => false,
    }
}
/// lists within lists are within a record that is always there
pub open spec fn eased_items(a: avro::Type, b: avro::Type) -> bool
    decreases a, 3nat
{
    if b is Complex { eased_in(a, b) } else { eased_av(a, b) }
}
pub open spec fn eased_fields(a: Vec<avro::Field>, b: Vec<avro::Field>) -> bool
    decreases a, 0nat
{
    a.v@.len() == b.v@.len() && forall|i: int| 0 <= i < a.v@.len() ==> (#[trigger] a.v@[i]).name == b.v@[i].name && a.v@[i].doc == b.v@[i].doc
        && b.v@[i].default == Some(Value::Null) && (a.v@[i].default is None || a.v@[i].default == Some(Value::Null)) && eased_av(a.v@[i].data_type, b.v@[i].data_type)
}
/// what `avw` makes, before null is added
pub open spec fn bare(d: avro::Type) -> bool { d is Primitive || d is Complex }
pub open spec fn eased_bare(w: Tag, a: Out<avro::Type>, b: Out<avro::Type>) -> bool {
    match a {
        Out::Val(x) => b is Val && bare(x) && bare(b->Val_0) && eased_in(x, b->Val_0) && (w.data_type is Null <==> is_null(x)) && (w.data_type is Null <==> is_null(b->Val_0)),
        Out::Err => b is Err,
        Out::Abort => b is Abort,
    }
}
pub open spec fn eased_wrap(a: Out<avro::Type>, b: Out<avro::Type>) -> bool {
    match a { Out::Val(x) => b is Val && eased_av(x, b->Val_0), Out::Err => b is Err, Out::Abort => b is Abort }
}
pub proof fn lemma_eased_wrap(w: Tag, a: Out<avro::Type>, b: Out<avro::Type>)
    requires eased_bare(w, a, b)
    ensures eased_wrap(wrap(w, a), wrap(fu(w), b)), b is Val && !(w.data_type is Null) ==> !((wrap(fu(w), b)->Val_0) is Complex)
{
    lemma_fu_kind(w);
    if a is Val {
        let x = a->Val_0;
        let y = b->Val_0;
        let n = av_prim(avro::Primitive::Null);
        let u = vc(seq![n, x]);
        let v = vc(seq![n, y]);
        assert(u.v@.len() == 2 && u.v@[0] == n && u.v@[1] == x);
        assert(v.v@.len() == 2 && v.v@[0] == n && v.v@[1] == y);
        if !(w.data_type is Null) {
            assert(av_wrap(fu(w), y) == avro::Type::Union(v));
            if w.nullable { assert(av_wrap(w, x) == avro::Type::Union(u)); } else { assert(av_wrap(w, x) == x); }
            assert(eased_av(av_wrap(w, x), av_wrap(fu(w), y)));
        } else {
            assert(av_wrap(w, x) == x);
            assert(av_wrap(fu(w), y) == y);
            assert(eased_av(x, y));
        }
    }
}
pub proof fn lemma_eased_avro(w: Tag, k: Seq<char>, p: Seq<char>, c: Context)
    ensures eased_bare(w, avw(w, k, p, c), avw(fu(w), k, p, forced(c)))
    decreases w
{
    let z = fu(w);
    let d = forced(c);
    let q = join(p, k);
    match w.data_type {
        Type::Object(o) => {
            let zf = z.data_type->Object_0.fields;
            assert(zf.m@ == inf_fields(o.fields, o.required, true));
            let f = avw_fields(o.fields, q, c);
            let g = avw_fields(zf, q, d);
            assert(f.dom() =~= g.dom());
            assert forall|j: Seq<char>| #[trigger] f.contains_key(j) implies eased_wrap(f[j], g[j]) && zf.m@[j].nullable by {
                assert(o.fields.m@.contains_key(j));
                assert(zf.m@.contains_key(j));
                let x = *o.fields.m@[j];
                assert(*zf.m@[j] == fu(x));
                lemma_eased_avro(x, j, q, c);
                lemma_eased_wrap(x, avw(x, j, q, c), avw(fu(x), j, q, d));
            }
            lemma_eased_rec(o.fields, zf, f, g, k, p);
        }
        Type::Tuple(t) => {
            let zt = z.data_type->Tuple_0.items;
            assert(zt.v@ == inf_seq(t.items, true));
            let f = avw_seq(t.items, q, c);
            let g = avw_seq(zt, q, d);
            assert forall|i: int| 0 <= i < f.len() implies eased_wrap(#[trigger] f[i], g[i]) && zt.v@[i].nullable by {
                let x = t.items.v@[i];
                assert(zt.v@[i] == fu(x));
                lemma_eased_avro(x, tuple_name(i), q, c);
                lemma_eased_wrap(x, avw(x, tuple_name(i), q, c), avw(fu(x), tuple_name(i), q, d));
            }
            lemma_eased_tup(t.items.v@, zt.v@, f, g, k, p);
        }
        Type::Array(a) => {
            let x = *a.items;
            assert(*z.data_type->Array_0.items == fu(x));
            lemma_eased_avro(x, "list"@, q, c);
            lemma_fu_kind(x);
            let i = wrap(x, avw(x, "list"@, q, c));
            let j = wrap(fu(x), avw(fu(x), "list"@, q, d));
            lemma_eased_wrap(x, avw(x, "list"@, q, c), avw(fu(x), "list"@, q, d));
            if i is Val {
                if x.data_type is Array {
                    let u = av_field("list"@, i->Val_0, x.nullable);
                    let v = av_field("list"@, j->Val_0, fu(x).nullable);
                    let us = vc(seq![u]);
                    let vs = vc(seq![v]);
                    assert(us.v@.len() == 1 && vs.v@.len() == 1 && us.v@[0] == u && vs.v@[0] == v);
                    assert(eased_fields(us, vs));
                    assert(eased_in(av_rec(k, p, seq![u]), av_rec(k, p, seq![v])));
                    assert(eased_items(av_rec(k, p, seq![u]), av_rec(k, p, seq![v])));
                } else {
                    if x.data_type is Null { assert(is_null(avw(fu(x), "list"@, q, d)->Val_0)); }
                    assert(!(j->Val_0 is Complex));
                    assert(eased_items(i->Val_0, j->Val_0));
                }
            }
        }
        Type::Map(m) => {
            let x = *m.value;
            assert(*z.data_type->Map_0.value == fu(x));
            lemma_eased_avro(x, "value"@, q, c);
            lemma_eased_wrap(x, avw(x, "value"@, q, c), avw(fu(x), "value"@, q, d));
        }
        _ => {}
    }
}
pub proof fn lemma_eased_rec(h: HashMap<Box<Tag>>, z: HashMap<Box<Tag>>, f: Map<Seq<char>, Out<avro::Type>>, g: Map<Seq<char>, Out<avro::Type>>, k: Seq<char>, p: Seq<char>)
    requires f.dom() == g.dom(), forall|j: Seq<char>| #[trigger] f.contains_key(j) ==> eased_wrap(f[j], g[j]) && z.m@[j].nullable
    ensures map_aborts(f) == map_aborts(g), kept(f) == kept(g), eased_in(av_rec(k, p, av_fields(h, f)), av_rec(k, p, av_fields(z, g)))
{
    assert(map_aborts(f) == map_aborts(g)) by {
        if map_aborts(f) { let k = choose|k: Seq<char>| #[trigger] f.contains_key(k) && f[k] is Abort; assert(g.contains_key(k)); }
        if map_aborts(g) { let k = choose|k: Seq<char>| #[trigger] g.contains_key(k) && g[k] is Abort; assert(f.contains_key(k)); }
    }
    assert forall|k: Seq<char>| kept(f).contains(k) == kept(g).contains(k) by {
        assert(f.contains_key(k) == g.contains_key(k));
        if f.contains_key(k) { assert(eased_wrap(f[k], g[k])); }
    }
    assert(kept(f) =~= kept(g));
    let a = vc(av_fields(h, f));
    let b = vc(av_fields(z, g));
    lemma_key_order(kept(f));
    assert forall|i: int| 0 <= i < a.v@.len() implies (#[trigger] a.v@[i]).name == b.v@[i].name && a.v@[i].doc == b.v@[i].doc
        && b.v@[i].default == Some(Value::Null) && (a.v@[i].default is None || a.v@[i].default == Some(Value::Null)) && eased_av(a.v@[i].data_type, b.v@[i].data_type) by {
        let j = sorted_keys(kept(f))[i];
        assert(kept(f).contains(j));
        assert(f.contains_key(j));
        assert(eased_wrap(f[j], g[j]));
        assert(a.v@[i] == av_field(j, f[j]->Val_0, h.m@[j].nullable));
        assert(b.v@[i] == av_field(j, g[j]->Val_0, z.m@[j].nullable));
    }
    assert(eased_fields(a, b));
}
pub proof fn lemma_eased_tup(v: Seq<Tag>, z: Seq<Tag>, f: Seq<Out<avro::Type>>, g: Seq<Out<avro::Type>>, k: Seq<char>, p: Seq<char>)
    requires f.len() == g.len(), v.len() == f.len(), z.len() == f.len(), forall|i: int| 0 <= i < f.len() ==> eased_wrap(#[trigger] f[i], g[i]) && z[i].nullable
    ensures
        seq_aborts(f) == seq_aborts(g),
        av_tuple(v, f, f.len()).len() == av_tuple(z, g, g.len()).len(),
        eased_in(av_rec(k, p, av_tuple(v, f, f.len())), av_rec(k, p, av_tuple(z, g, g.len()))),
{
    assert(seq_aborts(f) == seq_aborts(g)) by {
        if seq_aborts(f) { let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]) is Abort; assert(eased_wrap(f[i], g[i])); }
        if seq_aborts(g) { let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]) is Abort; assert(eased_wrap(f[i], g[i])); }
    }
    lemma_eased_tup_at(v, z, f, g, f.len());
    assert(eased_fields(vc(av_tuple(v, f, f.len())), vc(av_tuple(z, g, g.len()))));
}
pub proof fn lemma_eased_tup_at(v: Seq<Tag>, z: Seq<Tag>, f: Seq<Out<avro::Type>>, g: Seq<Out<avro::Type>>, n: nat)
    requires n <= f.len(), f.len() == g.len(), v.len() == f.len(), z.len() == f.len(), forall|i: int| 0 <= i < f.len() ==> eased_wrap(#[trigger] f[i], g[i]) && z[i].nullable
    ensures eased_fields(vc(av_tuple(v, f, n)), vc(av_tuple(z, g, n)))
    decreases n
{
    let a = vc(av_tuple(v, f, n));
    let b = vc(av_tuple(z, g, n));
    if n > 0 {
        lemma_eased_tup_at(v, z, f, g, (n - 1) as nat);
        let a1 = vc(av_tuple(v, f, (n - 1) as nat));
        let b1 = vc(av_tuple(z, g, (n - 1) as nat));
        assert(eased_wrap(f[n - 1], g[n - 1]));
        assert(eased_fields(a1, b1));
        if f[n - 1] is Val {
            assert forall|i: int| 0 <= i < a.v@.len() implies (#[trigger] a.v@[i]).name == b.v@[i].name && a.v@[i].doc == b.v@[i].doc
                && b.v@[i].default == Some(Value::Null) && (a.v@[i].default is None || a.v@[i].default == Some(Value::Null)) && eased_av(a.v@[i].data_type, b.v@[i].data_type) by {
                if i < a1.v@.len() { assert(a.v@[i] == a1.v@[i]); assert(b.v@[i] == b1.v@[i]); }
                else { assert(a.v@[i] == av_field(tuple_name(n - 1), f[n - 1]->Val_0, v[n - 1].nullable)); assert(b.v@[i] == av_field(tuple_name(n - 1), g[n - 1]->Val_0, z[n - 1].nullable)); }
            }
        }
    }
}

/// tables with the same columns, null allowed in the second
pub open spec fn eased_table(a: bigquery::Schema, b: bigquery::Schema) -> bool {
    rows(a).len() == rows(b).len() && forall|i: int| 0 <= i < rows(a).len() ==> eased(#[trigger] rows(a)[i], rows(b)[i])
}
/// C11
pub proof fn theorem_forced(v: Value, c: Context)
    requires read_ok(v, c), !c.force_nullable
    ensures
        read_ok(v, forced(c)),
        bq_translated(v, c) == bq_translated(v, forced(c)),
        av_translated(v, c) == av_translated(v, forced(c)),
        bq_translated(v, c) ==> eased_table(table_of(v, c), table_of(v, forced(c))),
        av_translated(v, c) ==> eased_av(avro_of(v, c), avro_of(v, forced(c))),
{
    lemma_core_forced(v, c);
    theorem_closed(v, c);
    theorem_closed(v, forced(c));
    let w = core_of(v, c);
    let e = ctx_in(v, c);
    lemma_fu_kind(w);
    lemma_eased(w, Seq::empty(), e);
    lemma_eased_avro(w, "root"@, Seq::empty(), e);
    lemma_eased_wrap(w, avw(w, "root"@, Seq::empty(), e), avw(fu(w), "root"@, Seq::empty(), forced(e)));
    if bq_translated(v, c) {
        let a = bq_lim(tag_in(v, c), e)->Val_0;
        let b = bq_lim(tag_in(v, forced(c)), forced(e))->Val_0;
        assert(eased(a, b));
        if *a.data_type is Record && !(a.mode is Repeated) {
            let x = (*a.data_type)->Record_0;
            let y = (*b.data_type)->Record_0;
            assert(eased_record(x, y));
            let d = x.fields.m@.dom();
            lemma_key_order(d);
            assert(rows(table_of(v, c)) == rows_of(x));
            assert(rows(table_of(v, forced(c))) == rows_of(y));
            assert forall|i: int| 0 <= i < rows_of(x).len() implies eased(#[trigger] rows_of(x)[i], rows_of(y)[i]) by {
                let k = sorted_keys(d)[i];
                assert(d.contains(k));
                assert(x.fields.m@.contains_key(k));
            }
        } else {
            let a1 = bigquery::Tag { name: Some(st("root"@)), ..a };
            let b1 = bigquery::Tag { name: Some(st("root"@)), ..b };
            assert(rows(table_of(v, c)) == seq![a1]);
            assert(rows(table_of(v, forced(c))) == seq![b1]);
            assert(eased(a1, b1));
        }
    }
}
}
} // verus!
