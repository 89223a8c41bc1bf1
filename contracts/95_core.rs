// Lemmas about collapsing, naming and nullability that the properties rest on.
verus! {
pub mod depth {
use super::*;
use super::shim::*;
use super::spec::*;
use super::lemmas::*;
use super::spec_out::av_root;
use super::ast::{Tag, Type, Object, Union, Tuple, Atom};

/// tags are at most `d` deep
pub open spec fn deep(t: Tag, d: nat) -> bool
    decreases t
{
    d > 0 && match t.data_type {
        Type::Object(o) => forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) ==> deep(*o.fields.m@[k], (d - 1) as nat),
        Type::Map(m) => deep(*m.value, (d - 1) as nat) && deep(*m.key, (d - 1) as nat),
        Type::Array(a) => deep(*a.items, (d - 1) as nat),
        Type::Tuple(u) => forall|i: int| 0 <= i < u.items.v@.len() ==> deep(#[trigger] u.items.v@[i], (d - 1) as nat),
        Type::Union(u) => d > 1 && forall|i: int| 0 <= i < u.items.v@.len() ==> deep(#[trigger] u.items.v@[i], (d - 1) as nat),
        _ => true,
    }
}
pub open spec fn deep_seq(s: Seq<Tag>, d: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> deep(#[trigger] s[i], d) }

pub proof fn lemma_deep_type(a: Tag, b: Tag, d: nat)
    requires deep(a, d), a.data_type == b.data_type
    ensures deep(b, d)
{
}
pub proof fn lemma_deeper(t: Tag, d: nat, e: nat)
    requires deep(t, d), d <= e
    ensures deep(t, e)
    decreases t
{
    match t.data_type {
        Type::Object(o) => {
            assert forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) implies deep(*o.fields.m@[k], (e - 1) as nat) by {
                lemma_deeper(*o.fields.m@[k], (d - 1) as nat, (e - 1) as nat);
            }
        }
        Type::Map(m) => { lemma_deeper(*m.value, (d - 1) as nat, (e - 1) as nat); lemma_deeper(*m.key, (d - 1) as nat, (e - 1) as nat); }
        Type::Array(a) => { lemma_deeper(*a.items, (d - 1) as nat, (e - 1) as nat); }
        Type::Tuple(u) => {
            assert forall|i: int| 0 <= i < u.items.v@.len() implies deep(#[trigger] u.items.v@[i], (e - 1) as nat) by {
                lemma_deeper(u.items.v@[i], (d - 1) as nat, (e - 1) as nat);
            }
        }
        Type::Union(u) => {
            assert forall|i: int| 0 <= i < u.items.v@.len() implies deep(#[trigger] u.items.v@[i], (e - 1) as nat) by {
                lemma_deeper(u.items.v@[i], (d - 1) as nat, (e - 1) as nat);
            }
        }
        _ => {}
    }
}
/// every tag has a depth
pub proof fn lemma_depth(t: Tag) -> (d: nat)
    ensures deep(t, d)
    decreases t
{
    match t.data_type {
        Type::Object(o) => {
            lemma_key_order(o.fields.m@.dom());
            let ks = sorted_keys(o.fields.m@.dom());
            let d = lemma_depth_fields(o.fields, ks.len());
            assert forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) implies deep(*o.fields.m@[k], d) by {
                assert(o.fields.m@.dom().contains(k));
            }
            d + 1
        }
        Type::Map(m) => {
            let a = lemma_depth(*m.value);
            let b = lemma_depth(*m.key);
            let d = if a > b { a } else { b };
            lemma_deeper(*m.value, a, d);
            lemma_deeper(*m.key, b, d);
            d + 1
        }
        Type::Array(a) => { lemma_depth(*a.items) + 1 }
        Type::Tuple(u) => { lemma_depth_seq(u.items, u.items.v@.len()) + 1 }
        Type::Union(u) => {
            let d = lemma_depth_seq(u.items, u.items.v@.len());
            assert forall|i: int| 0 <= i < u.items.v@.len() implies deep(#[trigger] u.items.v@[i], d + 1) by { lemma_deeper(u.items.v@[i], d, d + 1); }
            d + 2
        }
        _ => 1,
    }
}
pub proof fn lemma_depth_fields(h: HashMap<Box<Tag>>, i: nat) -> (d: nat)
    requires key_order(h.m@.dom()), i <= sorted_keys(h.m@.dom()).len()
    ensures forall|j: int| 0 <= j < i ==> deep(*h.m@[#[trigger] sorted_keys(h.m@.dom())[j]], d)
    decreases h, i
{
    let ks = sorted_keys(h.m@.dom());
    if i == 0 { 0 } else {
        let a = lemma_depth_fields(h, (i - 1) as nat);
        assert(h.m@.contains_key(ks[i - 1]));
        let b = lemma_depth(*h.m@[ks[i - 1]]);
        let d = nmax(a, b);
        assert forall|j: int| 0 <= j < i implies deep(*h.m@[#[trigger] ks[j]], d) by {
            if j < i - 1 { lemma_deeper(*h.m@[ks[j]], a, d); } else { lemma_deeper(*h.m@[ks[j]], b, d); }
        }
        d
    }
}
pub proof fn lemma_depth_seq(v: Vec<Tag>, i: nat) -> (d: nat)
    requires i <= v.v@.len()
    ensures forall|j: int| 0 <= j < i ==> deep(#[trigger] v.v@[j], d)
    decreases v, i
{
    if i == 0 { 0 } else {
        let a = lemma_depth_seq(v, (i - 1) as nat);
        let b = lemma_depth(v.v@[i - 1]);
        let d = nmax(a, b);
        assert forall|j: int| 0 <= j < i implies deep(#[trigger] v.v@[j], d) by {
            if j < i - 1 { lemma_deeper(v.v@[j], a, d); } else { lemma_deeper(v.v@[j], b, d); }
        }
        d
    }
}
pub proof fn lemma_inf_deep(t: Tag, f: bool, d: nat)
    requires deep(t, d)
    ensures deep(inf_null(t, f), d)
    decreases t
{
    match t.data_type {
        Type::Object(o) => {
            let g = inf_fields(o.fields, o.required, f);
            assert forall|k: Seq<char>| #[trigger] g.contains_key(k) implies deep(*g[k], (d - 1) as nat) by {
                assert(o.fields.m@.contains_key(k));
                lemma_inf_deep(*o.fields.m@[k], f, (d - 1) as nat);
                lemma_deep_type(inf_null(*o.fields.m@[k], f), *g[k], (d - 1) as nat);
            }
            assert(inf_null(t, f).data_type->Object_0.fields.m@ == g);
        }
        Type::Map(m) => { lemma_inf_deep(*m.value, f, (d - 1) as nat); lemma_inf_deep(*m.key, f, (d - 1) as nat); }
        Type::Array(a) => { lemma_inf_deep(*a.items, f, (d - 1) as nat); }
        Type::Tuple(u) => {
            assert forall|i: int| 0 <= i < u.items.v@.len() implies deep(#[trigger] inf_seq(u.items, f)[i], (d - 1) as nat) by {
                lemma_inf_deep(u.items.v@[i], f, (d - 1) as nat);
            }
            assert(inf_null(t, f).data_type->Tuple_0.items.v@ == inf_seq(u.items, f));
        }
        Type::Union(u) => {
            assert forall|i: int| 0 <= i < u.items.v@.len() implies deep(#[trigger] inf_seq(u.items, f)[i], (d - 1) as nat) by {
                lemma_inf_deep(u.items.v@[i], f, (d - 1) as nat);
            }
            assert(inf_null(t, f).data_type->Union_0.items.v@ == inf_seq(u.items, f));
        }
        _ => {}
    }
}
pub proof fn lemma_fold_atoms(s: Seq<Tag>, i: nat)
    requires i <= s.len(), all_atoms(s)
    ensures fold_atoms(s, i) is Null || fold_atoms(s, i) is Atom
    decreases i
{
    if i > 0 { lemma_fold_atoms(s, (i - 1) as nat); }
}

/// collapsing settles, and does not make tags deeper
pub proof fn lemma_u_stable(s: Seq<Tag>, d: nat, n: nat, m: nat)
    requires deep_seq(s, d), d > 0, n >= 2 * d + 1, m >= 2 * d + 1
    ensures u_col(s, n) == u_col(s, m), deep(u_col(s, n), d)
    decreases d, 3nat, 0nat
{
    if s.len() == 1 {
        lemma_t_stable(s[0], d, (n - 1) as nat, (m - 1) as nat);
        lemma_deep_type(t_col(s[0], (n - 1) as nat), u_col(s, n), d);
    } else {
        let a = flat(s, s.len(), (n - 1) as nat);
        lemma_flat_stable(s, s.len(), d, (n - 1) as nat, (m - 1) as nat);
        lemma_merged_stable(a, d, (n - 1) as nat, (m - 1) as nat);
        let q = merged(a, (n - 1) as nat);
        let x = plain(q, some_null(s) || some_nullable(a));
        lemma_deep_type(plain(q, false), x, d);
        lemma_inf_deep(x, false, d);
        assert(u_col(s, n) == inf_null(x, false));
    }
}
pub proof fn lemma_flat_stable(s: Seq<Tag>, i: nat, d: nat, n: nat, m: nat)
    requires deep_seq(s, d), d > 0, i <= s.len(), n >= 2 * d, m >= 2 * d
    ensures flat(s, i, n) == flat(s, i, m), deep_seq(flat(s, i, n), d)
    decreases d, 1nat, i
{
    if i > 0 {
        lemma_flat_stable(s, (i - 1) as nat, d, n, m);
        let x = s[i - 1];
        assert(deep(x, d));
        match x.data_type {
            Type::Union(u) => {
                lemma_u_stable(u.items.v@, (d - 1) as nat, n, m);
                let r = Tag { name: x.name, ..u_col(u.items.v@, n) };
                lemma_deep_type(u_col(u.items.v@, n), r, (d - 1) as nat);
                lemma_deeper(r, (d - 1) as nat, d);
            }
            _ => {}
        }
    }
}
pub proof fn lemma_merged_stable(s: Seq<Tag>, d: nat, n: nat, m: nat)
    requires deep_seq(s, d), d > 0, n >= 2 * d, m >= 2 * d
    ensures merged(s, n) == merged(s, m), deep(plain(merged(s, n), false), d)
    decreases d, 2nat, 0nat
{
    if all_atoms(s) { lemma_fold_atoms(s, s.len()); }
    else {
        let j = choose|j: int| 0 <= j < s.len() && !((#[trigger] s[j]).data_type is Atom);
        assert(deep(s[j], d));
        if all_objects(s) { lemma_objects_stable(s, s.len(), d, n, m); }
        else if all_maps(s) {
            let v = map_values(s);
            assert(s[j].data_type is Map);
            assert(d > 1) by { assert(deep(*s[j].data_type->Map_0.value, (d - 1) as nat)); }
            assert forall|i: int| 0 <= i < v.len() implies deep(#[trigger] v[i], (d - 1) as nat) by { assert(s[i].data_type is Map); assert(deep(s[i], d)); }
            lemma_u_stable(v, (d - 1) as nat, n, m);
            assert(deep(*map_of(u_col(v, n)).key, (d - 1) as nat));
        } else if all_arrays(s) {
            let v = array_items(s);
            assert(s[j].data_type is Array);
            assert(d > 1) by { assert(deep(*s[j].data_type->Array_0.items, (d - 1) as nat)); }
            assert forall|i: int| 0 <= i < v.len() implies deep(#[trigger] v[i], (d - 1) as nat) by { assert(s[i].data_type is Array); assert(deep(s[i], d)); }
            lemma_u_stable(v, (d - 1) as nat, n, m);
        }
    }
}
pub proof fn lemma_objects_stable(s: Seq<Tag>, i: nat, d: nat, n: nat, m: nat)
    requires deep_seq(s, d), d > 0, i <= s.len(), all_objects(s), n >= 2 * d, m >= 2 * d
    ensures fold_objects(s, i, n) == fold_objects(s, i, m), deep(plain(fold_objects(s, i, n), false), d)
    decreases d, 1nat, i
{
    if i > 0 {
        lemma_objects_stable(s, (i - 1) as nat, d, n, m);
        let l = fold_objects(s, (i - 1) as nat, n);
        let r = s[i - 1].data_type;
        assert(deep(s[i - 1], d));
        match (l, r) {
            (Type::Null, Type::Object(o)) => { lemma_deep_type(s[i - 1], plain(r, false), d); }
            (Type::Object(x), Type::Object(y)) => {
                lemma_deep_type(s[i - 1], plain(r, false), d);
                lemma_join_stable(x, y, d, n, m);
            }
            _ => {}
        }
        assert(join_objects(l, r, n) == join_objects(l, r, m));
        assert(fold_objects(s, i, n) == join_objects(l, r, n));
        assert(fold_objects(s, i, m) == join_objects(l, r, m));
    }
}
pub proof fn lemma_join_stable(x: Object, y: Object, d: nat, n: nat, m: nat)
    requires deep(plain(Type::Object(x), false), d), deep(plain(Type::Object(y), false), d), n >= 2 * d, m >= 2 * d
    ensures
        join_objects(Type::Object(x), Type::Object(y), n) == join_objects(Type::Object(x), Type::Object(y), m),
        deep(plain(join_objects(Type::Object(x), Type::Object(y), n), false), d),
    decreases d, 0nat, 0nat
{
    let l = Type::Object(x);
    let r = Type::Object(y);
    let e = (d - 1) as nat;
    let f = merge_fields(x.fields.m@, y.fields.m@, n);
    let g = merge_fields(x.fields.m@, y.fields.m@, m);
    assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies f[k] == g[k] && deep(f[k], e) by {
        let v = parts(x.fields.m@, y.fields.m@, k);
        assert(x.fields.m@.contains_key(k) || y.fields.m@.contains_key(k));
        assert(deep_seq(v, e)) by {
            if x.fields.m@.contains_key(k) { assert(deep(*x.fields.m@[k], e)); }
            if y.fields.m@.contains_key(k) { assert(deep(*y.fields.m@[k], e)); }
        }
        assert(deep(v[0], e));
        lemma_u_stable(v, e, n, m);
    }
    assert(f =~= g);
    if conflict(f) { } else {
        let z = boxed(f);
        let w = Type::Object(Object { fields: hm(z), required: both_req(x.required, y.required) });
        assert forall|k: Seq<char>| #[trigger] z.contains_key(k) implies deep(*z[k], e) by { assert(f.contains_key(k)); }
        assert(deep(plain(w, false), d));
    }
}
pub proof fn lemma_t_stable(t: Tag, d: nat, n: nat, m: nat)
    requires deep(t, d), n >= 2 * d, m >= 2 * d
    ensures t_col(t, n) == t_col(t, m), deep(t_col(t, n), d)
    decreases d, 2nat, 0nat
{
    let e = (d - 1) as nat;
    match t.data_type {
        Type::Union(u) => {
            lemma_u_stable(u.items.v@, e, (n - 1) as nat, (m - 1) as nat);
            let r = u_col(u.items.v@, (n - 1) as nat);
            let x = Tag { data_type: r.data_type, nullable: t.nullable || r.nullable, ..t };
            lemma_deep_type(r, x, e);
            lemma_t_stable(x, e, (n - 1) as nat, (m - 1) as nat);
            lemma_deeper(t_col(x, (n - 1) as nat), e, d);
        }
        Type::Object(o) => {
            let f = col_fields(o.fields, n);
            let g = col_fields(o.fields, m);
            assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies f[k] == g[k] && deep(*f[k], e) by {
                assert(o.fields.m@.contains_key(k));
                lemma_t_stable(*o.fields.m@[k], e, n, m);
            }
            assert(f =~= g);
            assert(t_col(t, n).data_type->Object_0.fields.m@ == f);
        }
        Type::Map(x) => { lemma_t_stable(*x.value, e, n, m); }
        Type::Array(x) => { lemma_t_stable(*x.items, e, n, m); }
        Type::Tuple(u) => {
            let f = col_seq(u.items, n);
            let g = col_seq(u.items, m);
            assert forall|i: int| 0 <= i < u.items.v@.len() implies #[trigger] f[i] == g[i] && deep(f[i], e) by {
                lemma_t_stable(u.items.v@[i], e, n, m);
            }
            assert(f =~= g);
            assert(t_col(t, n).data_type->Tuple_0.items.v@ == f);
        }
        _ => {}
    }
}
/// the depth of a tag
pub open spec fn dep(t: Tag) -> nat { choose|d: nat| deep(t, d) && forall|e: nat| #[trigger] deep(t, e) ==> d <= e }
pub open spec fn deps(s: Seq<Tag>) -> nat { choose|d: nat| d > 0 && deep_seq(s, d) && forall|e: nat| e > 0 && #[trigger] deep_seq(s, e) ==> d <= e }
proof fn lemma_least(t: Tag, n: nat) -> (d: nat)
    requires deep(t, n)
    ensures deep(t, d), forall|e: nat| #[trigger] deep(t, e) ==> d <= e
    decreases n
{
    if exists|e: nat| #[trigger] deep(t, e) && e < n {
        lemma_least(t, choose|e: nat| #[trigger] deep(t, e) && e < n)
    } else { n }
}
proof fn lemma_least_seq(s: Seq<Tag>, n: nat) -> (d: nat)
    requires deep_seq(s, n), n > 0
    ensures d > 0, deep_seq(s, d), forall|e: nat| e > 0 && #[trigger] deep_seq(s, e) ==> d <= e
    decreases n
{
    if exists|e: nat| #[trigger] deep_seq(s, e) && 0 < e < n {
        lemma_least_seq(s, choose|e: nat| #[trigger] deep_seq(s, e) && 0 < e < n)
    } else { n }
}
proof fn lemma_some_depth(s: Seq<Tag>) -> (d: nat)
    ensures d > 0, deep_seq(s, d)
    decreases s.len()
{
    if s.len() == 0 { 1 } else {
        let a = lemma_some_depth(s.drop_last());
        let b = lemma_depth(s.last());
        let d = if a > b { a } else { b };
        assert forall|i: int| 0 <= i < s.len() implies deep(#[trigger] s[i], d) by {
            if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); lemma_deeper(s[i], a, d); } else { lemma_deeper(s[i], b, d); }
        }
        d
    }
}
pub proof fn lemma_dep(t: Tag)
    ensures dep(t) > 0, deep(t, dep(t)), forall|e: nat| #[trigger] deep(t, e) ==> dep(t) <= e
{
    let n = lemma_depth(t);
    let d = lemma_least(t, n);
}
pub proof fn lemma_deps(s: Seq<Tag>)
    ensures
        deps(s) > 0, deep_seq(s, deps(s)), forall|e: nat| e > 0 && #[trigger] deep_seq(s, e) ==> deps(s) <= e,
        forall|i: int| 0 <= i < s.len() ==> dep(#[trigger] s[i]) <= deps(s),
{
    let n = lemma_some_depth(s);
    let d = lemma_least_seq(s, n);
    assert forall|i: int| 0 <= i < s.len() implies dep(#[trigger] s[i]) <= deps(s) by { lemma_dep(s[i]); assert(deep(s[i], deps(s))); }
}
/// the parts of a tag are less deep
pub proof fn lemma_dep_kids(t: Tag)
    ensures
        dep(t) > 0,
        t.data_type is Object ==> forall|k: Seq<char>| #[trigger] t.data_type->Object_0.fields.m@.contains_key(k) ==> dep(*t.data_type->Object_0.fields.m@[k]) < dep(t),
        t.data_type is Map ==> dep(*t.data_type->Map_0.value) < dep(t) && dep(*t.data_type->Map_0.key) < dep(t),
        t.data_type is Array ==> dep(*t.data_type->Array_0.items) < dep(t),
        t.data_type is Tuple ==> forall|i: int| 0 <= i < t.data_type->Tuple_0.items.v@.len() ==> dep(#[trigger] t.data_type->Tuple_0.items.v@[i]) < dep(t),
{
    lemma_dep(t);
    let e = (dep(t) - 1) as nat;
    match t.data_type {
        Type::Object(o) => {
            assert forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) implies dep(*o.fields.m@[k]) < dep(t) by {
                lemma_dep(*o.fields.m@[k]);
                assert(deep(*o.fields.m@[k], e));
            }
        }
        Type::Map(m) => { lemma_dep(*m.value); assert(deep(*m.value, e)); lemma_dep(*m.key); assert(deep(*m.key, e)); }
        Type::Array(a) => { lemma_dep(*a.items); assert(deep(*a.items, e)); }
        Type::Tuple(u) => {
            assert forall|i: int| 0 <= i < u.items.v@.len() implies dep(#[trigger] u.items.v@[i]) < dep(t) by {
                lemma_dep(u.items.v@[i]);
                assert(deep(u.items.v@[i], e));
            }
        }
        _ => {}
    }
}
/// what a union collapses into is no deeper than its members, which are less deep than the union
pub proof fn lemma_dep_union(t: Tag, d: nat)
    requires deep(t, d), t.data_type is Union
    ensures
        d > 1, deps(t.data_type->Union_0.items.v@) < d,
        forall|r: Tag, q: Tag| #[trigger] u_is(t.data_type->Union_0.items.v@, r) && #[trigger] same_type(q, r) ==> deep(q, d) && dep(q) < d,
{
    let s = t.data_type->Union_0.items.v@;
    let e = (d - 1) as nat;
    lemma_deps(s);
    assert(deep_seq(s, e));
    assert forall|r: Tag, q: Tag| #[trigger] u_is(s, r) && #[trigger] same_type(q, r) implies deep(q, d) && dep(q) < d by {
        let b = choose|b: nat| u_from(s, r, b);
        let n = if b > 2 * e + 1 { b } else { 2 * e + 1 };
        lemma_u_stable(s, e, n, n);
        assert(u_col(s, n) == r);
        lemma_deep_type(r, q, e);
        lemma_deeper(q, e, d);
        lemma_dep(q);
    }
}
pub open spec fn same_type(a: Tag, b: Tag) -> bool { a.data_type == b.data_type }
pub proof fn lemma_dep_null(d: nat)
    requires d > 0
    ensures deep(plain(Type::Null, false), d)
{
}
/// names make nothing deeper
pub proof fn lemma_below_deep(t: Tag, ns: Seq<char>, nc: bool, d: nat)
    requires deep(t, d)
    ensures deep(below(t, ns, nc), d)
    decreases t
{
    let e = (d - 1) as nat;
    reveal_with_fuel(below, 2);
    match t.data_type {
        Type::Object(o) => {
            lemma_columns(o.fields.m@.dom(), nc);
            let g = below_fields(o.fields, ns, nc);
            let r = columns(o.fields.m@.dom(), nc);
            assert forall|k: Seq<char>| #[trigger] g.contains_key(k) implies deep(*g[k], e) by {
                assert(r.contains_key(k));
                assert(o.fields.m@.contains_key(r[k]));
                lemma_below_deep(*o.fields.m@[r[k]], under(ns, k), nc, e);
                lemma_deep_type(below(*o.fields.m@[r[k]], under(ns, k), nc), *g[k], e);
            }
        }
        Type::Map(m) => {
            lemma_below_deep(*m.value, under(ns, "value"@), nc, e);
            lemma_below_deep(*m.key, under(ns, "key"@), nc, e);
            lemma_deep_type(below(*m.value, under(ns, "value"@), nc), with_name(below(*m.value, under(ns, "value"@), nc), "value"@, ns), e);
            lemma_deep_type(below(*m.key, under(ns, "key"@), nc), with_name(below(*m.key, under(ns, "key"@), nc), "key"@, ns), e);
        }
        Type::Array(a) => {
            lemma_below_deep(*a.items, under(ns, "list"@), nc, e);
            lemma_deep_type(below(*a.items, under(ns, "list"@), nc), with_name(below(*a.items, under(ns, "list"@), nc), "list"@, ns), e);
        }
        Type::Tuple(u) => {
            assert forall|i: int| 0 <= i < u.items.v@.len() implies deep(#[trigger] below_tuple(u.items, ns, nc)[i], e) by {
                lemma_below_deep(u.items.v@[i], under(ns, tuple_name(i)), nc, e);
                lemma_deep_type(below(u.items.v@[i], under(ns, tuple_name(i)), nc), below_tuple(u.items, ns, nc)[i], e);
            }
        }
        Type::Union(u) => {
            assert forall|i: int| 0 <= i < u.items.v@.len() implies deep(#[trigger] below_union(u.items, ns, nc)[i], e) by {
                lemma_below_deep(u.items.v@[i], under(ns, "__union__"@), nc, e);
                lemma_deep_type(below(u.items.v@[i], under(ns, "__union__"@), nc), below_union(u.items, ns, nc)[i], e);
            }
        }
        _ => {}
    }
}
/// what is translated in place of a tag is no deeper
pub proof fn lemma_dep_proc(t: Tag, t1: Tag, c: Context)
    ensures
        t_is(t, t1) ==> dep(inf_null(inf_name(t1, c.normalize_case), c.force_nullable)) <= dep(t)
            && dep(inf_null(inf_name(av_root(t1), c.normalize_case), c.force_nullable)) <= dep(t),
        dep(inf_null(t, c.force_nullable)) <= dep(t),
{
    let d = dep(t);
    lemma_dep(t);
    if t_is(t, t1) {
        let b = choose|b: nat| t_from(t, t1, b);
        let n = if b > 2 * d { b } else { 2 * d };
        lemma_t_stable(t, d, n, n);
        assert(t_col(t, n) == t1);
        let r = av_root(t1);
        lemma_deep_type(t1, r, d);
        lemma_below_deep(t1, base(t1), c.normalize_case, d);
        lemma_below_deep(r, base(r), c.normalize_case, d);
        lemma_inf_deep(inf_name(t1, c.normalize_case), c.force_nullable, d);
        lemma_inf_deep(inf_name(r, c.normalize_case), c.force_nullable, d);
        lemma_dep(inf_null(inf_name(t1, c.normalize_case), c.force_nullable));
        lemma_dep(inf_null(inf_name(r, c.normalize_case), c.force_nullable));
    }
    lemma_inf_deep(t, c.force_nullable, d);
    lemma_dep(inf_null(t, c.force_nullable));
}
/// joining two objects makes nothing deeper
pub proof fn lemma_dep_join(x: Type, y: Type, z: Type, b: nat, d: nat)
    requires deep(plain(x, false), d), deep(plain(y, false), d), d > 0, join_from(x, y, z, b)
    ensures deep(plain(z, false), d)
{
    let n = if b > 2 * d { b } else { 2 * d };
    assert(join_objects(x, y, n) == z);
    match (x, y) {
        (Type::Object(p), Type::Object(q)) => { lemma_join_stable(p, q, d, n, n); }
        _ => {}
    }
}
/// the tags of one field
pub proof fn lemma_dep_parts(x: Object, y: Object, k: Seq<char>, d: nat)
    requires
        deep(plain(Type::Object(x), false), d), deep(plain(Type::Object(y), false), d),
        x.fields.m@.contains_key(k) || y.fields.m@.contains_key(k),
    ensures deps(parts(x.fields.m@, y.fields.m@, k)) < d
{
    let v = parts(x.fields.m@, y.fields.m@, k);
    let e = (d - 1) as nat;
    if x.fields.m@.contains_key(k) { assert(deep(*x.fields.m@[k], e)); }
    if y.fields.m@.contains_key(k) { assert(deep(*y.fields.m@[k], e)); }
    assert(deep_seq(v, e));
    assert(deep(v[0], e));
    lemma_deps(v);
}
pub proof fn lemma_dep_maps(s: Seq<Tag>, d: nat)
    requires deep_seq(s, d), all_maps(s), !all_atoms(s)
    ensures deps(map_values(s)) < d
{
    let v = map_values(s);
    let e = (d - 1) as nat;
    assert forall|i: int| 0 <= i < v.len() implies deep(#[trigger] v[i], e) by { assert(s[i].data_type is Map); assert(deep(s[i], d)); }
    assert(s.len() > 0);
    assert(deep(v[0], e));
    assert(deep_seq(v, e));
    lemma_deps(v);
}
pub proof fn lemma_dep_arrays(s: Seq<Tag>, d: nat)
    requires deep_seq(s, d), all_arrays(s), !all_atoms(s)
    ensures deps(array_items(s)) < d
{
    let v = array_items(s);
    let e = (d - 1) as nat;
    assert forall|i: int| 0 <= i < v.len() implies deep(#[trigger] v[i], e) by { assert(s[i].data_type is Array); assert(deep(s[i], d)); }
    assert(s.len() > 0);
    assert(deep(v[0], e));
    assert(deep_seq(v, e));
    lemma_deps(v);
}
/// what a tag collapses into
pub open spec fn col(t: Tag) -> Tag { choose|r: Tag| t_is(t, r) }
pub proof fn lemma_col_at(t: Tag) -> (b: nat)
    ensures t_is(t, col(t)), forall|n: nat| n >= b ==> #[trigger] t_col(t, n) == col(t)
{
    let d = lemma_depth(t);
    let r = t_col(t, 2 * d);
    assert forall|n: nat| n >= 2 * d implies #[trigger] t_col(t, n) == r by { lemma_t_stable(t, d, n, 2 * d); }
    assert(t_from(t, r, 2 * d));
    assert(t_is(t, r));
    assert(t_is(t, col(t)));
    let e = t_bound(t, col(t));
    assert(t_from(t, col(t), e));
    e
}
/// every tag collapses into exactly one
pub proof fn lemma_col(t: Tag)
    ensures t_is(t, col(t)), forall|r: Tag| #[trigger] t_is(t, r) ==> r == col(t)
{
    let b = lemma_col_at(t);
    assert forall|r: Tag| #[trigger] t_is(t, r) implies r == col(t) by {
        let e = t_bound(t, r);
        assert(t_from(t, r, e));
        assert(t_col(t, nmax(b, e)) == r);
        assert(t_col(t, nmax(b, e)) == col(t));
    }
}
}
} // verus!
verus! {
pub mod tags {
use super::*;
use super::snaking::*;
use super::shim::*;
use super::spec::*;
use super::lemmas::*;
use super::depth::*;
use super::ast::{Tag, Type, Object, Union, Tuple, Atom};

/// snake case makes letters, digits and underscores of names, and leaves what it made
pub proof fn lemma_snake(s: Seq<char>)
    ensures
        ident(s) ==> forall|i: int| 0 <= i < snake(s).len() ==> tail_char(#[trigger] snake(s)[i]),
        ident(s) ==> snake(prefix(snake(s))) == snake(s),
{
    if ident(s) {
        axiom_heck(s);
        lemma_documented(s);
        let o = snake(s);
        assert forall|i: int| 0 <= i < o.len() implies tail_char(#[trigger] o[i]) by { assert(low_char(o[i])); }
        lemma_ident_prefix(o);
        axiom_heck(prefix(o));
    }
}

// ---------------------------------------------------------------- column names

pub proof fn lemma_ident_prefix(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> tail_char(#[trigger] s[i])
    ensures ident(prefix(s)), prefix(prefix(s)) == prefix(s)
{
    axiom_numeric();
    reveal_strlit("_");
    let u = "_"@;
    assert(u.len() == 1 && u[0] == '_');
    if s.len() > 0 && !numeric(s[0]) {
        assert(tail_char(s[0]));
    } else {
        let r = u + s;
        assert(r[0] == '_');
        assert forall|i: int| 0 <= i < r.len() implies tail_char(#[trigger] r[i]) by { if i > 0 { assert(r[i] == s[i - 1]); } }
    }
}
pub proof fn lemma_ident_norm(s: Seq<char>)
    requires ident(s)
    ensures norm_bq(s) == Some(s), undot(s) == s, prefix(s) == s
{
    axiom_numeric();
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] undot(s)[i] == s[i] by { assert(tail_char(s[i])); }
    assert(undot(s) =~= s);
}
/// column names are names, and name themselves
pub proof fn lemma_column(k: Seq<char>, nc: bool)
    ensures column(k, nc) is Some ==> ident(column(k, nc)->0) && column(column(k, nc)->0, nc) == column(k, nc)
{
    if column(k, nc) is Some {
        let r = norm_bq(k)->0;
        lemma_ident_norm(r);
        if nc {
            lemma_snake(r);
            let q = prefix(snake(r));
            lemma_ident_prefix(snake(r));
            lemma_ident_norm(q);
        }
    }
}
/// a name that is its own column
pub open spec fn own(k: Seq<char>, nc: bool) -> bool { column(k, nc) == Some(k) }
pub open spec fn own_all(d: Set<Seq<char>>, nc: bool) -> bool { forall|k: Seq<char>| #[trigger] d.contains(k) ==> own(k, nc) }
pub open spec fn own_opt(r: Option<HashSet>, nc: bool) -> bool { r is Some ==> own_all(r->0.e@, nc) }

pub open spec fn ren_ok(d: Set<Seq<char>>, i: nat, nc: bool) -> bool {
    forall|k: Seq<char>| #[trigger] ren(d, i, nc).contains_key(k) ==> own(k, nc) || exists|j: int| i <= j < sorted_keys(d).len() && #[trigger] sorted_keys(d)[j] == k
}
pub proof fn lemma_ren_own(d: Set<Seq<char>>, i: nat, nc: bool)
    requires key_order(d), i <= sorted_keys(d).len()
    ensures ren_ok(d, i, nc)
    decreases i
{
    if i > 0 {
        lemma_ren_own(d, (i - 1) as nat, nc);
        let m = ren(d, (i - 1) as nat, nc);
        let x = sorted_keys(d)[i - 1];
        lemma_column(x, nc);
        assert forall|k: Seq<char>| #[trigger] ren(d, i, nc).contains_key(k) implies own(k, nc) || exists|j: int| i <= j < sorted_keys(d).len() && #[trigger] sorted_keys(d)[j] == k by {
            if column(x, nc) is Some && k == column(x, nc)->0 { } else {
                assert(m.contains_key(k));
                assert(k != x);
            }
        }
    }
}
/// all columns are their own
pub proof fn lemma_columns_own(d: Set<Seq<char>>, nc: bool)
    ensures
        forall|k: Seq<char>| #[trigger] columns(d, nc).contains_key(k) ==> own(k, nc),
{
    lemma_key_order(d);
    lemma_ren_own(d, sorted_keys(d).len(), nc);
    assert forall|k: Seq<char>| #[trigger] columns(d, nc).contains_key(k) implies own(k, nc) by {
        assert(ren(d, sorted_keys(d).len(), nc).contains_key(k));
    }
}
pub proof fn lemma_own_ident(k: Seq<char>, nc: bool)
    requires own(k, nc)
    ensures ident(k)
{
    lemma_column(k, nc);
}
pub open spec fn same_keys(d: Set<Seq<char>>) -> Map<Seq<char>, Seq<char>> { Map::new(d, |k: Seq<char>| k) }
pub proof fn lemma_ren_same(d: Set<Seq<char>>, i: nat, nc: bool)
    requires key_order(d), own_all(d, nc), i <= sorted_keys(d).len()
    ensures ren(d, i, nc) == same_keys(d)
    decreases i
{
    if i > 0 {
        lemma_ren_same(d, (i - 1) as nat, nc);
        assert(d.contains(sorted_keys(d)[i - 1]));
    } else {
        assert(ren(d, 0, nc) =~= same_keys(d));
    }
}
/// properties that are columns keep their names
pub proof fn lemma_columns_same(d: Set<Seq<char>>, nc: bool)
    requires own_all(d, nc)
    ensures columns(d, nc) == same_keys(d)
{
    lemma_key_order(d);
    lemma_ren_same(d, sorted_keys(d).len(), nc);
}
pub proof fn lemma_req_own(s: Set<Seq<char>>, nc: bool)
    ensures own_all(norm_req(s, nc), nc), own_all(s, nc) ==> norm_req(s, nc) == s
{
    assert forall|k: Seq<char>| #[trigger] norm_req(s, nc).contains(k) implies own(k, nc) by {
        let x = choose|x: Seq<char>| s.contains(x) && column(x, nc) is Some && column(x, nc)->0 == k;
        lemma_column(x, nc);
    }
    if own_all(s, nc) {
        assert forall|k: Seq<char>| #[trigger] s.contains(k) implies norm_req(s, nc).contains(k) by { lemma_req(s, k, nc); }
        assert forall|k: Seq<char>| #[trigger] norm_req(s, nc).contains(k) implies s.contains(k) by {
            let x = choose|x: Seq<char>| s.contains(x) && column(x, nc) is Some && column(x, nc)->0 == k;
        }
        assert(norm_req(s, nc) =~= s);
    }
}

// ---------------------------------------------------------------- invariants of tags

/// maps are keyed by strings
pub open spec fn string_key(m: ast::Map) -> bool { m.key.data_type == Type::Atom(Atom::String) }
/// the tags within are not roots, and maps are keyed by strings
pub open spec fn inner(t: Tag) -> bool
    decreases t
{
    match t.data_type {
        Type::Object(o) => forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) ==> inner(*o.fields.m@[k]) && !o.fields.m@[k].is_root,
        Type::Map(m) => string_key(m) && inner(*m.value) && !m.value.is_root,
        Type::Array(a) => inner(*a.items) && !a.items.is_root,
        Type::Tuple(u) => forall|i: int| 0 <= i < u.items.v@.len() ==> inner(#[trigger] u.items.v@[i]) && !u.items.v@[i].is_root,
        Type::Union(u) => forall|i: int| 0 <= i < u.items.v@.len() ==> inner(#[trigger] u.items.v@[i]) && !u.items.v@[i].is_root,
        _ => true,
    }
}
/// full, all properties are columns, and the tags within are not roots
pub open spec fn good(t: Tag, nc: bool) -> bool
    decreases t
{
    match t.data_type {
        Type::Object(o) => own_all(o.fields.m@.dom(), nc) && own_opt(o.required, nc)
            && forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) ==> good(*o.fields.m@[k], nc) && !o.fields.m@[k].is_root,
        Type::Map(m) => string_key(m) && good(*m.value, nc) && !m.value.is_root,
        Type::Array(a) => good(*a.items, nc) && !a.items.is_root,
        Type::Tuple(u) => forall|i: int| 0 <= i < u.items.v@.len() ==> good(#[trigger] u.items.v@[i], nc) && !u.items.v@[i].is_root,
        Type::Union(u) => u.items.v@.len() > 0 && forall|i: int| 0 <= i < u.items.v@.len() ==> good(#[trigger] u.items.v@[i], nc) && !u.items.v@[i].is_root,
        _ => true,
    }
}
pub open spec fn good_seq(s: Seq<Tag>, nc: bool) -> bool { forall|i: int| 0 <= i < s.len() ==> good(#[trigger] s[i], nc) && !s[i].is_root }
/// no unions within
pub open spec fn nou(t: Tag) -> bool
    decreases t
{
    match t.data_type {
        Type::Object(o) => forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) ==> nou(*o.fields.m@[k]),
        Type::Map(m) => nou(*m.value),
        Type::Array(a) => nou(*a.items),
        Type::Tuple(u) => forall|i: int| 0 <= i < u.items.v@.len() ==> nou(#[trigger] u.items.v@[i]),
        Type::Union(u) => false,
        _ => true,
    }
}
/// nullable wherever the translation makes it so
pub open spec fn inferred(t: Tag, f: bool) -> bool
    decreases t
{
    (f ==> t.nullable) && (t.data_type is Null ==> t.nullable) && match t.data_type {
        Type::Object(o) => forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) ==>
            inferred(*o.fields.m@[k], f) && (!demands(o.required, k) ==> o.fields.m@[k].nullable),
        Type::Map(m) => inferred(*m.value, f),
        Type::Array(a) => inferred(*a.items, f),
        Type::Tuple(u) => forall|i: int| 0 <= i < u.items.v@.len() ==> inferred(#[trigger] u.items.v@[i], f),
        _ => true,
    }
}
/// a tag the translation of which changes no more than names
pub open spec fn done(t: Tag, nc: bool, f: bool) -> bool { good(t, nc) && nou(t) && inferred(t, f) }

pub proof fn lemma_good_type(a: Tag, b: Tag, nc: bool)
    requires good(a, nc), a.data_type == b.data_type
    ensures good(b, nc)
{
}
pub proof fn lemma_good_full(t: Tag, nc: bool)
    requires good(t, nc)
    ensures full(t)
    decreases t
{
    match t.data_type {
        Type::Object(o) => {
            assert forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) implies full(*o.fields.m@[k]) by { lemma_good_full(*o.fields.m@[k], nc); }
        }
        Type::Map(m) => { lemma_good_full(*m.value, nc); }
        Type::Array(a) => { lemma_good_full(*a.items, nc); }
        Type::Tuple(u) => {
            assert forall|i: int| 0 <= i < u.items.v@.len() implies full(#[trigger] u.items.v@[i]) by { lemma_good_full(u.items.v@[i], nc); }
        }
        Type::Union(u) => {
            assert forall|i: int| 0 <= i < u.items.v@.len() implies full(#[trigger] u.items.v@[i]) by { lemma_good_full(u.items.v@[i], nc); }
        }
        _ => {}
    }
}
pub proof fn lemma_good_inf(t: Tag, f: bool, nc: bool)
    requires good(t, nc)
    ensures good(inf_null(t, f), nc)
    decreases t
{
    let r = inf_null(t, f);
    match t.data_type {
        Type::Object(o) => {
            let g = inf_fields(o.fields, o.required, f);
            assert(r.data_type->Object_0.fields.m@ == g);
            assert forall|k: Seq<char>| #[trigger] g.contains_key(k) implies good(*g[k], nc) && !g[k].is_root && own(k, nc) by {
                assert(o.fields.m@.contains_key(k));
                assert(o.fields.m@.dom().contains(k));
                lemma_good_inf(*o.fields.m@[k], f, nc);
                lemma_good_type(inf_null(*o.fields.m@[k], f), *g[k], nc);
            }
            assert forall|k: Seq<char>| #[trigger] g.dom().contains(k) implies own(k, nc) by { assert(g.contains_key(k)); }
        }
        Type::Map(m) => { lemma_good_inf(*m.value, f, nc); }
        Type::Array(a) => { lemma_good_inf(*a.items, f, nc); }
        Type::Tuple(u) => {
            assert(r.data_type->Tuple_0.items.v@ == inf_seq(u.items, f));
            assert forall|i: int| 0 <= i < u.items.v@.len() implies good(#[trigger] inf_seq(u.items, f)[i], nc) && !inf_seq(u.items, f)[i].is_root by { lemma_good_inf(u.items.v@[i], f, nc); }
        }
        Type::Union(u) => {
            assert(r.data_type->Union_0.items.v@ == inf_seq(u.items, f));
            assert forall|i: int| 0 <= i < u.items.v@.len() implies good(#[trigger] inf_seq(u.items, f)[i], nc) && !inf_seq(u.items, f)[i].is_root by { lemma_good_inf(u.items.v@[i], f, nc); }
        }
        _ => {}
    }
}
/// naming makes tags good
pub proof fn lemma_good_below(t: Tag, ns: Seq<char>, nc: bool)
    requires full(t), inner(t)
    ensures good(below(t, ns, nc), nc)
    decreases t
{
    let r = below(t, ns, nc);
    match t.data_type {
        Type::Object(o) => {
            let f = below_fields(o.fields, ns, nc);
            let c = columns(o.fields.m@.dom(), nc);
            assert(r.data_type->Object_0.fields.m@ == f);
            lemma_columns(o.fields.m@.dom(), nc);
            lemma_columns_own(o.fields.m@.dom(), nc);
            assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies good(*f[k], nc) && !f[k].is_root && own(k, nc) by {
                assert(c.contains_key(k));
                assert(o.fields.m@.contains_key(c[k]));
                lemma_good_below(*o.fields.m@[c[k]], under(ns, k), nc);
                lemma_good_type(below(*o.fields.m@[c[k]], under(ns, k), nc), *f[k], nc);
            }
            assert forall|k: Seq<char>| #[trigger] f.dom().contains(k) implies own(k, nc) by { assert(f.contains_key(k)); }
            if o.required is Some { lemma_req_own(o.required->0.e@, nc); }
            assert(own_all(f.dom(), nc));
            assert(own_opt(r.data_type->Object_0.required, nc));
        }
        Type::Map(m) => {
            let key = r.data_type->Map_0.key;
            assert(r.data_type == below_type(t.data_type, ns, nc));
            assert(*key == with_name(below(*m.key, under(ns, "key"@), nc), "key"@, ns));
            assert(key.data_type == below_type(m.key.data_type, under(ns, "key"@), nc));
            assert(string_key(r.data_type->Map_0));
            lemma_good_below(*m.value, under(ns, "value"@), nc);
            lemma_good_type(below(*m.value, under(ns, "value"@), nc), *r.data_type->Map_0.value, nc);
        }
        Type::Array(a) => {
            lemma_good_below(*a.items, under(ns, "list"@), nc);
            lemma_good_type(below(*a.items, under(ns, "list"@), nc), *r.data_type->Array_0.items, nc);
        }
        Type::Tuple(u) => {
            let v = below_tuple(u.items, ns, nc);
            assert(r.data_type->Tuple_0.items.v@ == v);
            assert forall|i: int| 0 <= i < v.len() implies good(#[trigger] v[i], nc) && !v[i].is_root by {
                lemma_good_below(u.items.v@[i], under(ns, tuple_name(i)), nc);
                lemma_good_type(below(u.items.v@[i], under(ns, tuple_name(i)), nc), v[i], nc);
            }
        }
        Type::Union(u) => {
            let v = below_union(u.items, ns, nc);
            assert(r.data_type->Union_0.items.v@ == v);
            assert forall|i: int| 0 <= i < v.len() implies good(#[trigger] v[i], nc) && !v[i].is_root by {
                lemma_good_below(u.items.v@[i], under(ns, "__union__"@), nc);
                lemma_good_type(below(u.items.v@[i], under(ns, "__union__"@), nc), v[i], nc);
            }
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- collapsing keeps tags good

pub proof fn lemma_u_good(s: Seq<Tag>, n: nat, nc: bool)
    requires good_seq(s, nc)
    ensures good(u_col(s, n), nc), !u_col(s, n).is_root
    decreases n, 0nat, 0nat
{
    if n > 0 {
        if s.len() == 1 {
            lemma_t_good(s[0], (n - 1) as nat, nc);
            lemma_good_type(t_col(s[0], (n - 1) as nat), u_col(s, n), nc);
        } else {
            let a = flat(s, s.len(), (n - 1) as nat);
            lemma_flat_good(s, s.len(), (n - 1) as nat, nc);
            lemma_merged_good(a, (n - 1) as nat, nc);
            let x = plain(merged(a, (n - 1) as nat), some_null(s) || some_nullable(a));
            lemma_good_type(plain(merged(a, (n - 1) as nat), false), x, nc);
            lemma_good_inf(x, false, nc);
            assert(u_col(s, n) == inf_null(x, false));
        }
    }
}
pub proof fn lemma_flat_good(s: Seq<Tag>, i: nat, n: nat, nc: bool)
    requires good_seq(s, nc), i <= s.len()
    ensures good_seq(flat(s, i, n), nc)
    decreases n, 1nat, i
{
    if i > 0 {
        lemma_flat_good(s, (i - 1) as nat, n, nc);
        let x = s[i - 1];
        assert(good(x, nc));
        match x.data_type {
            Type::Union(u) => {
                lemma_u_good(u.items.v@, n, nc);
                lemma_good_type(u_col(u.items.v@, n), Tag { name: x.name, ..u_col(u.items.v@, n) }, nc);
            }
            _ => {}
        }
    }
}
pub proof fn lemma_merged_good(s: Seq<Tag>, n: nat, nc: bool)
    requires good_seq(s, nc)
    ensures good(plain(merged(s, n), false), nc)
    decreases n, 2nat, 0nat
{
    if all_atoms(s) { lemma_fold_atoms(s, s.len()); }
    else if all_objects(s) { lemma_objects_good(s, s.len(), n, nc); }
    else if all_maps(s) {
        let v = map_values(s);
        assert forall|i: int| 0 <= i < v.len() implies good(#[trigger] v[i], nc) && !v[i].is_root by { assert(s[i].data_type is Map); assert(good(s[i], nc)); }
        lemma_u_good(v, n, nc);
    } else if all_arrays(s) {
        let v = array_items(s);
        assert forall|i: int| 0 <= i < v.len() implies good(#[trigger] v[i], nc) && !v[i].is_root by { assert(s[i].data_type is Array); assert(good(s[i], nc)); }
        lemma_u_good(v, n, nc);
    }
}
pub proof fn lemma_objects_good(s: Seq<Tag>, i: nat, n: nat, nc: bool)
    requires good_seq(s, nc), i <= s.len(), all_objects(s)
    ensures good(plain(fold_objects(s, i, n), false), nc)
    decreases n, 1nat, i
{
    if i > 0 {
        lemma_objects_good(s, (i - 1) as nat, n, nc);
        let l = fold_objects(s, (i - 1) as nat, n);
        let r = s[i - 1].data_type;
        assert(good(s[i - 1], nc));
        match (l, r) {
            (Type::Null, Type::Object(o)) => { lemma_good_type(s[i - 1], plain(r, false), nc); }
            (Type::Object(x), Type::Object(y)) => {
                lemma_good_type(s[i - 1], plain(r, false), nc);
                lemma_join_good(x, y, n, nc);
            }
            _ => {}
        }
        assert(fold_objects(s, i, n) == join_objects(l, r, n));
    }
}
pub proof fn lemma_join_good(x: Object, y: Object, n: nat, nc: bool)
    requires good(plain(Type::Object(x), false), nc), good(plain(Type::Object(y), false), nc)
    ensures good(plain(join_objects(Type::Object(x), Type::Object(y), n), false), nc)
    decreases n, 0nat, 1nat
{
    let f = merge_fields(x.fields.m@, y.fields.m@, n);
    assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies good(f[k], nc) && !f[k].is_root && own(k, nc) by {
        let v = parts(x.fields.m@, y.fields.m@, k);
        assert(x.fields.m@.contains_key(k) || y.fields.m@.contains_key(k));
        assert(x.fields.m@.dom().contains(k) || y.fields.m@.dom().contains(k));
        lemma_u_good(v, n, nc);
    }
    if !conflict(f) {
        let z = boxed(f);
        let w = Type::Object(Object { fields: hm(z), required: both_req(x.required, y.required) });
        assert forall|k: Seq<char>| #[trigger] z.contains_key(k) implies good(*z[k], nc) && !z[k].is_root by { assert(f.contains_key(k)); }
        assert forall|k: Seq<char>| #[trigger] z.dom().contains(k) implies own(k, nc) by { assert(f.contains_key(k)); }
        assert(own_opt(both_req(x.required, y.required), nc));
        assert(good(plain(w, false), nc));
    }
}
pub proof fn lemma_t_good(t: Tag, n: nat, nc: bool)
    requires good(t, nc)
    ensures good(t_col(t, n), nc), nou(t_col(t, n)), t_col(t, n).is_root == t.is_root
    decreases n, 3nat, 0nat, t
{
    let q = t_col(t, n);
    match t.data_type {
        Type::Union(u) => if n > 0 {
            lemma_u_good(u.items.v@, (n - 1) as nat, nc);
            let r = u_col(u.items.v@, (n - 1) as nat);
            let x = Tag { data_type: r.data_type, nullable: t.nullable || r.nullable, ..t };
            lemma_good_type(r, x, nc);
            lemma_t_good(x, (n - 1) as nat, nc);
        },
        Type::Object(o) => {
            let f = col_fields(o.fields, n);
            assert(q.data_type->Object_0.fields.m@ == f);
            assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies good(*f[k], nc) && nou(*f[k]) && !f[k].is_root && own(k, nc) by {
                assert(o.fields.m@.contains_key(k));
                assert(o.fields.m@.dom().contains(k));
                lemma_t_good(*o.fields.m@[k], n, nc);
            }
            assert forall|k: Seq<char>| #[trigger] f.dom().contains(k) implies own(k, nc) by { assert(f.contains_key(k)); }
        }
        Type::Map(m) => { lemma_t_good(*m.value, n, nc); }
        Type::Array(a) => { lemma_t_good(*a.items, n, nc); }
        Type::Tuple(u) => {
            let v = col_seq(u.items, n);
            assert(q.data_type->Tuple_0.items.v@ == v);
            assert forall|i: int| 0 <= i < v.len() implies good(#[trigger] v[i], nc) && nou(v[i]) && !v[i].is_root by { lemma_t_good(u.items.v@[i], n, nc); }
        }
        _ => {}
    }
}
pub proof fn lemma_t_nou(t: Tag, n: nat)
    requires nou(t)
    ensures t_col(t, n) == t
    decreases t
{
    match t.data_type {
        Type::Object(o) => {
            let f = col_fields(o.fields, n);
            assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies f[k] == o.fields.m@[k] by {
                assert(o.fields.m@.contains_key(k));
                lemma_t_nou(*o.fields.m@[k], n);
            }
            assert(f =~= o.fields.m@);
            assert(hm(f) == o.fields);
        }
        Type::Map(m) => { lemma_t_nou(*m.value, n); assert(Box::new(*m.value) == m.value); }
        Type::Array(a) => { lemma_t_nou(*a.items, n); }
        Type::Tuple(u) => {
            let v = col_seq(u.items, n);
            assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] == u.items.v@[i] by { lemma_t_nou(u.items.v@[i], n); }
            assert(v =~= u.items.v@);
            assert(vc(v) == u.items);
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- nullability

pub proof fn lemma_inferred_type(a: Tag, b: Tag, f: bool)
    requires inferred(a, f), a.data_type == b.data_type, a.nullable ==> b.nullable
    ensures inferred(b, f)
{
}
pub proof fn lemma_nou_type(a: Tag, b: Tag)
    requires nou(a), a.data_type == b.data_type
    ensures nou(b)
{
}
pub proof fn lemma_inf_inferred(t: Tag, f: bool)
    requires nou(t)
    ensures inferred(inf_null(t, f), f), nou(inf_null(t, f))
    decreases t
{
    let r = inf_null(t, f);
    match t.data_type {
        Type::Object(o) => {
            let g = inf_fields(o.fields, o.required, f);
            assert(r.data_type->Object_0.fields.m@ == g);
            assert forall|k: Seq<char>| #[trigger] g.contains_key(k) implies inferred(*g[k], f) && nou(*g[k]) && (!demands(o.required, k) ==> g[k].nullable) by {
                assert(o.fields.m@.contains_key(k));
                lemma_inf_inferred(*o.fields.m@[k], f);
                lemma_inferred_type(inf_null(*o.fields.m@[k], f), *g[k], f);
                lemma_nou_type(inf_null(*o.fields.m@[k], f), *g[k]);
            }
        }
        Type::Map(m) => { lemma_inf_inferred(*m.value, f); }
        Type::Array(a) => { lemma_inf_inferred(*a.items, f); }
        Type::Tuple(u) => {
            let v = inf_seq(u.items, f);
            assert(r.data_type->Tuple_0.items.v@ == v);
            assert forall|i: int| 0 <= i < v.len() implies inferred(#[trigger] v[i], f) && nou(v[i]) by { lemma_inf_inferred(u.items.v@[i], f); }
        }
        _ => {}
    }
}
pub proof fn lemma_inf_same(t: Tag, f: bool)
    requires inferred(t, f), nou(t)
    ensures inf_null(t, f) == t
    decreases t
{
    match t.data_type {
        Type::Object(o) => {
            let g = inf_fields(o.fields, o.required, f);
            assert forall|k: Seq<char>| #[trigger] g.contains_key(k) implies g[k] == o.fields.m@[k] by {
                assert(o.fields.m@.contains_key(k));
                lemma_inf_same(*o.fields.m@[k], f);
                assert(inferred(*o.fields.m@[k], f));
                assert(*g[k] == *o.fields.m@[k]);
            }
            assert(g =~= o.fields.m@);
            assert(hm(g) == o.fields);
        }
        Type::Map(m) => { lemma_inf_same(*m.value, f); }
        Type::Array(a) => { lemma_inf_same(*a.items, f); }
        Type::Tuple(u) => {
            let v = inf_seq(u.items, f);
            assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] == u.items.v@[i] by { lemma_inf_same(u.items.v@[i], f); }
            assert(v =~= u.items.v@);
            assert(vc(v) == u.items);
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- tags without their names

pub open spec fn er(t: Tag) -> Tag
    decreases t
{
    Tag { data_type: er_type(t.data_type), name: None, namespace: None, is_root: false, ..t }
}
pub open spec fn er_type(d: Type) -> Type
    decreases d
{
    match d {
        Type::Object(o) => Type::Object(Object { fields: hm(er_fields(o.fields)), required: o.required }),
        Type::Map(m) => Type::Map(ast::Map { key: Box::new(er(*m.key)), value: Box::new(er(*m.value)) }),
        Type::Array(a) => Type::Array(ast::Array { items: Box::new(er(*a.items)) }),
        Type::Tuple(u) => Type::Tuple(Tuple { items: vc(er_seq(u.items)) }),
        Type::Union(u) => Type::Union(Union { items: vc(er_seq(u.items)) }),
        _ => d,
    }
}
pub open spec fn er_fields(h: HashMap<Box<Tag>>) -> Map<Seq<char>, Box<Tag>>
    decreases h
{
    Map::new(h.m@.dom(), |k: Seq<char>| if h.m@.contains_key(k) { Box::new(er(*h.m@[k])) } else { arbitrary() })
}
pub open spec fn er_seq(v: Vec<Tag>) -> Seq<Tag>
    decreases v
{
    Seq::new(v.v@.len(), |i: int| if 0 <= i < v.v@.len() { er(v.v@[i]) } else { arbitrary() })
}
/// the same but for names and places
pub open spec fn like(a: Tag, b: Tag) -> bool { er(a) == er(b) }

pub proof fn lemma_er_type(a: Tag, b: Tag)
    requires a.data_type == b.data_type
    ensures er(a).data_type == er(b).data_type
{
}
/// naming a good tag changes its names only
pub proof fn lemma_below_like(t: Tag, ns: Seq<char>, nc: bool)
    requires good(t, nc), nou(t)
    ensures
        er(below(t, ns, nc)) == er(t),
        nou(below(t, ns, nc)),
        forall|f: bool| inferred(t, f) ==> #[trigger] inferred(below(t, ns, nc), f),
    decreases t
{
    let r = below(t, ns, nc);
    assert(r.data_type == below_type(t.data_type, ns, nc));
    match t.data_type {
        Type::Object(o) => {
            let f = below_fields(o.fields, ns, nc);
            let c = columns(o.fields.m@.dom(), nc);
            assert(r.data_type->Object_0.fields.m@ == f);
            lemma_columns_same(o.fields.m@.dom(), nc);
            assert(c == same_keys(o.fields.m@.dom()));
            assert forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) implies
                f.contains_key(k) && er(*f[k]) == er(*o.fields.m@[k]) && nou(*f[k]) && f[k].nullable == o.fields.m@[k].nullable
                && forall|g: bool| inferred(*o.fields.m@[k], g) ==> #[trigger] inferred(*f[k], g) by {
                assert(c.contains_key(k) && c[k] == k);
                let x = below(*o.fields.m@[k], under(ns, k), nc);
                lemma_below_like(*o.fields.m@[k], under(ns, k), nc);
                assert(*f[k] == with_name(x, k, ns));
                lemma_er_type(x, *f[k]);
                lemma_nou_type(x, *f[k]);
                assert forall|g: bool| inferred(*o.fields.m@[k], g) implies #[trigger] inferred(*f[k], g) by {
                    assert(inferred(x, g));
                    lemma_inferred_type(x, *f[k], g);
                }
            }
            assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies o.fields.m@.contains_key(k) by { assert(c.contains_key(k)); }
            assert(er_fields(hm(f)) =~= er_fields(o.fields));
            if o.required is Some { lemma_req_own(o.required->0.e@, nc); }
            assert(norm_opt(o.required, nc) == o.required);
            assert(er(r).data_type == er_type(t.data_type));
            assert forall|g: bool| inferred(t, g) implies #[trigger] inferred(r, g) by {
                assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies inferred(*f[k], g) && (!demands(o.required, k) ==> f[k].nullable) by {
                    assert(o.fields.m@.contains_key(k));
                    assert(inferred(*o.fields.m@[k], g));
                }
            }
        }
        Type::Map(m) => {
            let k = below(*m.key, under(ns, "key"@), nc);
            let v = below(*m.value, under(ns, "value"@), nc);
            assert(k == *m.key);
            lemma_below_like(*m.value, under(ns, "value"@), nc);
            let rk = with_name(k, "key"@, ns);
            let rv = with_name(v, "value"@, ns);
            assert(r.data_type == Type::Map(ast::Map { key: Box::new(rk), value: Box::new(rv) }));
            lemma_er_type(v, rv);
            lemma_er_type(k, rk);
            lemma_nou_type(v, rv);
            assert(er(rv) == er(*m.value));
            assert(er(rk) == er(*m.key));
            assert forall|f: bool| inferred(t, f) implies #[trigger] inferred(r, f) by { assert(inferred(v, f)); lemma_inferred_type(v, rv, f); }
        }
        Type::Array(a) => {
            let v = below(*a.items, under(ns, "list"@), nc);
            lemma_below_like(*a.items, under(ns, "list"@), nc);
            let rv = with_name(v, "list"@, ns);
            lemma_er_type(v, rv);
            lemma_nou_type(v, rv);
            assert(er(rv) == er(*a.items));
            assert forall|f: bool| inferred(t, f) implies #[trigger] inferred(r, f) by { assert(inferred(v, f)); lemma_inferred_type(v, rv, f); }
        }
        Type::Tuple(u) => {
            let w = below_tuple(u.items, ns, nc);
            assert(r.data_type->Tuple_0.items.v@ == w);
            assert forall|i: int| 0 <= i < w.len() implies er(#[trigger] w[i]) == er(u.items.v@[i]) && nou(w[i])
                && forall|g: bool| inferred(u.items.v@[i], g) ==> #[trigger] inferred(w[i], g) by {
                let x = below(u.items.v@[i], under(ns, tuple_name(i)), nc);
                lemma_below_like(u.items.v@[i], under(ns, tuple_name(i)), nc);
                lemma_er_type(x, w[i]);
                lemma_nou_type(x, w[i]);
                assert forall|g: bool| inferred(u.items.v@[i], g) implies #[trigger] inferred(w[i], g) by {
                    assert(inferred(x, g));
                    lemma_inferred_type(x, w[i], g);
                }
            }
            assert(er_seq(vc(w)) =~= er_seq(u.items));
            assert(er(r).data_type == er_type(t.data_type));
            assert forall|f: bool| inferred(t, f) implies #[trigger] inferred(r, f) by {
                assert forall|i: int| 0 <= i < w.len() implies inferred(#[trigger] w[i], f) by { assert(inferred(u.items.v@[i], f)); }
            }
        }
        _ => {}
    }
}
/// what is like a tag is made nullable like it
pub proof fn lemma_er_inf(t: Tag, f: bool)
    requires nou(t)
    ensures er(inf_null(t, f)) == inf_null(er(t), f)
    decreases t
{
    let r = inf_null(t, f);
    match t.data_type {
        Type::Object(o) => {
            let g = inf_fields(o.fields, o.required, f);
            let e = er_fields(o.fields);
            assert(r.data_type->Object_0.fields.m@ == g);
            let a = er_fields(hm(g));
            let b = inf_fields(hm(e), o.required, f);
            assert forall|k: Seq<char>| #[trigger] a.contains_key(k) implies a[k] == b[k] by {
                assert(o.fields.m@.contains_key(k));
                let x = *o.fields.m@[k];
                lemma_er_inf(x, f);
                assert(*g[k] == optional(inf_null(x, f), f || !demands(o.required, k)));
                lemma_er_type(inf_null(x, f), *g[k]);
                assert(*b[k] == optional(inf_null(er(x), f), f || !demands(o.required, k)));
                assert(*a[k] == er(*g[k]));
            }
            assert(a =~= b);
            assert(er(r).data_type == er_type(r.data_type));
            assert(inf_null(er(t), f).data_type == inf_type(er_type(t.data_type), f));
        }
        Type::Map(m) => { lemma_er_inf(*m.value, f); }
        Type::Array(a) => { lemma_er_inf(*a.items, f); }
        Type::Tuple(u) => {
            let v = inf_seq(u.items, f);
            assert(r.data_type->Tuple_0.items.v@ == v);
            assert forall|i: int| 0 <= i < v.len() implies er(#[trigger] v[i]) == inf_null(er_seq(u.items)[i], f) by { lemma_er_inf(u.items.v@[i], f); }
            assert(er_seq(vc(v)) =~= inf_seq(vc(er_seq(u.items)), f));
            assert(er(r).data_type == er_type(r.data_type));
            assert(inf_null(er(t), f).data_type == inf_type(er_type(t.data_type), f));
        }
        _ => {}
    }
}
}
} // verus!
verus! {
pub mod lims {
use super::*;
use super::shim::*;
use super::spec::*;
use super::lemmas::*;
use super::depth::*;
use super::tags::*;
use super::ast::{Tag, Type, Object, Union, Tuple, Atom};

pub open spec fn done_in(t: Tag, c: Context) -> bool { done(t, c.normalize_case, c.force_nullable) && !t.is_root }
/// the tag a BigQuery column is made of, when the tag is done
pub open spec fn bq_view(t: Tag, c: Context) -> Tag { inf_name(t, c.normalize_case) }

pub proof fn lemma_done_kids(t: Tag, c: Context)
    requires done(t, c.normalize_case, c.force_nullable)
    ensures
        forall|k: Seq<char>| t.data_type is Object && #[trigger] t.data_type->Object_0.fields.m@.contains_key(k) ==> done_in(*t.data_type->Object_0.fields.m@[k], c),
        t.data_type is Map ==> done_in(*t.data_type->Map_0.value, c) && plain_key(t.data_type->Map_0) && string_key(t.data_type->Map_0),
        t.data_type is Array ==> done_in(*t.data_type->Array_0.items, c),
        forall|i: int| t.data_type is Tuple && 0 <= i < t.data_type->Tuple_0.items.v@.len() ==> done_in(#[trigger] t.data_type->Tuple_0.items.v@[i], c),
{
}
pub proof fn lemma_done_below(t: Tag, ns: Seq<char>, c: Context)
    requires done(t, c.normalize_case, c.force_nullable)
    ensures done(below(t, ns, c.normalize_case), c.normalize_case, c.force_nullable), like(below(t, ns, c.normalize_case), t)
{
    lemma_below_like(t, ns, c.normalize_case);
    lemma_good_full(t, c.normalize_case);
    lemma_good_inner(t, c.normalize_case);
    lemma_good_below(t, ns, c.normalize_case);
}
pub proof fn lemma_good_inner(t: Tag, nc: bool)
    requires good(t, nc)
    ensures inner(t)
    decreases t
{
    match t.data_type {
        Type::Object(o) => {
            assert forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) implies inner(*o.fields.m@[k]) && !o.fields.m@[k].is_root by { lemma_good_inner(*o.fields.m@[k], nc); }
        }
        Type::Map(m) => { lemma_good_inner(*m.value, nc); }
        Type::Array(a) => { lemma_good_inner(*a.items, nc); }
        Type::Tuple(u) => {
            assert forall|i: int| 0 <= i < u.items.v@.len() implies inner(#[trigger] u.items.v@[i]) && !u.items.v@[i].is_root by { lemma_good_inner(u.items.v@[i], nc); }
        }
        Type::Union(u) => {
            assert forall|i: int| 0 <= i < u.items.v@.len() implies inner(#[trigger] u.items.v@[i]) && !u.items.v@[i].is_root by { lemma_good_inner(u.items.v@[i], nc); }
        }
        _ => {}
    }
}
/// a done tag is processed into its view
pub proof fn lemma_bq_done(t: Tag, c: Context)
    requires done(t, c.normalize_case, c.force_nullable)
    ensures
        bq_proc_is(t, bq_view(t, c), c),
        done(bq_view(t, c), c.normalize_case, c.force_nullable),
        like(bq_view(t, c), t),
{
    let nc = c.normalize_case;
    let f = c.force_nullable;
    let u = bq_view(t, c);
    lemma_done_below(t, base(t), c);
    lemma_inf_same(u, f);
    assert forall|n: nat| n >= 0 implies #[trigger] bq_proc(t, c, n) == u by { lemma_t_nou(t, n); }
    assert(bq_proc_from(t, u, c, 0));
}
pub proof fn lemma_av_done(t: Tag, c: Context)
    requires done_in(t, c)
    ensures av_proc_is(t, t, c)
{
    lemma_inf_same(t, c.force_nullable);
    assert(av_proc_from(t, t, c, 0));
}
/// outcomes of done tags settle, on what the outcomes of their parts make
pub proof fn lemma_bq_lim_done(w: Tag, t: Tag, c: Context)
    requires done(t, c.normalize_case, c.force_nullable), w == er(t)
    ensures bq_conv(t, c), bq_lim(t, c) == bq_at(bq_view(t, c), c, bq_lims(c))
    decreases w
{
    lemma_bq_done(t, c);
    let u = bq_view(t, c);
    lemma_bq_kids_conv(w, u, c);
    lemma_bq_step(t, u, c);
}
pub proof fn lemma_bq_kids_conv(w: Tag, u: Tag, c: Context)
    requires done(u, c.normalize_case, c.force_nullable), w == er(u)
    ensures bq_kids_conv(u, c)
    decreases w, 0nat
{
    let ks = bq_kids(u);
    lemma_done_kids(u, c);
    assert(w.data_type == er_type(u.data_type));
    assert forall|i: int| 0 <= i < ks.len() implies bq_conv(#[trigger] ks[i], c) by {
        match u.data_type {
            Type::Object(o) => {
                lemma_kid_fields(o.fields);
                let k = sorted_keys(o.fields.m@.dom())[i];
                assert(o.fields.m@.contains_key(k));
                let wm = w.data_type->Object_0.fields;
                assert(wm.m@ == er_fields(o.fields));
                assert(wm.m@.contains_key(k));
                assert(*wm.m@[k] == er(*o.fields.m@[k]));
                lemma_bq_lim_done(*wm.m@[k], *o.fields.m@[k], c);
            }
            Type::Tuple(p) => {
                let wv = w.data_type->Tuple_0.items;
                assert(wv.v@ == er_seq(p.items));
                lemma_bq_lim_done(wv.v@[i], p.items.v@[i], c);
            }
            Type::Array(a) => { lemma_bq_lim_done(*w.data_type->Array_0.items, *a.items, c); }
            Type::Map(m) => {
                if i == 0 { lemma_bq_key(*m.key, c); } else { lemma_bq_lim_done(*w.data_type->Map_0.value, *m.value, c); }
            }
            _ => {}
        }
    }
}
pub proof fn lemma_av_lim_done(t: Tag, c: Context)
    requires done_in(t, c)
    ensures av_conv(t, c), av_lim(t, c) == av_at(t, c, av_lims(c))
    decreases t
{
    lemma_av_done(t, c);
    lemma_av_kids_conv(t, c);
    lemma_av_step(t, t, c);
}
pub proof fn lemma_av_kids_conv(u: Tag, c: Context)
    requires done(u, c.normalize_case, c.force_nullable)
    ensures av_kids_conv(u, c)
    decreases u, 0nat
{
    let ks = av_kids(u);
    lemma_done_kids(u, c);
    assert forall|i: int| 0 <= i < ks.len() implies av_conv(#[trigger] ks[i], c) by {
        match u.data_type {
            Type::Object(o) => {
                lemma_kid_fields(o.fields);
                let k = sorted_keys(o.fields.m@.dom())[i];
                assert(o.fields.m@.contains_key(k));
                lemma_av_lim_done(*o.fields.m@[k], c);
            }
            Type::Tuple(p) => { lemma_av_lim_done(p.items.v@[i], c); }
            Type::Array(a) => { lemma_av_lim_done(*a.items, c); }
            Type::Map(m) => { lemma_av_lim_done(*m.value, c); }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- the root

/// the tag the table is made of
pub open spec fn bq_top_tag(t: Tag, c: Context) -> Tag { inf_null(inf_name(col(t), c.normalize_case), c.force_nullable) }
pub open spec fn av_top_tag(t: Tag, c: Context) -> Tag { inf_null(inf_name(av_root(col(t)), c.normalize_case), c.force_nullable) }
/// what both are, but for names
pub open spec fn top_like(t: Tag, c: Context) -> Tag { er(inf_null(col(t), c.force_nullable)) }

pub proof fn lemma_named_done(x: Tag, ns: Seq<char>, c: Context)
    requires good(x, c.normalize_case), nou(x)
    ensures ({
        let u = inf_null(below(x, ns, c.normalize_case), c.force_nullable);
        &&& done(u, c.normalize_case, c.force_nullable)
        &&& er(u) == er(inf_null(x, c.force_nullable))
    })
{
    let nc = c.normalize_case;
    let f = c.force_nullable;
    let y = below(x, ns, nc);
    lemma_below_like(x, ns, nc);
    lemma_good_full(x, nc);
    lemma_good_inner(x, nc);
    lemma_good_below(x, ns, nc);
    lemma_good_inf(y, f, nc);
    lemma_inf_inferred(y, f);
    lemma_er_inf(y, f);
    lemma_er_inf(x, f);
}
pub proof fn lemma_top(t: Tag, c: Context)
    requires good(t, c.normalize_case)
    ensures
        done(bq_top_tag(t, c), c.normalize_case, c.force_nullable),
        er(bq_top_tag(t, c)) == top_like(t, c),
        bq_conv(t, c),
        bq_lim(t, c) == bq_at(bq_top_tag(t, c), c, bq_lims(c)),
{
    let nc = c.normalize_case;
    let n = lemma_col_at(t);
    lemma_t_good(t, n, nc);
    assert(t_col(t, n) == col(t));
    let u = bq_top_tag(t, c);
    lemma_named_done(col(t), base(col(t)), c);
    lemma_bq_proc(t, col(t), c);
    lemma_bq_kids_conv(er(u), u, c);
    lemma_bq_step(t, u, c);
}
pub proof fn lemma_top_avro(t: Tag, c: Context)
    requires good(t, c.normalize_case), t.is_root
    ensures
        done(av_top_tag(t, c), c.normalize_case, c.force_nullable),
        er(av_top_tag(t, c)) == top_like(t, c),
        av_conv(t, c),
        av_lim(t, c) == av_at(av_top_tag(t, c), c, av_lims(c)),
{
    let nc = c.normalize_case;
    let n = lemma_col_at(t);
    lemma_t_good(t, n, nc);
    assert(t_col(t, n) == col(t));
    let u = av_top_tag(t, c);
    let x = av_root(col(t));
    lemma_good_type(col(t), x, nc);
    lemma_nou_type(col(t), x);
    lemma_named_done(x, base(x), c);
    lemma_er_inf(x, c.force_nullable);
    lemma_er_inf(col(t), c.force_nullable);
    assert(er(x) == er(col(t)));
    lemma_av_proc(t, col(t), c);
    lemma_av_kids_conv(u, c);
    lemma_av_step(t, u, c);
}
}
} // verus!
