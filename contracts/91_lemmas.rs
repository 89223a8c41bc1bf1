verus! {
pub mod lemmas {
use super::*;
use super::shim::*;
use super::spec::*;
use super::ast::{Tag, Type, Object, Union, Tuple, Atom};

/// entries with distinct keys collect into the map they describe
pub proof fn lemma_collect<B>(out: Seq<(String, B)>, m: Map<Seq<char>, B>)
    requires
        forall|i: int| 0 <= i < out.len() ==> m.contains_key((#[trigger] out[i]).0.s@) && m[out[i].0.s@] == out[i].1,
        forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < out.len() && (#[trigger] out[i]).0.s@ == k,
        forall|i: int, j: int| 0 <= i < j < out.len() ==> (#[trigger] out[i]).0.s@ != (#[trigger] out[j]).0.s@,
    ensures
        forall|r: HashMap<B>| #[trigger] <HashMap<B> as VCollect<(String, B)>>::collects(out, r) ==> r.m@ == m,
{
    assert forall|r: HashMap<B>| #[trigger] <HashMap<B> as VCollect<(String, B)>>::collects(out, r) implies r.m@ == m by {
        assert(r.m@ =~= m);
    }
}

/// the same when the entries come from the entries of another map
pub proof fn lemma_collect_own<A, B>(m0: Map<Seq<char>, A>, src: Seq<(String, A)>, out: Seq<(String, B)>, m: Map<Seq<char>, B>)
    requires
        lists_own(m0, src),
        out.len() == src.len(),
        m.dom() =~= m0.dom(),
        forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i]).0.s@ == src[i].0.s@ && out[i].1 == m[src[i].0.s@],
    ensures
        forall|r: HashMap<B>| #[trigger] <HashMap<B> as VCollect<(String, B)>>::collects(out, r) ==> r.m@ == m,
{
    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < out.len() && (#[trigger] out[i]).0.s@ == k by {
        assert(m0.contains_key(k));
        let i = choose|i: int| 0 <= i < src.len() && (#[trigger] src[i]).0.s@ == k;
        assert(out[i].0.s@ == k);
    }
    assert forall|i: int, j: int| 0 <= i < j < out.len() implies (#[trigger] out[i]).0.s@ != (#[trigger] out[j]).0.s@ by {
        assert(src[i].0.s@ != src[j].0.s@);
    }
    lemma_collect(out, m);
}

/// the literal pattern of column names, read as `ident`
pub proof fn lemma_ident()
    ensures forall|s: Seq<char>| #[trigger] re_match("^[a-zA-Z_][a-zA-Z0-9_]*$"@, s) == ident(s)
{
    rx::axiom_re_0();
    assert forall|s: Seq<char>| #[trigger] re_match("^[a-zA-Z_][a-zA-Z0-9_]*$"@, s) == ident(s) by {
        assert(rx::re_0(s) == ident(s));
    }
}
pub proof fn lemma_undot(s: Seq<char>)
    ensures forall|r: Seq<char>| r.len() == s.len()
        && (forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == (if s[i] == '.' || s[i] == '-' { '_' } else { s[i] }))
        ==> #[trigger] prefix(r) == prefix(undot(s))
{
    assert forall|r: Seq<char>| r.len() == s.len()
        && (forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == (if s[i] == '.' || s[i] == '-' { '_' } else { s[i] }))
        implies #[trigger] prefix(r) == prefix(undot(s)) by {
        assert(r =~= undot(s));
    }
}
/// keys listed by reference and then copied
pub proof fn lemma_keyed<'a>(d: Set<Seq<char>>, src: Seq<&'a String>, out: Seq<String>)
    requires
        keyed_ref(d, src),
        out.len() == src.len(),
        forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i]).s@ == src[i].s@,
    ensures keyed(d, out),
{
    assert forall|k: Seq<char>| #[trigger] d.contains(k) implies exists|i: int| 0 <= i < out.len() && (#[trigger] out[i]).s@ == k by {
        let i = choose|i: int| 0 <= i < src.len() && (#[trigger] src[i]).s@ == k;
        assert(out[i].s@ == k);
    }
    assert forall|i: int, j: int| 0 <= i < j < out.len() implies (#[trigger] out[i]).s@ != (#[trigger] out[j]).s@ by {
        assert(src[i].s@ != src[j].s@);
    }
}

pub proof fn lemma_req(s: Set<Seq<char>>, k: Seq<char>, nc: bool)
    requires s.contains(k)
    ensures column(k, nc) is Some ==> norm_req(s, nc).contains(column(k, nc)->0)
{
    if column(k, nc) is Some {
        assert(s.filter(|k: Seq<char>| column(k, nc) is Some).contains(k));
    }
}
/// what is held stays held when the list grows
pub proof fn lemma_holds(a: Seq<String>, b: Seq<String>)
    requires a.len() <= b.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]
    ensures
        forall|k: Seq<char>| #[trigger] holds(a, k) ==> holds(b, k),
        forall|i: int| a.len() <= i < b.len() ==> holds(b, (#[trigger] b[i]).s@),
{
    assert forall|k: Seq<char>| #[trigger] holds(a, k) implies holds(b, k) by {
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).s@ == k;
        assert(b[i].s@ == k);
    }
}
pub proof fn lemma_collect_req<'a>(s: Set<Seq<char>>, src: Seq<&'a String>, out: Seq<String>)
    requires
        keyed_ref(s, src),
        forall|i: int| 0 <= i < out.len() ==> norm_req(s, false).contains((#[trigger] out[i]).s@),
        forall|j: int| 0 <= j < src.len() && norm_bq((#[trigger] src[j]).s@) is Some ==> holds(out, norm_bq(src[j].s@)->0),
    ensures
        forall|r: HashSet| #[trigger] <HashSet as VCollect<String>>::collects(out, r) ==> r.e@ == norm_req(s, false)
{
    assert forall|r: HashSet| #[trigger] <HashSet as VCollect<String>>::collects(out, r) implies r.e@ == norm_req(s, false) by {
        assert forall|k: Seq<char>| norm_req(s, false).contains(k) implies r.e@.contains(k) by {
            let x = choose|x: Seq<char>| s.contains(x) && column(x, false) is Some && column(x, false)->0 == k;
            let j = choose|j: int| 0 <= j < src.len() && (#[trigger] src[j]).s@ == x;
            assert(holds(out, norm_bq(src[j].s@)->0));
        }
        assert(r.e@ =~= norm_req(s, false));
    }
}
pub proof fn lemma_collect_snake<'a>(s: Set<Seq<char>>, src: Seq<&'a String>, out: Seq<String>)
    requires
        keyed_ref(norm_req(s, false), src),
        out.len() == src.len(),
        forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i]).s@ == prefix(snake(src[i].s@)),
    ensures
        forall|r: HashSet| #[trigger] <HashSet as VCollect<String>>::collects(out, r) ==> r.e@ == norm_req(s, true)
{
    assert forall|r: HashSet| #[trigger] <HashSet as VCollect<String>>::collects(out, r) implies r.e@ == norm_req(s, true) by {
        assert forall|k: Seq<char>| norm_req(s, true).contains(k) implies r.e@.contains(k) by {
            let x = choose|x: Seq<char>| s.contains(x) && column(x, true) is Some && column(x, true)->0 == k;
            lemma_req(s, x, false);
            let j = choose|j: int| 0 <= j < src.len() && (#[trigger] src[j]).s@ == norm_bq(x)->0;
            assert(out[j].s@ == k);
        }
        assert forall|k: Seq<char>| r.e@.contains(k) implies norm_req(s, true).contains(k) by {
            let i = choose|i: int| 0 <= i < out.len() && (#[trigger] out[i]).s@ == k;
            let m = src[i].s@;
            let x = choose|x: Seq<char>| s.contains(x) && column(x, false) is Some && column(x, false)->0 == m;
            lemma_req(s, x, true);
        }
        assert(r.e@ =~= norm_req(s, true));
    }
}

pub proof fn lemma_ren(d: Set<Seq<char>>, i: nat, nc: bool)
    requires key_order(d), i <= sorted_keys(d).len()
    ensures
        forall|j: int| i <= j < sorted_keys(d).len() ==> ren(d, i, nc).contains_key(#[trigger] sorted_keys(d)[j]),
        forall|k: Seq<char>| #[trigger] ren(d, i, nc).contains_key(k) ==> d.contains(ren(d, i, nc)[k]),
    decreases i
{
    if i > 0 {
        lemma_ren(d, (i - 1) as nat, nc);
    }
}
/// every column stands for one of the properties
pub proof fn lemma_columns(d: Set<Seq<char>>, nc: bool)
    ensures forall|k: Seq<char>| #[trigger] columns(d, nc).contains_key(k) ==> d.contains(columns(d, nc)[k])
{
    lemma_key_order(d);
    lemma_ren(d, sorted_keys(d).len(), nc);
}

pub proof fn lemma_collect_set<'a>(d: Set<Seq<char>>, src: Seq<&'a String>, out: Seq<String>)
    requires
        keyed_ref(d, src),
        out.len() == src.len(),
        forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i]).s@ == src[i].s@,
    ensures
        forall|r: HashSet| #[trigger] <HashSet as VCollect<String>>::collects(out, r) ==> r.e@ == d
{
    lemma_keyed(d, src, out);
    assert forall|r: HashSet| #[trigger] <HashSet as VCollect<String>>::collects(out, r) implies r.e@ == d by {
        assert(r.e@ =~= d);
    }
}

// ---------------------------------------------------------------- collapse

/// how far a property of variants has been looked at
pub open spec fn atoms_to(s: Seq<Tag>, i: int) -> bool { forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).data_type is Atom }
pub open spec fn objects_to(s: Seq<Tag>, i: int) -> bool { forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).data_type is Object }
pub open spec fn maps_to(s: Seq<Tag>, i: int) -> bool { forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).data_type is Map }
pub open spec fn arrays_to(s: Seq<Tag>, i: int) -> bool { forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).data_type is Array }
pub open spec fn null_to(s: Seq<Tag>, i: int) -> bool { exists|j: int| 0 <= j < i && (#[trigger] s[j]).data_type is Null }
pub open spec fn nullable_to(s: Seq<Tag>, i: int) -> bool { exists|j: int| 0 <= j < i && (#[trigger] s[j]).nullable }
pub proof fn lemma_to(s: Seq<Tag>, i: int)
    requires 0 <= i < s.len()
    ensures
        null_to(s, i + 1) == (null_to(s, i) || s[i].data_type is Null),
        nullable_to(s, i + 1) == (nullable_to(s, i) || s[i].nullable),
        atoms_to(s, i + 1) == (atoms_to(s, i) && s[i].data_type is Atom),
        objects_to(s, i + 1) == (objects_to(s, i) && s[i].data_type is Object),
        maps_to(s, i + 1) == (maps_to(s, i) && s[i].data_type is Map),
        arrays_to(s, i + 1) == (arrays_to(s, i) && s[i].data_type is Array),
{}
pub proof fn lemma_to_all(s: Seq<Tag>)
    ensures
        !null_to(s, 0), null_to(s, s.len() as int) == some_null(s), !nullable_to(s, 0), nullable_to(s, s.len() as int) == some_nullable(s),
        atoms_to(s, 0), atoms_to(s, s.len() as int) == all_atoms(s),
        objects_to(s, 0), objects_to(s, s.len() as int) == all_objects(s),
        maps_to(s, 0), maps_to(s, s.len() as int) == all_maps(s),
        arrays_to(s, 0), arrays_to(s, s.len() as int) == all_arrays(s),
{}
pub proof fn lemma_single(s: Seq<Tag>)
    ensures s.len() == 1 ==> forall|i: Tag| #[trigger] t_is(s[0], i) ==> u_is(s, alone(i, some_null(s) || i.nullable)),
        forall|i: Tag, n: bool| full(i) ==> full(#[trigger] alone(i, n)),
{
    assert forall|i: Tag, n: bool| full(i) implies full(#[trigger] alone(i, n)) by { lemma_full_type(i, alone(i, n)); }
    if s.len() == 1 {
        assert forall|i: Tag| #[trigger] t_is(s[0], i) implies u_is(s, alone(i, some_null(s) || i.nullable)) by {
            let b = choose|b: nat| t_from(s[0], i, b);
            let r = alone(i, some_null(s) || i.nullable);
            assert forall|n: nat| n >= b + 1 implies #[trigger] u_col(s, n) == r by {
                assert(t_col(s[0], (n - 1) as nat) == i);
            }
            assert(u_from(s, r, b + 1));
        }
    }
}
pub proof fn lemma_inf_full()
    ensures forall|t: Tag, f: bool| full(t) ==> full(#[trigger] inf_null(t, f))
{
    assert forall|t: Tag, f: bool| full(t) implies full(#[trigger] inf_null(t, f)) by { lemma_inf_full1(t, f); }
}
pub proof fn lemma_inf_full1(t: Tag, f: bool)
    requires full(t)
    ensures full(inf_null(t, f))
    decreases t
{
    assert(inf_null(t, f).data_type == inf_type(t.data_type, f));
    match t.data_type {
        Type::Object(o) => {
            let g = inf_fields(o.fields, o.required, f);
            assert forall|k: Seq<char>| #[trigger] g.contains_key(k) implies full(*g[k]) by {
                assert(o.fields.m@.contains_key(k));
                lemma_inf_full1(*o.fields.m@[k], f);
                lemma_full_type(inf_null(*o.fields.m@[k], f), *g[k]);
            }
        }
        Type::Map(m) => { lemma_inf_full1(*m.value, f); assert(full(inf_null(t, f))); }
        Type::Array(a) => { lemma_inf_full1(*a.items, f); assert(full(inf_null(t, f))); }
        Type::Tuple(u) => {
            let w = inf_null(t, f).data_type->Tuple_0.items.v@;
            assert(w == inf_seq(u.items, f));
            assert forall|i: int| 0 <= i < w.len() implies full(#[trigger] w[i]) by { lemma_inf_full1(u.items.v@[i], f); }
            assert(full(inf_null(t, f)));
        }
        Type::Union(u) => {
            let w = inf_null(t, f).data_type->Union_0.items.v@;
            assert(w == inf_seq(u.items, f));
            assert forall|i: int| 0 <= i < w.len() implies full(#[trigger] w[i]) by { lemma_inf_full1(u.items.v@[i], f); }
            assert(full(inf_null(t, f)));
        }
        _ => { assert(full(inf_null(t, f))); }
    }
}
pub proof fn lemma_full_key(m: ast::Map, v: Tag)
    requires plain_key(m), full(v)
    ensures full(plain(Type::Map(ast::Map { key: m.key, value: Box::new(v) }), false))
{
}
/// what a full tag has within
pub proof fn lemma_full_in(t: Tag)
    ensures full(t) ==> match t.data_type {
        Type::Object(o) => forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) ==> full(*o.fields.m@[k]),
        Type::Map(m) => plain_key(m) && full(*m.value),
        Type::Array(a) => full(*a.items),
        Type::Union(u) => u.items.v@.len() > 0 && full_seq(u.items.v@),
        _ => true,
    }
{
}
pub proof fn lemma_full_of(t: Tag)
    requires match t.data_type {
        Type::Object(o) => forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) ==> full(*o.fields.m@[k]),
        Type::Map(m) => plain_key(m) && full(*m.value),
        Type::Array(a) => full(*a.items),
        Type::Null | Type::Atom(_) => true,
        _ => false,
    }
    ensures full(t)
{
}
pub proof fn lemma_full_type(a: Tag, b: Tag)
    requires a.data_type == b.data_type
    ensures full(a) == full(b)
{
}
pub proof fn lemma_flat_union(s: Seq<Tag>, i: nat, out: Seq<Tag>, r: Tag, b: nat)
    requires
        i < s.len(),
        s[i as int].data_type is Union,
        flat_from(s, i, out, b),
        u_is(s[i as int].data_type->Union_0.items.v@, r),
    ensures
        flat_from(s, i + 1, out.push(Tag { name: s[i as int].name, ..r }), nmax(b, u_bound(s[i as int].data_type->Union_0.items.v@, r)))
{
    let us = s[i as int].data_type->Union_0.items.v@;
    let c = u_bound(us, r);
    assert(u_from(us, r, c));
    assert forall|n: nat| n >= nmax(b, c) implies #[trigger] flat(s, i + 1, n) == out.push(Tag { name: s[i as int].name, ..r }) by {
        assert(flat(s, i, n) == out);
        assert(u_col(us, n) == r);
    }
}
pub proof fn lemma_flat_other(s: Seq<Tag>, i: nat, out: Seq<Tag>, b: nat)
    requires i < s.len(), !(s[i as int].data_type is Union), flat_from(s, i, out, b),
    ensures flat_from(s, i + 1, if s[i as int].data_type is Null { out } else { out.push(s[i as int]) }, b)
{
    assert forall|n: nat| n >= b implies #[trigger] flat(s, i + 1, n) == (if s[i as int].data_type is Null { out } else { out.push(s[i as int]) }) by {
        assert(flat(s, i, n) == out);
    }
}
pub proof fn lemma_objects_step(s: Seq<Tag>, i: nat, x: Type, y: Type, b: nat, c: nat)
    requires i < s.len(), objects_from(s, i, x, b), join_from(x, s[i as int].data_type, y, c)
    ensures objects_from(s, i + 1, y, nmax(b, c))
{
    assert forall|n: nat| n >= nmax(b, c) implies #[trigger] fold_objects(s, i + 1, n) == y by {
        assert(fold_objects(s, i, n) == x);
        assert(join_objects(x, s[i as int].data_type, n) == y);
    }
}
pub proof fn lemma_seen<'a, V>(src: Seq<(&'a String, &'a V)>, i: int)
    requires 0 <= i < src.len()
    ensures forall|k: Seq<char>| #[trigger] seen(src, i + 1, k) == (seen(src, i, k) || k == src[i].0.s@)
{
    assert forall|k: Seq<char>| #[trigger] seen(src, i + 1, k) == (seen(src, i, k) || k == src[i].0.s@) by {
        if seen(src, i + 1, k) {
            let j = choose|j: int| 0 <= j < i + 1 && (#[trigger] src[j]).0.s@ == k;
            if j < i { assert(seen(src, i, k)); }
        }
    }
}
pub proof fn lemma_lists_at<'a, V>(m: Map<Seq<char>, V>, src: Seq<(&'a String, &'a V)>, i: int)
    requires lists(m, src), 0 <= i < src.len()
    ensures
        m.contains_key(src[i].0.s@), m[src[i].0.s@] == *src[i].1,
        !seen(src, i, src[i].0.s@),
{
}
pub proof fn lemma_own_at<V>(m: Map<Seq<char>, V>, src: Seq<(String, V)>, i: int)
    requires lists_own(m, src), 0 <= i < src.len()
    ensures m.contains_key(src[i].0.s@), m[src[i].0.s@] == src[i].1
{
}
pub proof fn lemma_parts_full(l: Object, r: Object, k: Seq<char>)
    requires full(plain(Type::Object(l), false)), full(plain(Type::Object(r), false)), l.fields.m@.contains_key(k) || r.fields.m@.contains_key(k)
    ensures ({
        let s = some_parts(l.fields.m@, r.fields.m@, k, r.fields.m@.contains_key(k));
        full_seq(s) && s.len() > 0
    })
{
    lemma_full_in(plain(Type::Object(l), false));
    lemma_full_in(plain(Type::Object(r), false));
}
pub proof fn lemma_seen_all<'a, V>(m: Map<Seq<char>, V>, src: Seq<(&'a String, &'a V)>)
    requires lists(m, src)
    ensures forall|k: Seq<char>| #[trigger] seen(src, src.len() as int, k) == m.contains_key(k)
{
}
pub open spec fn full_fields(f: Map<Seq<char>, Tag>) -> bool { forall|k: Seq<char>| #[trigger] f.contains_key(k) ==> full(f[k]) }
/// two objects that are full are merged into something full
pub proof fn lemma_join_full(x: Tag, y: Tag, z: Type, b: nat)
    requires
        full(x), full(y),
        x.data_type is Null && y.data_type is Object ==> z == y.data_type,
        x.data_type is Object && y.data_type is Object ==> {
            let f = merge_fields(x.data_type->Object_0.fields.m@, y.data_type->Object_0.fields.m@, b);
            joined(x.data_type->Object_0, y.data_type->Object_0, f, z) && full_fields(f)
        },
        !(x.data_type is Null || x.data_type is Object) || !(y.data_type is Object) ==> z == json(),
    ensures full(plain(z, false))
{
    if x.data_type is Null && y.data_type is Object { lemma_full_type(y, plain(z, false)); }
    else if x.data_type is Object && y.data_type is Object {
        let f = merge_fields(x.data_type->Object_0.fields.m@, y.data_type->Object_0.fields.m@, b);
        if !conflict(f) {
            let o = z->Object_0;
            assert forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) implies full(*o.fields.m@[k]) by { assert(f.contains_key(k)); }
        }
        lemma_full_of(plain(z, false));
    } else { lemma_full_of(plain(z, false)); }
}
pub proof fn lemma_merge(l: Map<Seq<char>, Box<Tag>>, r: Map<Seq<char>, Box<Tag>>, um: Map<Seq<char>, Vec<Tag>>,
    src: Seq<(String, Vec<Tag>)>, out: Seq<(String, Tag)>, b: nat)
    requires
        lists_own(um, src),
        forall|k: Seq<char>| #[trigger] um.contains_key(k) == (l.contains_key(k) || r.contains_key(k)),
        forall|k: Seq<char>| #[trigger] um.contains_key(k) ==> um[k].v@ == some_parts(l, r, k, r.contains_key(k)),
        out.len() == src.len(),
        forall|j: int| 0 <= j < out.len() ==> (#[trigger] out[j]).0.s@ == src[j].0.s@ && u_from(src[j].1.v@, out[j].1, b),
    ensures
        forall|m: HashMap<Tag>| #[trigger] <HashMap<Tag> as VCollect<(String, Tag)>>::collects(out, m) ==> m.m@ == merge_fields(l, r, b),
        forall|n: nat| n >= b ==> #[trigger] merge_fields(l, r, n) == merge_fields(l, r, b),
        (forall|j: int| 0 <= j < out.len() ==> full((#[trigger] out[j]).1)) ==> full_fields(merge_fields(l, r, b)),
{
    let f = merge_fields(l, r, b);
    assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies exists|j: int| 0 <= j < out.len() && src[j].0.s@ == k && f[k] == (#[trigger] out[j]).1 && u_from(parts(l, r, k), f[k], b) by {
        assert(um.contains_key(k));
        let j = choose|j: int| 0 <= j < src.len() && (#[trigger] src[j]).0.s@ == k;
        assert(parts(l, r, k) == src[j].1.v@);
        assert(u_from(src[j].1.v@, out[j].1, b));
        assert(u_col(parts(l, r, k), b) == out[j].1);
    }
    assert forall|j: int| 0 <= j < out.len() implies (#[trigger] out[j]).0.s@ == src[j].0.s@ && out[j].1 == f[src[j].0.s@] by {
        let k = src[j].0.s@;
        assert(um.contains_key(k));
        assert(parts(l, r, k) == src[j].1.v@);
        assert(u_from(src[j].1.v@, out[j].1, b));
        assert(u_col(parts(l, r, k), b) == out[j].1);
    }
    assert(f.dom() =~= um.dom());
    lemma_collect_own(um, src, out, f);
    assert forall|n: nat| n >= b implies #[trigger] merge_fields(l, r, n) == f by {
        assert forall|k: Seq<char>| f.contains_key(k) implies u_col(parts(l, r, k), n) == f[k] by {}
        assert(merge_fields(l, r, n) =~= f);
    }
}
pub proof fn lemma_conflict<'a>(m: Map<Seq<char>, Tag>, src: Seq<(&'a String, &'a Tag)>)
    requires lists(m, src)
    ensures conflict(m) == exists|j: int| 0 <= j < src.len() && (#[trigger] src[j]).1.data_type == json()
{
    if conflict(m) {
        let k = choose|k: Seq<char>| #[trigger] m.contains_key(k) && m[k].data_type == json();
        let j = choose|j: int| 0 <= j < src.len() && (#[trigger] src[j]).0.s@ == k;
        assert(src[j].1.data_type == json());
    }
    if exists|j: int| 0 <= j < src.len() && (#[trigger] src[j]).1.data_type == json() {
        let j = choose|j: int| 0 <= j < src.len() && (#[trigger] src[j]).1.data_type == json();
        assert(m.contains_key(src[j].0.s@));
    }
}
pub proof fn lemma_join(x: Type, y: Type, z: Type, b: nat)
    requires
        x is Null && y is Object ==> z == y,
        x is Object && y is Object ==> joined(x->Object_0, y->Object_0, merge_fields(x->Object_0.fields.m@, y->Object_0.fields.m@, b), z)
            && forall|n: nat| n >= b ==> #[trigger] merge_fields(x->Object_0.fields.m@, y->Object_0.fields.m@, n) == merge_fields(x->Object_0.fields.m@, y->Object_0.fields.m@, b),
        !(x is Null || x is Object) || !(y is Object) ==> z == json(),
    ensures join_from(x, y, z, b)
{
    assert forall|n: nat| n >= b implies #[trigger] join_objects(x, y, n) == z by {
        if x is Object && y is Object {
            let f = merge_fields(x->Object_0.fields.m@, y->Object_0.fields.m@, n);
            assert(f == merge_fields(x->Object_0.fields.m@, y->Object_0.fields.m@, b));
        }
    }
}
pub proof fn lemma_atom_fold(s: Seq<Tag>, i: nat)
    requires i <= s.len()
    ensures fold_atoms(s, i) is Null || fold_atoms(s, i) is Atom
    decreases i
{
    if i > 0 { lemma_atom_fold(s, (i - 1) as nat); }
}
pub proof fn lemma_multi_full(l: Seq<Tag>, d: Type, n: bool)
    requires
        all_atoms(l) ==> d == fold_atoms(l, l.len()),
        !all_atoms(l) && all_objects(l) ==> full(plain(d, false)),
        !all_atoms(l) && !all_objects(l) && all_maps(l) ==> d is Map && d->Map_0 == map_of(*d->Map_0.value) && full(*d->Map_0.value),
        !all_atoms(l) && !all_objects(l) && !all_maps(l) && all_arrays(l) ==> d is Array && full(*d->Array_0.items),
        !all_atoms(l) && !all_objects(l) && !all_maps(l) && !all_arrays(l) ==> d == json(),
    ensures full(inf_null(plain(d, n), false))
{
    lemma_atom_fold(l, l.len());
    lemma_full_type(plain(d, false), plain(d, n));
    if all_atoms(l) || !all_objects(l) { lemma_full_of(plain(d, n)); }
    lemma_inf_full1(plain(d, n), false);
}
pub open spec fn merged_bound(l: Seq<Tag>, d: Type, b: nat) -> nat {
    if all_atoms(l) { 0 } else if all_objects(l) { b }
    else if all_maps(l) { u_bound(map_values(l), *d->Map_0.value) }
    else if all_arrays(l) { u_bound(array_items(l), *d->Array_0.items) }
    else { 0 }
}
pub proof fn lemma_merged(l: Seq<Tag>, d: Type, b: nat)
    requires
        all_atoms(l) ==> d == fold_atoms(l, l.len()),
        !all_atoms(l) && all_objects(l) ==> objects_from(l, l.len(), d, b),
        !all_atoms(l) && !all_objects(l) && all_maps(l) ==> d is Map && d->Map_0 == map_of(*d->Map_0.value) && u_is(map_values(l), *d->Map_0.value),
        !all_atoms(l) && !all_objects(l) && !all_maps(l) && all_arrays(l) ==> d is Array && u_is(array_items(l), *d->Array_0.items),
        !all_atoms(l) && !all_objects(l) && !all_maps(l) && !all_arrays(l) ==> d == json(),
    ensures merged_from(l, d, merged_bound(l, d, b))
{
    let c = merged_bound(l, d, b);
    if !all_atoms(l) && !all_objects(l) && all_maps(l) {
        assert(u_from(map_values(l), *d->Map_0.value, c));
    }
    if !all_atoms(l) && !all_objects(l) && !all_maps(l) && all_arrays(l) {
        assert(u_from(array_items(l), *d->Array_0.items, c));
    }
    assert forall|n: nat| n >= c implies #[trigger] merged(l, n) == d by {
        if all_atoms(l) {} else if all_objects(l) {
            assert(fold_objects(l, l.len(), n) == d);
        } else if all_maps(l) {
            assert(u_col(map_values(l), n) == *d->Map_0.value);
        } else if all_arrays(l) {
            assert(u_col(array_items(l), n) == *d->Array_0.items);
        }
    }
}
pub proof fn lemma_multi(s: Seq<Tag>, items: Seq<Tag>, d: Type, b: nat, c: nat)
    requires s.len() != 1, flat_from(s, s.len(), items, b), merged_from(items, d, c)
    ensures u_is(s, inf_null(plain(d, some_null(s) || some_nullable(items)), false))
{
    let r = inf_null(plain(d, some_null(s) || some_nullable(items)), false);
    let e = nmax(b, c) + 1;
    assert forall|n: nat| n >= e implies #[trigger] u_col(s, n) == r by {
        assert(flat(s, s.len(), (n - 1) as nat) == items);
        assert(merged(items, (n - 1) as nat) == d);
    }
    assert(u_from(s, r, e));
}

pub proof fn lemma_col_down(t: Tag)
    ensures
        t.data_type is Map ==> forall|v: Tag| #[trigger] t_is(*t.data_type->Map_0.value, v)
            ==> t_is(t, Tag { data_type: Type::Map(ast::Map { key: t.data_type->Map_0.key, value: Box::new(v) }), ..t }),
        t.data_type is Array ==> forall|v: Tag| #[trigger] t_is(*t.data_type->Array_0.items, v)
            ==> t_is(t, Tag { data_type: Type::Array(ast::Array { items: Box::new(v) }), ..t }),
        t.data_type is Union ==> forall|r: Tag, m: Tag, v: Tag| #[trigger] u_is(t.data_type->Union_0.items.v@, r) && #[trigger] t_is(m, v)
            && m == (Tag { data_type: r.data_type, nullable: t.nullable || r.nullable, ..t }) ==> t_is(t, v),
        t.data_type is Null || t.data_type is Atom ==> t_is(t, t),
{
    match t.data_type {
        Type::Map(m) => {
            assert forall|v: Tag| #[trigger] t_is(*m.value, v) implies t_is(t, Tag { data_type: Type::Map(ast::Map { key: m.key, value: Box::new(v) }), ..t }) by {
                let b = t_bound(*m.value, v);
                assert(t_from(*m.value, v, b));
                let r = Tag { data_type: Type::Map(ast::Map { key: m.key, value: Box::new(v) }), ..t };
                assert forall|n: nat| n >= b implies #[trigger] t_col(t, n) == r by { assert(t_col(*m.value, n) == v); }
                assert(t_from(t, r, b));
            }
        }
        Type::Array(a) => {
            assert forall|v: Tag| #[trigger] t_is(*a.items, v) implies t_is(t, Tag { data_type: Type::Array(ast::Array { items: Box::new(v) }), ..t }) by {
                let b = t_bound(*a.items, v);
                assert(t_from(*a.items, v, b));
                let r = Tag { data_type: Type::Array(ast::Array { items: Box::new(v) }), ..t };
                assert forall|n: nat| n >= b implies #[trigger] t_col(t, n) == r by { assert(t_col(*a.items, n) == v); }
                assert(t_from(t, r, b));
            }
        }
        Type::Union(u) => {
            assert forall|r: Tag, m: Tag, v: Tag| #[trigger] u_is(u.items.v@, r) && #[trigger] t_is(m, v)
                && m == (Tag { data_type: r.data_type, nullable: t.nullable || r.nullable, ..t }) implies t_is(t, v) by {
                let b = u_bound(u.items.v@, r);
                let c = t_bound(m, v);
                assert(u_from(u.items.v@, r, b));
                assert(t_from(m, v, c));
                assert forall|n: nat| n >= nmax(b, c) + 1 implies #[trigger] t_col(t, n) == v by {
                    assert(u_col(u.items.v@, (n - 1) as nat) == r);
                    assert(t_col(m, (n - 1) as nat) == v);
                }
                assert(t_from(t, v, nmax(b, c) + 1));
            }
        }
        Type::Object(o) => {}
        Type::Tuple(u) => {}
        _ => { assert(t_from(t, t, 0)); }
    }
}
pub proof fn lemma_col_fields(t: Tag, src: Seq<String>, f: Map<Seq<char>, Box<Tag>>, b: nat)
    requires
        t.data_type is Object,
        keyed(t.data_type->Object_0.fields.m@.dom(), src),
        f.dom() =~= t.data_type->Object_0.fields.m@.dom(),
        forall|i: int| 0 <= i < src.len() ==> t_from(*t.data_type->Object_0.fields.m@[(#[trigger] src[i]).s@], *f[src[i].s@], b),
    ensures
        t_is(t, Tag { data_type: Type::Object(Object { fields: hm(f), required: t.data_type->Object_0.required }), ..t }),
{
    let h = t.data_type->Object_0.fields;
    let r = Tag { data_type: Type::Object(Object { fields: hm(f), required: t.data_type->Object_0.required }), ..t };
    assert forall|n: nat| n >= b implies #[trigger] t_col(t, n) == r by {
        assert forall|k: Seq<char>| h.m@.contains_key(k) implies col_fields(h, n)[k] == f[k] by {
            let i = choose|i: int| 0 <= i < src.len() && (#[trigger] src[i]).s@ == k;
            assert(t_col(*h.m@[k], n) == *f[k]);
        }
        assert(col_fields(h, n) =~= f);
    }
    assert(t_from(t, r, b));
}
pub proof fn lemma_col_seq(t: Tag, f: Seq<Tag>, b: nat)
    requires
        t.data_type is Tuple,
        f.len() == t.data_type->Tuple_0.items.v@.len(),
        forall|i: int| 0 <= i < f.len() ==> t_from(t.data_type->Tuple_0.items.v@[i], #[trigger] f[i], b),
    ensures
        t_is(t, Tag { data_type: Type::Tuple(Tuple { items: vc(f) }), ..t }),
{
    let h = t.data_type->Tuple_0.items;
    let r = Tag { data_type: Type::Tuple(Tuple { items: vc(f) }), ..t };
    assert forall|n: nat| n >= b implies #[trigger] t_col(t, n) == r by {
        assert forall|i: int| 0 <= i < f.len() implies #[trigger] col_seq(h, n)[i] == f[i] by {
            assert(t_col(h.v@[i], n) == f[i]);
        }
        assert(col_seq(h, n) =~= f);
    }
    assert(t_from(t, r, b));
}
}
} // verus!
