// C05: the Avro output is a valid Avro schema.
verus! {
pub mod valid_av {
use super::*;
use super::shim::*;
use super::spec::*;
use super::lemmas::*;
use super::tags::*;
use super::lims::*;
use super::total::*;
use super::valid_bq::*;
use super::closed::*;
use super::resolving::*;
use super::ast::{Tag, Type, Object, Union, Tuple, Atom};

// ---------------------------------------------------------------- names

/// names separated by dots
pub open spec fn dotted(s: Seq<char>) -> bool {
    s.len() > 0 && s[s.len() - 1] != '.' && forall|i: int| 0 <= i < s.len() ==> dot_step(s, i)
}
pub open spec fn dot_step(s: Seq<char>, i: int) -> bool {
    (tail_char(s[i]) || s[i] == '.') && (i == 0 || s[i - 1] == '.' ==> head_char(s[i]))
}
pub proof fn lemma_dot()
    ensures "."@.len() == 1, "."@[0] == '.'
{
    reveal_strlit(".");
}
pub proof fn lemma_dotted_ident(k: Seq<char>)
    requires ident(k)
    ensures dotted(k)
{
    assert forall|i: int| 0 <= i < k.len() implies dot_step(k, i) by {
        assert(tail_char(k[i]));
        if i > 0 { assert(tail_char(k[i - 1])); }
    }
    assert(tail_char(k[k.len() - 1]));
}
pub proof fn lemma_dotted_under(p: Seq<char>, k: Seq<char>)
    requires dotted(p), ident(k)
    ensures dotted(under(p, k))
{
    lemma_dot();
    let s = under(p, k);
    let n = p.len() as int;
    assert(s.len() == n + 1 + k.len());
    assert forall|i: int| 0 <= i < s.len() implies dot_step(s, i) by {
        if i < n {
            assert(dot_step(p, i));
            assert(s[i] == p[i]);
            if i > 0 { assert(s[i - 1] == p[i - 1]); }
        } else if i == n {
            assert(s[i] == '.');
            assert(s[i - 1] == p[n - 1]);
        } else {
            let j = i - n - 1;
            assert(s[i] == k[j]);
            assert(tail_char(k[j]));
            if j > 0 { assert(s[i - 1] == k[j - 1]); assert(tail_char(k[j - 1])); }
        }
    }
    assert(s[s.len() - 1] == k[k.len() - 1]);
    assert(tail_char(k[k.len() - 1]));
}
/// `n` is the name `q`, or one within it
pub open spec fn inside(n: Seq<char>, q: Seq<char>) -> bool {
    n.len() >= q.len() && n.subrange(0, q.len() as int) == q && (n.len() > q.len() ==> n[q.len() as int] == '.')
}
pub proof fn lemma_inside_under(n: Seq<char>, q: Seq<char>, k: Seq<char>)
    requires inside(n, under(q, k))
    ensures inside(n, q), n != q
{
    lemma_dot();
    let s = under(q, k);
    assert(n.subrange(0, s.len() as int) == s);
    assert forall|i: int| 0 <= i < q.len() implies n[i] == q[i] by { assert(n.subrange(0, s.len() as int)[i] == s[i]); }
    assert(n.subrange(0, q.len() as int) =~= q);
    assert(n.subrange(0, s.len() as int)[q.len() as int] == s[q.len() as int]);
}
/// names within different names differ
pub proof fn lemma_inside_apart(n: Seq<char>, q: Seq<char>, a: Seq<char>, b: Seq<char>)
    requires inside(n, under(q, a)), inside(n, under(q, b)), ident(a), ident(b)
    ensures a == b
{
    lemma_dot();
    if a.len() <= b.len() { lemma_inside_prefix(n, q, a, b); } else { lemma_inside_prefix(n, q, b, a); }
}
pub proof fn lemma_inside_prefix(n: Seq<char>, q: Seq<char>, a: Seq<char>, b: Seq<char>)
    requires inside(n, under(q, a)), inside(n, under(q, b)), ident(a), ident(b), a.len() <= b.len()
    ensures a == b
{
    lemma_dot();
    let x = under(q, a);
    let y = under(q, b);
    let z = q.len() as int + 1;
    assert(x.len() == z + a.len() && y.len() == z + b.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        assert(n.subrange(0, x.len() as int)[z + i] == x[z + i]);
        assert(n.subrange(0, y.len() as int)[z + i] == y[z + i]);
    }
    if a.len() < b.len() {
        let e = x.len() as int;
        assert(n.subrange(0, y.len() as int)[e] == y[e]);
        assert(y[e] == b[a.len() as int]);
        assert(tail_char(b[a.len() as int]));
        assert(n[e] == '.');
    }
    assert(a =~= b);
}

// ---------------------------------------------------------------- schemas

pub open spec fn def_name(k: avro::CommonAttributes) -> Seq<char> {
    match k.namespace { Some(p) => under(p.s@, k.name.s@), None => k.name.s@ }
}
pub open spec fn common_ok(k: avro::CommonAttributes) -> bool {
    ident(k.name.s@) && (k.namespace is Some ==> dotted(k.namespace->0.s@)) && k.aliases is None
}
pub open spec fn is_null(d: avro::Type) -> bool { d == av_prim(avro::Primitive::Null) }
/// a type that has null as its first
pub open spec fn null_first(d: avro::Type) -> bool { is_null(d) || d is Union }
pub open spec fn default_ok(f: avro::Field) -> bool {
    match f.default { None => true, Some(v) => v is Null && null_first(f.data_type) }
}
pub open spec fn av_valid(d: avro::Type) -> bool
    decreases d
{
    match d {
        avro::Type::Primitive(_) => true,
        avro::Type::Union(v) => av_valid_union(v),
        avro::Type::Complex(avro::Complex::Record(r)) => common_ok(r.common) && av_valid_fields(r.fields),
        avro::Type::Complex(avro::Complex::Array(a)) => av_valid(*a.items),
        avro::Type::Complex(avro::Complex::Map(m)) => av_valid(*m.values),
        _ => false,
    }
}
/// null and one other
pub open spec fn av_valid_union(v: Vec<avro::Type>) -> bool
    decreases v
{
    v.v@.len() == 2 && is_null(v.v@[0]) && !is_null(v.v@[1]) && !(v.v@[1] is Union) && av_valid(v.v@[1])
}
pub open spec fn av_valid_fields(f: Vec<avro::Field>) -> bool
    decreases f
{
    &&& f.v@.len() > 0
    &&& forall|i: int| 0 <= i < f.v@.len() ==> ident((#[trigger] f.v@[i]).name.s@) && default_ok(f.v@[i]) && av_valid(f.v@[i].data_type)
    &&& forall|i: int, j: int| 0 <= i < j < f.v@.len() ==> (#[trigger] f.v@[i]).name != (#[trigger] f.v@[j]).name
}
/// a full name is defined within
pub open spec fn defines(d: avro::Type, n: Seq<char>) -> bool
    decreases d
{
    match d {
        avro::Type::Primitive(_) => false,
        avro::Type::Union(v) => defines_union(v, n),
        avro::Type::Complex(avro::Complex::Record(r)) => def_name(r.common) == n || defines_fields(r.fields, n),
        avro::Type::Complex(avro::Complex::Array(a)) => defines(*a.items, n),
        avro::Type::Complex(avro::Complex::Map(m)) => defines(*m.values, n),
        _ => true,
    }
}
pub open spec fn defines_union(v: Vec<avro::Type>, n: Seq<char>) -> bool
    decreases v
{
    exists|i: int| 0 <= i < v.v@.len() && defines(#[trigger] v.v@[i], n)
}
pub open spec fn defines_fields(f: Vec<avro::Field>, n: Seq<char>) -> bool
    decreases f
{
    exists|i: int| 0 <= i < f.v@.len() && defines((#[trigger] f.v@[i]).data_type, n)
}
/// no full name is defined twice
pub open spec fn once(d: avro::Type) -> bool
    decreases d
{
    match d {
        avro::Type::Primitive(_) => true,
        avro::Type::Union(v) => once_union(v),
        avro::Type::Complex(avro::Complex::Record(r)) => !defines_fields(r.fields, def_name(r.common)) && once_fields(r.fields),
        avro::Type::Complex(avro::Complex::Array(a)) => once(*a.items),
        avro::Type::Complex(avro::Complex::Map(m)) => once(*m.values),
        _ => true,
    }
}
pub open spec fn once_union(v: Vec<avro::Type>) -> bool
    decreases v
{
    &&& forall|i: int| 0 <= i < v.v@.len() ==> once(#[trigger] v.v@[i])
    &&& forall|i: int, j: int, n: Seq<char>| 0 <= i < j < v.v@.len() ==> !(#[trigger] defines(v.v@[i], n) && #[trigger] defines(v.v@[j], n))
}
pub open spec fn once_fields(f: Vec<avro::Field>) -> bool
    decreases f
{
    &&& forall|i: int| 0 <= i < f.v@.len() ==> once((#[trigger] f.v@[i]).data_type)
    &&& forall|i: int, j: int, n: Seq<char>| 0 <= i < j < f.v@.len() ==> !(#[trigger] defines(f.v@[i].data_type, n) && #[trigger] defines(f.v@[j].data_type, n))
}
/// valid, with each name defined once and within `q`
pub open spec fn fine(d: avro::Type, q: Seq<char>) -> bool {
    av_valid(d) && once(d) && forall|n: Seq<char>| #[trigger] defines(d, n) ==> inside(n, q)
}
pub proof fn lemma_fine_wrap(w: Tag, d: avro::Type, q: Seq<char>)
    requires fine(d, q), !(d is Union), is_null(d) ==> w.data_type is Null
    ensures fine(av_wrap(w, d), q), w.nullable && (w.data_type is Null ==> is_null(d)) ==> null_first(av_wrap(w, d))
{
    let z = av_prim(avro::Primitive::Null);
    let v = vc(seq![z, d]);
    assert(v.v@.len() == 2 && v.v@[0] == z && v.v@[1] == d);
    assert forall|n: Seq<char>| !(#[trigger] defines(z, n)) by {}
    let r = av_wrap(w, d);
    if r is Union {
        assert(r == avro::Type::Union(v));
        assert(av_valid_union(v));
        assert(once(z) && once(d));
        assert(once_union(v));
        assert forall|n: Seq<char>| #[trigger] defines(r, n) implies inside(n, q) by {
            assert(r is Union && r->Union_0 == v);
            assert(defines_union(v, n));
            let i = choose|i: int| 0 <= i < v.v@.len() && defines(#[trigger] v.v@[i], n);
            assert(i == 0 ==> v.v@[i] == z);
            assert(!defines(z, n));
            assert(i != 0);
            assert(defines(d, n));
        }
    }
}
pub proof fn lemma_fine_list(d: avro::Type, q: Seq<char>)
    requires fine(d, q)
    ensures fine(av_list(d), q), fine(av_map(d), q)
{
    let a = av_list(d);
    let m = av_map(d);
    assert forall|n: Seq<char>| #[trigger] defines(a, n) implies inside(n, q) by { assert(defines(d, n)); }
    assert forall|n: Seq<char>| #[trigger] defines(m, n) implies inside(n, q) by { assert(defines(d, n)); }
}
pub open spec fn field_fine(f: avro::Field, q: Seq<char>) -> bool {
    ident(f.name.s@) && default_ok(f) && fine(f.data_type, under(q, f.name.s@))
}
/// a record of fine fields
pub proof fn lemma_fine_record(k: Seq<char>, p: Seq<char>, f: Seq<avro::Field>)
    requires
        ident(k), p.len() > 0 ==> dotted(p), f.len() > 0,
        forall|i: int| 0 <= i < f.len() ==> field_fine(#[trigger] f[i], join(p, k)),
        forall|i: int, j: int| 0 <= i < j < f.len() ==> (#[trigger] f[i]).name != (#[trigger] f[j]).name,
    ensures fine(av_rec(k, p, f), join(p, k))
{
    let q = join(p, k);
    let d = av_rec(k, p, f);
    let v = vc(f);
    assert(v.v@ == f);
    assert(def_name(common_at(k, p)) == q);
    assert(common_ok(common_at(k, p)));
    assert(inside(q, q)) by { assert(q.subrange(0, q.len() as int) =~= q); }
    assert forall|i: int| 0 <= i < v.v@.len() implies ident((#[trigger] v.v@[i]).name.s@) && default_ok(v.v@[i]) && av_valid(v.v@[i].data_type) && once(v.v@[i].data_type) by {
        assert(field_fine(f[i], q));
    }
    assert(av_valid_fields(v));
    assert forall|n: Seq<char>| #[trigger] defines_fields(v, n) implies inside(n, q) && n != q by {
        let i = choose|i: int| 0 <= i < v.v@.len() && defines((#[trigger] v.v@[i]).data_type, n);
        assert(field_fine(f[i], q));
        lemma_inside_under(n, q, f[i].name.s@);
    }
    assert(once_fields(v)) by {
        assert forall|i: int, j: int, n: Seq<char>| 0 <= i < j < v.v@.len() implies !(#[trigger] defines(v.v@[i].data_type, n) && #[trigger] defines(v.v@[j].data_type, n)) by {
            if defines(v.v@[i].data_type, n) && defines(v.v@[j].data_type, n) {
                assert(field_fine(f[i], q) && field_fine(f[j], q));
                lemma_inside_apart(n, q, f[i].name.s@, f[j].name.s@);
                assert(f[i].name == f[j].name);
            }
        }
    }
    assert(!defines_fields(v, q));
    assert(av_valid(d) && once(d));
    assert forall|n: Seq<char>| #[trigger] defines(d, n) implies inside(n, q) by {
        if def_name(common_at(k, p)) != n { assert(defines_fields(v, n)); }
    }
}
pub proof fn lemma_fine(w: Tag, k: Seq<char>, p: Seq<char>, c: Context)
    requires good(w, c.normalize_case), ident(k), p.len() > 0 ==> dotted(p), avw(w, k, p, c) is Val
    ensures ({
        let d = avw(w, k, p, c)->Val_0;
        fine(d, join(p, k)) && !(d is Union) && (is_null(d) <==> w.data_type is Null)
    })
    decreases w
{
    let q = join(p, k);
    let d = avw(w, k, p, c)->Val_0;
    lemma_dotted_ident(k);
    if p.len() > 0 { lemma_dotted_under(p, k); }
    lemma_ident_words();
    match w.data_type {
        Type::Object(o) => {
            let f = avw_fields(o.fields, q, c);
            if !(kept(f) =~= Set::empty()) {
                let r = av_fields(o.fields, f);
                assert(d == av_rec(k, p, r));
                lemma_key_order(kept(f));
                let ks = sorted_keys(kept(f));
                assert forall|i: int| 0 <= i < r.len() implies field_fine(#[trigger] r[i], q) && r[i].name == st(ks[i]) by {
                    let j = ks[i];
                    assert(kept(f).contains(j));
                    assert(o.fields.m@.contains_key(j));
                    assert(o.fields.m@.dom().contains(j));
                    lemma_own_ident(j, c.normalize_case);
                    let x = *o.fields.m@[j];
                    lemma_field_fine(x, j, q, c, w);
                    assert(r[i] == av_field(j, f[j]->Val_0, x.nullable));
                }
                assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).name != (#[trigger] r[j]).name by {
                    assert(st(ks[i]).s@ != st(ks[j]).s@);
                }
                if r.len() == 0 { assert(kept(f) =~= Set::empty()) by { assert forall|j: Seq<char>| !kept(f).contains(j) by {} } }
                lemma_fine_record(k, p, r);
            }
        }
        Type::Tuple(t) => {
            let f = avw_seq(t.items, q, c);
            let v = t.items.v@;
            let r = av_tuple(v, f, f.len());
            if !seq_aborts(f) && r.len() > 0 {
                assert(d == av_rec(k, p, r));
                lemma_av_tuple(v, f, f.len());
                assert forall|i: int| 0 <= i < r.len() implies field_fine(#[trigger] r[i], q) by {
                    assert(from_member(v, f, r[i], f.len() as int));
                    let j = choose|j: int| 0 <= j < f.len() && #[trigger] member_at(v, f, r[i], j);
                    lemma_ident_tuple(j);
                    lemma_field_fine(v[j], tuple_name(j), q, c, w);
                }
                lemma_tuple_distinct(v, f, f.len());
                lemma_fine_record(k, p, r);
            }
        }
        Type::Array(a) => {
            lemma_fine(*a.items, "list"@, q, c);
            let x = avw(*a.items, "list"@, q, c)->Val_0;
            let y = av_wrap(*a.items, x);
            assert(join(q, "list"@) == under(q, "list"@));
            lemma_fine_wrap(*a.items, x, under(q, "list"@));
            if a.items.data_type is Array {
                let f = av_field("list"@, y, a.items.nullable);
                assert(st("list"@).s@ == "list"@);
                assert(field_fine(f, q));
                assert(seq![f][0] == f);
                lemma_fine_record(k, p, seq![f]);
                lemma_fine_list(av_rec(k, p, seq![f]), q);
            } else {
                assert forall|n: Seq<char>| #[trigger] defines(y, n) implies inside(n, q) by { lemma_inside_under(n, q, "list"@); }
                lemma_fine_list(y, q);
            }
            assert(fine(d, q));
        }
        Type::Map(m) => {
            lemma_fine(*m.value, "value"@, q, c);
            let x = avw(*m.value, "value"@, q, c)->Val_0;
            let y = av_wrap(*m.value, x);
            assert(join(q, "value"@) == under(q, "value"@));
            lemma_fine_wrap(*m.value, x, under(q, "value"@));
            assert forall|n: Seq<char>| #[trigger] defines(y, n) implies inside(n, q) by { lemma_inside_under(n, q, "value"@); }
            lemma_fine_list(y, q);
            assert(fine(d, q));
        }
        _ => { assert(fine(d, q)); }
    }
}
pub proof fn lemma_field_fine(x: Tag, j: Seq<char>, q: Seq<char>, c: Context, w: Tag)
    requires
        good(x, c.normalize_case), ident(j), dotted(q), avw(x, j, q, c) is Val,
        decreases_to!(w => x),
    ensures field_fine(av_field(j, av_wrap(x, avw(x, j, q, c)->Val_0), x.nullable), q)
    decreases w, 0nat
{
    lemma_fine(x, j, q, c);
    let d = avw(x, j, q, c)->Val_0;
    assert(join(q, j) == under(q, j));
    lemma_fine_wrap(x, d, under(q, j));
    assert(st(j).s@ == j);
}
pub proof fn lemma_tuple_distinct(v: Seq<Tag>, f: Seq<Out<avro::Type>>, i: nat)
    requires i <= f.len()
    ensures forall|a: int, b: int| 0 <= a < b < av_tuple(v, f, i).len() ==> (#[trigger] av_tuple(v, f, i)[a]).name != (#[trigger] av_tuple(v, f, i)[b]).name
    decreases i
{
    if i > 0 {
        let m = (i - 1) as nat;
        lemma_tuple_distinct(v, f, m);
        lemma_av_tuple(v, f, m);
        let p = av_tuple(v, f, m);
        let r = av_tuple(v, f, i);
        assert(f[m as int] is Val ==> r == p.push(av_field(tuple_name(m as int), f[m as int]->Val_0, v[m as int].nullable)));
        assert(!(f[m as int] is Val) ==> r == p);
        assert forall|a: int, b: int| 0 <= a < b < r.len() implies (#[trigger] r[a]).name != (#[trigger] r[b]).name by {
            assert(r[a] == p[a]);
            if b < p.len() { assert(r[b] == p[b]); } else {
                assert(from_member(v, f, p[a], m as int));
                let j = choose|j: int| 0 <= j < m && #[trigger] member_at(v, f, p[a], j);
                if r[a].name == r[b].name {
                    assert(st(tuple_name(j)).s@ == st(tuple_name(m as int)).s@);
                    lemma_tuple_name(j, m as int);
                }
            }
        }
    }
}
/// C05
pub proof fn theorem_avro_valid(v: Value, c: Context)
    requires read_ok(v, c), av_lim(tag_in(v, c), ctx_in(v, c)) is Val
    ensures
        av_valid(av_lim(tag_in(v, c), ctx_in(v, c))->Val_0),
        once(av_lim(tag_in(v, c), ctx_in(v, c))->Val_0),
{
    theorem_closed(v, c);
    lemma_sound_options(schema_in(v), c);
    lemma_ident_words();
    let w = core_of(v, c);
    lemma_fine(w, "root"@, Seq::empty(), ctx_in(v, c));
    lemma_fine_wrap(w, avw(w, "root"@, Seq::empty(), ctx_in(v, c))->Val_0, join(Seq::empty(), "root"@));
}
}
} // verus!
