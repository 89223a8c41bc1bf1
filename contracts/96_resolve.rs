// C06: the resolution methods differ only where a schema is ambiguous.
verus! {
pub mod resolving {
use super::*;
use super::shim::*;
use super::spec::*;
use super::lemmas::*;
use super::depth::*;
use super::tags::*;
use super::lims::*;
use super::total::*;
use super::valid_bq::*;
use super::ast::{Tag, Type, Object, Union, Tuple, Atom};

pub open spec fn by(c: Context, m: ResolveMethod) -> Context { Context { resolve_method: m, ..c } }
pub open spec fn panics(c: Context) -> Context { by(c, ResolveMethod::Panic) }
pub open spec fn casts(c: Context) -> Context { by(c, ResolveMethod::Cast) }
pub open spec fn drops(c: Context) -> Context { by(c, ResolveMethod::Drop) }

/// how the outcomes of the methods are related
pub open spec fn agree<T>(p: Out<T>, c: Out<T>, d: Out<T>) -> bool {
    &&& c is Val
    &&& !(p is Err)
    &&& !(d is Abort)
    &&& p is Val ==> c == p && d == p
    &&& p is Abort ==> d != c
}
/// what is left after dropping
pub open spec fn within(d: bigquery::Tag, c: bigquery::Tag) -> bool
    decreases d
{
    d.name == c.name && d.mode == c.mode && d.description == c.description && within_type(*d.data_type, *c.data_type)
}
pub open spec fn within_type(d: bigquery::Type, c: bigquery::Type) -> bool
    decreases d
{
    match d {
        bigquery::Type::Atom(_) => d == c,
        bigquery::Type::Record(r) => c is Record && within_record(r, c->Record_0),
    }
}
pub open spec fn within_record(d: bigquery::Record, c: bigquery::Record) -> bool
    decreases d
{
    forall|k: Seq<char>| #[trigger] d.fields.m@.contains_key(k) ==> c.fields.m@.contains_key(k) && within(*d.fields.m@[k], *c.fields.m@[k])
}

pub proof fn lemma_agree_bq(w: Tag, t: Tag, c: Context)
    requires done(t, c.normalize_case, c.force_nullable), w == er(t)
    ensures
        agree(bq_lim(t, panics(c)), bq_lim(t, casts(c)), bq_lim(t, drops(c))),
        bq_lim(t, drops(c)) is Val ==> within(bq_lim(t, drops(c))->Val_0, bq_lim(t, casts(c))->Val_0),
    decreases w
{
    lemma_bq_head(t, panics(c));
    lemma_bq_head(t, casts(c));
    lemma_bq_head(t, drops(c));
    lemma_agree_type(w, bq_view(t, c), c);
}
pub open spec fn type_by(u: Tag, c: Context) -> Out<bigquery::Type> { bq_type(u, c, bq_lims(c)) }
pub proof fn lemma_agree_type(w: Tag, u: Tag, c: Context)
    requires done(u, c.normalize_case, c.force_nullable), w == er(u), kids_named(u)
    ensures
        agree(type_by(u, panics(c)), type_by(u, casts(c)), type_by(u, drops(c))),
        type_by(u, drops(c)) is Val ==> within_type(type_by(u, drops(c))->Val_0, type_by(u, casts(c))->Val_0),
    decreases w, 0nat
{
    lemma_done_kids(u, c);
    let gp = bq_lims(panics(c));
    let gc = bq_lims(casts(c));
    let gd = bq_lims(drops(c));
    match u.data_type {
        Type::Object(o) => {
            assert forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) implies agree(gp(*o.fields.m@[k]), gc(*o.fields.m@[k]), gd(*o.fields.m@[k]))
                && (gd(*o.fields.m@[k]) is Val ==> within(gd(*o.fields.m@[k])->Val_0, gc(*o.fields.m@[k])->Val_0)) by {
                let wm = w.data_type->Object_0.fields;
                assert(wm.m@ == er_fields(o.fields));
                assert(wm.m@.contains_key(k));
                lemma_agree_bq(*wm.m@[k], *o.fields.m@[k], c);
            }
            lemma_agree_object(o, gp, gc, gd, u, c);
        }
        Type::Tuple(p) => {
            assert forall|i: int| 0 <= i < p.items.v@.len() implies agree(gp(#[trigger] p.items.v@[i]), gc(p.items.v@[i]), gd(p.items.v@[i]))
                && (gd(p.items.v@[i]) is Val ==> within(gd(p.items.v@[i])->Val_0, gc(p.items.v@[i])->Val_0))
                && (gd(p.items.v@[i]) is Val ==> gd(p.items.v@[i])->Val_0.name == Some(st(tuple_name(i))))
                && gc(p.items.v@[i])->Val_0.name == Some(st(tuple_name(i))) by {
                let wv = w.data_type->Tuple_0.items;
                assert(wv.v@ == er_seq(p.items));
                lemma_agree_bq(wv.v@[i], p.items.v@[i], c);
                lemma_bq_head(p.items.v@[i], casts(c));
                lemma_bq_head(p.items.v@[i], drops(c));
            }
            lemma_agree_tuple(p, u, c);
        }
        Type::Array(a) => {
            lemma_agree_bq(*w.data_type->Array_0.items, *a.items, c);
            lemma_bq_head(*a.items, panics(c));
            lemma_bq_head(*a.items, casts(c));
            lemma_bq_head(*a.items, drops(c));
            if repeated(*a.items) && gd(*a.items) is Val {
                let x = gc(*a.items)->Val_0;
                let y = gd(*a.items)->Val_0;
                assert(one("list"@, x).contains_key("list"@) && *one("list"@, x)["list"@] == x);
                assert(one("list"@, y).contains_key("list"@) && *one("list"@, y)["list"@] == y);
                assert(within_record(bigquery::Record { fields: hm(one("list"@, y)) }, bigquery::Record { fields: hm(one("list"@, x)) }));
                if type_by(u, drops(c)) == type_by(u, casts(c)) {
                    assert(hm(one("list"@, x)).m@ == hm(one("list"@, y)).m@);
                    assert(x == y);
                }
            } else if gd(*a.items) is Val {
                let x = gc(*a.items)->Val_0;
                let y = gd(*a.items)->Val_0;
                if *x.data_type == *y.data_type { assert(x == y); }
            }
        }
        Type::Map(m) => {
            lemma_bq_key_val(*m.key, panics(c));
            lemma_bq_key_val(*m.key, casts(c));
            lemma_bq_key_val(*m.key, drops(c));
            lemma_agree_bq(*w.data_type->Map_0.value, *m.value, c);
            lemma_agree_map(m, u, c);
        }
        _ => {}
    }
}
pub proof fn lemma_agree_object(o: Object, gp: spec_fn(Tag) -> Out<bigquery::Tag>, gc: spec_fn(Tag) -> Out<bigquery::Tag>, gd: spec_fn(Tag) -> Out<bigquery::Tag>, u: Tag, c: Context)
    requires
        u.data_type == Type::Object(o),
        forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) ==> agree(gp(*o.fields.m@[k]), gc(*o.fields.m@[k]), gd(*o.fields.m@[k]))
            && (gd(*o.fields.m@[k]) is Val ==> within(gd(*o.fields.m@[k])->Val_0, gc(*o.fields.m@[k])->Val_0)),
    ensures
        agree(bq_type(u, panics(c), gp), bq_type(u, casts(c), gc), bq_type(u, drops(c), gd)),
        bq_type(u, drops(c), gd) is Val ==> within_type(bq_type(u, drops(c), gd)->Val_0, bq_type(u, casts(c), gc)->Val_0),
{
    let fp = o_map(o.fields, gp);
    let fc = o_map(o.fields, gc);
    let fd = o_map(o.fields, gd);
    assert forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) implies agree(fp[k], fc[k], fd[k]) by {}
    assert(!map_aborts(fc)) by { if map_aborts(fc) { let k = choose|k: Seq<char>| #[trigger] fc.contains_key(k) && fc[k] is Abort; assert(o.fields.m@.contains_key(k)); } }
    assert(!map_aborts(fd)) by { if map_aborts(fd) { let k = choose|k: Seq<char>| #[trigger] fd.contains_key(k) && fd[k] is Abort; assert(o.fields.m@.contains_key(k)); } }
    assert forall|k: Seq<char>| #[trigger] kept(fc).contains(k) == o.fields.m@.contains_key(k) by { if o.fields.m@.contains_key(k) { assert(agree(fp[k], fc[k], fd[k])); } }
    assert forall|k: Seq<char>| #[trigger] kept(fd).contains(k) implies o.fields.m@.contains_key(k) by {}
    if map_aborts(fp) {
        let k = choose|k: Seq<char>| #[trigger] fp.contains_key(k) && fp[k] is Abort;
        assert(o.fields.m@.contains_key(k));
        assert(agree(fp[k], fc[k], fd[k]));
        assert(kept(fc).contains(k));
        assert(!(kept(fc) =~= Set::empty()));
        if !(kept(fd) =~= Set::empty()) && bq_record(vals(fd)) == bq_record(vals(fc)) {
            assert(hm(vals(fd)).m@ == hm(vals(fc)).m@);
            assert(vals(fc).contains_key(k));
            assert(vals(fd).contains_key(k));
            assert(kept(fd).contains(k));
            assert(*vals(fd)[k] == fd[k]->Val_0 && *vals(fc)[k] == fc[k]->Val_0);
            assert(fd[k] == fc[k]);
        }
    } else {
        assert forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) implies fp[k] == fc[k] && fp[k] == fd[k] by {
            assert(fp.contains_key(k));
            assert(agree(fp[k], fc[k], fd[k]));
        }
        assert(fp =~= fc);
        assert(fp =~= fd);
    }
    if !(kept(fd) =~= Set::empty()) {
        assert(exists|k: Seq<char>| kept(fd).contains(k)) by { if forall|k: Seq<char>| !kept(fd).contains(k) { assert(kept(fd) =~= Set::empty()); } }
        let j = choose|k: Seq<char>| kept(fd).contains(k);
        assert(kept(fc).contains(j));
        assert(!(kept(fc) =~= Set::empty()));
        let x = bigquery::Record { fields: hm(vals(fd)) };
        let y = bigquery::Record { fields: hm(vals(fc)) };
        assert(within_record(x, y)) by {
            assert forall|k: Seq<char>| #[trigger] x.fields.m@.contains_key(k) implies y.fields.m@.contains_key(k) && within(*x.fields.m@[k], *y.fields.m@[k]) by {
                assert(kept(fd).contains(k));
                assert(kept(fc).contains(k));
            }
        }
    }
}
pub proof fn lemma_agree_tuple(p: Tuple, u: Tag, c: Context)
    requires
        u.data_type == Type::Tuple(p),
        ({
            let gp = bq_lims(panics(c));
            let gc = bq_lims(casts(c));
            let gd = bq_lims(drops(c));
            forall|i: int| 0 <= i < p.items.v@.len() ==> agree(gp(#[trigger] p.items.v@[i]), gc(p.items.v@[i]), gd(p.items.v@[i]))
                && (gd(p.items.v@[i]) is Val ==> within(gd(p.items.v@[i])->Val_0, gc(p.items.v@[i])->Val_0))
                && (gd(p.items.v@[i]) is Val ==> gd(p.items.v@[i])->Val_0.name == Some(st(tuple_name(i))))
                && gc(p.items.v@[i])->Val_0.name == Some(st(tuple_name(i)))
        }),
    ensures
        agree(type_by(u, panics(c)), type_by(u, casts(c)), type_by(u, drops(c))),
        type_by(u, drops(c)) is Val ==> within_type(type_by(u, drops(c))->Val_0, type_by(u, casts(c))->Val_0),
{
    let fp = o_seq(p.items.v@, bq_lims(panics(c)));
    let fc = o_seq(p.items.v@, bq_lims(casts(c)));
    let fd = o_seq(p.items.v@, bq_lims(drops(c)));
    let n = p.items.v@.len();
    assert forall|i: int| 0 <= i < n implies agree(#[trigger] fp[i], fc[i], fd[i])
        && (fd[i] is Val ==> within(fd[i]->Val_0, fc[i]->Val_0) && fd[i]->Val_0.name == Some(st(tuple_name(i)))) && fc[i]->Val_0.name == Some(st(tuple_name(i))) by {
        let x = p.items.v@[i];
    }
    assert(!seq_aborts(fc) && !seq_fails(fc)) by {
        if seq_aborts(fc) { let i = choose|i: int| 0 <= i < fc.len() && (#[trigger] fc[i]) is Abort; assert(agree(fp[i], fc[i], fd[i])); }
        if seq_fails(fc) { let i = choose|i: int| 0 <= i < fc.len() && (#[trigger] fc[i]) is Err; assert(agree(fp[i], fc[i], fd[i])); }
    }
    assert(!seq_aborts(fd)) by { if seq_aborts(fd) { let i = choose|i: int| 0 <= i < fd.len() && (#[trigger] fd[i]) is Abort; assert(agree(fp[i], fc[i], fd[i])); } }
    assert(!seq_fails(fp)) by { if seq_fails(fp) { let i = choose|i: int| 0 <= i < fp.len() && (#[trigger] fp[i]) is Err; assert(agree(fp[i], fc[i], fd[i])); } }
    if n > 0 {
        let x = bq_tuple(fc, n);
        let y = bq_tuple(fd, n);
        lemma_bq_tuple(fc, n);
        lemma_bq_tuple(fd, n);
        if seq_aborts(fp) {
            let i = choose|i: int| 0 <= i < fp.len() && (#[trigger] fp[i]) is Abort;
            assert(agree(fp[i], fc[i], fd[i]));
            if fd[i] is Err { assert(seq_fails(fd)); }
            if !seq_fails(fd) && bq_record(x) == bq_record(y) {
                assert(hm(x).m@ == hm(y).m@);
                assert(x[tuple_name(i)] == y[tuple_name(i)]);
                assert(fd[i]->Val_0 == fc[i]->Val_0);
                assert(fd[i] == fc[i]);
            }
        } else {
            assert forall|i: int| 0 <= i < n implies fp[i] == fc[i] && fp[i] == fd[i] by {
                assert(agree(fp[i], fc[i], fd[i]));
            }
            assert(fp =~= fc);
            assert(fp =~= fd);
        }
        if !seq_fails(fd) {
            let a = bigquery::Record { fields: hm(y) };
            let b = bigquery::Record { fields: hm(x) };
            assert(within_record(a, b)) by {
                assert forall|k: Seq<char>| #[trigger] a.fields.m@.contains_key(k) implies b.fields.m@.contains_key(k) && within(*a.fields.m@[k], *b.fields.m@[k]) by {
                    let i = choose|i: int| 0 <= i < n && #[trigger] tuple_name(i) == k;
                    assert(!(fd[i] is Err) && !(fd[i] is Abort));
                    assert(agree(fp[i], fc[i], fd[i]));
                    assert(x.contains_key(k));
                    assert(*a.fields.m@[k] == fd[i]->Val_0);
                    assert(*b.fields.m@[k] == fc[i]->Val_0);
                }
            }
        }
    }
}
pub proof fn lemma_agree_map(m: ast::Map, u: Tag, c: Context)
    requires
        u.data_type == Type::Map(m),
        ({
            let gp = bq_lims(panics(c));
            let gc = bq_lims(casts(c));
            let gd = bq_lims(drops(c));
            &&& gp(*m.key) is Val && gp(*m.key) == gc(*m.key) && gp(*m.key) == gd(*m.key)
            &&& *(gp(*m.key)->Val_0).data_type is Atom
            &&& agree(gp(*m.value), gc(*m.value), gd(*m.value))
            &&& gd(*m.value) is Val ==> within(gd(*m.value)->Val_0, gc(*m.value)->Val_0)
        }),
    ensures
        agree(type_by(u, panics(c)), type_by(u, casts(c)), type_by(u, drops(c))),
        type_by(u, drops(c)) is Val ==> within_type(type_by(u, drops(c))->Val_0, type_by(u, casts(c))->Val_0),
{
    let gc = bq_lims(casts(c));
    let gd = bq_lims(drops(c));
    let k = gc(*m.key)->Val_0;
    let v = gc(*m.value)->Val_0;
    let a = one("key"@, k);
    let b = a.insert("value"@, Box::new(v));
    reveal_strlit("key"); reveal_strlit("value");
    assert("key"@.len() != "value"@.len());
    assert("key"@ != "value"@);
    assert(a.contains_key("key"@) && !a.contains_key("value"@) && *a["key"@] == k);
    assert(b.contains_key("key"@) && b.contains_key("value"@) && *b["value"@] == v && *b["key"@] == k);
    assert(within(k, k));
    if gd(*m.value) is Val {
        let x = gd(*m.value)->Val_0;
        let d = a.insert("value"@, Box::new(x));
        assert(*d["value"@] == x && *d["key"@] == k);
        assert(within_record(bigquery::Record { fields: hm(d) }, bigquery::Record { fields: hm(b) }));
        if bq_record(d) == bq_record(b) {
            assert(hm(d).m@ == hm(b).m@);
            assert(d["value"@] == b["value"@]);
            assert(x == v);
        }
    } else if c.allow_maps_without_value {
        assert(within_record(bigquery::Record { fields: hm(a) }, bigquery::Record { fields: hm(b) }));
        if bq_record(a) == bq_record(b) {
            assert(hm(a).m@ == hm(b).m@);
        }
    }
}

// ---------------------------------------------------------------- Avro

pub open spec fn within_av(d: avro::Type, c: avro::Type) -> bool
    decreases d
{
    match d {
        avro::Type::Primitive(_) => d == c,
        avro::Type::Union(v) => c is Union && within_union(v, c->Union_0),
        avro::Type::Complex(x) => c is Complex && match x {
            avro::Complex::Record(r) => c->Complex_0 is Record && r.common == c->Complex_0->Record_0.common && within_rec(r, c->Complex_0->Record_0),
            avro::Complex::Array(a) => c->Complex_0 is Array && within_av(*a.items, *c->Complex_0->Array_0.items),
            avro::Complex::Map(m) => c->Complex_0 is Map && within_av(*m.values, *c->Complex_0->Map_0.values),
            _ => false,
        },
    }
}
pub open spec fn within_union(d: Vec<avro::Type>, c: Vec<avro::Type>) -> bool
    decreases d
{
    d.v@.len() == c.v@.len() && forall|i: int| 0 <= i < d.v@.len() ==> within_av(#[trigger] d.v@[i], c.v@[i])
}
pub open spec fn same_head(d: avro::Field, c: avro::Field) -> bool { d.name == c.name && d.doc == c.doc && d.default == c.default }
/// every field that remains is there
pub open spec fn within_rec(d: avro::Record, c: avro::Record) -> bool
    decreases d
{
    within_list(d.fields, c.fields)
}
pub open spec fn within_list(d: Vec<avro::Field>, c: Vec<avro::Field>) -> bool
    decreases d
{
    forall|i: int| 0 <= i < d.v@.len() ==> exists|j: int| 0 <= j < c.v@.len() && same_head(#[trigger] d.v@[i], #[trigger] c.v@[j]) && within_av(d.v@[i].data_type, c.v@[j].data_type)
}
pub proof fn lemma_within_record(k: avro::CommonAttributes, d: Seq<avro::Field>, c: Seq<avro::Field>)
    requires within_list(vc(d), vc(c))
    ensures within_av(
        avro::Type::Complex(avro::Complex::Record(avro::Record { common: k, fields: vc(d) })),
        avro::Type::Complex(avro::Complex::Record(avro::Record { common: k, fields: vc(c) })))
{
    assert(within_rec(avro::Record { common: k, fields: vc(d) }, avro::Record { common: k, fields: vc(c) }));
}
pub proof fn lemma_agree_wrap(u: Tag, p: Out<avro::Type>, c: Out<avro::Type>, d: Out<avro::Type>)
    requires agree(p, c, d), d is Val ==> within_av(d->Val_0, c->Val_0)
    ensures
        agree(wrapped(u, p), wrapped(u, c), wrapped(u, d)),
        wrapped(u, d) is Val ==> within_av(wrapped(u, d)->Val_0, wrapped(u, c)->Val_0),
{
    let n = av_prim(avro::Primitive::Null);
    if d is Val {
        let x = seq![n, d->Val_0];
        let y = seq![n, c->Val_0];
        assert(x[0] == n && x[1] == d->Val_0 && y[0] == n && y[1] == c->Val_0);
        assert(within_av(n, n));
        assert(within_union(vc(x), vc(y)));
        if vc(x) == vc(y) { assert(vc(x).v@[1] == vc(y).v@[1]); }
        assert(within_av(avro::Type::Union(vc(x)), avro::Type::Union(vc(y))));
    }
}
pub open spec fn wrapped(u: Tag, d: Out<avro::Type>) -> Out<avro::Type> {
    match d { Out::Val(x) => Out::Val(av_wrap(u, x)), Out::Err => Out::Err, Out::Abort => Out::Abort }
}
pub proof fn lemma_agree_av(t: Tag, c: Context)
    requires done_in(t, c)
    ensures
        agree(av_lim(t, panics(c)), av_lim(t, casts(c)), av_lim(t, drops(c))),
        av_lim(t, drops(c)) is Val ==> within_av(av_lim(t, drops(c))->Val_0, av_lim(t, casts(c))->Val_0),
    decreases t
{
    lemma_av_lim_done(t, panics(c));
    lemma_av_lim_done(t, casts(c));
    lemma_av_lim_done(t, drops(c));
    lemma_agree_av_at(t, c);
}
pub open spec fn av_by(u: Tag, c: Context) -> Out<avro::Type> { av_at(u, c, av_lims(c)) }
pub proof fn lemma_agree_av_at(u: Tag, c: Context)
    requires done(u, c.normalize_case, c.force_nullable)
    ensures
        agree(av_by(u, panics(c)), av_by(u, casts(c)), av_by(u, drops(c))),
        av_by(u, drops(c)) is Val ==> within_av(av_by(u, drops(c))->Val_0, av_by(u, casts(c))->Val_0),
    decreases u, 0nat
{
    lemma_done_kids(u, c);
    let gp = av_lims(panics(c));
    let gc = av_lims(casts(c));
    let gd = av_lims(drops(c));
    let tp = av_type(u, panics(c), gp);
    let tc = av_type(u, casts(c), gc);
    let td = av_type(u, drops(c), gd);
    match u.data_type {
        Type::Object(o) => {
            assert forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) implies agree(gp(*o.fields.m@[k]), gc(*o.fields.m@[k]), gd(*o.fields.m@[k]))
                && (gd(*o.fields.m@[k]) is Val ==> within_av(gd(*o.fields.m@[k])->Val_0, gc(*o.fields.m@[k])->Val_0)) by {
                lemma_agree_av(*o.fields.m@[k], c);
            }
            lemma_agree_av_object(o, u, c, gp, gc, gd);
        }
        Type::Tuple(p) => {
            assert forall|i: int| 0 <= i < p.items.v@.len() implies agree(gp(#[trigger] p.items.v@[i]), gc(p.items.v@[i]), gd(p.items.v@[i]))
                && (gd(p.items.v@[i]) is Val ==> within_av(gd(p.items.v@[i])->Val_0, gc(p.items.v@[i])->Val_0)) by {
                lemma_agree_av(p.items.v@[i], c);
            }
            lemma_agree_av_tuple(p, u, c, gp, gc, gd);
        }
        Type::Array(a) => {
            lemma_agree_av(*a.items, c);
            lemma_agree_av_array(a, u, c, gp, gc, gd);
        }
        Type::Map(m) => { lemma_agree_av(*m.value, c); }
        _ => {}
    }
    assert(agree(tp, tc, td));
    assert(td is Val ==> within_av(td->Val_0, tc->Val_0));
    lemma_agree_wrap(u, tp, tc, td);
}
pub proof fn lemma_agree_av_array(a: ast::Array, u: Tag, c: Context, gp: spec_fn(Tag) -> Out<avro::Type>, gc: spec_fn(Tag) -> Out<avro::Type>, gd: spec_fn(Tag) -> Out<avro::Type>)
    requires
        u.data_type == Type::Array(a),
        agree(gp(*a.items), gc(*a.items), gd(*a.items)),
        gd(*a.items) is Val ==> within_av(gd(*a.items)->Val_0, gc(*a.items)->Val_0),
    ensures
        agree(av_type(u, panics(c), gp), av_type(u, casts(c), gc), av_type(u, drops(c), gd)),
        av_type(u, drops(c), gd) is Val ==> within_av(av_type(u, drops(c), gd)->Val_0, av_type(u, casts(c), gc)->Val_0),
{
    if gd(*a.items) is Val && a.items.data_type is Array {
        let x = av_field("list"@, gd(*a.items)->Val_0, a.items.nullable);
        let y = av_field("list"@, gc(*a.items)->Val_0, a.items.nullable);
        assert(seq![x][0] == x && seq![y][0] == y);
        assert(same_head(vc(seq![x]).v@[0], vc(seq![y]).v@[0]));
        assert(within_list(vc(seq![x]), vc(seq![y])));
        lemma_within_record(av_common(u), seq![x], seq![y]);
        if vc(seq![x]) == vc(seq![y]) { assert(vc(seq![x]).v@[0] == vc(seq![y]).v@[0]); }
    }
}
pub proof fn lemma_agree_av_object(o: Object, u: Tag, c: Context, gp: spec_fn(Tag) -> Out<avro::Type>, gc: spec_fn(Tag) -> Out<avro::Type>, gd: spec_fn(Tag) -> Out<avro::Type>)
    requires
        u.data_type == Type::Object(o),
        forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) ==> agree(gp(*o.fields.m@[k]), gc(*o.fields.m@[k]), gd(*o.fields.m@[k]))
            && (gd(*o.fields.m@[k]) is Val ==> within_av(gd(*o.fields.m@[k])->Val_0, gc(*o.fields.m@[k])->Val_0)),
    ensures
        agree(av_type(u, panics(c), gp), av_type(u, casts(c), gc), av_type(u, drops(c), gd)),
        av_type(u, drops(c), gd) is Val ==> within_av(av_type(u, drops(c), gd)->Val_0, av_type(u, casts(c), gc)->Val_0),
{
    let fp = o_map(o.fields, gp);
    let fc = o_map(o.fields, gc);
    let fd = o_map(o.fields, gd);
    assert forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) implies agree(fp[k], fc[k], fd[k]) && (fd[k] is Val ==> within_av(fd[k]->Val_0, fc[k]->Val_0)) by {}
    assert(!map_aborts(fc)) by { if map_aborts(fc) { let k = choose|k: Seq<char>| #[trigger] fc.contains_key(k) && fc[k] is Abort; assert(o.fields.m@.contains_key(k)); } }
    assert(!map_aborts(fd)) by { if map_aborts(fd) { let k = choose|k: Seq<char>| #[trigger] fd.contains_key(k) && fd[k] is Abort; assert(o.fields.m@.contains_key(k)); } }
    assert forall|k: Seq<char>| #[trigger] kept(fc).contains(k) == o.fields.m@.contains_key(k) by { if o.fields.m@.contains_key(k) { assert(agree(fp[k], fc[k], fd[k])); } }
    assert forall|k: Seq<char>| #[trigger] kept(fd).contains(k) implies o.fields.m@.contains_key(k) by {}
    lemma_key_order(kept(fc));
    lemma_key_order(kept(fd));
    let lc = sorted_keys(kept(fc));
    let ld = sorted_keys(kept(fd));
    let rc = av_fields(o.fields, fc);
    let rd = av_fields(o.fields, fd);
    if map_aborts(fp) {
        let k = choose|k: Seq<char>| #[trigger] fp.contains_key(k) && fp[k] is Abort;
        assert(o.fields.m@.contains_key(k));
        assert(agree(fp[k], fc[k], fd[k]));
        assert(kept(fc).contains(k));
        assert(!(kept(fc) =~= Set::empty()));
        if !(kept(fd) =~= Set::empty()) && vc(rd) == vc(rc) {
            assert(vc(rd).v@ == rd && vc(rc).v@ == rc);
            assert(rd == rc);
            assert(rd.len() == ld.len() && rc.len() == lc.len());
            let j = choose|j: int| 0 <= j < lc.len() && #[trigger] lc[j] == k;
            assert(rc[j].name == st(k) && rc[j].data_type == fc[k]->Val_0);
            assert(rd[j] == rc[j]);
            assert(rd[j].name == st(ld[j]));
            assert(st(ld[j]).s@ == st(k).s@);
            assert(kept(fd).contains(ld[j]));
            assert(fd[k] is Val);
            assert(rd[j].data_type == fd[k]->Val_0);
            assert(fd[k] == fc[k]);
        }
    } else {
        assert forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) implies fp[k] == fc[k] && fp[k] == fd[k] by {
            assert(fp.contains_key(k));
            assert(agree(fp[k], fc[k], fd[k]));
        }
        assert(fp =~= fc);
        assert(fp =~= fd);
    }
    if !(kept(fd) =~= Set::empty()) {
        assert(exists|k: Seq<char>| kept(fd).contains(k)) by { if forall|k: Seq<char>| !kept(fd).contains(k) { assert(kept(fd) =~= Set::empty()); } }
        let z = choose|k: Seq<char>| kept(fd).contains(k);
        assert(kept(fc).contains(z));
        assert(!(kept(fc) =~= Set::empty()));
        assert forall|i: int| 0 <= i < vc(rd).v@.len() implies exists|j: int| 0 <= j < vc(rc).v@.len() && same_head(#[trigger] vc(rd).v@[i], #[trigger] vc(rc).v@[j])
            && within_av(vc(rd).v@[i].data_type, vc(rc).v@[j].data_type) by {
            let k = ld[i];
            assert(kept(fd).contains(k));
            assert(kept(fc).contains(k));
            let j = choose|j: int| 0 <= j < lc.len() && #[trigger] lc[j] == k;
            assert(rd[i] == av_field(k, fd[k]->Val_0, o.fields.m@[k].nullable));
            assert(rc[j] == av_field(k, fc[k]->Val_0, o.fields.m@[k].nullable));
            assert(o.fields.m@.contains_key(k));
            assert(same_head(vc(rd).v@[i], vc(rc).v@[j]));
        }
        assert(within_list(vc(rd), vc(rc)));
        lemma_within_record(av_common(u), rd, rc);
    }
}
/// the members that remain of a tuple
pub open spec fn member_at(v: Seq<Tag>, f: Seq<Out<avro::Type>>, x: avro::Field, j: int) -> bool {
    0 <= j < f.len() && f[j] is Val && x == av_field(tuple_name(j), f[j]->Val_0, v[j].nullable)
}
pub open spec fn from_member(v: Seq<Tag>, f: Seq<Out<avro::Type>>, x: avro::Field, i: int) -> bool { exists|j: int| 0 <= j < i && #[trigger] member_at(v, f, x, j) }
pub open spec fn has_member(v: Seq<Tag>, f: Seq<Out<avro::Type>>, r: Seq<avro::Field>, j: int) -> bool { exists|a: int| 0 <= a < r.len() && #[trigger] member_at(v, f, r[a], j) }
pub proof fn lemma_av_tuple(v: Seq<Tag>, f: Seq<Out<avro::Type>>, i: nat)
    requires i <= f.len()
    ensures
        forall|a: int| 0 <= a < av_tuple(v, f, i).len() ==> from_member(v, f, #[trigger] av_tuple(v, f, i)[a], i as int),
        forall|j: int| 0 <= j < i && (#[trigger] f[j]) is Val ==> has_member(v, f, av_tuple(v, f, i), j),
    decreases i
{
    if i > 0 {
        let m = (i - 1) as nat;
        lemma_av_tuple(v, f, m);
        let p = av_tuple(v, f, m);
        let r = av_tuple(v, f, i);
        assert(f[m as int] is Val ==> r == p.push(av_field(tuple_name(m as int), f[m as int]->Val_0, v[m as int].nullable)));
        assert(!(f[m as int] is Val) ==> r == p);
        assert forall|a: int| 0 <= a < r.len() implies from_member(v, f, #[trigger] r[a], i as int) by {
            if a < p.len() {
                assert(r[a] == p[a]);
                assert(from_member(v, f, p[a], m as int));
                let j = choose|j: int| 0 <= j < m && #[trigger] member_at(v, f, p[a], j);
                assert(member_at(v, f, r[a], j));
            } else {
                assert(member_at(v, f, r[a], i - 1));
            }
        }
        assert forall|j: int| 0 <= j < i && (#[trigger] f[j]) is Val implies has_member(v, f, r, j) by {
            if j < m {
                let a = choose|a: int| 0 <= a < p.len() && #[trigger] member_at(v, f, p[a], j);
                assert(r[a] == p[a]);
                assert(member_at(v, f, r[a], j));
            } else {
                assert(member_at(v, f, r[p.len() as int], j));
            }
        }
    }
}
pub open spec fn agree_all(fp: Seq<Out<avro::Type>>, fc: Seq<Out<avro::Type>>, fd: Seq<Out<avro::Type>>) -> bool {
    fc.len() == fp.len() && fd.len() == fp.len() && forall|i: int| #![trigger fp[i]] #![trigger fc[i]] #![trigger fd[i]] 0 <= i < fp.len() ==> agree(fp[i], fc[i], fd[i]) && (fd[i] is Val ==> within_av(fd[i]->Val_0, fc[i]->Val_0))
}
pub proof fn lemma_tuple_differs(v: Seq<Tag>, fp: Seq<Out<avro::Type>>, fc: Seq<Out<avro::Type>>, fd: Seq<Out<avro::Type>>)
    requires agree_all(fp, fc, fd), v.len() == fp.len(), seq_aborts(fp)
    ensures vc(av_tuple(v, fd, v.len())) != vc(av_tuple(v, fc, v.len()))
{
    let n = v.len();
    let rc = av_tuple(v, fc, n);
    let rd = av_tuple(v, fd, n);
    lemma_av_tuple(v, fc, n);
    lemma_av_tuple(v, fd, n);
    let i = choose|i: int| 0 <= i < fp.len() && (#[trigger] fp[i]) is Abort;
    if vc(rd) == vc(rc) {
        assert(vc(rd).v@ == rd && vc(rc).v@ == rc);
        assert(rd == rc);
        assert(fc[i] is Val);
        assert(has_member(v, fc, rc, i));
        let a = choose|a: int| 0 <= a < rc.len() && #[trigger] member_at(v, fc, rc[a], i);
        assert(from_member(v, fd, rd[a], n as int));
        let j = choose|j: int| 0 <= j < n && #[trigger] member_at(v, fd, rd[a], j);
        assert(st(tuple_name(i)).s@ == st(tuple_name(j)).s@);
        lemma_tuple_name(i, j);
        assert(fd[i] == fc[i]);
    }
}
pub proof fn lemma_tuple_within(v: Seq<Tag>, fp: Seq<Out<avro::Type>>, fc: Seq<Out<avro::Type>>, fd: Seq<Out<avro::Type>>)
    requires agree_all(fp, fc, fd), v.len() == fp.len()
    ensures within_list(vc(av_tuple(v, fd, v.len())), vc(av_tuple(v, fc, v.len())))
{
    let n = v.len();
    let rc = av_tuple(v, fc, n);
    let rd = av_tuple(v, fd, n);
    lemma_av_tuple(v, fc, n);
    lemma_av_tuple(v, fd, n);
    assert forall|a: int| 0 <= a < vc(rd).v@.len() implies exists|b: int| 0 <= b < vc(rc).v@.len() && same_head(#[trigger] vc(rd).v@[a], #[trigger] vc(rc).v@[b])
        && within_av(vc(rd).v@[a].data_type, vc(rc).v@[b].data_type) by {
        assert(from_member(v, fd, rd[a], n as int));
        let j = choose|j: int| 0 <= j < n && #[trigger] member_at(v, fd, rd[a], j);
        assert(agree(fp[j], fc[j], fd[j]));
        assert(has_member(v, fc, rc, j));
        let b = choose|b: int| 0 <= b < rc.len() && #[trigger] member_at(v, fc, rc[b], j);
        assert(same_head(vc(rd).v@[a], vc(rc).v@[b]));
    }
}
pub proof fn lemma_agree_av_tuple(p: Tuple, u: Tag, c: Context, gp: spec_fn(Tag) -> Out<avro::Type>, gc: spec_fn(Tag) -> Out<avro::Type>, gd: spec_fn(Tag) -> Out<avro::Type>)
    requires
        u.data_type == Type::Tuple(p),
        forall|i: int| 0 <= i < p.items.v@.len() ==> agree(gp(#[trigger] p.items.v@[i]), gc(p.items.v@[i]), gd(p.items.v@[i]))
            && (gd(p.items.v@[i]) is Val ==> within_av(gd(p.items.v@[i])->Val_0, gc(p.items.v@[i])->Val_0)),
    ensures
        agree(av_type(u, panics(c), gp), av_type(u, casts(c), gc), av_type(u, drops(c), gd)),
        av_type(u, drops(c), gd) is Val ==> within_av(av_type(u, drops(c), gd)->Val_0, av_type(u, casts(c), gc)->Val_0),
{
    let v = p.items.v@;
    let fp = o_seq(v, gp);
    let fc = o_seq(v, gc);
    let fd = o_seq(v, gd);
    let n = v.len();
    assert forall|i: int| #![trigger fp[i]] #![trigger fc[i]] #![trigger fd[i]] 0 <= i < n implies agree(fp[i], fc[i], fd[i]) && (fd[i] is Val ==> within_av(fd[i]->Val_0, fc[i]->Val_0)) by { let x = v[i]; }
    assert(agree_all(fp, fc, fd));
    assert(!seq_aborts(fc)) by { if seq_aborts(fc) { let i = choose|i: int| 0 <= i < fc.len() && (#[trigger] fc[i]) is Abort; assert(agree(fp[i], fc[i], fd[i])); } }
    assert(!seq_aborts(fd)) by { if seq_aborts(fd) { let i = choose|i: int| 0 <= i < fd.len() && (#[trigger] fd[i]) is Abort; assert(agree(fp[i], fc[i], fd[i])); } }
    let rc = av_tuple(v, fc, n);
    let rd = av_tuple(v, fd, n);
    lemma_av_tuple(v, fc, n);
    if n > 0 {
        assert(fc[0] is Val);
        assert(has_member(v, fc, rc, 0));
        assert(rc.len() > 0);
    } else {
        assert(rc.len() == 0 && rd.len() == 0);
    }
    if seq_aborts(fp) {
        lemma_tuple_differs(v, fp, fc, fd);
    } else {
        assert forall|i: int| 0 <= i < n implies fp[i] == fc[i] && fp[i] == fd[i] by { assert(agree(fp[i], fc[i], fd[i])); }
        assert(fp =~= fc);
        assert(fp =~= fd);
    }
    if rd.len() > 0 {
        lemma_tuple_within(v, fp, fc, fd);
        lemma_within_record(av_common(u), rd, rc);
    }
}

// ---------------------------------------------------------------- schemas

pub open spec fn table_of(v: Value, c: Context) -> bigquery::Schema { bq_root(bq_lim(tag_in(v, c), ctx_in(v, c))->Val_0) }
pub open spec fn avro_of(v: Value, c: Context) -> avro::Type { av_lim(tag_in(v, c), ctx_in(v, c))->Val_0 }
pub open spec fn rows(s: bigquery::Schema) -> Seq<bigquery::Tag> { s->Root_0.v@ }
pub open spec fn within_table(d: bigquery::Schema, c: bigquery::Schema) -> bool {
    forall|i: int| 0 <= i < rows(d).len() ==> exists|j: int| 0 <= j < rows(c).len() && within(#[trigger] rows(d)[i], #[trigger] rows(c)[j])
}
/// the rows of a table made of a record
pub open spec fn rows_of(r: bigquery::Record) -> Seq<bigquery::Tag> { sorted_keys(r.fields.m@.dom()).map_values(|k: Seq<char>| *r.fields.m@[k]) }
pub open spec fn has_row(r: bigquery::Record, s: Seq<bigquery::Tag>, k: Seq<char>) -> bool { exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == *r.fields.m@[k] }
pub proof fn lemma_rows(r: bigquery::Record)
    requires bq_valid_record(r)
    ensures
        rows_of(r).len() == sorted_keys(r.fields.m@.dom()).len(),
        forall|i: int| 0 <= i < rows_of(r).len() ==> r.fields.m@.contains_key(sorted_keys(r.fields.m@.dom())[i])
            && #[trigger] rows_of(r)[i] == *r.fields.m@[sorted_keys(r.fields.m@.dom())[i]]
            && rows_of(r)[i].name == Some(st(sorted_keys(r.fields.m@.dom())[i])),
        forall|k: Seq<char>| #[trigger] r.fields.m@.contains_key(k) ==> has_row(r, rows_of(r), k),
{
    let ks = sorted_keys(r.fields.m@.dom());
    lemma_key_order(r.fields.m@.dom());
    let v = rows_of(r);
    assert forall|i: int| 0 <= i < v.len() implies r.fields.m@.contains_key(ks[i]) && #[trigger] v[i] == *r.fields.m@[ks[i]] && v[i].name == Some(st(ks[i])) by {
        assert(r.fields.m@.dom().contains(ks[i]));
    }
    assert forall|k: Seq<char>| #[trigger] r.fields.m@.contains_key(k) implies has_row(r, v, k) by {
        assert(r.fields.m@.dom().contains(k));
        let j = choose|j: int| 0 <= j < ks.len() && #[trigger] ks[j] == k;
        assert(v[j] == *r.fields.m@[k]);
    }
}
pub proof fn lemma_rows_same(r: bigquery::Record, q: bigquery::Record)
    requires bq_valid_record(r), bq_valid_record(q), rows_of(r) == rows_of(q)
    ensures r == q
{
    lemma_rows(r);
    lemma_rows(q);
    let a = r.fields.m@;
    let b = q.fields.m@;
    assert forall|k: Seq<char>| a.contains_key(k) implies #[trigger] b.contains_key(k) && a[k] == b[k] by { lemma_row_in(r, q, k); }
    assert forall|k: Seq<char>| b.contains_key(k) implies #[trigger] a.contains_key(k) && a[k] == b[k] by { lemma_row_in(q, r, k); }
    assert(a =~= b);
}
pub proof fn lemma_row_in(r: bigquery::Record, q: bigquery::Record, k: Seq<char>)
    requires bq_valid_record(r), bq_valid_record(q), rows_of(r) == rows_of(q), r.fields.m@.contains_key(k)
    ensures q.fields.m@.contains_key(k), r.fields.m@[k] == q.fields.m@[k]
{
    lemma_rows(r);
    lemma_rows(q);
    assert(has_row(r, rows_of(r), k));
    let j = choose|j: int| 0 <= j < rows_of(r).len() && #[trigger] rows_of(r)[j] == *r.fields.m@[k];
    assert(r.fields.m@[k].name == Some(st(k)));
    let z = sorted_keys(q.fields.m@.dom())[j];
    assert(rows_of(q)[j] == *q.fields.m@[z]);
    assert(st(z).s@ == st(k).s@);
}
pub proof fn lemma_rows_within(d: bigquery::Record, c: bigquery::Record)
    requires bq_valid_record(d), bq_valid_record(c), within_record(d, c)
    ensures within_table(bigquery::Schema::Root(vc(rows_of(d))), bigquery::Schema::Root(vc(rows_of(c))))
{
    lemma_rows(d);
    lemma_rows(c);
    let x = rows(bigquery::Schema::Root(vc(rows_of(d))));
    let y = rows(bigquery::Schema::Root(vc(rows_of(c))));
    assert(x == rows_of(d) && y == rows_of(c));
    assert forall|i: int| 0 <= i < x.len() implies exists|j: int| 0 <= j < y.len() && within(#[trigger] x[i], #[trigger] y[j]) by {
        let k = sorted_keys(d.fields.m@.dom())[i];
        assert(x[i] == rows_of(d)[i]);
        assert(d.fields.m@.contains_key(k));
        assert(has_row(c, rows_of(c), k));
        let j = choose|j: int| 0 <= j < rows_of(c).len() && #[trigger] rows_of(c)[j] == *c.fields.m@[k];
        assert(within(x[i], y[j]));
    }
}
/// what a table is made of can be told from it
pub proof fn lemma_table_parts(d: bigquery::Tag, c: bigquery::Tag)
    requires
        bq_valid_type(*d.data_type), bq_valid_type(*c.data_type), within_type(*d.data_type, *c.data_type),
        d.name == c.name, d.mode == c.mode, d.description == c.description,
    ensures
        bq_root(d) == bq_root(c) ==> d == c,
        within_table(bq_root(d), bq_root(c)),
{
    match *d.data_type {
        bigquery::Type::Record(r) => if !(d.mode is Repeated) {
            let q = c.data_type->Record_0;
            assert(bq_root(d) == bigquery::Schema::Root(vc(rows_of(r))));
            assert(bq_root(c) == bigquery::Schema::Root(vc(rows_of(q))));
            lemma_rows_within(r, q);
            if bq_root(d) == bq_root(c) {
                assert(rows(bq_root(d)) == rows(bq_root(c)));
                lemma_rows_same(r, q);
                assert(*d.data_type == *c.data_type);
            }
        } else { lemma_table_row(d, c); },
        _ => { lemma_table_row(d, c); }
    }
}
pub proof fn lemma_table_row(d: bigquery::Tag, c: bigquery::Tag)
    requires
        bq_single(d), within_type(*d.data_type, *c.data_type),
        d.name == c.name, d.mode == c.mode, d.description == c.description,
    ensures
        bq_root(d) == bq_root(c) ==> d == c,
        within_table(bq_root(d), bq_root(c)),
{
    let n = Some(st("root"@));
    let x = bigquery::Tag { name: n, ..d };
    let y = bigquery::Tag { name: n, ..c };
    assert(bq_root(d) == bigquery::Schema::Root(vc(seq![x])));
    assert(bq_root(c) == bigquery::Schema::Root(vc(seq![y])));
    assert(seq![x][0] == x && seq![y][0] == y);
    assert(within(x, y));
    assert(within(rows(bq_root(d))[0], rows(bq_root(c))[0]));
    if bq_root(d) == bq_root(c) { assert(rows(bq_root(d))[0] == rows(bq_root(c))[0]); }
}
pub proof fn lemma_methods(v: Value, c: Context)
    requires read_ok(v, c)
    ensures
        read_ok(v, panics(c)), read_ok(v, casts(c)), read_ok(v, drops(c)),
        tag_in(v, panics(c)) == tag_in(v, c), tag_in(v, casts(c)) == tag_in(v, c), tag_in(v, drops(c)) == tag_in(v, c),
        ctx_in(v, panics(c)) == panics(ctx_in(v, c)), ctx_in(v, casts(c)) == casts(ctx_in(v, c)), ctx_in(v, drops(c)) == drops(ctx_in(v, c)),
        rx_ok(ctx_in(v, panics(c))) == rx_ok(ctx_in(v, c)), rx_ok(ctx_in(v, drops(c))) == rx_ok(ctx_in(v, c)),
{
}
/// whether the panic resolution translates it
pub open spec fn bq_translated(v: Value, c: Context) -> bool { bq_lim(tag_in(v, c), ctx_in(v, c)) is Val }
pub open spec fn av_translated(v: Value, c: Context) -> bool { av_lim(tag_in(v, c), ctx_in(v, c)) is Val }
/// C06
pub proof fn theorem_resolution(v: Value, c: Context)
    requires read_ok(v, c)
    ensures
        bq_translated(v, casts(c)),
        bq_translated(v, panics(c)) ==> bq_translated(v, drops(c)) && table_of(v, panics(c)) == table_of(v, casts(c)) && table_of(v, panics(c)) == table_of(v, drops(c)),
        !bq_translated(v, panics(c)) && bq_translated(v, drops(c)) ==> table_of(v, drops(c)) != table_of(v, casts(c)),
        bq_translated(v, drops(c)) ==> within_table(table_of(v, drops(c)), table_of(v, casts(c))),
        av_translated(v, casts(c)),
        av_translated(v, panics(c)) ==> av_translated(v, drops(c)) && avro_of(v, panics(c)) == avro_of(v, casts(c)) && avro_of(v, panics(c)) == avro_of(v, drops(c)),
        !av_translated(v, panics(c)) && av_translated(v, drops(c)) ==> avro_of(v, drops(c)) != avro_of(v, casts(c)),
        av_translated(v, drops(c)) ==> within_av(avro_of(v, drops(c)), avro_of(v, casts(c))),
{
    lemma_methods(v, c);
    lemma_root_name(v, c);
    let d = ctx_in(v, c);
    let t = tag_in(v, c);
    lemma_sound_options(schema_in(v), c);
    lemma_top(t, d);
    lemma_top(t, panics(d));
    lemma_top(t, casts(d));
    lemma_top(t, drops(d));
    let u = bq_top_tag(t, d);
    let nc = d.normalize_case;
    lemma_kids_named(col(t), base(col(t)), nc);
    lemma_kids_named_inf(inf_name(col(t), nc), d.force_nullable);
    assert(bq_top_tag(t, panics(d)) == u && bq_top_tag(t, casts(d)) == u && bq_top_tag(t, drops(d)) == u);
    lemma_agree_type(er(u), u, d);
    lemma_valid_type(er(u), u, casts(d));
    if bq_translated(v, drops(c)) {
        lemma_valid_type(er(u), u, drops(d));
        let x = bq_lim(t, drops(d))->Val_0;
        let y = bq_lim(t, casts(d))->Val_0;
        assert(x.name == y.name && x.mode == y.mode && x.description == y.description);
        lemma_table_parts(x, y);
        if !bq_translated(v, panics(c)) { assert(*x.data_type != *y.data_type); }
    }
    lemma_top_avro(t, d);
    lemma_top_avro(t, panics(d));
    lemma_top_avro(t, casts(d));
    lemma_top_avro(t, drops(d));
    let w = av_top_tag(t, d);
    assert(av_top_tag(t, panics(d)) == w && av_top_tag(t, casts(d)) == w && av_top_tag(t, drops(d)) == w);
    lemma_agree_av_at(w, d);
}
}
} // verus!
