// What a tag is translated into.
verus! {
pub mod spec_out {
use super::*;
use super::shim::*;
use super::spec::*;
use super::lemmas::*;
use super::ast::{Tag, Type, Atom};

/// the outcome of a translation: a value, nothing (drop), or an abort (panic)
pub enum Out<T> { Val(T), Err, Abort }
pub open spec fn out<T, E>(r: Result<T, E>) -> Out<T> { match r { Ok(t) => Out::Val(t), Err(_) => Out::Err } }

/// what the resolution method makes of something it cannot translate
pub open spec fn resolve<T>(c: Context, cast: T) -> Out<T> {
    match c.resolve_method { ResolveMethod::Cast => Out::Val(cast), ResolveMethod::Drop => Out::Err, ResolveMethod::Panic => Out::Abort }
}
pub open spec fn rx_of(r: Seq<char>) -> Seq<char> { "\\A(?:"@ + r + ")"@ }
pub open spec fn json_path(c: Context, name: Seq<char>) -> bool {
    c.json_object_path_regex is Some && re_match(rx_of(c.json_object_path_regex->0.s@), name)
}
pub open spec fn rx_ok(c: Context) -> bool { c.json_object_path_regex is Some ==> re_valid(rx_of(c.json_object_path_regex->0.s@)) }

pub open spec fn o_map<T>(h: HashMap<Box<Tag>>, g: spec_fn(Tag) -> Out<T>) -> Map<Seq<char>, Out<T>> {
    Map::new(h.m@.dom(), |k: Seq<char>| g(*h.m@[k]))
}
pub open spec fn o_seq<T>(v: Seq<Tag>, g: spec_fn(Tag) -> Out<T>) -> Seq<Out<T>> { Seq::new(v.len(), |i: int| g(v[i])) }
pub open spec fn map_aborts<T>(f: Map<Seq<char>, Out<T>>) -> bool { exists|k: Seq<char>| #[trigger] f.contains_key(k) && f[k] is Abort }
pub open spec fn seq_aborts<T>(f: Seq<Out<T>>) -> bool { exists|i: int| 0 <= i < f.len() && (#[trigger] f[i]) is Abort }
pub open spec fn seq_fails<T>(f: Seq<Out<T>>) -> bool { exists|i: int| 0 <= i < f.len() && (#[trigger] f[i]) is Err }
/// the fields that are kept
pub open spec fn kept<T>(f: Map<Seq<char>, Out<T>>) -> Set<Seq<char>> { f.dom().filter(|k: Seq<char>| f[k] is Val) }
pub open spec fn vals<T>(f: Map<Seq<char>, Out<T>>) -> Map<Seq<char>, Box<T>> { Map::new(kept(f), |k: Seq<char>| Box::new(f[k]->Val_0)) }

// ---------------------------------------------------------------- BigQuery

pub open spec fn bq_string() -> bigquery::Type { bigquery::Type::Atom(bigquery::Atom::String) }
pub open spec fn bq_atom(a: Atom) -> bigquery::Atom {
    match a {
        Atom::Boolean => bigquery::Atom::Bool,
        Atom::Integer => bigquery::Atom::Int64,
        Atom::Number => bigquery::Atom::Float64,
        Atom::String => bigquery::Atom::String,
        Atom::Datetime => bigquery::Atom::Timestamp,
        Atom::Bytes => bigquery::Atom::Bytes,
        Atom::Json => bigquery::Atom::Json,
    }
}
pub open spec fn repeated(t: Tag) -> bool { t.data_type is Array || t.data_type is Map }
pub open spec fn mode_of(u: Tag) -> bigquery::Mode {
    if repeated(u) { bigquery::Mode::Repeated } else if u.data_type is Null || u.nullable { bigquery::Mode::Nullable } else { bigquery::Mode::Required }
}
pub open spec fn cut(s: Seq<char>) -> Option<String> { Some(st(s.subrange(0, min(1024, s.len() as int)))) }
pub open spec fn desc_of(title: Option<String>, description: Option<String>) -> Option<String> {
    match (title, description) {
        (Some(t), Some(d)) => cut(t.s@ + " - "@ + d.s@),
        (Some(t), None) => cut(t.s@),
        (None, Some(d)) => cut(d.s@),
        (None, None) => None,
    }
}
pub open spec fn bq_record(f: Map<Seq<char>, Box<bigquery::Tag>>) -> bigquery::Type { bigquery::Type::Record(bigquery::Record { fields: hm(f) }) }
/// the columns of a tuple are called by their positions
pub open spec fn bq_tuple(f: Seq<Out<bigquery::Tag>>, i: nat) -> Map<Seq<char>, Box<bigquery::Tag>>
    decreases i
{
    if i == 0 { Map::empty() } else {
        bq_tuple(f, (i - 1) as nat).insert(tuple_name(i - 1), Box::new(bigquery::Tag { name: Some(st(tuple_name(i - 1))), ..f[i - 1]->Val_0 }))
    }
}
pub open spec fn one<T>(k: Seq<char>, t: T) -> Map<Seq<char>, Box<T>> { Map::empty().insert(k, Box::new(t)) }

/// the type of a column for a processed tag, given what the children become
pub open spec fn bq_type(u: Tag, c: Context, g: spec_fn(Tag) -> Out<bigquery::Tag>) -> Out<bigquery::Type> {
    match u.data_type {
        Type::Atom(a) => if a is Json && !json_path(c, full_name(u)) { resolve(c, bq_string()) } else { Out::Val(bigquery::Type::Atom(bq_atom(a))) },
        Type::Object(o) => {
            let f = o_map(o.fields, g);
            if map_aborts(f) { Out::Abort } else if kept(f) =~= Set::empty() { resolve(c, bq_string()) } else { Out::Val(bq_record(vals(f))) }
        }
        Type::Tuple(p) => {
            let f = o_seq(p.items.v@, g);
            if f.len() == 0 { resolve(c, bq_string()) } else if seq_aborts(f) { Out::Abort } else if seq_fails(f) { Out::Err }
            else { Out::Val(bq_record(bq_tuple(f, f.len()))) }
        }
        Type::Array(a) => match g(*a.items) {
            Out::Val(t) => if repeated(*a.items) { Out::Val(bq_record(one("list"@, t))) } else { Out::Val(*t.data_type) },
            Out::Err => Out::Err,
            Out::Abort => Out::Abort,
        },
        Type::Map(m) => match (g(*m.key), g(*m.value)) {
            (Out::Val(k), Out::Val(v)) => Out::Val(bq_record(one("key"@, k).insert("value"@, Box::new(v)))),
            (Out::Val(k), Out::Err) => if c.allow_maps_without_value { Out::Val(bq_record(one("key"@, k))) } else { Out::Err },
            _ => Out::Abort,
        },
        _ => resolve(c, bq_string()),
    }
}
pub open spec fn bq_at(u: Tag, c: Context, g: spec_fn(Tag) -> Out<bigquery::Tag>) -> Out<bigquery::Tag> {
    match bq_type(u, c, g) {
        Out::Val(d) => Out::Val(bigquery::Tag { name: u.name, data_type: Box::new(d), mode: mode_of(u), description: desc_of(u.title, u.description) }),
        Out::Err => Out::Err,
        Out::Abort => Out::Abort,
    }
}
pub open spec fn bq_proc(t: Tag, c: Context, n: nat) -> Tag { inf_null(inf_name(t_col(t, n), c.normalize_case), c.force_nullable) }
pub open spec fn bq_leaf(t: Tag) -> bigquery::Tag {
    bigquery::Tag { name: t.name, data_type: Box::new(bq_string()), mode: bigquery::Mode::Nullable, description: None }
}
pub open spec fn bq_kids(u: Tag) -> Seq<Tag> {
    match u.data_type {
        Type::Object(o) => kid_fields(o.fields),
        Type::Tuple(p) => p.items.v@,
        Type::Array(a) => seq![*a.items],
        Type::Map(m) => seq![*m.key, *m.value],
        _ => Seq::empty(),
    }
}
pub open spec fn kid_fields(h: HashMap<Box<Tag>>) -> Seq<Tag> { sorted_keys(h.m@.dom()).map_values(|k: Seq<char>| *h.m@[k]) }

/// the columns of a table
pub open spec fn bq_root(t: bigquery::Tag) -> bigquery::Schema {
    match *t.data_type {
        bigquery::Type::Record(r) => if t.mode is Repeated { bigquery::Schema::Root(vc(seq![bigquery::Tag { name: Some(st("root"@)), ..t }])) } else {
            bigquery::Schema::Root(vc(sorted_keys(r.fields.m@.dom()).map_values(|k: Seq<char>| *r.fields.m@[k])))
        },
        _ => bigquery::Schema::Root(vc(seq![bigquery::Tag { name: Some(st("root"@)), ..t }])),
    }
}
pub open spec fn bq_single(t: bigquery::Tag) -> bool { *t.data_type is Atom || t.mode is Repeated }

// ---------------------------------------------------------------- Avro

pub open spec fn av_prim(p: avro::Primitive) -> avro::Type { avro::Type::Primitive(p) }
pub open spec fn av_string() -> avro::Type { av_prim(avro::Primitive::String) }
pub open spec fn av_atom(a: Atom) -> avro::Primitive {
    match a {
        Atom::Boolean => avro::Primitive::Boolean,
        Atom::Integer => avro::Primitive::Long,
        Atom::Number => avro::Primitive::Double,
        Atom::String => avro::Primitive::String,
        Atom::Datetime => avro::Primitive::String,
        Atom::Bytes => avro::Primitive::Bytes,
        Atom::Json => avro::Primitive::String,
    }
}
pub open spec fn av_common(u: Tag) -> avro::CommonAttributes {
    avro::CommonAttributes { name: match u.name { Some(n) => n, None => st("__UNNAMED__"@) }, namespace: u.namespace, doc: None, aliases: None }
}
/// a field that may be missing is null by default
pub open spec fn av_field(k: Seq<char>, d: avro::Type, nullable: bool) -> avro::Field {
    avro::Field { name: st(k), doc: None, data_type: d, default: if nullable { Some(Value::Null) } else { None } }
}
pub open spec fn av_record(u: Tag, f: Seq<avro::Field>) -> avro::Type {
    avro::Type::Complex(avro::Complex::Record(avro::Record { common: av_common(u), fields: vc(f) }))
}
/// the fields that are kept, in ascending order of their names
pub open spec fn av_fields(h: HashMap<Box<Tag>>, f: Map<Seq<char>, Out<avro::Type>>) -> Seq<avro::Field> {
    sorted_keys(kept(f)).map_values(|k: Seq<char>| av_field(k, f[k]->Val_0, h.m@[k].nullable))
}
/// the members that are kept, called by their positions
pub open spec fn av_tuple(v: Seq<Tag>, f: Seq<Out<avro::Type>>, i: nat) -> Seq<avro::Field>
    decreases i
{
    if i == 0 { Seq::empty() } else if f[i - 1] is Val {
        av_tuple(v, f, (i - 1) as nat).push(av_field(tuple_name(i - 1), f[i - 1]->Val_0, v[i - 1].nullable))
    } else { av_tuple(v, f, (i - 1) as nat) }
}
pub open spec fn av_type(u: Tag, c: Context, g: spec_fn(Tag) -> Out<avro::Type>) -> Out<avro::Type> {
    match u.data_type {
        Type::Null => Out::Val(av_prim(avro::Primitive::Null)),
        Type::Atom(a) => if a is Json { resolve(c, av_string()) } else { Out::Val(av_prim(av_atom(a))) },
        Type::Object(o) => {
            let f = o_map(o.fields, g);
            if map_aborts(f) { Out::Abort } else if kept(f) =~= Set::empty() { resolve(c, av_string()) } else { Out::Val(av_record(u, av_fields(o.fields, f))) }
        }
        Type::Tuple(p) => {
            let f = o_seq(p.items.v@, g);
            let r = av_tuple(p.items.v@, f, f.len());
            if seq_aborts(f) { Out::Abort } else if r.len() == 0 { resolve(c, av_string()) } else { Out::Val(av_record(u, r)) }
        }
        Type::Array(a) => match g(*a.items) {
            Out::Val(d) => Out::Val(avro::Type::Complex(avro::Complex::Array(avro::Array { items: Box::new(
                if a.items.data_type is Array { av_record(u, seq![av_field("list"@, d, a.items.nullable)]) } else { d }
            ) }))),
            Out::Err => Out::Err,
            Out::Abort => Out::Abort,
        },
        Type::Map(m) => match g(*m.value) {
            Out::Val(d) => Out::Val(avro::Type::Complex(avro::Complex::Map(avro::Map { values: Box::new(d) }))),
            Out::Err => Out::Err,
            Out::Abort => Out::Abort,
        },
        _ => resolve(c, av_string()),
    }
}
pub open spec fn av_wrap(u: Tag, d: avro::Type) -> avro::Type {
    if u.nullable && !(u.data_type is Null) { avro::Type::Union(vc(seq![av_prim(avro::Primitive::Null), d])) } else { d }
}
pub open spec fn av_at(u: Tag, c: Context, g: spec_fn(Tag) -> Out<avro::Type>) -> Out<avro::Type> {
    match av_type(u, c, g) {
        Out::Val(d) => Out::Val(av_wrap(u, d)),
        Out::Err => Out::Err,
        Out::Abort => Out::Abort,
    }
}
pub open spec fn av_root(t: Tag) -> Tag { Tag { name: Some(st("root"@)), ..t } }
pub open spec fn av_proc(t: Tag, c: Context, n: nat) -> Tag {
    inf_null(if t.is_root { inf_name(av_root(t_col(t, n)), c.normalize_case) } else { t }, c.force_nullable)
}
pub open spec fn av_leaf(t: Tag) -> avro::Type { av_wrap(t, av_string()) }
pub open spec fn av_kids(u: Tag) -> Seq<Tag> {
    match u.data_type {
        Type::Map(m) => seq![*m.value],
        _ => bq_kids(u),
    }
}

// ---------------------------------------------------------------- bq outcomes

/// the outcome, followed to the depth `n`
pub open spec fn bq(t: Tag, c: Context, n: nat) -> Out<bigquery::Tag>
    decreases n, 0nat
{
    if n == 0 { Out::Val(bq_leaf(t)) } else { bq_at(bq_proc(t, c, (n - 1) as nat), c, bq_sub(c, (n - 1) as nat)) }
}
pub open spec fn bq_sub(c: Context, n: nat) -> spec_fn(Tag) -> Out<bigquery::Tag>
    decreases n, 1nat
{
    |x: Tag| bq(x, c, n)
}
pub open spec fn bq_from(t: Tag, c: Context, r: Out<bigquery::Tag>, b: nat) -> bool { forall|n: nat| n >= b ==> #[trigger] bq(t, c, n) == r }
/// the outcome settles
pub open spec fn bq_is(t: Tag, c: Context, r: Out<bigquery::Tag>) -> bool { exists|b: nat| bq_from(t, c, r, b) }
pub open spec fn bq_conv(t: Tag, c: Context) -> bool { exists|r: Out<bigquery::Tag>| bq_is(t, c, r) }
/// the outcome it settles on
pub open spec fn bq_lim(t: Tag, c: Context) -> Out<bigquery::Tag> { choose|r: Out<bigquery::Tag>| bq_is(t, c, r) }
pub open spec fn bq_bound(t: Tag, c: Context) -> nat { choose|b: nat| bq_from(t, c, bq_lim(t, c), b) }
pub open spec fn bq_lims(c: Context) -> spec_fn(Tag) -> Out<bigquery::Tag> { |x: Tag| bq_lim(x, c) }
pub open spec fn bq_no_abort_from(t: Tag, c: Context, b: nat) -> bool { forall|n: nat| n >= b ==> !(#[trigger] bq(t, c, n) is Abort) }
/// the translation does not abort
pub open spec fn bq_ok(t: Tag, c: Context) -> bool { exists|b: nat| bq_no_abort_from(t, c, b) }
/// the tag, once its unions are collapsed, named and made nullable
pub open spec fn bq_proc_from(t: Tag, u: Tag, c: Context, b: nat) -> bool { forall|n: nat| n >= b ==> #[trigger] bq_proc(t, c, n) == u }
pub open spec fn bq_proc_is(t: Tag, u: Tag, c: Context) -> bool { exists|b: nat| bq_proc_from(t, u, c, b) }
/// all children settle
pub open spec fn bq_kids_conv(u: Tag, c: Context) -> bool { forall|i: int| 0 <= i < bq_kids(u).len() ==> bq_conv(#[trigger] bq_kids(u)[i], c) }

pub proof fn lemma_bq_conv(t: Tag, c: Context)
    requires bq_conv(t, c)
    ensures bq_from(t, c, bq_lim(t, c), bq_bound(t, c))
{
    assert(bq_is(t, c, bq_lim(t, c)));
}
pub proof fn lemma_bq_lim(t: Tag, c: Context, r: Out<bigquery::Tag>, b: nat)
    requires bq_from(t, c, r, b)
    ensures bq_conv(t, c), bq_lim(t, c) == r
{
    assert(bq_is(t, c, r));
    lemma_bq_conv(t, c);
    let m = nmax(b, bq_bound(t, c));
    assert(bq(t, c, m) == r);
    assert(bq(t, c, m) == bq_lim(t, c));
}
/// only the outcomes of the children matter
pub proof fn lemma_bq_cong(u: Tag, c: Context, g: spec_fn(Tag) -> Out<bigquery::Tag>, h: spec_fn(Tag) -> Out<bigquery::Tag>)
    requires forall|i: int| 0 <= i < bq_kids(u).len() ==> g(#[trigger] bq_kids(u)[i]) == h(bq_kids(u)[i])
    ensures bq_type(u, c, g) == bq_type(u, c, h), bq_at(u, c, g) == bq_at(u, c, h)
{
    let ks = bq_kids(u);
    match u.data_type {
        Type::Object(o) => {
            lemma_kid_fields(o.fields);
            assert forall|k: Seq<char>| o.fields.m@.contains_key(k) implies g(*o.fields.m@[k]) == h(*o.fields.m@[k]) by {
                let i = choose|i: int| 0 <= i < ks.len() && sorted_keys(o.fields.m@.dom())[i] == k;
                assert(ks[i] == *o.fields.m@[k]);
            }
            assert(o_map(o.fields, g) =~= o_map(o.fields, h));
        }
        Type::Tuple(p) => {
            assert forall|i: int| 0 <= i < ks.len() implies g(ks[i]) == h(ks[i]) by {}
            assert(o_seq(p.items.v@, g) =~= o_seq(p.items.v@, h));
        }
        Type::Array(a) => { assert(g(ks[0]) == h(ks[0])); }
        Type::Map(m) => { assert(g(ks[0]) == h(ks[0])); assert(g(ks[1]) == h(ks[1])); }
        _ => {}
    }
}
pub open spec fn bq_top(s: Seq<Tag>, c: Context, i: nat) -> nat
    decreases i
{
    if i == 0 { 0 } else { nmax(bq_top(s, c, (i - 1) as nat), bq_bound(s[i - 1], c)) }
}
pub proof fn lemma_bq_top(s: Seq<Tag>, c: Context, i: nat)
    requires i <= s.len()
    ensures forall|j: int| 0 <= j < i ==> bq_top(s, c, i) >= bq_bound(#[trigger] s[j], c)
    decreases i
{
    if i > 0 { lemma_bq_top(s, c, (i - 1) as nat); }
}
/// when all children settle, so does the whole, on what their outcomes make
pub proof fn lemma_bq_step(t: Tag, u: Tag, c: Context)
    requires bq_proc_is(t, u, c)
    ensures
        bq_kids_conv(u, c) ==> bq_conv(t, c) && bq_lim(t, c) == bq_at(u, c, bq_lims(c)),
        bq_ok(t, c) && bq_conv(t, c) ==> !(bq_lim(t, c) is Abort),
        bq_ok(t, c) && bq_kids_conv(u, c) ==> !(bq_at(u, c, bq_lims(c)) is Abort),
{
    let a = choose|b: nat| bq_proc_from(t, u, c, b);
    if bq_kids_conv(u, c) {
        let ks = bq_kids(u);
        let d = bq_top(ks, c, ks.len());
        lemma_bq_top(ks, c, ks.len());
        let r = bq_at(u, c, bq_lims(c));
        assert forall|n: nat| n >= nmax(a, d) + 1 implies #[trigger] bq(t, c, n) == r by {
            let m = (n - 1) as nat;
            let g = bq_sub(c, m);
            assert(bq_proc(t, c, m) == u);
            assert forall|i: int| 0 <= i < ks.len() implies g(#[trigger] ks[i]) == bq_lims(c)(ks[i]) by {
                lemma_bq_conv(ks[i], c);
                assert(bq(ks[i], c, m) == bq_lim(ks[i], c));
            }
            lemma_bq_cong(u, c, g, bq_lims(c));
        }
        assert(bq_from(t, c, r, nmax(a, d) + 1));
        lemma_bq_lim(t, c, r, nmax(a, d) + 1);
    }
    if bq_ok(t, c) && bq_conv(t, c) {
        let b = choose|b: nat| bq_no_abort_from(t, c, b);
        lemma_bq_conv(t, c);
        assert(bq(t, c, nmax(b, bq_bound(t, c))) == bq_lim(t, c));
    }
}
/// an abort of a child is one of the whole
pub proof fn lemma_bq_ok(t: Tag, u: Tag, c: Context)
    requires bq_proc_is(t, u, c), bq_ok(t, c)
    ensures forall|i: int| 0 <= i < bq_kids(u).len() ==> bq_ok(#[trigger] bq_kids(u)[i], c)
{
    let a = choose|b: nat| bq_proc_from(t, u, c, b);
    let d = choose|b: nat| bq_no_abort_from(t, c, b);
    let ks = bq_kids(u);
    assert forall|i: int| 0 <= i < ks.len() implies bq_ok(#[trigger] ks[i], c) by {
        assert forall|n: nat| n >= nmax(a, d) implies !(#[trigger] bq(ks[i], c, n) is Abort) by {
            let g = bq_sub(c, n);
            assert(bq_proc(t, c, n) == u);
            assert(bq(t, c, n + 1) == bq_at(u, c, g));
            assert(!(bq(t, c, n + 1) is Abort));
            if bq(ks[i], c, n) is Abort {
                match u.data_type {
                    Type::Object(o) => {
                        lemma_kid_fields(o.fields);
                        let k = sorted_keys(o.fields.m@.dom())[i];
                        assert(o_map(o.fields, g).contains_key(k));
                        assert(o_map(o.fields, g)[k] is Abort);
                    }
                    Type::Tuple(p) => { assert(o_seq(p.items.v@, g)[i] is Abort); }
                    _ => {}
                }
            }
        }
        assert(bq_no_abort_from(ks[i], c, nmax(a, d)));
    }
}

// ---------------------------------------------------------------- av outcomes

/// the outcome, followed to the depth `n`
pub open spec fn av(t: Tag, c: Context, n: nat) -> Out<avro::Type>
    decreases n, 0nat
{
    if n == 0 { Out::Val(av_leaf(inf_null(t, c.force_nullable))) } else { av_at(av_proc(t, c, (n - 1) as nat), c, av_sub(c, (n - 1) as nat)) }
}
pub open spec fn av_sub(c: Context, n: nat) -> spec_fn(Tag) -> Out<avro::Type>
    decreases n, 1nat
{
    |x: Tag| av(x, c, n)
}
pub open spec fn av_from(t: Tag, c: Context, r: Out<avro::Type>, b: nat) -> bool { forall|n: nat| n >= b ==> #[trigger] av(t, c, n) == r }
/// the outcome settles
pub open spec fn av_is(t: Tag, c: Context, r: Out<avro::Type>) -> bool { exists|b: nat| av_from(t, c, r, b) }
pub open spec fn av_conv(t: Tag, c: Context) -> bool { exists|r: Out<avro::Type>| av_is(t, c, r) }
/// the outcome it settles on
pub open spec fn av_lim(t: Tag, c: Context) -> Out<avro::Type> { choose|r: Out<avro::Type>| av_is(t, c, r) }
pub open spec fn av_bound(t: Tag, c: Context) -> nat { choose|b: nat| av_from(t, c, av_lim(t, c), b) }
pub open spec fn av_lims(c: Context) -> spec_fn(Tag) -> Out<avro::Type> { |x: Tag| av_lim(x, c) }
pub open spec fn av_no_abort_from(t: Tag, c: Context, b: nat) -> bool { forall|n: nat| n >= b ==> !(#[trigger] av(t, c, n) is Abort) }
/// the translation does not abort
pub open spec fn av_ok(t: Tag, c: Context) -> bool { exists|b: nat| av_no_abort_from(t, c, b) }
/// the tag, once its unions are collapsed, named and made nullable
pub open spec fn av_proc_from(t: Tag, u: Tag, c: Context, b: nat) -> bool { forall|n: nat| n >= b ==> #[trigger] av_proc(t, c, n) == u }
pub open spec fn av_proc_is(t: Tag, u: Tag, c: Context) -> bool { exists|b: nat| av_proc_from(t, u, c, b) }
/// all children settle
pub open spec fn av_kids_conv(u: Tag, c: Context) -> bool { forall|i: int| 0 <= i < av_kids(u).len() ==> av_conv(#[trigger] av_kids(u)[i], c) }

pub proof fn lemma_av_conv(t: Tag, c: Context)
    requires av_conv(t, c)
    ensures av_from(t, c, av_lim(t, c), av_bound(t, c))
{
    assert(av_is(t, c, av_lim(t, c)));
}
pub proof fn lemma_av_lim(t: Tag, c: Context, r: Out<avro::Type>, b: nat)
    requires av_from(t, c, r, b)
    ensures av_conv(t, c), av_lim(t, c) == r
{
    assert(av_is(t, c, r));
    lemma_av_conv(t, c);
    let m = nmax(b, av_bound(t, c));
    assert(av(t, c, m) == r);
    assert(av(t, c, m) == av_lim(t, c));
}
/// only the outcomes of the children matter
pub proof fn lemma_av_cong(u: Tag, c: Context, g: spec_fn(Tag) -> Out<avro::Type>, h: spec_fn(Tag) -> Out<avro::Type>)
    requires forall|i: int| 0 <= i < av_kids(u).len() ==> g(#[trigger] av_kids(u)[i]) == h(av_kids(u)[i])
    ensures av_type(u, c, g) == av_type(u, c, h), av_at(u, c, g) == av_at(u, c, h)
{
    let ks = av_kids(u);
    match u.data_type {
        Type::Object(o) => {
            lemma_kid_fields(o.fields);
            assert forall|k: Seq<char>| o.fields.m@.contains_key(k) implies g(*o.fields.m@[k]) == h(*o.fields.m@[k]) by {
                let i = choose|i: int| 0 <= i < ks.len() && sorted_keys(o.fields.m@.dom())[i] == k;
                assert(ks[i] == *o.fields.m@[k]);
            }
            assert(o_map(o.fields, g) =~= o_map(o.fields, h));
        }
        Type::Tuple(p) => {
            assert forall|i: int| 0 <= i < ks.len() implies g(ks[i]) == h(ks[i]) by {}
            assert(o_seq(p.items.v@, g) =~= o_seq(p.items.v@, h));
        }
        Type::Array(a) => { assert(g(ks[0]) == h(ks[0])); }
        Type::Map(m) => { assert(g(ks[0]) == h(ks[0]));  }
        _ => {}
    }
}
pub open spec fn av_top(s: Seq<Tag>, c: Context, i: nat) -> nat
    decreases i
{
    if i == 0 { 0 } else { nmax(av_top(s, c, (i - 1) as nat), av_bound(s[i - 1], c)) }
}
pub proof fn lemma_av_top(s: Seq<Tag>, c: Context, i: nat)
    requires i <= s.len()
    ensures forall|j: int| 0 <= j < i ==> av_top(s, c, i) >= av_bound(#[trigger] s[j], c)
    decreases i
{
    if i > 0 { lemma_av_top(s, c, (i - 1) as nat); }
}
/// when all children settle, so does the whole, on what their outcomes make
pub proof fn lemma_av_step(t: Tag, u: Tag, c: Context)
    requires av_proc_is(t, u, c)
    ensures
        av_kids_conv(u, c) ==> av_conv(t, c) && av_lim(t, c) == av_at(u, c, av_lims(c)),
        av_ok(t, c) && av_conv(t, c) ==> !(av_lim(t, c) is Abort),
        av_ok(t, c) && av_kids_conv(u, c) ==> !(av_at(u, c, av_lims(c)) is Abort),
{
    let a = choose|b: nat| av_proc_from(t, u, c, b);
    if av_kids_conv(u, c) {
        let ks = av_kids(u);
        let d = av_top(ks, c, ks.len());
        lemma_av_top(ks, c, ks.len());
        let r = av_at(u, c, av_lims(c));
        assert forall|n: nat| n >= nmax(a, d) + 1 implies #[trigger] av(t, c, n) == r by {
            let m = (n - 1) as nat;
            let g = av_sub(c, m);
            assert(av_proc(t, c, m) == u);
            assert forall|i: int| 0 <= i < ks.len() implies g(#[trigger] ks[i]) == av_lims(c)(ks[i]) by {
                lemma_av_conv(ks[i], c);
                assert(av(ks[i], c, m) == av_lim(ks[i], c));
            }
            lemma_av_cong(u, c, g, av_lims(c));
        }
        assert(av_from(t, c, r, nmax(a, d) + 1));
        lemma_av_lim(t, c, r, nmax(a, d) + 1);
    }
    if av_ok(t, c) && av_conv(t, c) {
        let b = choose|b: nat| av_no_abort_from(t, c, b);
        lemma_av_conv(t, c);
        assert(av(t, c, nmax(b, av_bound(t, c))) == av_lim(t, c));
    }
}
/// an abort of a child is one of the whole
pub proof fn lemma_av_ok(t: Tag, u: Tag, c: Context)
    requires av_proc_is(t, u, c), av_ok(t, c)
    ensures forall|i: int| 0 <= i < av_kids(u).len() ==> av_ok(#[trigger] av_kids(u)[i], c)
{
    let a = choose|b: nat| av_proc_from(t, u, c, b);
    let d = choose|b: nat| av_no_abort_from(t, c, b);
    let ks = av_kids(u);
    assert forall|i: int| 0 <= i < ks.len() implies av_ok(#[trigger] ks[i], c) by {
        assert forall|n: nat| n >= nmax(a, d) implies !(#[trigger] av(ks[i], c, n) is Abort) by {
            let g = av_sub(c, n);
            assert(av_proc(t, c, n) == u);
            assert(av(t, c, n + 1) == av_at(u, c, g));
            assert(!(av(t, c, n + 1) is Abort));
            if av(ks[i], c, n) is Abort {
                match u.data_type {
                    Type::Object(o) => {
                        lemma_kid_fields(o.fields);
                        let k = sorted_keys(o.fields.m@.dom())[i];
                        assert(o_map(o.fields, g).contains_key(k));
                        assert(o_map(o.fields, g)[k] is Abort);
                    }
                    Type::Tuple(p) => { assert(o_seq(p.items.v@, g)[i] is Abort); }
                    _ => {}
                }
            }
        }
        assert(av_no_abort_from(ks[i], c, nmax(a, d)));
    }
}

pub proof fn lemma_kid_fields(h: HashMap<Box<Tag>>)
    ensures
        key_order(h.m@.dom()),
        kid_fields(h).len() == sorted_keys(h.m@.dom()).len(),
        forall|k: Seq<char>| #[trigger] h.m@.contains_key(k) ==> exists|i: int| 0 <= i < kid_fields(h).len() && #[trigger] sorted_keys(h.m@.dom())[i] == k && kid_fields(h)[i] == *h.m@[k],
        forall|i: int| 0 <= i < kid_fields(h).len() ==> h.m@.contains_key(sorted_keys(h.m@.dom())[i]) && #[trigger] kid_fields(h)[i] == *h.m@[sorted_keys(h.m@.dom())[i]],
{
    lemma_key_order(h.m@.dom());
}
pub proof fn lemma_bq_proc(t: Tag, t1: Tag, c: Context)
    requires t_is(t, t1)
    ensures bq_proc_is(t, inf_null(inf_name(t1, c.normalize_case), c.force_nullable), c)
{
    let b = t_bound(t, t1);
    assert(t_from(t, t1, b));
    let u = inf_null(inf_name(t1, c.normalize_case), c.force_nullable);
    assert forall|n: nat| n >= b implies #[trigger] bq_proc(t, c, n) == u by { assert(t_col(t, n) == t1); }
    assert(bq_proc_from(t, u, c, b));
}
pub proof fn lemma_av_proc(t: Tag, t1: Tag, c: Context)
    requires t.is_root ==> t_is(t, t1)
    ensures av_proc_is(t, inf_null(if t.is_root { inf_name(av_root(t1), c.normalize_case) } else { t }, c.force_nullable), c)
{
    let u = inf_null(if t.is_root { inf_name(av_root(t1), c.normalize_case) } else { t }, c.force_nullable);
    if t.is_root {
        let b = t_bound(t, t1);
        assert(t_from(t, t1, b));
        assert forall|n: nat| n >= b implies #[trigger] av_proc(t, c, n) == u by { assert(t_col(t, n) == t1); }
        assert(av_proc_from(t, u, c, b));
    } else {
        assert(av_proc_from(t, u, c, 0));
    }
}
/// naming keeps tags full
pub proof fn lemma_below_full(t: Tag, ns: Seq<char>, nc: bool)
    requires full(t)
    ensures full(below(t, ns, nc))
    decreases t
{
    let d = below_type(t.data_type, ns, nc);
    assert(below(t, ns, nc).data_type == d);
    match t.data_type {
        Type::Object(o) => {
            let f = below_fields(o.fields, ns, nc);
            lemma_columns(o.fields.m@.dom(), nc);
            assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies full(*f[k]) by {
                let r = columns(o.fields.m@.dom(), nc);
                assert(r.contains_key(k));
                assert(o.fields.m@.contains_key(r[k]));
                lemma_below_full(*o.fields.m@[r[k]], under(ns, k), nc);
                lemma_full_type(*f[k], below(*o.fields.m@[r[k]], under(ns, k), nc));
            }
            assert(full(below(t, ns, nc)));
        }
        Type::Map(m) => {
            lemma_below_full(*m.value, under(ns, "value"@), nc);
            assert(below(*m.key, under(ns, "key"@), nc).data_type == below_type(m.key.data_type, under(ns, "key"@), nc));
            lemma_full_type(*d->Map_0.value, below(*m.value, under(ns, "value"@), nc));
            assert(full(below(t, ns, nc)));
        }
        Type::Array(a) => {
            lemma_below_full(*a.items, under(ns, "list"@), nc);
            lemma_full_type(*d->Array_0.items, below(*a.items, under(ns, "list"@), nc));
            assert(full(below(t, ns, nc)));
        }
        Type::Tuple(u) => {
            let w = u.items.v@;
            let f = below(t, ns, nc).data_type->Tuple_0.items.v@;
            assert(f == below_tuple(u.items, ns, nc));
            assert forall|i: int| 0 <= i < f.len() implies full(#[trigger] f[i]) by {
                lemma_below_full(w[i], under(ns, tuple_name(i)), nc);
                lemma_full_type(f[i], below(w[i], under(ns, tuple_name(i)), nc));
            }
            assert(full(below(t, ns, nc)));
        }
        Type::Union(u) => {
            let w = u.items.v@;
            let f = below(t, ns, nc).data_type->Union_0.items.v@;
            assert(f == below_union(u.items, ns, nc));
            assert forall|i: int| 0 <= i < f.len() implies full(#[trigger] f[i]) by {
                lemma_below_full(w[i], under(ns, "__union__"@), nc);
                lemma_full_type(f[i], below(w[i], under(ns, "__union__"@), nc));
            }
            assert(full(below(t, ns, nc)));
        }
        _ => { assert(full(below(t, ns, nc))); }
    }
}
pub proof fn lemma_full_kids(u: Tag)
    requires full(u)
    ensures
        forall|i: int| 0 <= i < bq_kids(u).len() ==> full(#[trigger] bq_kids(u)[i]),
        forall|i: int| 0 <= i < av_kids(u).len() ==> full(#[trigger] av_kids(u)[i]),
        u.data_type is Map ==> plain_key(u.data_type->Map_0),
{
    match u.data_type {
        Type::Object(o) => { lemma_kid_fields(o.fields); }
        Type::Map(m) => { assert(full(*m.key)); }
        _ => {}
    }
}
pub open spec fn columns_of(v: Vec<(String, Box<bigquery::Tag>)>) -> Seq<(String, Box<bigquery::Tag>)> { v.v@ }
pub open spec fn fields_in(v: Vec<avro::Field>) -> Seq<avro::Field> { v.v@ }
pub open spec fn bq_results<E>(v: Vec<Result<bigquery::Tag, E>>) -> Seq<Result<bigquery::Tag, E>> { v.v@ }
/// one of the entries has the key
pub open spec fn has_key<T>(s: Seq<(String, T)>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.s@ == k }
pub proof fn lemma_has_key<T>(s: Seq<(String, T)>, e: (String, T))
    ensures forall|k: Seq<char>| #[trigger] has_key(s.push(e), k) == (has_key(s, k) || k == e.0.s@)
{
    assert forall|k: Seq<char>| #[trigger] has_key(s.push(e), k) == (has_key(s, k) || k == e.0.s@) by {
        if has_key(s, k) {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.s@ == k;
            assert(s.push(e)[i].0.s@ == k);
        }
        if k == e.0.s@ { assert(s.push(e)[s.len() as int].0.s@ == k); }
        if has_key(s.push(e), k) {
            let i = choose|i: int| 0 <= i < s.push(e).len() && (#[trigger] s.push(e)[i]).0.s@ == k;
            if i < s.len() { assert(s[i].0.s@ == k); }
        }
    }
}
/// entries of a map, with whichever of its keys
pub proof fn lemma_collect_some<B>(s: Seq<(String, B)>, m: Map<Seq<char>, B>)
    requires
        forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0.s@) && m[s[i].0.s@] == s[i].1,
        forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> has_key(s, k),
    ensures
        forall|r: HashMap<B>| #[trigger] <HashMap<B> as VCollect<(String, B)>>::collects(s, r) ==> r.m@ == m,
{
    assert forall|r: HashMap<B>| #[trigger] <HashMap<B> as VCollect<(String, B)>>::collects(s, r) implies r.m@ == m by {
        assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies r.m@.contains_key(k) && r.m@[k] == m[k] by {
            assert(has_key(s, k));
            let i = last_key(s, k, s.len());
            lemma_last_key(s, k, s.len());
            assert(r.m@[s[i].0.s@] == s[i].1);
        }
        assert(r.m@ =~= m);
    }
}
/// the columns of an object, once all its fields have been seen to
pub proof fn lemma_bq_fields<'a>(h: HashMap<Box<Tag>>, src: Seq<(&'a String, &'a Box<Tag>)>, out: Seq<(String, Box<bigquery::Tag>)>, c: Context)
    requires
        lists(h.m@, src),
        forall|j: int| 0 <= j < src.len() ==> bq_conv(*h.m@[(#[trigger] src[j]).0.s@], c),
        forall|j: int| 0 <= j < src.len() && bq_lims(c)(**(#[trigger] src[j]).1) is Val ==> has_key(out, src[j].0.s@),
        forall|j: int| 0 <= j < src.len() ==> !(bq_lims(c)(**(#[trigger] src[j]).1) is Abort),
        forall|i: int| 0 <= i < out.len() ==> vals(o_map(h, bq_lims(c))).contains_key((#[trigger] out[i]).0.s@) && vals(o_map(h, bq_lims(c)))[out[i].0.s@] == out[i].1,
    ensures
        forall|r: HashMap<Box<bigquery::Tag>>| #[trigger] <HashMap<Box<bigquery::Tag>> as VCollect<(String, Box<bigquery::Tag>)>>::collects(out, r) ==> r.m@ == vals(o_map(h, bq_lims(c))),
        !map_aborts(o_map(h, bq_lims(c))),
        forall|i: int| 0 <= i < kid_fields(h).len() ==> bq_conv(#[trigger] kid_fields(h)[i], c),
{
    let g = bq_lims(c);
    let f0 = vals(o_map(h, g));
    assert forall|k: Seq<char>| #[trigger] f0.contains_key(k) implies has_key(out, k) by {
        let j = choose|j: int| 0 <= j < src.len() && (#[trigger] src[j]).0.s@ == k;
        assert(g(**src[j].1) is Val);
    }
    lemma_collect_some(out, f0);
    if map_aborts(o_map(h, g)) {
        let k = choose|k: Seq<char>| #[trigger] o_map(h, g).contains_key(k) && o_map(h, g)[k] is Abort;
        let j = choose|j: int| 0 <= j < src.len() && (#[trigger] src[j]).0.s@ == k;
        assert(g(**src[j].1) is Abort);
    }
    lemma_key_order(h.m@.dom());
    assert forall|i: int| 0 <= i < kid_fields(h).len() implies bq_conv(#[trigger] kid_fields(h)[i], c) by {
        let k = sorted_keys(h.m@.dom())[i];
        assert(h.m@.contains_key(k));
        let j = choose|j: int| 0 <= j < src.len() && (#[trigger] src[j]).0.s@ == k;
        assert(bq_conv(*h.m@[src[j].0.s@], c));
    }
}
/// the fields of a record, once all fields of the object have been seen to
pub proof fn lemma_av_fields<'a>(h: HashMap<Box<Tag>>, src: Seq<(&'a String, &'a Box<Tag>)>, out: Seq<avro::Field>, c: Context)
    requires
        lists(h.m@, src),
        forall|j: int| 0 <= j < src.len() ==> av_conv(*h.m@[(#[trigger] src[j]).0.s@], c),
        forall|j: int| 0 <= j < src.len() && av_lims(c)(**(#[trigger] src[j]).1) is Val ==> has_field(out, src[j].0.s@),
        forall|j: int| 0 <= j < src.len() ==> !(av_lims(c)(**(#[trigger] src[j]).1) is Abort),
        forall|i: int| 0 <= i < out.len() ==> field_is(h, o_map(h, av_lims(c)), #[trigger] out[i]),
        forall|i: int, j: int| 0 <= i < j < out.len() ==> (#[trigger] out[i]).name.s@ != (#[trigger] out[j]).name.s@,
    ensures
        fields_are(h, o_map(h, av_lims(c)), out),
        !map_aborts(o_map(h, av_lims(c))),
        forall|i: int| 0 <= i < kid_fields(h).len() ==> av_conv(#[trigger] kid_fields(h)[i], c),
{
    let g = av_lims(c);
    let f0 = o_map(h, g);
    assert forall|k: Seq<char>| #[trigger] kept(f0).contains(k) implies has_field(out, k) by {
        assert(h.m@.contains_key(k));
        let j = choose|j: int| 0 <= j < src.len() && (#[trigger] src[j]).0.s@ == k;
        assert(g(**src[j].1) is Val);
    }
    if map_aborts(f0) {
        let k = choose|k: Seq<char>| #[trigger] f0.contains_key(k) && f0[k] is Abort;
        let j = choose|j: int| 0 <= j < src.len() && (#[trigger] src[j]).0.s@ == k;
        assert(g(**src[j].1) is Abort);
    }
    lemma_key_order(h.m@.dom());
    assert forall|i: int| 0 <= i < kid_fields(h).len() implies av_conv(#[trigger] kid_fields(h)[i], c) by {
        let k = sorted_keys(h.m@.dom())[i];
        assert(h.m@.contains_key(k));
        let j = choose|j: int| 0 <= j < src.len() && (#[trigger] src[j]).0.s@ == k;
        assert(av_conv(*h.m@[src[j].0.s@], c));
    }
}
pub open spec fn last_key<B>(s: Seq<(String, B)>, k: Seq<char>, n: nat) -> int
    decreases n
{
    if n == 0 { 0 } else if s[n - 1].0.s@ == k { n - 1 } else { last_key(s, k, (n - 1) as nat) }
}
pub proof fn lemma_last_key<B>(s: Seq<(String, B)>, k: Seq<char>, n: nat)
    requires n <= s.len(), exists|i: int| 0 <= i < n && (#[trigger] s[i]).0.s@ == k
    ensures ({
        let i = last_key(s, k, n);
        0 <= i < n && s[i].0.s@ == k && forall|j: int| i < j < n ==> (#[trigger] s[j]).0.s@ != k
    })
    decreases n
{
    if n > 0 && s[n - 1].0.s@ != k { lemma_last_key(s, k, (n - 1) as nat); }
}
/// the values of all members, when none of them is missing
pub proof fn lemma_collect_all<E>(s: Seq<Result<bigquery::Tag, E>>, f: Seq<Out<bigquery::Tag>>)
    requires
        s.len() == f.len(),
        forall|i: int| 0 <= i < s.len() ==> out(#[trigger] s[i]) == f[i],
    ensures
        forall|r: Result<Vec<bigquery::Tag>, E>| #[trigger] <Result<Vec<bigquery::Tag>, E> as VCollect<Result<bigquery::Tag, E>>>::collects(s, r) ==>
            (r is Err) == seq_fails(f)
            && (r is Ok ==> r->Ok_0.v@.len() == f.len() && forall|i: int| 0 <= i < f.len() ==> #[trigger] r->Ok_0.v@[i] == f[i]->Val_0),
        !seq_aborts(f),
{
    assert forall|r: Result<Vec<bigquery::Tag>, E>| #[trigger] <Result<Vec<bigquery::Tag>, E> as VCollect<Result<bigquery::Tag, E>>>::collects(s, r) implies
            (r is Err) == seq_fails(f)
            && (r is Ok ==> r->Ok_0.v@.len() == f.len() && forall|i: int| 0 <= i < f.len() ==> #[trigger] r->Ok_0.v@[i] == f[i]->Val_0) by {
        match r {
            Ok(v) => {
                assert forall|i: int| 0 <= i < f.len() implies f[i] is Val && #[trigger] v.v@[i] == f[i]->Val_0 by {
                    assert(s[i] is Ok);
                    assert(out(s[i]) == f[i]);
                }
                if seq_fails(f) {
                    let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]) is Err;
                    assert(s[i] is Ok);
                    assert(out(s[i]) == f[i]);
                }
            }
            Err(e) => {
                let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Err;
                assert(out(s[i]) == f[i]);
                assert(f[i] is Err);
            }
        }
    }
    assert forall|i: int| 0 <= i < f.len() implies !((#[trigger] f[i]) is Abort) by { assert(out(s[i]) == f[i]); }
}
/// positions name the columns of a tuple apart
pub proof fn lemma_tuple_name(a: int, b: int)
    requires 0 <= a, 0 <= b, tuple_name(a) == tuple_name(b)
    ensures a == b
{
    assert("f"@.len() == 1 && "_"@.len() == 1) by { reveal_strlit("f"); reveal_strlit("_"); }
    let x = tuple_name(a);
    assert(tuple_name(a).len() == dec(a).len() + 2);
    assert(tuple_name(b).len() == dec(b).len() + 2);
    assert(x.subrange(1, x.len() - 1) =~= dec(a));
    assert(tuple_name(b).subrange(1, x.len() - 1) =~= dec(b));
    lemma_dec_injective(a, b);
}
pub proof fn lemma_bq_tuple(f: Seq<Out<bigquery::Tag>>, i: nat)
    ensures
        forall|k: Seq<char>| #[trigger] bq_tuple(f, i).contains_key(k) <==> exists|j: int| 0 <= j < i && #[trigger] tuple_name(j) == k,
        forall|j: int| 0 <= j < i ==> bq_tuple(f, i)[#[trigger] tuple_name(j)] == Box::new(bigquery::Tag { name: Some(st(tuple_name(j))), ..f[j]->Val_0 }),
    decreases i
{
    if i > 0 {
        lemma_bq_tuple(f, (i - 1) as nat);
        let m = bq_tuple(f, (i - 1) as nat);
        assert forall|j: int| 0 <= j < i - 1 implies #[trigger] tuple_name(j) != tuple_name(i - 1) by { if tuple_name(j) == tuple_name(i - 1) { lemma_tuple_name(j, i - 1); } }
        assert forall|k: Seq<char>| #[trigger] bq_tuple(f, i).contains_key(k) <==> exists|j: int| 0 <= j < i && #[trigger] tuple_name(j) == k by {
            if m.contains_key(k) {
                let j = choose|j: int| 0 <= j < i - 1 && #[trigger] tuple_name(j) == k;
                assert(0 <= j < i);
            }
            if k == tuple_name(i - 1) { assert(0 <= i - 1 < i); }
        }
    }
}
pub proof fn lemma_tuple_columns(f: Seq<Out<bigquery::Tag>>, s: Seq<(String, Box<bigquery::Tag>)>)
    requires
        s.len() == f.len(),
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.s@ == tuple_name(i) && *s[i].1 == (bigquery::Tag { name: Some(st(tuple_name(i))), ..f[i]->Val_0 }),
    ensures
        forall|r: HashMap<Box<bigquery::Tag>>| #[trigger] <HashMap<Box<bigquery::Tag>> as VCollect<(String, Box<bigquery::Tag>)>>::collects(s, r) ==> r.m@ == bq_tuple(f, f.len()),
{
    let m = bq_tuple(f, f.len());
    lemma_bq_tuple(f, f.len());
    assert forall|i: int| 0 <= i < s.len() implies m.contains_key((#[trigger] s[i]).0.s@) && m[s[i].0.s@] == s[i].1 by {
        assert(tuple_name(i) == s[i].0.s@);
    }
    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies has_key(s, k) by {
        let j = choose|j: int| 0 <= j < f.len() && #[trigger] tuple_name(j) == k;
        assert(s[j].0.s@ == k);
    }
    lemma_collect_some(s, m);
}
/// the key of a map is an atom
pub proof fn lemma_bq_key(t: Tag, c: Context)
    requires t.data_type is Atom, t.data_type != json()
    ensures bq_conv(t, c), bq_lim(t, c) is Val
{
    let r = bq(t, c, 1);
    assert forall|n: nat| n >= 1 implies #[trigger] bq(t, c, n) == r && r is Val by {
        let m = (n - 1) as nat;
        assert(t_col(t, m) == t);
        assert(t_col(t, 0) == t);
        assert(bq_proc(t, c, m) == bq_proc(t, c, 0));
        assert(bq_proc(t, c, 0).data_type == t.data_type);
    }
    assert(bq(t, c, 1) is Val);
    assert(bq_from(t, c, r, 1));
    lemma_bq_lim(t, c, r, 1);
}
/// the columns of a map
pub open spec fn map_entries(k: bigquery::Tag, v: Option<bigquery::Tag>, i: int) -> Seq<(String, Box<bigquery::Tag>)> {
    if i == 0 { Seq::empty() } else if i == 1 || v is None { seq![(st("key"@), Box::new(k))] }
    else { seq![(st("key"@), Box::new(k)), (st("value"@), Box::new(v->0))] }
}
pub open spec fn map_columns(k: bigquery::Tag, v: Option<bigquery::Tag>) -> Map<Seq<char>, Box<bigquery::Tag>> {
    if v is None { one("key"@, k) } else { one("key"@, k).insert("value"@, Box::new(v->0)) }
}
pub proof fn lemma_map_entries(k: bigquery::Tag, v: Option<bigquery::Tag>)
    ensures
        forall|r: HashMap<Box<bigquery::Tag>>| #[trigger] <HashMap<Box<bigquery::Tag>> as VCollect<(String, Box<bigquery::Tag>)>>::collects(map_entries(k, v, 2), r) ==> r.m@ == map_columns(k, v),
{
    reveal_strlit("key"); reveal_strlit("value");
    assert("key"@.len() != "value"@.len());
    let s = map_entries(k, v, 2);
    let m = map_columns(k, v);
    assert(s[0].0.s@ == "key"@);
    assert(has_key(s, "key"@));
    if v is Some { assert(s[1].0.s@ == "value"@); assert(has_key(s, "value"@)); }
    lemma_collect_some(s, m);
}
/// entries of a map sorted by their keys
pub proof fn lemma_sort_entries<T>(m: Map<Seq<char>, T>, rows: Seq<(String, T)>, ks: Seq<String>, r: Seq<(String, T)>)
    requires
        lists_own(m, rows),
        ks.len() == rows.len(),
        forall|i: int| 0 <= i < ks.len() ==> (#[trigger] ks[i]).s@ == rows[i].0.s@,
        by_keys(rows, ks, r),
    ensures
        key_order(m.dom()),
        r.len() == sorted_keys(m.dom()).len(),
        forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).1 == m[sorted_keys(m.dom())[i]] && r[i].0.s@ == sorted_keys(m.dom())[i],
{
    let p = choose|p: Seq<int>| #[trigger] sorts(rows, ks, r, p);
    assert(keyed(m.dom(), ks)) by {
        assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies exists|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).s@ == k by {
            assert(m.contains_key(k));
            let i = choose|i: int| 0 <= i < rows.len() && (#[trigger] rows[i]).0.s@ == k;
            assert(ks[i].s@ == k);
        }
        assert forall|i: int, j: int| 0 <= i < j < ks.len() implies (#[trigger] ks[i]).s@ != (#[trigger] ks[j]).s@ by {
            assert(rows[i].0.s@ != rows[j].0.s@);
        }
        assert forall|i: int| 0 <= i < ks.len() implies m.dom().contains((#[trigger] ks[i]).s@) by { assert(m.contains_key(rows[i].0.s@)); }
    }
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).1 == m[sorted_keys(m.dom())[i]] && r[i].0.s@ == sorted_keys(m.dom())[i] by {
        assert(ks[p[i]].s@ == sorted_keys(m.dom())[i]);
        assert(r[i] == rows[p[i]]);
    }
}
pub open spec fn bq_columns(v: Vec<bigquery::Tag>) -> Seq<bigquery::Tag> { v.v@ }
/// a table can be made
pub open spec fn bq_table(t: Tag, c: Context) -> bool {
    bq_lim(t, c) is Val && (bq_single(bq_lim(t, c)->Val_0) ==> bq_lim(t, c)->Val_0.name is None)
}
pub open spec fn keys_are<T>(rows: Seq<(String, T)>, ks: Seq<String>) -> bool {
    ks.len() == rows.len() && forall|i: int| 0 <= i < ks.len() ==> (#[trigger] ks[i]).s@ == rows[i].0.s@
}
pub open spec fn entries_sorted<T>(m: Map<Seq<char>, T>, r: Seq<(String, T)>) -> bool {
    &&& key_order(m.dom())
    &&& r.len() == sorted_keys(m.dom()).len()
    &&& forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).1 == m[sorted_keys(m.dom())[i]] && r[i].0.s@ == sorted_keys(m.dom())[i]
}
pub proof fn lemma_sort_any<T>(m: Map<Seq<char>, T>, rows: Seq<(String, T)>)
    requires lists_own(m, rows)
    ensures forall|ks: Seq<String>, r: Seq<(String, T)>| #[trigger] by_keys(rows, ks, r) && keys_are(rows, ks) ==> entries_sorted(m, r)
{
    assert forall|ks: Seq<String>, r: Seq<(String, T)>| #[trigger] by_keys(rows, ks, r) && keys_are(rows, ks) implies entries_sorted(m, r) by {
        lemma_sort_entries(m, rows, ks, r);
    }
}
/// the entries with the columns borrowed
pub proof fn lemma_refs<'a, 'b>(m: Map<Seq<char>, Box<bigquery::Tag>>, r: Seq<(&'a String, &'a Box<bigquery::Tag>)>, rows: Seq<(String, &'b bigquery::Tag)>)
    requires
        lists(m, r), rows.len() == r.len(),
        forall|i: int| 0 <= i < r.len() ==> (#[trigger] rows[i]).0 == *r[i].0,
        forall|i: int| 0 <= i < r.len() ==> *(#[trigger] rows[i]).1 == **r[i].1,
    ensures lists_own(printing::refs(m), rows)
{
    assert forall|k: Seq<char>| #[trigger] printing::refs(m).contains_key(k) implies exists|i: int| 0 <= i < rows.len() && (#[trigger] rows[i]).0.s@ == k by {
        let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0.s@ == k;
        assert(rows[i].0.s@ == k);
    }
    assert forall|i: int| 0 <= i < rows.len() implies printing::refs(m).contains_key((#[trigger] rows[i]).0.s@) && printing::refs(m)[rows[i].0.s@] == rows[i].1 by {
        assert(m.contains_key(r[i].0.s@));
    }
    assert forall|i: int, j: int| 0 <= i < j < rows.len() implies (#[trigger] rows[i]).0.s@ != (#[trigger] rows[j]).0.s@ by {
        assert(r[i].0.s@ != r[j].0.s@);
    }
}
// ---------------------------------------------------------------- Avro fields

pub open spec fn has_field(s: Seq<avro::Field>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name.s@ == k }
pub proof fn lemma_has_field(s: Seq<avro::Field>, e: avro::Field)
    ensures forall|k: Seq<char>| #[trigger] has_field(s.push(e), k) == (has_field(s, k) || k == e.name.s@)
{
    assert forall|k: Seq<char>| #[trigger] has_field(s.push(e), k) == (has_field(s, k) || k == e.name.s@) by {
        if has_field(s, k) {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name.s@ == k;
            assert(s.push(e)[i].name.s@ == k);
        }
        if k == e.name.s@ { assert(s.push(e)[s.len() as int].name.s@ == k); }
        if has_field(s.push(e), k) {
            let i = choose|i: int| 0 <= i < s.push(e).len() && (#[trigger] s.push(e)[i]).name.s@ == k;
            if i < s.len() { assert(s[i].name.s@ == k); }
        }
    }
}
/// a kept field, as it is written
pub open spec fn field_is(h: HashMap<Box<Tag>>, f: Map<Seq<char>, Out<avro::Type>>, e: avro::Field) -> bool {
    kept(f).contains(e.name.s@) && e == av_field(e.name.s@, f[e.name.s@]->Val_0, h.m@[e.name.s@].nullable)
}
/// all kept fields, each once
pub open spec fn fields_are(h: HashMap<Box<Tag>>, f: Map<Seq<char>, Out<avro::Type>>, rows: Seq<avro::Field>) -> bool {
    &&& forall|i: int| 0 <= i < rows.len() ==> field_is(h, f, #[trigger] rows[i])
    &&& forall|k: Seq<char>| #[trigger] kept(f).contains(k) ==> has_field(rows, k)
    &&& forall|i: int, j: int| 0 <= i < j < rows.len() ==> (#[trigger] rows[i]).name.s@ != (#[trigger] rows[j]).name.s@
}
pub open spec fn names_are(rows: Seq<avro::Field>, ks: Seq<String>) -> bool {
    ks.len() == rows.len() && forall|i: int| 0 <= i < ks.len() ==> (#[trigger] ks[i]).s@ == rows[i].name.s@
}
pub proof fn lemma_sort_fields(h: HashMap<Box<Tag>>, f: Map<Seq<char>, Out<avro::Type>>, rows: Seq<avro::Field>)
    requires fields_are(h, f, rows)
    ensures
        (rows.len() == 0) == (kept(f) =~= Set::empty()),
        forall|ks: Seq<String>, r: Seq<avro::Field>| #[trigger] by_keys(rows, ks, r) && names_are(rows, ks) ==> r == av_fields(h, f),
{
    if rows.len() > 0 { assert(field_is(h, f, rows[0])); assert(kept(f).contains(rows[0].name.s@)); }
    if rows.len() == 0 {
        assert forall|k: Seq<char>| !kept(f).contains(k) by { if kept(f).contains(k) { assert(has_field(rows, k)); } }
        assert(kept(f) =~= Set::empty());
    }
    let d = kept(f);
    assert forall|ks: Seq<String>, r: Seq<avro::Field>| #[trigger] by_keys(rows, ks, r) && names_are(rows, ks) implies r == av_fields(h, f) by {
        let p = choose|p: Seq<int>| #[trigger] sorts(rows, ks, r, p);
        assert(keyed(d, ks)) by {
            assert forall|k: Seq<char>| #[trigger] d.contains(k) implies exists|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).s@ == k by {
                assert(has_field(rows, k));
                let i = choose|i: int| 0 <= i < rows.len() && (#[trigger] rows[i]).name.s@ == k;
                assert(ks[i].s@ == k);
            }
            assert forall|i: int, j: int| 0 <= i < j < ks.len() implies (#[trigger] ks[i]).s@ != (#[trigger] ks[j]).s@ by {
                assert(rows[i].name.s@ != rows[j].name.s@);
            }
            assert forall|i: int| 0 <= i < ks.len() implies d.contains((#[trigger] ks[i]).s@) by { assert(field_is(h, f, rows[i])); }
        }
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] == av_fields(h, f)[i] by {
            assert(ks[p[i]].s@ == sorted_keys(d)[i]);
            assert(r[i] == rows[p[i]]);
            assert(field_is(h, f, rows[p[i]]));
        }
        assert(r =~= av_fields(h, f));
    }
}
}
} // verus!
