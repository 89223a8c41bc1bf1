// What the functions of the crate compute, written without the order in which
// hash maps are iterated: the contracts tie the code to these definitions.
verus! {
pub mod spec {
use super::*;
use super::shim::*;
use super::ast::{Tag, Type, Object, Union, Tuple, Atom};

pub use super::spec_in::*;
pub use super::spec_out::*;
pub use super::spec_lib::*;

/// Whether the inputs may be ones the translation is allowed to abort on.
/// Nothing is known of it, so every proof holds for both values.
pub uninterp spec fn lenient() -> bool;

pub open spec fn boxed(m: Map<Seq<char>, Tag>) -> Map<Seq<char>, Box<Tag>> { Map::new(m.dom(), |k: Seq<char>| Box::new(m[k])) }

pub open spec fn fields_of(t: Tag) -> HashMap<Box<Tag>> { t.data_type->Object_0.fields }

pub open spec fn holds(v: Seq<String>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).s@ == k }

pub open spec fn strs(v: Vec<String>) -> Seq<String> { v.v@ }
pub open spec fn pairs(v: Vec<(String, Tag)>) -> Seq<(String, Tag)> { v.v@ }

// ---------------------------------------------------------------- names

/// a name that starts with a digit, or is empty, is prefixed
pub open spec fn prefix(s: Seq<char>) -> Seq<char> {
    if s.len() > 0 && !numeric(s[0]) { s } else { "_"@ + s }
}
pub open spec fn head_char(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || c == '_' }
pub open spec fn tail_char(c: char) -> bool { head_char(c) || ('0' <= c && c <= '9') }
/// letters, digits and underscores, not starting with a digit
pub open spec fn ident(s: Seq<char>) -> bool {
    s.len() > 0 && head_char(s[0]) && forall|i: int| 0 <= i < s.len() ==> tail_char(#[trigger] s[i])
}
pub open spec fn undot(s: Seq<char>) -> Seq<char> {
    s.map_values(|c: char| if c == '.' || c == '-' { '_' } else { c })
}
pub open spec fn norm_bq(s: Seq<char>) -> Option<Seq<char>> {
    if ident(prefix(undot(s))) { Some(prefix(undot(s))) } else { None }
}
/// the column a property is called after, if it can be one
pub open spec fn column(k: Seq<char>, nc: bool) -> Option<Seq<char>> {
    match norm_bq(k) {
        Some(r) => Some(if nc { prefix(snake(r)) } else { r }),
        None => None,
    }
}
/// column -> property after the first `i` properties in ascending order
pub open spec fn ren(d: Set<Seq<char>>, i: nat, nc: bool) -> Map<Seq<char>, Seq<char>>
    decreases i
{
    if i == 0 { Map::new(d, |k: Seq<char>| k) } else {
        ren_step(ren(d, (i - 1) as nat, nc), sorted_keys(d)[i - 1], nc)
    }
}
pub open spec fn ren_step(m: Map<Seq<char>, Seq<char>>, k: Seq<char>, nc: bool) -> Map<Seq<char>, Seq<char>> {
    match column(k, nc) {
        Some(r) => if r == k { m } else { m.insert(r, m[k]).remove(k) },
        None => m.remove(k),
    }
}
pub open spec fn columns(d: Set<Seq<char>>, nc: bool) -> Map<Seq<char>, Seq<char>> { ren(d, sorted_keys(d).len(), nc) }
pub open spec fn norm_fields(h: HashMap<Box<Tag>>, nc: bool) -> Map<Seq<char>, Box<Tag>> {
    pick(h.m@, columns(h.m@.dom(), nc))
}
pub open spec fn pick(m: Map<Seq<char>, Box<Tag>>, r: Map<Seq<char>, Seq<char>>) -> Map<Seq<char>, Box<Tag>> {
    Map::new(r.dom(), |k: Seq<char>| m[r[k]])
}
pub open spec fn norm_req(r: Set<Seq<char>>, nc: bool) -> Set<Seq<char>> {
    r.filter(|k: Seq<char>| column(k, nc) is Some).map(|k: Seq<char>| column(k, nc)->0)
}
pub open spec fn norm_opt(r: Option<HashSet>, nc: bool) -> Option<HashSet> {
    match r { Some(s) => Some(hs(norm_req(s.e@, nc))), None => None }
}
pub open spec fn norm_tag(t: Tag, nc: bool) -> Tag {
    match t.data_type {
        Type::Object(o) => Tag { data_type: Type::Object(Object { fields: hm(norm_fields(o.fields, nc)), required: norm_opt(o.required, nc) }), ..t },
        _ => t,
    }
}
/// a tag called `k` within the namespace `ns`
pub open spec fn with_name(t: Tag, k: Seq<char>, ns: Seq<char>) -> Tag {
    Tag { name: Some(st(k)), namespace: if ns.len() == 0 { None } else { Some(st(ns)) }, ..t }
}
pub open spec fn under(ns: Seq<char>, k: Seq<char>) -> Seq<char> { ns + "."@ + k }
pub open spec fn tuple_name(i: int) -> Seq<char> { "f"@ + dec(i) + "_"@ }

/// names and namespaces below a tag
pub open spec fn below(t: Tag, ns: Seq<char>, nc: bool) -> Tag
    decreases t
{
    Tag { data_type: below_type(t.data_type, ns, nc), ..t }
}
pub open spec fn named(t: Tag, k: Seq<char>, ns: Seq<char>, nc: bool) -> Tag { below(with_name(t, k, ns), under(ns, k), nc) }
pub open spec fn below_type(d: Type, ns: Seq<char>, nc: bool) -> Type
    decreases d
{
    match d {
        Type::Object(o) => Type::Object(Object { fields: hm(below_fields(o.fields, ns, nc)), required: norm_opt(o.required, nc) }),
        Type::Map(m) => Type::Map(ast::Map {
            key: Box::new(with_name(below(*m.key, under(ns, "key"@), nc), "key"@, ns)),
            value: Box::new(with_name(below(*m.value, under(ns, "value"@), nc), "value"@, ns)),
        }),
        Type::Array(a) => Type::Array(ast::Array { items: Box::new(with_name(below(*a.items, under(ns, "list"@), nc), "list"@, ns)) }),
        Type::Tuple(u) => Type::Tuple(Tuple { items: vc(below_tuple(u.items, ns, nc)) }),
        Type::Union(u) => Type::Union(Union { items: vc(below_union(u.items, ns, nc)) }),
        _ => d,
    }
}
pub open spec fn below_fields(h: HashMap<Box<Tag>>, ns: Seq<char>, nc: bool) -> Map<Seq<char>, Box<Tag>>
    decreases h
{
    let r = columns(h.m@.dom(), nc);
    Map::new(r.dom(), |k: Seq<char>| if h.m@.contains_key(r[k]) {
        Box::new(with_name(below(*h.m@[r[k]], under(ns, k), nc), k, ns))
    } else { arbitrary() })
}
pub open spec fn below_tuple(v: Vec<Tag>, ns: Seq<char>, nc: bool) -> Seq<Tag>
    decreases v
{
    Seq::new(v.v@.len(), |i: int| if 0 <= i < v.v@.len() {
        with_name(below(v.v@[i], under(ns, tuple_name(i)), nc), tuple_name(i), ns)
    } else { arbitrary() })
}
pub open spec fn below_union(v: Vec<Tag>, ns: Seq<char>, nc: bool) -> Seq<Tag>
    decreases v
{
    Seq::new(v.v@.len(), |i: int| if 0 <= i < v.v@.len() {
        with_name(below(v.v@[i], under(ns, "__union__"@), nc), "__union__"@, ns)
    } else { arbitrary() })
}
pub open spec fn text(s: Option<String>) -> Seq<char> { match s { Some(x) => x.s@, None => Seq::empty() } }
pub open spec fn base(t: Tag) -> Seq<char> {
    match t.namespace { Some(ns) => under(ns.s@, text(t.name)), None => text(t.name) }
}
pub open spec fn inf_name(t: Tag, nc: bool) -> Tag { below(t, base(t), nc) }
pub open spec fn full_name(t: Tag) -> Seq<char> {
    let name = match t.name { Some(x) => x.s@, None => "__unknown__"@ };
    match t.namespace { Some(ns) => under(ns.s@, name), None => name }
}

// ---------------------------------------------------------------- nullability

pub open spec fn inf_null(t: Tag, f: bool) -> Tag
    decreases t
{
    Tag { nullable: f || t.nullable || t.data_type is Null, data_type: inf_type(t.data_type, f), ..t }
}
pub open spec fn inf_type(d: Type, f: bool) -> Type
    decreases d
{
    match d {
        Type::Object(o) => Type::Object(Object { fields: hm(inf_fields(o.fields, o.required, f)), required: o.required }),
        Type::Map(m) => Type::Map(ast::Map { key: m.key, value: Box::new(inf_null(*m.value, f)) }),
        Type::Array(a) => Type::Array(ast::Array { items: Box::new(inf_null(*a.items, f)) }),
        Type::Tuple(u) => Type::Tuple(Tuple { items: vc(inf_seq(u.items, f)) }),
        Type::Union(u) => Type::Union(Union { items: vc(inf_seq(u.items, f)) }),
        _ => d,
    }
}
pub open spec fn demands(r: Option<HashSet>, k: Seq<char>) -> bool { r is Some && r->0.e@.contains(k) }
/// a field that is not required may be missing
pub open spec fn optional(t: Tag, b: bool) -> Tag { Tag { nullable: t.nullable || b, ..t } }
pub open spec fn inf_fields(h: HashMap<Box<Tag>>, r: Option<HashSet>, f: bool) -> Map<Seq<char>, Box<Tag>>
    decreases h
{
    Map::new(h.m@.dom(), |k: Seq<char>| if h.m@.contains_key(k) {
        Box::new(optional(inf_null(*h.m@[k], f), f || !demands(r, k)))
    } else { arbitrary() })
}
pub open spec fn inf_seq(v: Vec<Tag>, f: bool) -> Seq<Tag>
    decreases v
{
    Seq::new(v.v@.len(), |i: int| if 0 <= i < v.v@.len() { inf_null(v.v@[i], f) } else { arbitrary() })
}

// ---------------------------------------------------------------- collapse

/// The results of collapsing are defined by a bound on the depth of unions and
/// merges; `u_is` and `t_is` relate a value to what is reached from some bound on.
pub open spec fn plain(d: Type, n: bool) -> Tag {
    Tag { data_type: d, name: None, namespace: None, nullable: n, is_root: false, description: None, title: None }
}
/// the only variant of a union
pub open spec fn alone(t: Tag, n: bool) -> Tag { Tag { name: None, namespace: None, nullable: n, is_root: false, ..t } }
pub open spec fn json() -> Type { Type::Atom(Atom::Json) }
pub open spec fn some_null(s: Seq<Tag>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).data_type is Null }
pub open spec fn some_nullable(s: Seq<Tag>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).nullable }
pub open spec fn all_atoms(s: Seq<Tag>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).data_type is Atom }
pub open spec fn all_objects(s: Seq<Tag>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).data_type is Object }
pub open spec fn all_maps(s: Seq<Tag>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).data_type is Map }
pub open spec fn all_arrays(s: Seq<Tag>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).data_type is Array }

/// the atom two atoms have in common
pub open spec fn join_atom(l: Atom, r: Atom) -> Atom {
    match (l, r) {
        (Atom::Boolean, Atom::Boolean) => Atom::Boolean,
        (Atom::Integer, Atom::Integer) => Atom::Integer,
        (Atom::Number, Atom::Number) => Atom::Number,
        (Atom::Integer, Atom::Number) => Atom::Number,
        (Atom::Number, Atom::Integer) => Atom::Number,
        (Atom::String, Atom::String) => Atom::String,
        _ => Atom::Json,
    }
}
pub open spec fn join_atoms(l: Type, r: Type) -> Type {
    match (l, r) {
        (Type::Null, Type::Atom(a)) => Type::Atom(a),
        (Type::Atom(a), Type::Atom(b)) => Type::Atom(join_atom(a, b)),
        _ => json(),
    }
}
pub open spec fn fold_atoms(s: Seq<Tag>, i: nat) -> Type
    decreases i
{
    if i == 0 { Type::Null } else { join_atoms(fold_atoms(s, (i - 1) as nat), s[i - 1].data_type) }
}
pub open spec fn map_values(s: Seq<Tag>) -> Seq<Tag> { Seq::new(s.len(), |i: int| *s[i].data_type->Map_0.value) }
pub open spec fn array_items(s: Seq<Tag>) -> Seq<Tag> { Seq::new(s.len(), |i: int| *s[i].data_type->Array_0.items) }
/// the variants of a field of two merged objects
pub open spec fn parts(l: Map<Seq<char>, Box<Tag>>, r: Map<Seq<char>, Box<Tag>>, k: Seq<char>) -> Seq<Tag> {
    if l.contains_key(k) && r.contains_key(k) { seq![*l[k], *r[k]] }
    else if l.contains_key(k) { seq![*l[k]] } else { seq![*r[k]] }
}
pub open spec fn both_req(l: Option<HashSet>, r: Option<HashSet>) -> Option<HashSet> {
    match (l, r) { (Some(x), Some(y)) => Some(hs(x.e@.intersect(y.e@))), _ => None }
}
pub open spec fn conflict(f: Map<Seq<char>, Tag>) -> bool {
    exists|k: Seq<char>| #[trigger] f.contains_key(k) && f[k].data_type == json()
}

/// the tag a union collapses into
pub open spec fn u_col(s: Seq<Tag>, n: nat) -> Tag
    decreases n, 0nat, 0nat
{
    if n == 0 { plain(json(), true) }
    else if s.len() == 1 {
        let item = t_col(s[0], (n - 1) as nat);
        alone(item, some_null(s) || item.nullable)
    } else {
        let items = flat(s, s.len(), (n - 1) as nat);
        inf_null(plain(merged(items, (n - 1) as nat), some_null(s) || some_nullable(items)), false)
    }
}
/// the variants that are not null, unions among them collapsed
pub open spec fn flat(s: Seq<Tag>, i: nat, n: nat) -> Seq<Tag>
    decreases n, 1nat, i
{
    if i == 0 { Seq::empty() } else {
        let x = s[i - 1];
        let before = flat(s, (i - 1) as nat, n);
        match x.data_type {
            Type::Null => before,
            Type::Union(u) => before.push(Tag { name: x.name, ..u_col(u.items.v@, n) }),
            _ => before.push(x),
        }
    }
}
pub open spec fn merged(s: Seq<Tag>, n: nat) -> Type
    decreases n, 2nat, 0nat
{
    if all_atoms(s) { fold_atoms(s, s.len()) }
    else if all_objects(s) { fold_objects(s, s.len(), n) }
    else if all_maps(s) { Type::Map(map_of(u_col(map_values(s), n))) }
    else if all_arrays(s) { Type::Array(ast::Array { items: Box::new(u_col(array_items(s), n)) }) }
    else { json() }
}
pub open spec fn map_of(v: Tag) -> ast::Map { ast::Map { key: Box::new(plain(Type::Atom(Atom::String), false)), value: Box::new(v) } }
pub open spec fn fold_objects(s: Seq<Tag>, i: nat, n: nat) -> Type
    decreases n, 1nat, i
{
    if i == 0 { Type::Null } else { join_objects(fold_objects(s, (i - 1) as nat, n), s[i - 1].data_type, n) }
}
pub open spec fn join_objects(l: Type, r: Type, n: nat) -> Type
    decreases n, 1nat, 0nat
{
    match (l, r) {
        (Type::Null, Type::Object(o)) => Type::Object(o),
        (Type::Object(x), Type::Object(y)) => {
            let f = merge_fields(x.fields.m@, y.fields.m@, n);
            if conflict(f) { json() } else {
                Type::Object(Object { fields: hm(boxed(f)), required: both_req(x.required, y.required) })
            }
        }
        _ => json(),
    }
}
pub open spec fn joined(x: Object, y: Object, f: Map<Seq<char>, Tag>, z: Type) -> bool {
    z == (if conflict(f) { json() } else { Type::Object(Object { fields: hm(boxed(f)), required: both_req(x.required, y.required) }) })
}
pub open spec fn merge_fields(l: Map<Seq<char>, Box<Tag>>, r: Map<Seq<char>, Box<Tag>>, n: nat) -> Map<Seq<char>, Tag>
    decreases n, 0nat, 1nat
{
    Map::new(l.dom().union(r.dom()), |k: Seq<char>| u_col(parts(l, r, k), n))
}

/// a tag with every union within it collapsed
pub open spec fn t_col(t: Tag, n: nat) -> Tag
    decreases n, 3nat, 0nat, t
{
    match t.data_type {
        Type::Union(u) => if n == 0 { Tag { data_type: json(), nullable: true, ..t } } else {
            let r = u_col(u.items.v@, (n - 1) as nat);
            t_col(Tag { data_type: r.data_type, nullable: t.nullable || r.nullable, ..t }, (n - 1) as nat)
        },
        Type::Object(o) => Tag { data_type: Type::Object(Object { fields: hm(col_fields(o.fields, n)), required: o.required }), ..t },
        Type::Map(m) => Tag { data_type: Type::Map(ast::Map { key: m.key, value: Box::new(t_col(*m.value, n)) }), ..t },
        Type::Array(a) => Tag { data_type: Type::Array(ast::Array { items: Box::new(t_col(*a.items, n)) }), ..t },
        Type::Tuple(u) => Tag { data_type: Type::Tuple(Tuple { items: vc(col_seq(u.items, n)) }), ..t },
        _ => t,
    }
}
pub open spec fn col_fields(h: HashMap<Box<Tag>>, n: nat) -> Map<Seq<char>, Box<Tag>>
    decreases n, 3nat, 0nat, h
{
    Map::new(h.m@.dom(), |k: Seq<char>| if h.m@.contains_key(k) { Box::new(t_col(*h.m@[k], n)) } else { arbitrary() })
}
pub open spec fn col_seq(v: Vec<Tag>, n: nat) -> Seq<Tag>
    decreases n, 3nat, 0nat, v
{
    Seq::new(v.v@.len(), |i: int| if 0 <= i < v.v@.len() { t_col(v.v@[i], n) } else { arbitrary() })
}

pub open spec fn u_from(s: Seq<Tag>, r: Tag, b: nat) -> bool { forall|n: nat| n >= b ==> #[trigger] u_col(s, n) == r }
pub open spec fn u_is(s: Seq<Tag>, r: Tag) -> bool { exists|b: nat| u_from(s, r, b) }
pub open spec fn t_from(t: Tag, r: Tag, b: nat) -> bool { forall|n: nat| n >= b ==> #[trigger] t_col(t, n) == r }
pub open spec fn t_is(t: Tag, r: Tag) -> bool { exists|b: nat| t_from(t, r, b) }
pub open spec fn u_bound(s: Seq<Tag>, r: Tag) -> nat { choose|b: nat| u_from(s, r, b) }
pub open spec fn t_bound(t: Tag, r: Tag) -> nat { choose|b: nat| t_from(t, r, b) }
pub open spec fn flat_from(s: Seq<Tag>, i: nat, r: Seq<Tag>, b: nat) -> bool { forall|n: nat| n >= b ==> #[trigger] flat(s, i, n) == r }
pub open spec fn merged_from(s: Seq<Tag>, r: Type, b: nat) -> bool { forall|n: nat| n >= b ==> #[trigger] merged(s, n) == r }
pub open spec fn objects_from(s: Seq<Tag>, i: nat, r: Type, b: nat) -> bool { forall|n: nat| n >= b ==> #[trigger] fold_objects(s, i, n) == r }
pub open spec fn join_from(x: Type, y: Type, r: Type, b: nat) -> bool { forall|n: nat| n >= b ==> #[trigger] join_objects(x, y, n) == r }
pub open spec fn nmax(a: nat, b: nat) -> nat { if a >= b { a } else { b } }

/// the key of one of the first entries
pub open spec fn seen<'a, V>(src: Seq<(&'a String, &'a V)>, i: int, k: Seq<char>) -> bool {
    exists|j: int| 0 <= j < i && (#[trigger] src[j]).0.s@ == k
}
pub open spec fn some_parts(l: Map<Seq<char>, Box<Tag>>, r: Map<Seq<char>, Box<Tag>>, k: Seq<char>, seen: bool) -> Seq<Tag> {
    if l.contains_key(k) && seen { seq![*l[k], *r[k]] } else if l.contains_key(k) { seq![*l[k]] } else { seq![*r[k]] }
}

/// no empty union within, and maps have the keys the translation gives them
pub open spec fn full(t: Tag) -> bool
    decreases t
{
    match t.data_type {
        Type::Object(o) => forall|k: Seq<char>| #[trigger] o.fields.m@.contains_key(k) ==> full(*o.fields.m@[k]),
        Type::Map(m) => plain_key(m) && full(*m.value),
        Type::Array(a) => full(*a.items),
        Type::Tuple(u) => forall|i: int| 0 <= i < u.items.v@.len() ==> full(#[trigger] u.items.v@[i]),
        Type::Union(u) => u.items.v@.len() > 0 && forall|i: int| 0 <= i < u.items.v@.len() ==> full(#[trigger] u.items.v@[i]),
        _ => true,
    }
}
pub open spec fn plain_key(m: ast::Map) -> bool { m.key.data_type is Atom && m.key.data_type != json() }
pub open spec fn full_seq(s: Seq<Tag>) -> bool { forall|i: int| 0 <= i < s.len() ==> full(#[trigger] s[i]) }
}
} // verus!
