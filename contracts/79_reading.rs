// What serde reads values as, apart from the attributes of the types.
verus! {
pub mod reading {
use super::*;
use super::shim::*;

/// the member of an object that no one else takes
pub open spec fn own(x: Value, z: Set<Seq<char>>, k: Seq<char>) -> Option<Value> {
    match x { Value::Object(o) => if o.m@.contains_key(k) && !z.contains(k) { Some(o.m@[k]) } else { None }, _ => None }
}
/// the members no one else takes
pub open spec fn rest(x: Value, z: Set<Seq<char>>) -> Set<Seq<char>> { x->Object_0.m@.dom().difference(z) }
/// a number that is a size
pub uninterp spec fn number_usize(n: int) -> Option<usize>;
/// unit variants written as objects, and structs as lists
pub uninterp spec fn read_unit<T>(x: Value) -> Option<T>;
pub uninterp spec fn read_from_list<T>(x: Value) -> Option<T>;
/// all or none of them
pub open spec fn some_vec<T>(s: Seq<Option<T>>) -> Option<Vec<T>> {
    if forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Some { Some(vc(s.map_values(|o: Option<T>| o->0))) } else { None }
}
pub open spec fn all_some<T>(m: Map<Seq<char>, Option<T>>) -> bool { forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> m[k] is Some }
pub open spec fn some_hash<T>(m: Map<Seq<char>, Option<T>>) -> Option<HashMap<T>> {
    if all_some(m) { Some(hm(Map::new(m.dom(), |k: Seq<char>| m[k]->0))) } else { None }
}
pub open spec fn some_tree<T>(m: Map<Seq<char>, Option<T>>) -> Option<BTreeMap<T>> {
    if all_some(m) { Some(BTreeMap { m: Ghost(Map::new(m.dom(), |k: Seq<char>| m[k]->0)) }) } else { None }
}
pub open spec fn some_words(s: Seq<Value>) -> Option<HashSet> {
    if forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is String { Some(hs(s.map_values(|v: Value| v->String_0.s@).to_set())) } else { None }
}
}
} // verus!
