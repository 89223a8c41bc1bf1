// Assumed behaviour of the standard library and the dependencies: every
// `external_body` function and `axiom` below is part of the trusted base.
verus! {
pub mod shim {
use super::*;

pub struct HashMap<V> { pub m: Ghost<Map<Seq<char>, V>> }
pub struct BTreeMap<V> { pub m: Ghost<Map<Seq<char>, V>> }
pub struct HashSet { pub e: Ghost<Set<Seq<char>>> }
pub struct Vec<T> { pub v: Ghost<Seq<T>> }
pub struct String { pub s: Ghost<Seq<char>> }

/// serde_json::Value
pub enum Value {
    Null,
    Bool(bool),
    Number(Ghost<int>),
    String(String),
    Array(Vec<Value>),
    Object(HashMap<Value>),
}

// ---------------------------------------------------------------- strings

pub open spec fn st(s: Seq<char>) -> String { String { s: Ghost(s) } }

#[verifier::external_body]
pub fn lit(s: &'static str) -> (r: &'static String) ensures r.s@ == s@ { unimplemented!() }

pub open spec fn digit(d: int) -> char {
    if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' }
    else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' }
}
/// decimal digits of a number
#[verifier::opaque]
pub open spec fn dec(n: int) -> Seq<char>
    decreases n
{
    if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) }
}
/// decimal digits are digits, at least one, and identify the number
pub proof fn lemma_dec(n: int)
    ensures n >= 0 ==> dec(n).len() > 0 && forall|i: int| 0 <= i < dec(n).len() ==> '0' <= #[trigger] dec(n)[i] && dec(n)[i] <= '9'
    decreases n
{
    reveal(dec);
    if n >= 10 { lemma_dec(n / 10); }
}
pub proof fn lemma_dec_injective(n: int, m: int)
    ensures n >= 0 && m >= 0 && dec(n) == dec(m) ==> n == m
    decreases n
{
    reveal(dec);
    if n >= 0 && m >= 0 && dec(n) == dec(m) {
        lemma_dec(n / 10);
        lemma_dec(m / 10);
        assert(dec(n).last() == digit(n % 10) || n < 10);
        assert(dec(m).last() == digit(m % 10) || m < 10);
        if n >= 10 && m >= 10 {
            assert(dec(n).drop_last() =~= dec(n / 10));
            assert(dec(m).drop_last() =~= dec(m / 10));
            lemma_dec_injective(n / 10, m / 10);
            assert(n % 10 == m % 10);
        } else if n < 10 && m < 10 {
            assert(dec(n)[0] == digit(n) && dec(m)[0] == digit(m));
        } else {
            assert(dec(n).len() != dec(m).len());
        }
    }
}
/// snake case of a name (heck, or oniguruma with that feature)
pub uninterp spec fn snake(s: Seq<char>) -> Seq<char>;
/// char::is_numeric
pub uninterp spec fn numeric(c: char) -> bool;
pub axiom fn axiom_numeric()
    ensures forall|c: char| c < '\u{80}' ==> #[trigger] numeric(c) == ('0' <= c && c <= '9');
/// a regular expression that compiles, and the strings it is found in
pub uninterp spec fn re_valid(pat: Seq<char>) -> bool;
pub uninterp spec fn re_match(pat: Seq<char>, s: Seq<char>) -> bool;

pub open spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }

impl String {
    #[verifier::external_body]
    pub fn new() -> (r: String) ensures r.s@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_eq(&self, o: &String) -> (r: bool) ensures r == (self.s@ == o.s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_to_string(&self) -> (r: String) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn v_to_owned(&self) -> (r: String) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn v_into(&self) -> (r: String) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn v_as_str(&self) -> (r: &String) ensures *r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.s@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_first_char(&self) -> (r: Option<char>)
        ensures r == (if self.s@.len() == 0 { None } else { Some(self.s@[0]) })
    { unimplemented!() }
    /// heck's
    #[verifier::external_body]
    pub fn v_to_snake_case(&self) -> (r: String) ensures r.s@ == snake(self.s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_take_chars(&self, n: usize) -> (r: String)
        ensures r.s@ == self.s@.subrange(0, min(n as int, self.s@.len() as int))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_replace(&self, p: Ghost<spec_fn(char) -> bool>, to: &String) -> (r: String)
        ensures to.s@.len() == 1 ==> r.s@.len() == self.s@.len()
            && forall|i: int| 0 <= i < r.s@.len() ==> #[trigger] r.s@[i] == (if (p@)(self.s@[i]) { to.s@[0] } else { self.s@[i] })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_json(&self) -> (r: Value) ensures r == Value::String(*self) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for String {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &String) -> bool { self.s@ == o.s@ }
}
impl PartialEq for String {
    #[verifier::external_body]
    fn eq(&self, o: &String) -> (r: bool) { unimplemented!() }
}

pub trait VDisp { spec fn disp(&self) -> Seq<char>; fn v_disp(&self) -> (r: String) ensures r.s@ == self.disp(); }
impl VDisp for String {
    open spec fn disp(&self) -> Seq<char> { self.s@ }
    #[verifier::external_body] fn v_disp(&self) -> (r: String) { unimplemented!() }
}
impl VDisp for usize {
    open spec fn disp(&self) -> Seq<char> { dec(*self as int) }
    #[verifier::external_body] fn v_disp(&self) -> (r: String) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_cat(a: &String, b: &String) -> (r: String) ensures r.s@ == a.s@ + b.s@ { unimplemented!() }

pub trait VChar { fn v_is_numeric(&self) -> bool; }
impl VChar for char {
    #[verifier::external_body] fn v_is_numeric(&self) -> (r: bool) ensures r == numeric(*self) { unimplemented!() }
}


pub struct Regex { pub pat: Ghost<Seq<char>> }
pub struct RegexError { pub x: u8 }
impl Regex {
    #[verifier::external_body]
    pub fn new(p: &String) -> (r: Result<Regex, RegexError>)
        ensures (r is Ok) == re_valid(p.s@), r is Ok ==> r->Ok_0.pat@ == p.s@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_match(&self, s: &String) -> (r: bool) ensures r == re_match(self.pat@, s.s@) { unimplemented!() }
}

// ---------------------------------------------------------------- aborts

/// A panic: allowed only where the contract of the function says so.
#[verifier::external_body]
pub fn v_abort<T>(may: Ghost<bool>) -> (r: T) requires may@ ensures false { panic!() }
#[verifier::external_body]
pub fn v_assert(b: bool, may: Ghost<bool>) requires may@ || b ensures b { unimplemented!() }

pub trait VUnwrap: Sized {
    type T;
    spec fn has(self) -> bool;
    spec fn val(self) -> Self::T;
    fn v_unwrap(self, may: Ghost<bool>) -> (r: Self::T)
        requires may@ || self.has()
        ensures self.has(), r == self.val();
}
impl<T> VUnwrap for Option<T> {
    type T = T;
    open spec fn has(self) -> bool { self is Some }
    open spec fn val(self) -> T { self->0 }
    #[verifier::external_body] fn v_unwrap(self, may: Ghost<bool>) -> (r: T) { unimplemented!() }
}
impl<T, E> VUnwrap for Result<T, E> {
    type T = T;
    open spec fn has(self) -> bool { self is Ok }
    open spec fn val(self) -> T { self->Ok_0 }
    #[verifier::external_body] fn v_unwrap(self, may: Ghost<bool>) -> (r: T) { unimplemented!() }
}

pub trait VClone: Sized { fn v_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VClone for T { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }

pub trait VMut: Sized {
    fn v_mut(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(self) == *final(r);
    fn v_ref(&self) -> (r: &Self) ensures *r == *self;
}
impl<T> VMut for T {
    #[verifier::external_body] fn v_mut(&mut self) -> (r: &mut Self) { unimplemented!() }
    #[verifier::external_body] fn v_ref(&self) -> (r: &Self) { unimplemented!() }
}

pub trait VDef: Sized { spec fn def() -> Self; fn v_default() -> (r: Self) ensures r == Self::def(); }
impl<T> VDef for Option<T> {
    open spec fn def() -> Self { None }
    #[verifier::external_body] fn v_default() -> (r: Self) { unimplemented!() }
}
impl VDef for String {
    open spec fn def() -> Self { st(Seq::empty()) }
    #[verifier::external_body] fn v_default() -> (r: Self) { unimplemented!() }
}
impl VDef for bool {
    open spec fn def() -> Self { false }
    #[verifier::external_body] fn v_default() -> (r: Self) { unimplemented!() }
}
impl<T> VDef for Vec<T> {
    open spec fn def() -> Self { Vec { v: Ghost(Seq::empty()) } }
    #[verifier::external_body] fn v_default() -> (r: Self) { unimplemented!() }
}

// ---------------------------------------------------------------- vectors

pub open spec fn vc<T>(s: Seq<T>) -> Vec<T> { Vec { v: Ghost(s) } }

impl<T> Vec<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Vec<T>) ensures r.v@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.v@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.v@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, t: T) ensures final(self).v@ == old(self).v@.push(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, o: Vec<T>) ensures final(self).v@ == old(self).v@ + o.v@ { unimplemented!() }
    /// moves an element out, the loops that use it visit each index once
    #[verifier::external_body]
    pub fn v_take(&self, i: usize) -> (r: T) requires i < self.v@.len() ensures r == self.v@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn v_idx(&self, i: usize) -> (r: &T) requires i < self.v@.len() ensures *r == self.v@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn v_idx_mut<'a>(&'a mut self, i: usize) -> (r: &'a mut T)
        requires i < old(self).v@.len()
        ensures *r == old(self).v@[i as int], final(self).v@ == old(self).v@.update(i as int, *final(r))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_iter<'a>(&'a self) -> (r: Vec<&'a T>)
        ensures r.v@.len() == self.v@.len(), forall|i: int| 0 <= i < r.v@.len() ==> *#[trigger] r.v@[i] == self.v@[i]
    { unimplemented!() }
    /// stable sort by the keys of the elements
    #[verifier::external_body]
    pub fn v_sort_by_keys(&mut self, ks: &Vec<String>)
        requires ks.v@.len() == old(self).v@.len()
        ensures by_keys(old(self).v@, ks.v@, final(self).v@)
    { unimplemented!() }
}
impl Vec<String> {
    /// in ascending order: keys listed once each come out as `sorted_keys`
    #[verifier::external_body]
    pub fn sort(&mut self)
        ensures
            final(self).v@.len() == old(self).v@.len(),
            forall|d: Set<Seq<char>>| #[trigger] keyed(d, old(self).v@) ==> in_order(d, final(self).v@)
    { unimplemented!() }
}
/// `ks` lists the elements of `d` in ascending order
pub open spec fn in_order(d: Set<Seq<char>>, ks: Seq<String>) -> bool {
    &&& key_order(d)
    &&& ks.len() == sorted_keys(d).len()
    &&& forall|i: int| 0 <= i < ks.len() ==> (#[trigger] ks[i]).s@ == sorted_keys(d)[i]
}

/// order of strings: by code point
pub open spec fn str_le(a: Seq<char>, b: Seq<char>) -> bool
    decreases a.len()
{
    if a.len() == 0 { true } else if b.len() == 0 { false }
    else if a[0] == b[0] { str_le(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)) }
    else { (a[0] as u32) < (b[0] as u32) }
}
/// `out` holds the elements of `s` in the ascending order of the keys `ks`,
/// where `p` says which element went where; keys listed once each come out as
/// `sorted_keys`
pub open spec fn by_keys<T>(s: Seq<T>, ks: Seq<String>, out: Seq<T>) -> bool {
    exists|p: Seq<int>| #[trigger] sorts(s, ks, out, p)
}
pub open spec fn sorts<T>(s: Seq<T>, ks: Seq<String>, out: Seq<T>, p: Seq<int>) -> bool {
    &&& out.len() == s.len() == p.len() == ks.len()
    &&& forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < s.len() && out[i] == s[p[i]]
    &&& forall|d: Set<Seq<char>>| #[trigger] keyed(d, ks) ==> key_order(d) && ks.len() == sorted_keys(d).len()
        && forall|i: int| 0 <= i < ks.len() ==> ks[#[trigger] p[i]].s@ == sorted_keys(d)[i]
}

pub trait VIntoIter: Sized {
    type Item;
    spec fn iterated(self, r: Seq<Self::Item>) -> bool;
    fn v_into_iter(self) -> (r: Vec<Self::Item>) ensures self.iterated(r.v@);
}
impl<T> VIntoIter for Vec<T> {
    type Item = T;
    open spec fn iterated(self, r: Seq<T>) -> bool { r == self.v@ }
    #[verifier::external_body] fn v_into_iter(self) -> (r: Vec<T>) { unimplemented!() }
}
impl<'a, T> VIntoIter for &'a Vec<T> {
    type Item = &'a T;
    open spec fn iterated(self, r: Seq<&'a T>) -> bool {
        r.len() == self.v@.len() && forall|i: int| 0 <= i < r.len() ==> *#[trigger] r[i] == self.v@[i]
    }
    #[verifier::external_body] fn v_into_iter(self) -> (r: Vec<&'a T>) { unimplemented!() }
}

// ---------------------------------------------------------------- maps, sets

pub open spec fn hm<V>(m: Map<Seq<char>, V>) -> HashMap<V> { HashMap { m: Ghost(m) } }
pub open spec fn hs(e: Set<Seq<char>>) -> HashSet { HashSet { e: Ghost(e) } }

/// `r` lists the entries of the map, each once, in any order
pub open spec fn lists<'a, V>(m: Map<Seq<char>, V>, r: Seq<(&'a String, &'a V)>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> m.contains_key((#[trigger] r[i]).0.s@) && m[r[i].0.s@] == *r[i].1
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0.s@ == k
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0.s@ != (#[trigger] r[j]).0.s@
}
pub open spec fn lists_own<V>(m: Map<Seq<char>, V>, r: Seq<(String, V)>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> m.contains_key((#[trigger] r[i]).0.s@) && m[r[i].0.s@] == r[i].1
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0.s@ == k
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0.s@ != (#[trigger] r[j]).0.s@
}
/// `ks` lists the keys of a map or the elements of a set, each once
pub open spec fn keyed(d: Set<Seq<char>>, ks: Seq<String>) -> bool {
    &&& forall|i: int| 0 <= i < ks.len() ==> d.contains((#[trigger] ks[i]).s@)
    &&& forall|k: Seq<char>| #[trigger] d.contains(k) ==> exists|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).s@ == k
    &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> (#[trigger] ks[i]).s@ != (#[trigger] ks[j]).s@
}
pub open spec fn keyed_ref<'a>(d: Set<Seq<char>>, ks: Seq<&'a String>) -> bool {
    &&& forall|i: int| 0 <= i < ks.len() ==> d.contains((#[trigger] ks[i]).s@)
    &&& forall|k: Seq<char>| #[trigger] d.contains(k) ==> exists|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).s@ == k
    &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> (#[trigger] ks[i]).s@ != (#[trigger] ks[j]).s@
}

impl<V> HashMap<V> {
    #[verifier::external_body]
    pub fn new() -> (r: HashMap<V>) ensures r.m@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.m@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self.m@.dom() =~= Set::empty())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>) ensures final(self).m@ == old(self).m@.insert(k.s@, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &String) -> (r: Option<V>)
        ensures final(self).m@ == old(self).m@.remove(k.s@),
            r == (if old(self).m@.contains_key(k.s@) { Some(old(self).m@[k.s@]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &String) -> (r: bool) ensures r == self.m@.contains_key(k.s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &String) -> (r: Option<&V>)
        ensures self.m@.contains_key(k.s@) == (r is Some), r is Some ==> *r->0 == self.m@[k.s@]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, k: &String) -> (r: Option<&'a mut V>)
        ensures
            old(self).m@.contains_key(k.s@) == (r is Some),
            r is Some ==> *r->0 == old(self).m@[k.s@] && final(self).m@ == old(self).m@.insert(k.s@, *final(r->0)),
            r is None ==> final(self).m@ == old(self).m@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_idx(&self, k: &String) -> (r: &V) requires self.m@.contains_key(k.s@) ensures *r == self.m@[k.s@] { unimplemented!() }
    #[verifier::external_body]
    pub fn v_idx_mut<'a>(&'a mut self, k: &String) -> (r: &'a mut V)
        requires old(self).m@.contains_key(k.s@)
        ensures *r == old(self).m@[k.s@], final(self).m@ == old(self).m@.insert(k.s@, *final(r))
    { unimplemented!() }
    /// own copies of the keys
    #[verifier::external_body]
    pub fn v_keys(&self) -> (r: Vec<String>) ensures keyed(self.m@.dom(), r.v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_keys_ref<'a>(&'a self) -> (r: Vec<&'a String>) ensures keyed_ref(self.m@.dom(), r.v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_values<'a>(&'a self) -> (r: Vec<&'a V>)
        ensures exists|e: Seq<(&'a String, &'a V)>| #[trigger] lists(self.m@, e) && e.len() == r.v@.len()
            && forall|i: int| 0 <= i < e.len() ==> *(#[trigger] r.v@[i]) == *e[i].1
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_iter<'a>(&'a self) -> (r: Vec<(&'a String, &'a V)>) ensures lists(self.m@, r.v@) { unimplemented!() }
}
impl<V> VIntoIter for HashMap<V> {
    type Item = (String, V);
    open spec fn iterated(self, r: Seq<(String, V)>) -> bool { lists_own(self.m@, r) }
    #[verifier::external_body] fn v_into_iter(self) -> (r: Vec<(String, V)>) { unimplemented!() }
}
impl<'a, V> VIntoIter for &'a HashMap<V> {
    type Item = (&'a String, &'a V);
    open spec fn iterated(self, r: Seq<(&'a String, &'a V)>) -> bool { lists(self.m@, r) }
    #[verifier::external_body] fn v_into_iter(self) -> (r: Vec<(&'a String, &'a V)>) { unimplemented!() }
}

pub open spec fn orders(s: Seq<Seq<char>>, d: Set<Seq<char>>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> d.contains(#[trigger] s[i])
    &&& forall|k: Seq<char>| #[trigger] d.contains(k) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j]
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> str_le(#[trigger] s[i], #[trigger] s[j])
}
/// the keys of a map in ascending order
#[verifier::opaque]
pub open spec fn sorted_keys(d: Set<Seq<char>>) -> Seq<Seq<char>> { choose|s: Seq<Seq<char>>| orders(s, d) }
pub open spec fn key_order(d: Set<Seq<char>>) -> bool {
    &&& forall|i: int| 0 <= i < sorted_keys(d).len() ==> d.contains(#[trigger] sorted_keys(d)[i])
    &&& forall|k: Seq<char>| #[trigger] d.contains(k) ==> exists|i: int| 0 <= i < sorted_keys(d).len() && #[trigger] sorted_keys(d)[i] == k
    &&& forall|i: int, j: int| 0 <= i < j < sorted_keys(d).len() ==> #[trigger] sorted_keys(d)[i] != #[trigger] sorted_keys(d)[j]
    &&& forall|i: int, j: int| 0 <= i < j < sorted_keys(d).len() ==> str_le(#[trigger] sorted_keys(d)[i], #[trigger] sorted_keys(d)[j])
}
pub proof fn lemma_str_total(a: Seq<char>, b: Seq<char>)
    ensures str_le(a, b) || str_le(b, a), str_le(a, b) && str_le(b, a) ==> a == b
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        let x = a.subrange(1, a.len() as int);
        let y = b.subrange(1, b.len() as int);
        if a[0] == b[0] {
            lemma_str_total(x, y);
            assert(a =~= seq![a[0]] + x);
            assert(b =~= seq![b[0]] + y);
        }
    } else {
        assert(a.len() == 0 && b.len() == 0 ==> a =~= b);
    }
}
pub proof fn lemma_str_chain(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires str_le(a, b), str_le(b, c)
    ensures str_le(a, c)
    decreases a.len()
{
    if a.len() > 0 {
        if a[0] == b[0] && b[0] == c[0] {
            lemma_str_chain(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int), c.subrange(1, c.len() as int));
        }
    }
}
/// where a key goes
pub open spec fn place(s: Seq<Seq<char>>, k: Seq<char>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else if str_le(s.last(), k) { s.len() as int } else { place(s.drop_last(), k) }
}
pub proof fn lemma_place(s: Seq<Seq<char>>, k: Seq<char>)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> str_le(#[trigger] s[i], #[trigger] s[j])
    ensures
        0 <= place(s, k) <= s.len(),
        forall|i: int| 0 <= i < place(s, k) ==> str_le(#[trigger] s[i], k),
        forall|i: int| place(s, k) <= i < s.len() ==> str_le(k, #[trigger] s[i]),
    decreases s.len()
{
    if s.len() > 0 {
        if str_le(s.last(), k) {
            assert forall|i: int| 0 <= i < s.len() implies str_le(#[trigger] s[i], k) by {
                if i < s.len() - 1 { lemma_str_chain(s[i], s[s.len() - 1], k); }
            }
        } else {
            let t = s.drop_last();
            lemma_place(t, k);
            lemma_str_total(s.last(), k);
            assert forall|i: int| 0 <= i < place(s, k) implies str_le(#[trigger] s[i], k) by { assert(t[i] == s[i]); }
            assert forall|i: int| place(s, k) <= i < s.len() implies str_le(k, #[trigger] s[i]) by {
                if i < t.len() { assert(t[i] == s[i]); }
            }
        }
    }
}
pub proof fn lemma_ordered(d: Set<Seq<char>>) -> (s: Seq<Seq<char>>)
    ensures orders(s, d)
    decreases d.len()
{
    if d.len() == 0 {
        assert forall|k: Seq<char>| !#[trigger] d.contains(k) by { if d.contains(k) { assert(d.remove(k).len() < d.len()); } }
        Seq::empty()
    } else {
        let k = d.choose();
        let e = d.remove(k);
        let s = lemma_ordered(e);
        lemma_place(s, k);
        let p = place(s, k);
        let r = s.insert(p, k);
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] == (if i < p { s[i] } else if i == p { k } else { s[i - 1] }) by {}
        assert forall|q: Seq<char>| #[trigger] d.contains(q) implies exists|i: int| 0 <= i < r.len() && #[trigger] r[i] == q by {
            if q == k { assert(r[p] == q); } else {
                assert(e.contains(q));
                let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == q;
                if i < p { assert(r[i] == q); } else { assert(r[i + 1] == q); }
            }
        }
        assert forall|i: int| 0 <= i < r.len() implies d.contains(#[trigger] r[i]) by {
            if i < p { assert(e.contains(s[i])); } else if i > p { assert(e.contains(s[i - 1])); }
        }
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] r[i] != #[trigger] r[j] && str_le(r[i], r[j]) by {
            let a = if i < p { i } else { i - 1 };
            let b = if j < p { j } else { j - 1 };
            if i == p { assert(e.contains(s[b])); } else if j == p { assert(e.contains(s[a])); } else { assert(s[a] != s[b]); }
        }
        r
    }
}
/// sets are finite, so the order exists
pub proof fn lemma_key_order(d: Set<Seq<char>>) ensures key_order(d)
{
    reveal(sorted_keys);
    let s = lemma_ordered(d);
    assert(orders(s, d));
    assert(orders(sorted_keys(d), d));
}
/// and there is only one
pub proof fn lemma_one_order(s: Seq<Seq<char>>, d: Set<Seq<char>>)
    requires orders(s, d)
    ensures s == sorted_keys(d)
{
    lemma_key_order(d);
    reveal(sorted_keys);
    lemma_same_order(s, sorted_keys(d), d);
}
pub proof fn lemma_same_order(s: Seq<Seq<char>>, t: Seq<Seq<char>>, d: Set<Seq<char>>)
    requires orders(s, d), orders(t, d)
    ensures s == t
    decreases s.len()
{
    if s.len() == 0 || t.len() == 0 {
        if s.len() > 0 { assert(d.contains(s[0])); }
        if t.len() > 0 { assert(d.contains(t[0])); }
        assert(s =~= t);
    } else {
        let x = s.last();
        let y = t.last();
        assert(d.contains(s[s.len() - 1]) && d.contains(t[t.len() - 1]));
        let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == x;
        let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == y;
        lemma_str_total(x, y);
        assert(str_le(x, y)) by { if i < t.len() - 1 { assert(str_le(t[i], t[t.len() - 1])); } }
        assert(str_le(y, x)) by { if j < s.len() - 1 { assert(str_le(s[j], s[s.len() - 1])); } }
        assert(x == y);
        let e = d.remove(x);
        lemma_less(s, d);
        lemma_less(t, d);
        lemma_same_order(s.drop_last(), t.drop_last(), e);
        assert(s =~= s.drop_last().push(x));
        assert(t =~= t.drop_last().push(x));
    }
}
pub proof fn lemma_less(s: Seq<Seq<char>>, d: Set<Seq<char>>)
    requires orders(s, d), s.len() > 0
    ensures orders(s.drop_last(), d.remove(s.last()))
{
    let u = s.drop_last();
    let e = d.remove(s.last());
    assert forall|i: int| 0 <= i < u.len() implies e.contains(#[trigger] u[i]) by { assert(u[i] == s[i]); assert(s[i] != s[s.len() - 1]); }
    assert forall|k: Seq<char>| #[trigger] e.contains(k) implies exists|i: int| 0 <= i < u.len() && #[trigger] u[i] == k by {
        assert(d.contains(k));
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == k;
        assert(u[i] == k);
    }
    assert forall|i: int, j: int| 0 <= i < j < u.len() implies #[trigger] u[i] != #[trigger] u[j] && str_le(u[i], u[j]) by {
        assert(s[i] != s[j] && str_le(s[i], s[j]));
    }
}

impl<V> BTreeMap<V> {
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.m@.dom() =~= Set::empty()), r == (sorted_keys(self.m@.dom()).len() == 0) { unimplemented!() }
    /// the values in the order of their keys
    #[verifier::external_body]
    pub fn v_values<'a>(&'a self) -> (r: Vec<&'a V>)
        ensures
            r.v@.len() == sorted_keys(self.m@.dom()).len(),
            key_order(self.m@.dom()),
            forall|i: int| 0 <= i < r.v@.len() ==> *(#[trigger] r.v@[i]) == self.m@[sorted_keys(self.m@.dom())[i]]
    { unimplemented!() }
}

impl HashSet {
    #[verifier::external_body]
    pub fn new() -> (r: HashSet) ensures r.e@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &String) -> (r: bool) ensures r == self.e@.contains(k.s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String) -> (r: bool) ensures final(self).e@ == old(self).e@.insert(k.s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.e@ =~= Set::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_iter<'a>(&'a self) -> (r: Vec<&'a String>) ensures keyed_ref(self.e@, r.v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_intersection<'a>(&'a self, o: &'a HashSet) -> (r: Vec<&'a String>) ensures keyed_ref(self.e@.intersect(o.e@), r.v@) { unimplemented!() }
}
impl VIntoIter for HashSet {
    type Item = String;
    open spec fn iterated(self, r: Seq<String>) -> bool { keyed(self.e@, r) }
    #[verifier::external_body] fn v_into_iter(self) -> (r: Vec<String>) { unimplemented!() }
}
impl<'a> VIntoIter for &'a HashSet {
    type Item = &'a String;
    open spec fn iterated(self, r: Seq<&'a String>) -> bool { keyed_ref(self.e@, r) }
    #[verifier::external_body] fn v_into_iter(self) -> (r: Vec<&'a String>) { unimplemented!() }
}

// ---------------------------------------------------------------- collect

pub trait VCollect<T>: Sized { spec fn collects(s: Seq<T>, r: Self) -> bool; fn v_collected(v: Vec<T>) -> (r: Self) ensures Self::collects(v.v@, r); }
pub fn v_collect<C: VCollect<T>, T>(v: Vec<T>) -> (r: C) ensures C::collects(v.v@, r) { C::v_collected(v) }
impl<T> VCollect<T> for Vec<T> {
    open spec fn collects(s: Seq<T>, r: Vec<T>) -> bool { r.v@ == s }
    #[verifier::external_body] fn v_collected(v: Vec<T>) -> (r: Self) { unimplemented!() }
}
impl<V> VCollect<(String, V)> for HashMap<V> {
    /// the last entry with a key is kept
    open spec fn collects(s: Seq<(String, V)>, r: HashMap<V>) -> bool {
        &&& forall|k: Seq<char>| #[trigger] r.m@.contains_key(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.s@ == k
        &&& forall|i: int| 0 <= i < s.len() && (forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).0.s@ != s[i].0.s@) ==> r.m@[(#[trigger] s[i]).0.s@] == s[i].1
    }
    #[verifier::external_body] fn v_collected(v: Vec<(String, V)>) -> (r: Self) { unimplemented!() }
}
impl VCollect<String> for HashSet {
    open spec fn collects(s: Seq<String>, r: HashSet) -> bool {
        forall|k: Seq<char>| #[trigger] r.e@.contains(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).s@ == k
    }
    #[verifier::external_body] fn v_collected(v: Vec<String>) -> (r: Self) { unimplemented!() }
}
impl<T, E> VCollect<Result<T, E>> for Result<Vec<T>, E> {
    /// the values, or the first error
    open spec fn collects(s: Seq<Result<T, E>>, r: Result<Vec<T>, E>) -> bool {
        match r {
            Ok(v) => v.v@.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger v.v@[i]] 0 <= i < s.len() ==> s[i] is Ok && s[i]->Ok_0 == v.v@[i],
            Err(e) => exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Err && s[i]->Err_0 == e
                && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]) is Ok,
        }
    }
    #[verifier::external_body] fn v_collected(v: Vec<Result<T, E>>) -> (r: Self) { unimplemented!() }
}

// ---------------------------------------------------------------- serde_json

pub struct DeError { pub x: u8 }
pub trait VDe: Sized {
    spec fn de(v: Value) -> Option<Self>;
    fn v_from_value(v: Value) -> (r: Result<Self, DeError>)
        ensures (r is Ok) == (Self::de(v) is Some), r is Ok ==> r->Ok_0 == Self::de(v)->0;
}
// ---------------------------------------------------------------- serde

/// what a value is serialized to; the functions of the derived implementations
/// are in `printed`
pub trait VSer { spec fn js(&self) -> Value; }
pub struct SerError { pub e: Ghost<int> }
/// serde_json::value::Serializer: writing to memory never fails
pub struct JsonSerializer { pub z: Ghost<int> }
pub struct SeqSer { pub v: Ghost<Seq<Value>> }
impl JsonSerializer {
    #[verifier::external_body]
    pub fn serialize_seq(self, n: Option<usize>) -> (r: Result<SeqSer, SerError>)
        ensures r is Ok && r->Ok_0.v@ == Seq::<Value>::empty()
    { unimplemented!() }
}
impl SeqSer {
    #[verifier::external_body]
    pub fn serialize_element<T: VSer>(&mut self, t: &T) -> (r: Result<(), SerError>)
        ensures r is Ok && final(self).v@ == old(self).v@.push(t.js())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn end(self) -> (r: Result<Value, SerError>) ensures r is Ok && r->Ok_0 == Value::Array(vc(self.v@)) { unimplemented!() }
}
impl Value {
    #[verifier::external_body]
    pub fn v_json(&self) -> (r: Value) ensures r == *self { unimplemented!() }
    /// a missing member and a member of anything but an object read as null
    #[verifier::external_body]
    pub fn v_idx(&self, k: &String) -> (r: &Value) ensures *r == member(*self, k.s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_as_str(&self) -> (r: Option<&String>)
        ensures (r is Some) == (self is String), r is Some ==> *r->0 == self->String_0
    { unimplemented!() }
}
pub open spec fn member(v: Value, k: Seq<char>) -> Value {
    match v {
        Value::Object(o) => if o.m@.contains_key(k) { o.m@[k] } else { Value::Null },
        _ => Value::Null,
    }
}
}
} // verus!
