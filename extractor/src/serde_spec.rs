//! What the derived `Serialize` implementations print, read off the types and
//! their attributes: one specification function per type.
//!
//! Rules of serde_derive and serde_json::to_value that are relied on: a struct is
//! an object of its fields in order, a later member of the same name replaces an
//! earlier one; `tag` on a struct puts the name of the struct first; `flatten` adds
//! the members of the field; an internally tagged enum puts the tag before the
//! members of the content; an untagged enum is its content; `None` is null.
use crate::items::{attr_items, rename, TypeItem};
use quote::ToTokens;
use std::collections::BTreeMap;

type R<T> = Result<T, String>;

fn metas(attrs: &[syn::Attribute]) -> R<BTreeMap<String, Option<String>>> {
    let mut m = BTreeMap::new();
    for a in attrs.iter().filter(|a| a.path().is_ident("serde")) {
        for (k, v) in attr_items(a).ok_or_else(|| format!("attribute {}", a.to_token_stream()))? {
            m.insert(k, v);
        }
    }
    Ok(m)
}

fn only(m: &BTreeMap<String, Option<String>>, known: &[&str]) -> R<()> {
    match m.keys().find(|k| !known.contains(&k.as_str())) {
        Some(k) => Err(format!("serde attribute {}", k)),
        None => Ok(()),
    }
}

fn derives(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("derive")
            && a.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|w| w == "Serialize")
    })
}

fn field_case(name: &str, style: Option<&str>) -> R<String> {
    let words: Vec<&str> = name.split('_').collect();
    Ok(match style {
        None | Some("snake_case") | Some("lowercase") => name.to_string(),
        Some("camelCase") => words
            .iter()
            .enumerate()
            .map(|(i, w)| if i == 0 { w.to_string() } else { w[..1].to_uppercase() + &w[1..] })
            .collect(),
        Some("PascalCase") => words.iter().map(|w| w[..1].to_uppercase() + &w[1..]).collect(),
        Some("kebab-case") => words.join("-"),
        Some("UPPERCASE") | Some("SCREAMING_SNAKE_CASE") => name.to_uppercase(),
        Some(s) => return Err(format!("rename_all {}", s)),
    })
}

fn variant_case(name: &str, style: Option<&str>) -> R<String> {
    Ok(match style {
        None | Some("PascalCase") => name.to_string(),
        Some(s @ ("lowercase" | "UPPERCASE" | "kebab-case" | "snake_case" | "camelCase")) => rename(name, s),
        Some(s) => return Err(format!("rename_all {}", s)),
    })
}

pub struct Printed {
    pub text: String,
    pub refused: Vec<(String, String)>,
}

/// types of these modules that derive Serialize
pub fn print(types: &[TypeItem], modules: &[&str]) -> Printed {
    let mut known: BTreeMap<(String, String), &TypeItem> = BTreeMap::new();
    for t in types {
        let (n, a) = match &t.item {
            syn::Item::Struct(s) => (s.ident.to_string(), &s.attrs),
            syn::Item::Enum(e) => (e.ident.to_string(), &e.attrs),
            _ => continue,
        };
        if modules.contains(&t.module.as_str()) && derives(a) {
            known.insert((t.module.clone(), n), t);
        }
    }
    let mut out = Printed { text: String::new(), refused: vec![] };
    for ((m, n), t) in &known {
        let g = One { module: m, known: &known };
        let body = match &t.item {
            syn::Item::Struct(s) => g.structure(s),
            syn::Item::Enum(e) => g.enumeration(e),
            _ => unreachable!(),
        };
        let f = format!("js_{}_{}", m, n);
        match body {
            Ok((b, recursive)) => out.text.push_str(&format!(
                "pub open spec fn {}(x: {}::{}) -> Value\n{}{{\n{}\n}}\n",
                f,
                m,
                n,
                if recursive { "    decreases x\n" } else { "" },
                b
            )),
            Err(why) => {
                out.refused.push((f.clone(), why));
                out.text.push_str(&format!("pub uninterp spec fn {}(x: {}::{}) -> Value;\n", f, m, n));
            }
        }
        out.text.push_str(&format!("impl VSer for {}::{} {{ open spec fn js(&self) -> Value {{ {}(*self) }} }}\n", m, n, f));
    }
    out
}

struct One<'a> {
    module: &'a str,
    known: &'a BTreeMap<(String, String), &'a TypeItem>,
}

impl<'a> One<'a> {
    /// the JSON of the expression of that type, and whether other types are involved
    fn value(&self, t: &syn::Type, e: &str, depth: usize) -> R<(String, bool)> {
        let syn::Type::Path(p) = t else { return Err("type".into()) };
        let seg = p.path.segments.last().unwrap();
        let name = seg.ident.to_string();
        let args: Vec<&syn::Type> = match &seg.arguments {
            syn::PathArguments::AngleBracketed(a) => a
                .args
                .iter()
                .filter_map(|a| if let syn::GenericArgument::Type(t) = a { Some(t) } else { None })
                .collect(),
            _ => vec![],
        };
        Ok(match (name.as_str(), args.len()) {
            ("String", 0) => (format!("Value::String({})", e), false),
            ("bool", 0) => (format!("Value::Bool({})", e), false),
            ("usize", 0) => (format!("Value::Number(Ghost({} as int))", e), false),
            ("Value", 0) => (e.to_string(), false),
            ("Box", 1) => self.value(args[0], &format!("(*{})", e), depth)?,
            ("Option", 1) => {
                let (v, r) = self.value(args[0], &format!("o{}", depth), depth + 1)?;
                (format!("(match {} {{ Some(o{}) => {}, None => Value::Null }})", e, depth, v), r)
            }
            ("Vec", 1) => {
                let (v, r) = self.value(args[0], &format!("{}.v@[i{}]", e, depth), depth + 1)?;
                (
                    format!(
                        "Value::Array(vc(Seq::new({0}.v@.len(), |i{1}: int| if 0 <= i{1} < {0}.v@.len() {{ {2} }} else {{ arbitrary() }})))",
                        e, depth, v
                    ),
                    r,
                )
            }
            (n, 0) if self.known.contains_key(&(self.module.to_string(), n.to_string())) => {
                (format!("js_{}_{}({})", self.module, n, e), true)
            }
            _ => return Err(format!("type {}", t.to_token_stream())),
        })
    }

    fn structure(&self, s: &syn::ItemStruct) -> R<(String, bool)> {
        let at = metas(&s.attrs)?;
        only(&at, &["tag", "rename", "rename_all", "default", "deny_unknown_fields"])?;
        let style = at.get("rename_all").and_then(|s| s.as_deref());
        let mut b = String::from("    let m = Map::<Seq<char>, Value>::empty();\n");
        if let Some(Some(tag)) = at.get("tag") {
            let n = at.get("rename").cloned().flatten().unwrap_or(s.ident.to_string());
            b.push_str(&format!("    let m = m.insert({:?}@, Value::String(st({:?}@)));\n", tag, n));
        }
        let mut rec = false;
        for f in &s.fields {
            let id = f.ident.as_ref().ok_or("tuple struct")?.to_string();
            let fa = metas(&f.attrs)?;
            only(&fa, &["rename", "skip_serializing_if", "flatten", "with", "default", "skip_serializing", "skip_deserializing"])?;
            if fa.contains_key("skip_serializing") {
                continue;
            }
            let name = match fa.get("rename") {
                Some(Some(n)) => n.clone(),
                _ => field_case(&id, style)?,
            };
            let e = format!("x.{}", id);
            let (mut v, mut r) = if let Some(Some(w)) = fa.get("with") {
                (format!("with_{}({})", w.replace("::", "_"), e), true)
            } else {
                self.value(&f.ty, &e, 0)?
            };
            rec |= r;
            if fa.contains_key("flatten") {
                b.push_str(&format!("    let m = m.union_prefer_right(members({}));\n", v));
                continue;
            }
            match fa.get("skip_serializing_if") {
                None => b.push_str(&format!("    let m = m.insert({:?}@, {});\n", name, v)),
                Some(Some(w)) if w == "Option::is_none" && !fa.contains_key("with") => {
                    let syn::Type::Path(p) = &f.ty else { return Err("type".into()) };
                    let seg = p.path.segments.last().unwrap();
                    let inner = match &seg.arguments {
                        syn::PathArguments::AngleBracketed(a) if seg.ident == "Option" => match a.args.first() {
                            Some(syn::GenericArgument::Type(t)) => t,
                            _ => return Err("type".into()),
                        },
                        _ => return Err("skip_serializing_if".into()),
                    };
                    (v, r) = self.value(inner, "y", 0)?;
                    rec |= r;
                    b.push_str(&format!("    let m = match {} {{ Some(y) => m.insert({:?}@, {}), None => m }};\n", e, name, v));
                }
                Some(_) => return Err("skip_serializing_if".into()),
            }
        }
        b.push_str("    Value::Object(hm(m))");
        Ok((b, rec))
    }

    fn enumeration(&self, e: &syn::ItemEnum) -> R<(String, bool)> {
        let at = metas(&e.attrs)?;
        only(&at, &["tag", "untagged", "rename_all"])?;
        let style = at.get("rename_all").and_then(|s| s.as_deref());
        let mut b = String::from("    match x {\n");
        let mut rec = false;
        for v in &e.variants {
            let va = metas(&v.attrs)?;
            only(&va, &["rename", "other", "alias"])?;
            let name = match va.get("rename") {
                Some(Some(n)) => n.clone(),
                _ => variant_case(&v.ident.to_string(), style)?,
            };
            let word = format!("Value::String(st({:?}@))", name);
            let (pat, content) = match &v.fields {
                syn::Fields::Unit => (String::new(), None),
                syn::Fields::Unnamed(u) if u.unnamed.len() == 1 => {
                    let (c, r) = self.value(&u.unnamed[0].ty, "y", 0)?;
                    rec |= r;
                    ("(y)".to_string(), Some(c))
                }
                _ => return Err("variant with fields".into()),
            };
            let val = if at.contains_key("untagged") {
                content.unwrap_or("Value::Null".into())
            } else if let Some(Some(tag)) = at.get("tag") {
                let one = format!("Map::<Seq<char>, Value>::empty().insert({:?}@, {})", tag, word);
                match content {
                    Some(c) => format!("Value::Object(hm({}.union_prefer_right(members({}))))", one, c),
                    None => format!("Value::Object(hm({}))", one),
                }
            } else {
                match content {
                    Some(c) => format!("Value::Object(hm(Map::<Seq<char>, Value>::empty().insert({:?}@, {})))", name, c),
                    None => word,
                }
            };
            b.push_str(&format!("        {}::{}::{}{} => {},\n", self.module, e.ident, v.ident, pat, val));
        }
        b.push_str("    }");
        Ok((b, rec))
    }
}

/// What the derived `Deserialize` implementations read, for the type `root` and those
/// it is made of: one specification function per type, `None` where it is refused.
///
/// Rules of serde_derive and serde_json::from_value that are relied on: a struct is
/// read from the members of its names, the others are for its flattened fields, in
/// order: a struct takes those of its names, a map the rest; an `Option` is `None` where
/// the member is missing or null; a missing member with `default` is the default; of an
/// untagged enum the first variant that can be read is taken; `other` takes the words no
/// other variant has. What is no string but read as a unit variant, and numbers, are uninterpreted.
pub fn read(types: &[TypeItem], module: &str, root: &str) -> Printed {
    let mut known: BTreeMap<String, &TypeItem> = BTreeMap::new();
    for t in types.iter().filter(|t| t.module == module) {
        let n = match &t.item {
            syn::Item::Struct(s) if deserializes(&s.attrs) => s.ident.to_string(),
            syn::Item::Enum(e) if deserializes(&e.attrs) => e.ident.to_string(),
            syn::Item::Type(a) => a.ident.to_string(),
            _ => continue,
        };
        known.insert(n, t);
    }
    let g = Reader { module, known: &known };
    let mut out = Printed { text: String::new(), refused: vec![] };
    let (mut todo, mut done) = (vec![root.to_string()], vec![]);
    while let Some(n) = todo.pop() {
        if done.contains(&n) {
            continue;
        }
        done.push(n.clone());
        let f = format!("rd_{}_{}", module, n);
        let mut uses = vec![];
        let (params, body) = match known.get(&n).map(|t| &t.item) {
            Some(syn::Item::Struct(s)) => ("x: Value, z: Set<Seq<char>>", g.structure(s, &mut uses)),
            Some(syn::Item::Enum(e)) => ("x: Value", g.enumeration(e, &mut uses)),
            _ => ("x: Value, z: Set<Seq<char>>", Err(format!("type {}", n))),
        };
        match body.and_then(|b| Ok((b, g.rank(&n, 0)?))) {
            Ok((b, rank)) => out.text.push_str(&format!(
                "pub open spec fn {}({}) -> Option<{}::{}>\n{}{{\n{}\n}}\n",
                f,
                params,
                module,
                n,
                if uses.is_empty() { String::new() } else { format!("    decreases x, {}nat\n", rank) },
                b
            )),
            Err(why) => {
                out.refused.push((f.clone(), why));
                out.text.push_str(&format!("pub uninterp spec fn {}({}) -> Option<{}::{}>;\n", f, params, module, n));
            }
        }
        todo.extend(uses);
    }
    out
}

fn deserializes(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("derive")
            && a.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|w| w == "Deserialize")
    })
}

fn path_args(t: &syn::Type) -> R<(String, Vec<&syn::Type>)> {
    let syn::Type::Path(p) = t else { return Err("type".into()) };
    let seg = p.path.segments.last().unwrap();
    let args = match &seg.arguments {
        syn::PathArguments::AngleBracketed(a) => {
            a.args.iter().filter_map(|a| if let syn::GenericArgument::Type(t) = a { Some(t) } else { None }).collect()
        }
        _ => vec![],
    };
    Ok((seg.ident.to_string(), args))
}

fn is_string(t: &syn::Type) -> bool {
    matches!(path_args(t), Ok((n, a)) if n == "String" && a.is_empty())
}

struct Reader<'a> {
    module: &'a str,
    known: &'a BTreeMap<String, &'a TypeItem>,
}

struct Named<'f> {
    field: &'f syn::Field,
    id: String,
    name: String,
    attrs: BTreeMap<String, Option<String>>,
}

impl<'a> Reader<'a> {
    fn fields<'f>(&self, s: &'f syn::ItemStruct) -> R<Vec<Named<'f>>> {
        let at = metas(&s.attrs)?;
        only(&at, &["tag", "rename", "rename_all"])?;
        let style = at.get("rename_all").and_then(|s| s.as_deref());
        s.fields
            .iter()
            .map(|f| {
                let id = f.ident.as_ref().ok_or("tuple struct")?.to_string();
                let fa = metas(&f.attrs)?;
                only(&fa, &["rename", "alias", "skip_serializing_if", "flatten", "default", "skip_serializing", "skip_deserializing"])?;
                let name = match fa.get("rename") {
                    Some(Some(n)) => n.clone(),
                    _ => field_case(&id, style)?,
                };
                Ok(Named { field: f, id, name, attrs: fa })
            })
            .collect()
    }

    /// keys a struct takes
    fn keys(&self, n: &str) -> R<Vec<String>> {
        let Some(syn::Item::Struct(s)) = self.known.get(n).map(|t| &t.item) else { return Err(format!("flattened {}", n)) };
        let fs = self.fields(s)?;
        if fs.iter().any(|f| f.attrs.contains_key("flatten")) {
            return Err("flattened twice".into());
        }
        Ok(fs
            .iter()
            .filter(|f| !f.attrs.contains_key("skip_deserializing"))
            .flat_map(|f| [Some(f.name.clone()), f.attrs.get("alias").cloned().flatten()])
            .flatten()
            .collect())
    }

    /// how many types are read from the same value before a part of it is
    fn rank(&self, n: &str, depth: usize) -> R<usize> {
        if depth > 50 {
            return Err("endless type".into());
        }
        let mut r = 0;
        match self.known.get(n).map(|t| &t.item) {
            Some(syn::Item::Struct(s)) => {
                for f in self.fields(s)?.iter().filter(|f| f.attrs.contains_key("flatten")) {
                    r = r.max(self.rank_of(&f.field.ty, depth)?);
                }
            }
            Some(syn::Item::Enum(e)) => {
                for v in &e.variants {
                    for f in &v.fields {
                        r = r.max(self.rank_of(&f.ty, depth)?);
                    }
                }
            }
            _ => {}
        }
        Ok(r + 1)
    }
    fn rank_of(&self, t: &syn::Type, depth: usize) -> R<usize> {
        let (n, args) = path_args(t)?;
        match (n.as_str(), args.len()) {
            ("Box", 1) | ("Option", 1) => self.rank_of(args[0], depth + 1),
            (n, 0) => match self.known.get(n).map(|t| &t.item) {
                Some(syn::Item::Type(a)) => self.rank_of(&a.ty, depth + 1),
                Some(_) => self.rank(n, depth + 1),
                None => Ok(0),
            },
            _ => Ok(0),
        }
    }

    /// what is read from the expression
    fn value(&self, t: &syn::Type, e: &str, d: usize, uses: &mut Vec<String>) -> R<String> {
        let (name, args) = path_args(t)?;
        let inside = |me: &Self, t: &syn::Type, e: &str, u: &mut Vec<String>| me.value(t, e, d + 1, u);
        Ok(match (name.as_str(), args.len()) {
            ("String", 0) => format!("(match {} {{ Value::String(s{d}) => Some(s{d}), _ => None }})", e),
            ("bool", 0) => format!("(match {} {{ Value::Bool(b{d}) => Some(b{d}), _ => None }})", e),
            ("usize", 0) => format!("(match {} {{ Value::Number(n{d}) => number_usize(n{d}@), _ => None }})", e),
            ("Value", 0) => format!("Some({})", e),
            ("Box", 1) => {
                let v = inside(self, args[0], e, uses)?;
                format!("(match {} {{ Some(q{d}) => Some(Box::new(q{d})), None => None }})", v)
            }
            ("Option", 1) => {
                let v = inside(self, args[0], e, uses)?;
                format!("(match {} {{ Value::Null => Some(None), _ => match {} {{ Some(q{d}) => Some(Some(q{d})), None => None }} }})", e, v)
            }
            ("Vec", 1) => {
                let v = inside(self, args[0], &format!("a{d}.v@[i{d}]"), uses)?;
                format!("(match {} {{ Value::Array(a{d}) => some_vec(Seq::new(a{d}.v@.len(), |i{d}: int| if 0 <= i{d} < a{d}.v@.len() {{ {} }} else {{ arbitrary() }})), _ => None }})", e, v)
            }
            ("HashMap" | "BTreeMap", 2) if is_string(args[0]) => {
                let v = inside(self, args[1], &format!("a{d}.m@[k{d}]"), uses)?;
                let f = if name == "HashMap" { "some_hash" } else { "some_tree" };
                format!("(match {} {{ Value::Object(a{d}) => {}(Map::new(a{d}.m@.dom(), |k{d}: Seq<char>| if a{d}.m@.contains_key(k{d}) {{ {} }} else {{ arbitrary() }})), _ => None }})", e, f, v)
            }
            ("HashSet", 1) if is_string(args[0]) => format!("(match {} {{ Value::Array(a{d}) => some_words(a{d}.v@), _ => None }})", e),
            (n, 0) => match self.known.get(n).map(|t| &t.item) {
                Some(syn::Item::Type(a)) => self.value(&a.ty, e, d, uses)?,
                Some(syn::Item::Struct(_)) => {
                    uses.push(n.to_string());
                    format!("rd_{}_{}({}, Set::<Seq<char>>::empty())", self.module, n, e)
                }
                Some(_) => {
                    uses.push(n.to_string());
                    format!("rd_{}_{}({})", self.module, n, e)
                }
                None => return Err(format!("type {}", n)),
            },
            _ => return Err(format!("type {}", t.to_token_stream())),
        })
    }

    /// the value of a missing member
    fn missing(&self, t: &syn::Type, default: Option<&Option<String>>) -> R<String> {
        let (name, args) = path_args(t)?;
        Ok(match (name.as_str(), args.len(), default) {
            (_, _, Some(Some(_))) => return Err("default".into()),
            ("Option", 1, _) => "Some(None)".into(),
            (n, 0, d) if matches!(self.known.get(n).map(|t| &t.item), Some(syn::Item::Type(_))) => {
                let Some(syn::Item::Type(a)) = self.known.get(n).map(|t| &t.item) else { unreachable!() };
                self.missing(&a.ty, d)?
            }
            (_, _, None) => "None".into(),
            ("Value", 0, _) => "Some(Value::Null)".into(),
            ("bool", 0, _) => "Some(false)".into(),
            ("usize", 0, _) => "Some(0usize)".into(),
            ("String", 0, _) => "Some(st(Seq::empty()))".into(),
            ("Vec", 1, _) => "Some(vc(Seq::empty()))".into(),
            ("HashMap", 2, _) => "Some(hm(Map::empty()))".into(),
            ("BTreeMap", 2, _) => "Some(BTreeMap { m: Ghost(Map::empty()) })".into(),
            ("HashSet", 1, _) => "Some(hs(Set::empty()))".into(),
            _ => return Err("default".into()),
        })
    }

    fn structure(&self, s: &syn::ItemStruct, uses: &mut Vec<String>) -> R<String> {
        let fs = self.fields(s)?;
        let flat = fs.iter().any(|f| f.attrs.contains_key("flatten"));
        let mut b = String::new();
        let mut keys = vec![];
        for (i, f) in fs.iter().enumerate().filter(|(_, f)| !f.attrs.contains_key("flatten")) {
            let none = self.missing(&f.field.ty, f.attrs.get("default"))?;
            if f.attrs.contains_key("skip_deserializing") {
                let none = self.missing(&f.field.ty, Some(&None))?;
                b.push_str(&format!("    let f{} = {};\n", i, none));
                continue;
            }
            let v = self.value(&f.field.ty, "y", 0, uses)?;
            keys.push(f.name.clone());
            match f.attrs.get("alias").cloned().flatten() {
                None => b.push_str(&format!("    let f{} = match own(x, z, {:?}@) {{ Some(y) => {}, None => {} }};\n", i, f.name, v, none)),
                Some(a) => {
                    b.push_str(&format!(
                        "    let f{0} = if own(x, z, {1:?}@) is Some && own(x, z, {2:?}@) is Some {{ None }} else {{ match (if own(x, z, {1:?}@) is Some {{ own(x, z, {1:?}@) }} else {{ own(x, z, {2:?}@) }}) {{ Some(y) => {3}, None => {4} }} }};\n",
                        i, f.name, a, v, none
                    ));
                    keys.push(a);
                }
            }
        }
        // only the keys both would take matter to a struct
        let taken = |keys: &[String]| {
            let mut k: Vec<&String> = keys.iter().collect();
            k.sort();
            k.dedup();
            format!("z{}", k.iter().map(|k| format!(".insert({:?}@)", k)).collect::<String>())
        };
        for (i, f) in fs.iter().enumerate().filter(|(_, f)| f.attrs.contains_key("flatten")) {
            let (name, args) = path_args(&f.field.ty)?;
            if f.attrs.contains_key("default") || f.attrs.contains_key("skip_deserializing") {
                return Err("default".into());
            }
            match (name.as_str(), args.len()) {
                ("HashMap" | "BTreeMap", 2) if is_string(args[0]) => {
                    let v = self.value(args[1], "x->Object_0.m@[k]", 0, uses)?;
                    let g = if name == "HashMap" { "some_hash" } else { "some_tree" };
                    b.push_str(&format!(
                        "    let f{} = {}(Map::new(rest(x, {}), |k: Seq<char>| if x->Object_0.m@.contains_key(k) {{ {} }} else {{ arbitrary() }}));\n",
                        i, g, taken(&keys), v
                    ));
                }
                (n, 0) => {
                    let ks = self.keys(n)?;
                    let both: Vec<String> = keys.iter().filter(|k| ks.contains(k)).cloned().collect();
                    uses.push(n.to_string());
                    b.push_str(&format!("    let f{} = rd_{}_{}(x, {});\n", i, self.module, n, taken(&both)));
                    keys.extend(ks);
                }
                _ => return Err("flatten".into()),
            }
        }
        let all: Vec<String> = (0..fs.len()).map(|i| format!("f{} is Some", i)).collect();
        let set: Vec<String> = fs.iter().enumerate().map(|(i, f)| format!("{}: f{}->0", f.id, i)).collect();
        b.push_str(&format!(
            "    if {} {{ Some({}::{} {{ {} }}) }} else {{ None }}",
            if all.is_empty() { "true".into() } else { all.join(" && ") },
            self.module,
            s.ident,
            set.join(", ")
        ));
        let other = if flat { "None" } else { "read_from_list(x)" };
        Ok(format!("    if !(x is Object) {{ {} }} else {{\n{}\n    }}", other, b))
    }

    fn enumeration(&self, e: &syn::ItemEnum, uses: &mut Vec<String>) -> R<String> {
        let at = metas(&e.attrs)?;
        only(&at, &["untagged", "rename_all"])?;
        let style = at.get("rename_all").and_then(|s| s.as_deref());
        let me = format!("{}::{}", self.module, e.ident);
        let mut b = String::new();
        if at.contains_key("untagged") {
            for v in &e.variants {
                only(&metas(&v.attrs)?, &[])?;
                match &v.fields {
                    syn::Fields::Unit => b.push_str(&format!("    if x is Null {{ Some({}::{}) }} else {{\n", me, v.ident)),
                    syn::Fields::Unnamed(u) if u.unnamed.len() == 1 => {
                        let r = format!("({})", self.value(&u.unnamed[0].ty, "x", 0, uses)?);
                        b.push_str(&format!("    if {0} is Some {{ Some({1}::{2}({0}->0)) }} else {{\n", r, me, v.ident));
                    }
                    _ => return Err("variant with fields".into()),
                }
            }
            b.push_str("    None\n    ");
            b.push_str(&"}".repeat(e.variants.len()));
            return Ok(b);
        }
        let mut other = "None".to_string();
        for v in &e.variants {
            let va = metas(&v.attrs)?;
            only(&va, &["rename", "other", "alias"])?;
            if !matches!(v.fields, syn::Fields::Unit) {
                return Err("variant with fields".into());
            }
            let name = match va.get("rename") {
                Some(Some(n)) => n.clone(),
                _ => variant_case(&v.ident.to_string(), style)?,
            };
            for n in [Some(name), va.get("alias").cloned().flatten()].into_iter().flatten() {
                b.push_str(&format!("if s.s@ == {:?}@ {{ Some({}::{}) }} else ", n, me, v.ident));
            }
            if va.contains_key("other") {
                other = format!("Some({}::{})", me, v.ident);
            }
        }
        Ok(format!("    match x {{ Value::String(s) => {}{{ {} }}, _ => read_unit(x) }}", b, other))
    }
}
