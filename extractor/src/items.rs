use crate::contracts::Contracts;
use crate::emit::{ty, FnEmit};
use crate::regex_spec;
use crate::serde_spec;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use syn::spanned::Spanned;

pub struct FnItem {
    pub key: String,
    pub module: String,
    pub self_ty: Option<String>,
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub err_ty: Option<syn::Type>,
    pub file: String,
    pub line: usize,
}

pub struct TypeItem {
    pub module: String,
    pub item: syn::Item,
}

#[derive(Default)]
pub struct Krate {
    pub modules: Vec<String>,
    pub types: Vec<TypeItem>,
    pub fns: Vec<FnItem>,
    pub consts: BTreeMap<String, syn::Expr>,
    /// struct name (module::name) -> (field, type)
    pub fields: BTreeMap<String, Vec<(String, syn::Type)>>,
    pub dropped: Vec<String>,
    pub method_names: BTreeSet<String>,
    /// (module, name) -> path of what a `use` there calls by that name
    pub uses: BTreeMap<(String, String), String>,
}

/// What `#[cfg(..)]` or `#[test]` leaves out of the library as it is built: no
/// tests, no optional features.
fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("test")
            || a.path().is_ident("cfg") && a.parse_args::<syn::Meta>().map(|m| !cfg_on(&m)).unwrap_or(false)
    })
}

fn cfg_on(m: &syn::Meta) -> bool {
    let inner = |l: &syn::MetaList| {
        l.parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated)
            .map(|p| p.iter().map(cfg_on).collect::<Vec<_>>())
            .unwrap_or_default()
    };
    match m {
        syn::Meta::List(l) if l.path.is_ident("not") => !inner(l).iter().any(|b| *b),
        syn::Meta::List(l) if l.path.is_ident("all") => inner(l).iter().all(|b| *b),
        syn::Meta::List(l) if l.path.is_ident("any") => inner(l).iter().any(|b| *b),
        syn::Meta::Path(p) => p.is_ident("unix") || p.is_ident("debug_assertions"),
        syn::Meta::NameValue(n) => n.path.is_ident("target_os") || n.path.is_ident("target_family"),
        _ => false,
    }
}

/// the names a `use` brings in, with their paths
fn uses(t: &syn::UseTree, pre: &[String], out: &mut Vec<(String, Vec<String>)>) {
    let add = |i: &syn::Ident| {
        let mut v = pre.to_vec();
        if i != "super" && i != "crate" && i != "self" && i != "jst" {
            v.push(i.to_string());
        }
        v
    };
    match t {
        syn::UseTree::Path(p) => uses(&p.tree, &add(&p.ident), out),
        syn::UseTree::Name(n) => out.push((n.ident.to_string(), add(&n.ident))),
        syn::UseTree::Rename(r) => out.push((r.rename.to_string(), add(&r.ident))),
        syn::UseTree::Group(g) => g.items.iter().for_each(|i| uses(i, pre, out)),
        syn::UseTree::Glob(_) => {}
    }
}

impl Krate {
    pub fn read(src: &str) -> Result<Krate, String> {
        let mut k = Krate::default();
        k.file(src, "lib.rs", "")?;
        // the command line tool
        if std::path::Path::new(&format!("{}/main.rs", src)).exists() {
            k.file(src, "main.rs", "cli")?;
        }
        Ok(k)
    }
    fn file(&mut self, src: &str, name: &str, module: &str) -> Result<(), String> {
        let path = format!("{}/{}", src, name);
        let text = fs::read_to_string(&path).map_err(|e| format!("{}: {}", path, e))?;
        let f = syn::parse_file(&text).map_err(|e| format!("{}: {}", path, e))?;
        self.modules.push(module.to_string());
        self.items(src, name, module, f.items)
    }
    fn items(&mut self, src: &str, file: &str, module: &str, items: Vec<syn::Item>) -> Result<(), String> {
        let q = |n: &str| if module.is_empty() { n.to_string() } else { format!("{}::{}", module, n) };
        for it in items {
            match it {
                syn::Item::Mod(m) if is_test(&m.attrs) => {}
                syn::Item::Mod(m) if m.content.is_none() => {
                    let n = m.ident.to_string();
                    // traits only declares
                    if n == "traits" {
                        self.dropped.push(format!("module {}", n));
                        continue;
                    }
                    let sub = q(&n);
                    let fname = if std::path::Path::new(&format!("{}/{}.rs", src, n)).exists() {
                        format!("{}.rs", n)
                    } else {
                        format!("{}/mod.rs", n)
                    };
                    self.file(src, &fname, &sub)?;
                }
                syn::Item::Mod(m) => {
                    let sub = q(&m.ident.to_string());
                    self.modules.push(sub.clone());
                    self.items(src, file, &sub, m.content.unwrap().1)?;
                }
                syn::Item::Struct(s) => {
                    let fs = s
                        .fields
                        .iter()
                        .filter_map(|f| f.ident.as_ref().map(|i| (i.to_string(), f.ty.clone())))
                        .collect();
                    self.fields.insert(q(&s.ident.to_string()), fs);
                    self.types.push(TypeItem { module: module.into(), item: syn::Item::Struct(s) });
                }
                e @ (syn::Item::Enum(_) | syn::Item::Type(_)) => {
                    self.types.push(TypeItem { module: module.into(), item: e })
                }
                syn::Item::Const(c) => {
                    self.consts.insert(q(&c.ident.to_string()), *c.expr);
                }
                syn::Item::Use(u) if !is_test(&u.attrs) => {
                    let mut v = vec![];
                    uses(&u.tree, &[], &mut v);
                    for (n, p) in v {
                        self.uses.insert((module.to_string(), n), p.join("::"));
                    }
                }
                syn::Item::Fn(f) if is_test(&f.attrs) => {}
                syn::Item::Fn(f) => {
                    self.method_names.insert(f.sig.ident.to_string());
                    self.fns.push(FnItem {
                        key: q(&f.sig.ident.to_string()),
                        module: module.into(),
                        self_ty: None,
                        line: f.sig.span().start().line,
                        sig: f.sig,
                        block: *f.block,
                        err_ty: None,
                        file: file.into(),
                    });
                }
                syn::Item::Impl(im) => {
                    let st = match &*im.self_ty {
                        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                        _ => continue,
                    };
                    if let Some((_, tr, _)) = &im.trait_ {
                        let tn = tr.segments.last().unwrap().ident.to_string();
                        if tn != "TranslateFrom" {
                            self.dropped.push(format!("impl {} for {}", tn, q(&st)));
                            continue;
                        }
                    }
                    let err = im.items.iter().find_map(|i| match i {
                        syn::ImplItem::Type(t) if t.ident == "Error" => Some(t.ty.clone()),
                        _ => None,
                    });
                    for i in im.items {
                        if let syn::ImplItem::Fn(f) = i {
                            self.method_names.insert(f.sig.ident.to_string());
                            self.fns.push(FnItem {
                                key: q(&format!("{}::{}", st, f.sig.ident)),
                                module: module.into(),
                                self_ty: Some(st.clone()),
                                line: f.sig.span().start().line,
                                sig: f.sig,
                                block: f.block,
                                err_ty: err.clone(),
                                file: file.into(),
                            });
                        }
                    }
                }
                syn::Item::Trait(t) => self.dropped.push(format!("trait {}", t.ident)),
                _ => {}
            }
        }
        Ok(())
    }
}

pub struct Gen<'a> {
    k: &'a Krate,
    c: &'a Contracts,
    pub regexes: Vec<String>,
    pub unsupported: Vec<Value>,
    /// functions whose text the verifier does not take
    pub left_out: Vec<String>,
    pub lost: Vec<Value>,
    pub uncontracted: Vec<String>,
    pub fns: Vec<Value>,
    pub trusted: Vec<Value>,
}

impl<'a> Gen<'a> {
    pub fn new(k: &'a Krate, c: &'a Contracts) -> Self {
        Gen {
            k,
            c,
            regexes: vec![],
            unsupported: vec![],
            left_out: vec![],
            lost: vec![],
            uncontracted: vec![],
            fns: vec![],
            trusted: vec![],
        }
    }

    pub fn run(&mut self, dir: &str) -> String {
        let mut bodies: BTreeMap<String, String> = BTreeMap::new();
        for f in &self.k.fns {
            // generic functions are outside of the fragment, but for serializers
            let mono = serializer(f).map(|(sig, block)| FnItem {
                key: f.key.clone(),
                module: f.module.clone(),
                self_ty: f.self_ty.clone(),
                sig,
                block,
                err_ty: f.err_ty.clone(),
                file: f.file.clone(),
                line: f.line,
            });
            let f = mono.as_ref().unwrap_or(f);
            if !f.sig.generics.params.iter().all(|p| matches!(p, syn::GenericParam::Lifetime(_))) {
                self.k_unsupported(f, "generic function");
                continue;
            }
            let con = self.c.get(&f.key);
            if con.is_none() {
                self.uncontracted.push(f.key.clone());
            }
            let mut e = FnEmit::new(self.k, self.c, f, con, self.regexes.clone());
            let text = match e.function() {
                Ok(_) if self.left_out.contains(&f.key) => {
                    self.unsupported.push(json!({"fn": f.key, "file": f.file, "line": f.line, "what": "outside the verifier's reach"}));
                    e.stub()
                }
                Ok(t) => t,
                Err((msg, line)) => {
                    self.unsupported.push(json!({"fn": f.key, "file": f.file, "line": line, "what": msg}));
                    e.stub()
                }
            };
            self.regexes = e.regexes.clone();
            for l in e.lost.drain(..) {
                self.lost.push(json!({"fn": f.key, "what": l}));
            }
            if let Some(why) = con.and_then(|c| c.trusted.clone()) {
                self.trusted.push(json!({"fn": f.key, "why": why}));
            }
            self.fns.push(json!({"key": f.key, "file": f.file, "line": f.line, "contract": con.is_some(), "loops": e.loops}));
            let wrapped = match &f.self_ty {
                Some(t) => format!("impl {} {{\n{}}}\n", t, text),
                None => text,
            };
            bodies.entry(f.module.clone()).or_default().push_str(&wrapped);
        }
        let present: BTreeSet<&str> = self.k.fns.iter().map(|f| f.key.as_str()).collect();
        for key in self.c.keys() {
            if !present.contains(key.as_str()) {
                self.lost.push(json!({"fn": key, "what": "function not found"}));
            }
        }
        for t in &self.k.types {
            let text = self.type_item(t);
            if text.contains("pub fn parse()") && !text.contains("spec fn parsed()") {
                self.unsupported.push(json!({"fn": "cli::main", "file": "main.rs", "line": 0, "what": "clap attribute"}));
            }
            let b = bodies.entry(t.module.clone()).or_default();
            *b = format!("{}{}", text, b);
        }
        let mut out = String::new();
        out.push_str("#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_snake_case, unreachable_patterns, unused_assignments, unreachable_code, private_interfaces)]\n");
        out.push_str("use vstd::prelude::*;\n");
        for part in ["shim.rs"] {
            out.push_str(&fs::read_to_string(format!("{}/{}", dir, part)).unwrap_or_default());
        }
        // regex literals
        out.push_str("verus! {\npub mod rx {\nuse super::*;\n");
        for (i, r) in self.regexes.iter().enumerate() {
            let name = format!("re_{}", i);
            match regex_spec::spec(&name, r) {
                Some(s) => {
                    out.push_str(&s);
                    out.push_str(&format!(
                        "pub axiom fn axiom_{0}()\n ensures shim::re_valid({1:?}@), forall|s: Seq<char>| #[trigger] shim::re_match({1:?}@, s) == {0}(s);\n",
                        name, r
                    ));
                }
                None => {
                    self.unsupported.push(json!({"fn": "*", "file": "", "line": 0, "what": format!("regex {:?}", r)}));
                    out.push_str(&format!("pub proof fn axiom_{}() {{}}\n", name));
                }
            }
        }
        out.push_str("}\n} // verus!\n");
        let mut mods: Vec<&String> = bodies.keys().collect();
        mods.sort();
        let top: Vec<&String> = mods.iter().copied().filter(|m| !m.contains("::")).collect();
        for m in top {
            let body = &bodies[m];
            if m.is_empty() {
                out.push_str(&format!("verus! {{\npub use shim::*;\n{}}} // verus!\n", body));
            } else {
                let mut inner = String::new();
                for n in &mods {
                    if let Some(r) = n.strip_prefix(&format!("{}::", m)) {
                        inner.push_str(&format!("pub mod {} {{\nuse super::*;\n{}}}\n", r, bodies[*n]));
                    }
                }
                out.push_str(&format!(
                    "verus! {{\npub mod {} {{\nuse super::*;\nuse super::shim::*;\nuse super::spec::*;\nuse super::lemmas::*;\n{}{}{}}}\n}} // verus!\n",
                    m, if m == "cli" { "use super::world::*;\n" } else { "" }, body, inner
                ));
            }
        }
        // what is printed
        let pr = serde_spec::print(&self.k.types, &["avro", "bigquery"]);
        for (f, why) in &pr.refused {
            self.unsupported.push(json!({"fn": "printing::*", "file": "", "line": 0, "what": format!("{}: {}", f, why)}));
        }
        out.push_str(&format!(
            "verus! {{\npub mod printed {{\nuse super::*;\nuse super::shim::*;\nuse super::printing::*;\n{}}}\n}} // verus!\n",
            pr.text
        ));
        // what is read
        let rd = serde_spec::read(&self.k.types, "jsonschema", "Tag");
        for (f, why) in &rd.refused {
            self.unsupported.push(json!({"fn": "reading::*", "file": "", "line": 0, "what": format!("{}: {}", f, why)}));
        }
        out.push_str(&format!(
            "verus! {{\npub mod read {{\nuse super::*;\nuse super::shim::*;\nuse super::reading::*;\n{}}}\n}} // verus!\n",
            rd.text
        ));
        let mut parts: Vec<_> = fs::read_dir(dir)
            .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
            .unwrap_or_else(|_| Vec::<std::path::PathBuf>::new());
        parts.retain(|p| {
            p.extension().map(|e| e == "rs").unwrap_or(false) && p.file_name().map(|n| n != "shim.rs").unwrap_or(false)
        });
        parts.sort();
        for p in parts {
            out.push_str(&format!("//@part {}\n", p.file_name().unwrap().to_string_lossy()));
            out.push_str(&fs::read_to_string(p).unwrap_or_default());
        }
        out.push_str("\nfn main() {}\n");
        out
    }
    fn k_unsupported(&mut self, f: &FnItem, what: &str) {
        self.unsupported.push(json!({"fn": f.key, "file": f.file, "line": f.line, "what": what}));
    }

    fn type_item(&self, t: &TypeItem) -> String {
        match &t.item {
            syn::Item::Struct(s) => {
                let fs: Vec<String> = s
                    .fields
                    .iter()
                    .map(|f| format!("    pub {}: {},\n", f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(), ty(&f.ty, None)))
                    .collect();
                format!("pub struct {} {{\n{}}}\n{}", s.ident, fs.concat(), self.clap_impl(s))
            }
            syn::Item::Enum(e) => {
                let vs: Vec<String> = e
                    .variants
                    .iter()
                    .map(|v| match &v.fields {
                        syn::Fields::Unit => format!("    {},\n", v.ident),
                        syn::Fields::Unnamed(u) => {
                            let ts: Vec<String> = u.unnamed.iter().map(|f| ty(&f.ty, None)).collect();
                            format!("    {}({}),\n", v.ident, ts.join(", "))
                        }
                        syn::Fields::Named(n) => {
                            let ts: Vec<String> = n
                                .named
                                .iter()
                                .map(|f| format!("{}: {}", f.ident.as_ref().unwrap(), ty(&f.ty, None)))
                                .collect();
                            format!("    {} {{ {} }},\n", v.ident, ts.join(", "))
                        }
                    })
                    .collect();
                let unit = e.variants.iter().all(|v| matches!(v.fields, syn::Fields::Unit));
                let derive = if unit { "#[derive(Copy, Clone)]\n" } else { "" };
                let mut out = format!("{}pub enum {} {{\n{}}}\n", derive, e.ident, vs.concat());
                if unit {
                    if let Some(s) = self.de_impl(e) {
                        out.push_str(&s);
                    }
                }
                out
            }
            syn::Item::Type(a) => format!("pub type {} = {};\n", a.ident, ty(&a.ty, None)),
            _ => String::new(),
        }
    }

    /// What clap makes of the command line, read off the attributes.
    fn clap_impl(&self, s: &syn::ItemStruct) -> String {
        let derives = s.attrs.iter().any(|a| a.path().is_ident("derive") && words(a).iter().any(|w| w == "Parser"));
        if !derives {
            return String::new();
        }
        let mut fs = String::new();
        let mut pos = 0;
        for f in &s.fields {
            match self.clap_field(f, &mut pos) {
                Some(x) => fs.push_str(&format!("            {}: {},\n", f.ident.as_ref().unwrap(), x)),
                None => return format!("impl {0} {{\n    #[verifier::external_body]\n    pub fn parse() -> (r: {0}) {{ unimplemented!() }}\n}}\n", s.ident),
            }
        }
        format!(
            "impl {0} {{\n    pub open spec fn parsed() -> {0} {{\n        {0} {{\n{1}        }}\n    }}\n    #[verifier::external_body]\n    pub fn parse() -> (r: {0}) ensures r == {0}::parsed() {{ unimplemented!() }}\n}}\n",
            s.ident, fs
        )
    }
    fn clap_field(&self, f: &syn::Field, pos: &mut usize) -> Option<String> {
        let name = f.ident.as_ref()?.to_string();
        let (mut short, mut long, mut default) = (None, None, None);
        for a in f.attrs.iter().filter(|a| a.path().is_ident("arg") || a.path().is_ident("clap")) {
            let items = a.parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated).ok()?;
            for m in items {
                let key = m.path().get_ident()?.to_string();
                let val = match &m {
                    syn::Meta::NameValue(n) => Some(n.value.clone()),
                    syn::Meta::Path(_) => None,
                    _ => return None,
                };
                let lit = val.as_ref().and_then(|v| match v {
                    syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(s.value()),
                    syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Char(s), .. }) => Some(s.value().to_string()),
                    _ => None,
                });
                match key.as_str() {
                    "short" => short = Some(if val.is_some() { lit?.chars().next()? } else { name.chars().next()? }),
                    "long" => long = Some(if val.is_some() { lit? } else { name.replace('_', "-") }),
                    "default_value_t" => default = Some(val.map(|v| v.to_token_stream().to_string().replace(' ', ""))),
                    "value_enum" | "value_name" | "help" | "long_help" | "help_heading" => {}
                    _ => return None,
                }
            }
        }
        let lits = |x: &str| format!("{:?}@", x);
        let sh = match short {
            Some(c) => format!("Some({:?})", c),
            None => "None".into(),
        };
        let lo = match &long {
            Some(l) => format!("Some({})", lits(l)),
            None => "None".into(),
        };
        let t = f.ty.to_token_stream().to_string().replace(' ', "");
        if t == "bool" && (short.is_some() || long.is_some()) && default.is_none() {
            return Some(format!("clap_flag({}, {})", sh, lo));
        }
        if t == "Option<String>" && short.is_none() && long.is_none() && default.is_none() {
            *pos += 1;
            return Some(format!("clap_positional({})", *pos - 1));
        }
        // one of the values of an enumeration
        let e = self.k.types.iter().find_map(|x| match &x.item {
            syn::Item::Enum(e) if x.module == "cli" && e.ident == t => Some(e),
            _ => None,
        })?;
        if short.is_none() && long.is_none() || !e.attrs.iter().any(|a| words(a).iter().any(|w| w == "ValueEnum")) {
            return None;
        }
        if e.attrs.iter().any(|a| a.path().is_ident("value") || a.path().is_ident("clap")) {
            return None;
        }
        let mut names = Vec::new();
        let mut first = None;
        for v in &e.variants {
            let mut n = rename(&v.ident.to_string(), "kebab-case");
            for a in &v.attrs {
                if a.path().is_ident("value") || a.path().is_ident("clap") {
                    let m: syn::MetaNameValue = a.parse_args().ok()?;
                    match (&m.value, m.path.is_ident("name")) {
                        (syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }), true) => n = s.value(),
                        _ => return None,
                    }
                }
                if a.path().is_ident("default") {
                    first = Some(n.clone());
                }
            }
            names.push((v.ident.to_string(), n));
        }
        let def = match default? {
            Some(p) if p.ends_with("::default()") => first?,
            Some(p) => names.iter().find(|(i, _)| p == format!("{}::{}", e.ident, i))?.1.clone(),
            None => first?,
        };
        let set: String = names.iter().map(|(_, n)| format!(".insert({})", lits(n))).collect();
        let mut out = format!("({{ let c = clap_choice({}, {}, Set::<Seq<char>>::empty(){}, {}); ", sh, lo, set, lits(&def));
        for (k, (i, n)) in names.iter().enumerate() {
            if k + 1 < names.len() {
                out.push_str(&format!("if c == {} {{ {}::{} }} else ", lits(n), e.ident, i));
            } else {
                out.push_str(&format!("{{ {}::{} }} }})", e.ident, i));
            }
        }
        Some(out)
    }

    /// Deserialization of a unit enum from its name, read off the attributes.
    fn de_impl(&self, e: &syn::ItemEnum) -> Option<String> {
        let attrs: Vec<String> = e.attrs.iter().map(|a| a.to_token_stream().to_string()).collect();
        let serde = attrs.iter().find(|a| a.contains("serde") && a.contains("rename_all"))?;
        if serde.contains("tag") || serde.contains("untagged") {
            return None;
        }
        let style = ["kebab-case", "lowercase", "UPPERCASE", "camelCase", "snake_case"]
            .into_iter()
            .find(|s| serde.contains(&format!("\"{}\"", s)))?;
        let mut chain = String::new();
        let mut lits = String::new();
        let mut other = "None".to_string();
        for v in &e.variants {
            let va: Vec<String> = v.attrs.iter().map(|a| a.to_token_stream().to_string()).collect();
            let mut n = rename(&v.ident.to_string(), style);
            for a in va.iter().filter(|a| a.contains("serde")) {
                if a.contains("other") {
                    other = format!("Some({}::{})", e.ident, v.ident);
                    n.clear();
                } else if let Some(r) = a.split("rename").nth(1) {
                    n = r.split('"').nth(1)?.to_string();
                } else {
                    return None;
                }
            }
            if n.is_empty() {
                continue;
            }
            lits.push_str(&format!("reveal_strlit({:?}); ", n));
            chain.push_str(&format!("if s.s@ == {:?}@ {{ Some({}::{}) }} else ", n, e.ident, v.ident));
        }
        Some(format!(
            "impl VDe for {0} {{\n    open spec fn de(v: Value) -> Option<{0}> {{\n        match v {{ Value::String(s) => {1}{{ {2} }}, _ => super::reading::read_unit::<{0}>(v) }}\n    }}\n    #[verifier::external_body]\n    fn v_from_value(v: Value) -> (r: Result<{0}, DeError>) {{ unimplemented!() }}\n}}\n",
            e.ident, chain, other
        ))
    }

    pub fn report(&self, text: &str) -> Value {
        json!({
            "lines": text.lines().count(),
            "fns": self.fns,
            "unsupported": self.unsupported,
            "lost_anchors": self.lost,
            "uncontracted": self.uncontracted,
            "trusted": self.trusted,
            "regexes": self.regexes,
            "dropped": self.k.dropped,
        })
    }
}

/// the items of `#[name(a, b = "c", ..)]`
pub fn attr_items(a: &syn::Attribute) -> Option<Vec<(String, Option<String>)>> {
    let l = a.meta.require_list().ok()?;
    let ms = l.parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated).ok()?;
    ms.iter()
        .map(|m| match m {
            syn::Meta::Path(p) => Some((p.get_ident()?.to_string(), None)),
            syn::Meta::NameValue(n) => match &n.value {
                syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some((n.path.get_ident()?.to_string(), Some(s.value()))),
                _ => None,
            },
            syn::Meta::List(_) => None,
        })
        .collect()
}

/// A function generic in the serializer, for serde_json's into values.
fn serializer(f: &FnItem) -> Option<(syn::Signature, syn::Block)> {
    let ps: Vec<_> = f.sig.generics.params.iter().collect();
    let [syn::GenericParam::Type(p)] = ps[..] else { return None };
    let bound = format!("{} {}", p.bounds.to_token_stream(), f.sig.generics.where_clause.to_token_stream());
    if !bound.split(|c: char| !c.is_alphanumeric()).any(|w| w == "Serializer") {
        return None;
    }
    let s = p.ident.to_string();
    fn subst(ts: proc_macro2::TokenStream, s: &str) -> proc_macro2::TokenStream {
        use proc_macro2::{Ident, TokenTree as T};
        let v: Vec<T> = ts.into_iter().collect();
        let mut out: Vec<T> = vec![];
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                T::Ident(id) if id == s => {
                    let assoc = match (v.get(i + 1), v.get(i + 2), v.get(i + 3)) {
                        (Some(T::Punct(a)), Some(T::Punct(b)), Some(T::Ident(c))) if a.as_char() == ':' && b.as_char() == ':' => Some(c.to_string()),
                        _ => None,
                    };
                    let (n, step) = match assoc.as_deref() {
                        Some("Ok") => ("Value", 4),
                        Some("Error") => ("SerError", 4),
                        _ => ("JsonSerializer", 1),
                    };
                    out.push(T::Ident(Ident::new(n, id.span())));
                    i += step;
                    continue;
                }
                T::Group(g) => {
                    let mut h = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), s));
                    h.set_span(g.span());
                    out.push(T::Group(h));
                }
                t => out.push(t.clone()),
            }
            i += 1;
        }
        out.into_iter().collect()
    }
    let mut sig = f.sig.clone();
    sig.generics = Default::default();
    let sig = syn::parse2(subst(sig.to_token_stream(), &s)).ok()?;
    let block = syn::parse2(subst(f.block.to_token_stream(), &s)).ok()?;
    Some((sig, block))
}

fn words(a: &syn::Attribute) -> Vec<String> {
    a.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').map(|s| s.to_string()).collect()
}

pub fn rename(s: &str, style: &str) -> String {
    let mut words: Vec<String> = Vec::new();
    for c in s.chars() {
        if c.is_uppercase() || words.is_empty() {
            words.push(String::new());
        }
        words.last_mut().unwrap().push(c.to_ascii_lowercase());
    }
    match style {
        "lowercase" => words.concat(),
        "UPPERCASE" => words.concat().to_uppercase(),
        "kebab-case" => words.join("-"),
        "snake_case" => words.join("_"),
        _ => {
            let mut out = words[0].clone();
            for w in &words[1..] {
                let mut cs = w.chars();
                out.extend(cs.next().map(|c| c.to_ascii_uppercase()));
                out.push_str(cs.as_str());
            }
            out
        }
    }
}
