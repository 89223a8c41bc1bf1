//! Prints one function as Verus text. Every construct that is not copied as it
//! stands is lowered by a fixed rule, and the rest is refused.
use crate::contracts::{norm, Contracts, FnC, LoopC};
use crate::items::{FnItem, Krate};
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;

type Out = Result<String, (String, usize)>;

const SOURCES: [&str; 8] =
    ["iter", "into_iter", "iter_mut", "keys", "values", "values_mut", "intersection", "into_values"];
const STAGES: [&str; 8] = ["map", "filter", "filter_map", "flatten", "enumerate", "cloned", "copied", "skip"];
const SINKS: [&str; 6] = ["collect", "any", "all", "fold", "for_each", "count"];

pub fn ty(t: &syn::Type, err: Option<&syn::Type>) -> String {
    match t {
        syn::Type::Path(p) => path_ty(&p.path, err),
        syn::Type::Reference(r) => {
            let lt = r.lifetime.as_ref().map(|l| format!("{} ", l)).unwrap_or_default();
            let m = if r.mutability.is_some() { "mut " } else { "" };
            format!("&{}{}{}", lt, m, ty(&r.elem, err))
        }
        syn::Type::Tuple(ts) => {
            let v: Vec<String> = ts.elems.iter().map(|e| ty(e, err)).collect();
            if v.len() == 1 {
                format!("({},)", v[0])
            } else {
                format!("({})", v.join(", "))
            }
        }
        syn::Type::Paren(p) => ty(&p.elem, err),
        syn::Type::Infer(_) => "_".into(),
        syn::Type::TraitObject(_) | syn::Type::ImplTrait(_) if t.to_token_stream().to_string().contains("Read") => "Reader".into(),
        _ => t.to_token_stream().to_string(),
    }
}

fn path_ty(p: &syn::Path, err: Option<&syn::Type>) -> String {
    let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    if segs == ["Self", "Error"] {
        return err.map(|e| ty(e, None)).unwrap_or("Self::Error".into());
    }
    let last = p.segments.last().unwrap();
    let name = last.ident.to_string();
    let mut args: Vec<String> = match &last.arguments {
        syn::PathArguments::AngleBracketed(a) => a
            .args
            .iter()
            .map(|g| match g {
                syn::GenericArgument::Type(t) => ty(t, err),
                o => o.to_token_stream().to_string(),
            })
            .collect(),
        _ => vec![],
    };
    let base = match name.as_str() {
        "HashMap" | "BTreeMap" => {
            if args.len() == 2 {
                args.remove(0);
            }
            name
        }
        "HashSet" | "BTreeSet" => {
            args.clear();
            "HashSet".into()
        }
        "str" => "String".into(),
        "Value" => "Value".into(),
        _ => clean_path(&segs).join("::"),
    };
    if args.is_empty() {
        base
    } else {
        format!("{}<{}>", base, args.join(", "))
    }
}

fn clean_path(segs: &[String]) -> Vec<String> {
    let mut v: Vec<String> = segs.iter().filter(|s| *s != "super" && *s != "crate" && *s != "self" || segs.len() == 1).cloned().collect();
    if v.len() > 1 && (v[0] == "serde_json" || v[0] == "regex" || v[0] == "casing" || v[0] == "traits" || v[0] == "jst") {
        v.remove(0);
    }
    if v.len() > 2 && v[0] == "std" {
        v = v[2..].to_vec();
    }
    v
}

pub struct FnEmit<'a> {
    k: &'a Krate,
    c: &'a Contracts,
    f: &'a FnItem,
    con: Option<&'a FnC>,
    pub regexes: Vec<String>,
    pub lost: Vec<String>,
    pub loops: Vec<Value>,
    pub inlined: BTreeSet<String>,
    n: usize,
    lits: BTreeSet<String>,
    rx: BTreeSet<usize>,
    closures: BTreeMap<String, Closure>,
    scopes: Vec<Vec<String>>,
    selfs: Vec<String>,
    stack: Vec<String>,
    loop_keys: Vec<String>,
    pairing: BTreeMap<String, LoopC>,
    used_at: BTreeSet<usize>,
    used_post: BTreeSet<usize>,
    dry: bool,
    err: Option<syn::Type>,
}

#[derive(Clone)]
struct Closure {
    params: Vec<(syn::Pat, Option<syn::Type>)>,
    ret: Option<syn::Type>,
    body: syn::Expr,
    idents: BTreeSet<String>,
    depth: (usize, usize),
}

fn text<T: ToTokens>(t: &T) -> String {
    norm(&t.to_token_stream().to_string())
}

fn idents(ts: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}

fn bound(p: &syn::Pat, out: &mut Vec<String>) {
    match p {
        syn::Pat::Ident(i) => {
            out.push(i.ident.to_string());
            if let Some((_, s)) = &i.subpat {
                bound(s, out);
            }
        }
        syn::Pat::Tuple(t) => t.elems.iter().for_each(|e| bound(e, out)),
        syn::Pat::TupleStruct(t) => t.elems.iter().for_each(|e| bound(e, out)),
        syn::Pat::Struct(s) => s.fields.iter().for_each(|f| bound(&f.pat, out)),
        syn::Pat::Reference(r) => bound(&r.pat, out),
        syn::Pat::Paren(r) => bound(&r.pat, out),
        syn::Pat::Type(t) => bound(&t.pat, out),
        syn::Pat::Or(o) => o.cases.iter().for_each(|e| bound(e, out)),
        _ => {}
    }
}

/// Does the block leave the function from within (`return`, `?`)?
fn leaves(ts: proc_macro2::TokenStream) -> bool {
    ts.into_iter().any(|t| match t {
        proc_macro2::TokenTree::Ident(i) => i == "return",
        proc_macro2::TokenTree::Punct(p) => p.as_char() == '?',
        proc_macro2::TokenTree::Group(g) => leaves(g.stream()),
        _ => false,
    })
}

enum Src<'b> {
    Vals(String),
    VecMut(&'b syn::Expr),
    MapMut(&'b syn::Expr, bool),
    Range(&'b syn::Expr, &'b syn::Expr, bool),
}

struct Chain<'b> {
    src: Src<'b>,
    stages: Vec<(String, Vec<&'b syn::Expr>)>,
    key: String,
}

impl<'a> FnEmit<'a> {
    pub fn new(k: &'a Krate, c: &'a Contracts, f: &'a FnItem, con: Option<&'a FnC>, regexes: Vec<String>) -> Self {
        FnEmit {
            k,
            c,
            f,
            con,
            regexes,
            lost: vec![],
            loops: vec![],
            inlined: Default::default(),
            n: 0,
            lits: Default::default(),
            rx: Default::default(),
            closures: Default::default(),
            scopes: vec![vec![]],
            selfs: vec!["self".into()],
            stack: vec![f.key.clone()],
            loop_keys: vec![],
            pairing: Default::default(),
            used_at: Default::default(),
            used_post: Default::default(),
            dry: false,
            err: f.err_ty.clone(),
        }
    }

    fn sig(&mut self) -> String {
        let mut ps: Vec<String> = Vec::new();
        for a in &self.f.sig.inputs {
            match a {
                syn::FnArg::Receiver(r) => ps.push(match (&r.reference, &r.mutability) {
                    (Some(_), Some(_)) => "&mut self".into(),
                    (Some(_), None) => "&self".into(),
                    (None, Some(_)) => "mut self".into(),
                    _ => "self".into(),
                }),
                syn::FnArg::Typed(t) => {
                    ps.push(format!("{}: {}", t.pat.to_token_stream(), ty(&t.ty, self.err.as_ref())))
                }
            }
        }
        let ret = match &self.f.sig.output {
            syn::ReturnType::Default => String::new(),
            syn::ReturnType::Type(_, t) => {
                let mut s = ty(t, self.err.as_ref());
                // a bare reference to a str is a static string in error position
                if s.contains("Result<") {
                    s = s.replace("&String", "&'static String");
                }
                format!(" -> (res: {})", s)
            }
        };
        // the command line tool acts on the world
        if self.f.module == "cli" {
            ps.push("world: &mut World".into());
        }
        let gen = if self.f.sig.generics.params.is_empty() {
            String::new()
        } else {
            self.f.sig.generics.to_token_stream().to_string()
        };
        let mut s = format!("//@fn {} {}:{}\n", self.f.key, self.f.file, self.f.line);
        let measure = self.con.map(|c| c.decreases.trim().to_string()).unwrap_or_default();
        if self.con.is_none() {
            s.push_str("#[verifier::exec_allows_no_decreases_clause]\n");
        }
        s.push_str("#[verifier::loop_isolation(false)]\n");
        if let Some(c) = self.con {
            s.push_str(&c.attrs);
        }
        let mut body = format!("pub fn {}{}({}){}\n", self.f.sig.ident, gen, ps.join(", "), ret);
        if let Some(c) = self.con {
            for (kw, cs) in [("requires", &c.requires), ("ensures", &c.ensures)] {
                if !cs.is_empty() {
                    body.push_str(&format!("  {}\n", kw));
                    for cl in cs {
                        body.push_str(&format!("    //@{} {}\n    {},\n", kw, cl.label, cl.text.trim().trim_end_matches(',')));
                    }
                }
            }
        }
        if !measure.is_empty() {
            body.push_str(&format!("  decreases\n    {},\n", measure.trim_end_matches(',')));
        }
        s.push_str(&body);
        s
    }

    pub fn stub(&mut self) -> String {
        let s = self.sig();
        format!("{}{{ unimplemented!() }}\n", s.replacen("\npub fn", "\n#[verifier::external_body]\npub fn", 1))
    }

    pub fn function(&mut self) -> Out {
        if self.con.map(|c| c.trusted.is_some()).unwrap_or(false) {
            return Ok(self.stub());
        }
        for a in &self.f.sig.inputs {
            if let syn::FnArg::Typed(t) = a {
                let mut b = vec![];
                bound(&t.pat, &mut b);
                self.scopes[0].extend(b);
            }
        }
        let snapshot = (self.regexes.clone(), self.scopes.clone());
        // a first pass finds the loops, so that the contract's can be matched
        self.dry = true;
        let f = self.f;
        self.fn_block(&f.block)?;
        self.dry = false;
        let keys = std::mem::take(&mut self.loop_keys);
        self.pair(&keys);
        self.loops.clear();
        self.used_at.clear();
        self.used_post.clear();
        self.n = 0;
        self.closures.clear();
        self.regexes = snapshot.0;
        self.scopes = snapshot.1;
        let body = self.fn_block(&f.block)?;
        let mut head = String::new();
        for l in &self.lits {
            head.push_str(&format!("reveal_strlit({:?}); ", l));
        }
        for r in &self.rx {
            head.push_str(&format!("rx::axiom_re_{}(); ", r));
        }
        let mut s = self.sig();
        s.push_str("{\n");
        if let Some(c) = self.con {
            for n in c.hide.split_whitespace() {
                s.push_str(&format!("hide({});\n", n));
            }
        }
        if !head.is_empty() {
            s.push_str(&format!("proof {{ {} }}\n", head));
        }
        if let Some(c) = self.con {
            s.push_str(&c.start);
            for (i, (a, _)) in c.at.iter().enumerate() {
                if !self.used_at.contains(&i) {
                    self.lost.push(format!("statement `{}`", a));
                }
            }
            for (i, (a, _)) in c.post.iter().enumerate() {
                if !self.used_post.contains(&i) {
                    self.lost.push(format!("statement `{}`", a));
                }
            }
        }
        s.push_str(&body);
        s.push_str("}\n");
        Ok(s)
    }

    fn pair(&mut self, keys: &[String]) {
        let con = match self.con {
            Some(c) => c,
            None => return,
        };
        let mut left: Vec<(&String, &LoopC)> = Vec::new();
        for (k, l) in con.loops.iter() {
            if keys.contains(&norm(k)) {
                self.pairing.insert(k.clone(), l.clone());
            } else {
                left.push((k, l));
            }
        }
        left.sort_by_key(|(_, l)| l.order);
        let free: Vec<&String> = keys.iter().filter(|k| !self.pairing.contains_key(*k)).collect();
        if left.is_empty() {
            return;
        }
        for (i, (k, l)) in left.iter().enumerate() {
            self.lost.push(format!("loop `{}`{}", k, if free.len() == left.len() { " (matched by position)" } else { "" }));
            if free.len() == left.len() {
                self.pairing.insert(free[i].clone(), (*l).clone());
            }
        }
    }

    fn fn_block(&mut self, b: &syn::Block) -> Out {
        self.scopes.push(vec![]);
        let r = self.stmts(&b.stmts, true);
        self.scopes.pop();
        r
    }

    fn block(&mut self, b: &syn::Block) -> Out {
        self.scopes.push(vec![]);
        let r = self.stmts(&b.stmts, false);
        self.scopes.pop();
        Ok(format!("{{\n{}}}", r?))
    }

    fn bind(&mut self, p: &syn::Pat) {
        let mut v = vec![];
        bound(p, &mut v);
        self.scopes.last_mut().unwrap().extend(v);
    }

    fn at(&mut self, t: &str) -> (String, String) {
        let (mut pre, mut post) = (String::new(), String::new());
        if self.dry || self.stack.len() > 1 {
            return (pre, post);
        }
        if let Some(c) = self.con {
            for (i, (a, p)) in c.at.iter().enumerate() {
                if !self.used_at.contains(&i) && t.starts_with(&norm(a)) {
                    self.used_at.insert(i);
                    pre.push_str(p);
                }
            }
            for (i, (a, p)) in c.post.iter().enumerate() {
                if !self.used_post.contains(&i) && t.starts_with(&norm(a)) {
                    self.used_post.insert(i);
                    post.push_str(p);
                }
            }
        }
        (pre, post)
    }

    fn stmts(&mut self, ss: &[syn::Stmt], top: bool) -> Out {
        let mut out = String::new();
        for (i, s) in ss.iter().enumerate() {
            let last = i + 1 == ss.len();
            let (pre, post) = self.at(&text(s));
            out.push_str(&pre);
            if self.stack.len() == 1 {
                out.push_str(&format!("//@s {}:{}\n", self.f.file, s.span().start().line));
            }
            match s {
                syn::Stmt::Local(l) => {
                    let x = self.local(l)?;
                    out.push_str(&x);
                }
                syn::Stmt::Macro(m) => {
                    if let Some(x) = self.macro_stmt(&m.mac)? {
                        if last && m.semi_token.is_none() {
                            out.push_str(&format!("{}\n", x));
                        } else {
                            out.push_str(&format!("{};\n", x));
                        }
                    }
                }
                syn::Stmt::Expr(e, semi) => {
                    let x = self.expr(e)?;
                    let tail = if last && semi.is_none() { self.con.filter(|_| top && self.stack.len() == 1).map(|c| c.tail.clone()) } else { None };
                    let tail = tail.filter(|t| !t.is_empty());
                    let returns = matches!(e, syn::Expr::Return(_));
                    if last && semi.is_none() && !returns && (tail.is_some() || !post.is_empty()) {
                        self.n += 1;
                        out.push_str(&format!("let r_{0} = {1};\n{2}{3}r_{0}\n", self.n, x, post, tail.unwrap_or_default().replace("$res", &format!("r_{}", self.n))));
                    } else if semi.is_some() || (!last && !x.trim_end().ends_with('}')) {
                        out.push_str(&format!("{};\n{}", x, post));
                        if last && top {
                            if let Some(c) = self.con {
                                out.push_str(&c.tail);
                            }
                        }
                    } else {
                        out.push_str(&format!("{}\n{}", x, post));
                    }
                    continue;
                }
                syn::Stmt::Item(syn::Item::Use(_)) => {}
                syn::Stmt::Item(_) => return Err(("item within a function".into(), s.span().start().line)),
            }
            out.push_str(&post);
        }
        Ok(out)
    }

    fn local(&mut self, l: &syn::Local) -> Out {
        let line = l.span().start().line;
        let init = match &l.init {
            None => {
                let p = self.pat(&l.pat)?;
                self.bind(&l.pat);
                return Ok(format!("let {};\n", p));
            }
            Some(i) => i,
        };
        if let (syn::Expr::Closure(c), syn::Pat::Ident(p)) = (&*init.expr, &l.pat) {
            if leaves(c.body.to_token_stream()) {
                return Err(("closure that returns early".into(), line));
            }
            let mut ids = BTreeSet::new();
            idents(c.body.to_token_stream(), &mut ids);
            let depth = (self.scopes.len(), self.scopes.last().unwrap().len());
            let params = c
                .inputs
                .iter()
                .map(|p| match p {
                    syn::Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                    o => (o.clone(), None),
                })
                .collect();
            let ret = match &c.output {
                syn::ReturnType::Type(_, t) => Some((**t).clone()),
                _ => None,
            };
            self.closures.insert(
                p.ident.to_string(),
                Closure { params, ret, body: (*c.body).clone(), idents: ids, depth },
            );
            return Ok(String::new());
        }
        let e = self.expr(&init.expr)?;
        let p = self.pat(&l.pat)?;
        let d = match &init.diverge {
            Some((_, d)) => format!(" else {}", self.expr(d)?),
            None => String::new(),
        };
        self.bind(&l.pat);
        Ok(format!("let {} = {}{};\n", p, e, d))
    }

    fn pat(&mut self, p: &syn::Pat) -> Out {
        let line = p.span().start().line;
        Ok(match p {
            syn::Pat::Ident(i) => {
                let mut s = String::new();
                if i.by_ref.is_some() {
                    s.push_str("ref ");
                }
                if i.mutability.is_some() {
                    s.push_str("mut ");
                }
                s.push_str(&i.ident.to_string());
                if let Some((_, sub)) = &i.subpat {
                    s.push_str(&format!(" @ {}", self.pat(sub)?));
                }
                s
            }
            syn::Pat::Wild(_) => "_".into(),
            syn::Pat::Rest(_) => "..".into(),
            syn::Pat::Paren(q) => format!("({})", self.pat(&q.pat)?),
            syn::Pat::Reference(r) => {
                format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, self.pat(&r.pat)?)
            }
            syn::Pat::Tuple(t) => {
                let v: Result<Vec<_>, _> = t.elems.iter().map(|e| self.pat(e)).collect();
                let v = v?;
                if v.len() == 1 && v[0] != ".." {
                    format!("({},)", v[0])
                } else {
                    format!("({})", v.join(", "))
                }
            }
            syn::Pat::TupleStruct(t) => {
                let v: Result<Vec<_>, _> = t.elems.iter().map(|e| self.pat(e)).collect();
                format!("{}({})", self.path(&t.path), v?.join(", "))
            }
            syn::Pat::Struct(s) => {
                let mut v = Vec::new();
                for f in &s.fields {
                    v.push(format!("{}: {}", f.member.to_token_stream(), self.pat(&f.pat)?));
                }
                if s.rest.is_some() {
                    v.push("..".into());
                }
                format!("{} {{ {} }}", self.path(&s.path), v.join(", "))
            }
            syn::Pat::Path(q) => self.path(&q.path),
            syn::Pat::Or(o) => {
                let v: Result<Vec<_>, _> = o.cases.iter().map(|e| self.pat(e)).collect();
                v?.join(" | ")
            }
            syn::Pat::Lit(l) => match &l.lit {
                syn::Lit::Str(_) => return Err(("string literal pattern".into(), line)),
                x => x.to_token_stream().to_string(),
            },
            syn::Pat::Type(t) => format!("{}: {}", self.pat(&t.pat)?, ty(&t.ty, self.err.as_ref())),
            _ => return Err((format!("pattern {}", p.to_token_stream()), line)),
        })
    }

    fn path(&self, p: &syn::Path) -> String {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let mut v = clean_path(&segs);
        if v.len() == 1 && v[0] == "self" {
            v[0] = self.selfs.last().unwrap().clone();
        }
        let turbofish = match &p.segments.last().unwrap().arguments {
            syn::PathArguments::AngleBracketed(_) => {
                let t = path_ty(p, self.err.as_ref());
                t.find('<').map(|i| format!("::{}", &t[i..])).unwrap_or_default()
            }
            _ => String::new(),
        };
        format!("{}{}", v.join("::"), turbofish)
    }

    fn lit(&mut self, s: &str) -> String {
        self.lits.insert(s.to_string());
        format!("lit({:?})", s)
    }

    fn may(&self) -> String {
        format!("Ghost({})", self.con.map(|c| c.may.trim()).filter(|m| !m.is_empty()).unwrap_or("false"))
    }

    fn konst(&self, p: &syn::Path) -> Option<&'a syn::Expr> {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let v = clean_path(&segs);
        let local = if self.f.module.is_empty() { v.join("::") } else { format!("{}::{}", self.f.module, v.join("::")) };
        self.k.consts.get(&local).or_else(|| self.k.consts.get(&v.join("::")))
    }

    fn expr(&mut self, e: &syn::Expr) -> Out {
        let line = e.span().start().line;
        let no = |m: &str| -> Out { Err((m.to_string(), line)) };
        match e {
            syn::Expr::Lit(l) => Ok(match &l.lit {
                syn::Lit::Str(s) => self.lit(&s.value()),
                syn::Lit::Int(_) | syn::Lit::Bool(_) | syn::Lit::Char(_) => l.to_token_stream().to_string(),
                _ => return no("literal"),
            }),
            syn::Expr::Path(p) => {
                if let Some(c) = self.konst(&p.path) {
                    return self.expr(c);
                }
                if p.path.get_ident().map(|i| self.closures.contains_key(&i.to_string())).unwrap_or(false) {
                    return no("closure used as a value");
                }
                Ok(self.path(&p.path))
            }
            syn::Expr::Paren(p) => Ok(format!("({})", self.expr(&p.expr)?)),
            syn::Expr::Group(p) => self.expr(&p.expr),
            syn::Expr::Block(b) if b.label.is_none() => self.block(&b.block),
            syn::Expr::Reference(r) => {
                Ok(format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, self.expr(&r.expr)?))
            }
            syn::Expr::Unary(u) => {
                let op = match u.op {
                    syn::UnOp::Deref(_) => "*",
                    syn::UnOp::Not(_) => "!",
                    _ => return no("negation"),
                };
                Ok(format!("{}{}", op, self.operand(&u.expr)?))
            }
            syn::Expr::Field(f) => Ok(format!("{}.{}", self.operand(&f.base)?, f.member.to_token_stream())),
            syn::Expr::Binary(b) => self.binary(b),
            syn::Expr::Assign(a) => Ok(format!("{} = {}", self.expr(&a.left)?, self.expr(&a.right)?)),
            syn::Expr::If(i) => self.if_(i),
            syn::Expr::Match(m) => {
                let s = self.operand(&m.expr)?;
                let mut out = format!("match {} {{\n", s);
                for a in &m.arms {
                    let (pre, post) = self.at(&text(a));
                    self.scopes.push(vec![]);
                    self.bind(&a.pat);
                    let p = self.pat(&a.pat)?;
                    let g = match &a.guard {
                        Some((_, g)) => format!(" if {}", self.expr(g)?),
                        None => String::new(),
                    };
                    let b = self.expr(&a.body)?;
                    self.scopes.pop();
                    let b = if pre.is_empty() && post.is_empty() {
                        b
                    } else {
                        self.n += 1;
                        format!("{{ {1}let r_{0} = {2}; {3} r_{0} }}", self.n, pre, b, post)
                    };
                    out.push_str(&format!("{}{} => {},\n", p, g, b));
                }
                out.push('}');
                Ok(out)
            }
            syn::Expr::Struct(s) => self.struct_(s),
            syn::Expr::Tuple(t) => {
                let v: Result<Vec<_>, _> = t.elems.iter().map(|e| self.expr(e)).collect();
                let v = v?;
                Ok(if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) })
            }
            syn::Expr::Return(r) => {
                if self.stack.len() > 1 {
                    return no("return within an inlined function");
                }
                Ok(match &r.expr {
                    Some(e) => format!("return {}", self.expr(e)?),
                    None => "return".into(),
                })
            }
            syn::Expr::Break(b) if b.label.is_none() && b.expr.is_none() => Ok("break".into()),
            syn::Expr::Continue(c) if c.label.is_none() => Ok("continue".into()),
            syn::Expr::Try(t) => Ok(format!("{}?", self.operand(&t.expr)?)),
            syn::Expr::Cast(c) => Ok(format!("({} as {})", self.expr(&c.expr)?, ty(&c.ty, None))),
            syn::Expr::Index(i) => {
                if matches!(&*i.index, syn::Expr::Range(_)) {
                    return no("slice");
                }
                Ok(format!("(*{}.v_idx({}))", self.operand(&i.expr)?, self.expr(&i.index)?))
            }
            syn::Expr::Macro(m) => match self.macro_stmt(&m.mac)? {
                Some(x) => Ok(x),
                None => Ok("()".into()),
            },
            syn::Expr::Call(c) => self.call(c),
            syn::Expr::MethodCall(m) => self.method(m),
            syn::Expr::ForLoop(f) if f.label.is_none() => self.for_(f),
            syn::Expr::While(w) if w.label.is_none() => self.while_(w),
            syn::Expr::Let(l) => {
                // scope is handled by the caller
                let s = self.expr(&l.expr)?;
                self.bind(&l.pat);
                Ok(format!("let {} = {}", self.pat(&l.pat)?, s))
            }
            _ => no(&format!("expression {}", e.to_token_stream().to_string().chars().take(60).collect::<String>())),
        }
    }

    /// An expression that something is applied to.
    fn operand(&mut self, e: &syn::Expr) -> Out {
        let s = self.expr(e)?;
        let simple = matches!(
            e,
            syn::Expr::Path(_) | syn::Expr::Field(_) | syn::Expr::MethodCall(_) | syn::Expr::Call(_) | syn::Expr::Paren(_) | syn::Expr::Lit(_) | syn::Expr::Index(_) | syn::Expr::Tuple(_)
        ) && !s.starts_with('{')
            && !s.starts_with("match")
            && !s.starts_with('&')
            && !s.starts_with('*')
            && !s.starts_with("if ");
        Ok(if simple { s } else { format!("({})", s) })
    }

    fn is_strish(e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Lit(l) => matches!(l.lit, syn::Lit::Str(_)),
            syn::Expr::MethodCall(m) => m.method == "as_str",
            syn::Expr::Paren(p) => Self::is_strish(&p.expr),
            _ => false,
        }
    }

    fn binary(&mut self, b: &syn::ExprBinary) -> Out {
        use syn::BinOp::*;
        let line = b.span().start().line;
        if let BitOrAssign(_) | BitAndAssign(_) = b.op {
            let op = if matches!(b.op, BitOrAssign(_)) { "||" } else { "&&" };
            let r = self.expr(&b.right)?;
            let l = self.expr(&b.left)?;
            self.n += 1;
            return Ok(format!("{{ let b_{n} = {r}; {l} = {l} {op} b_{n}; }}", n = self.n, r = r, l = l, op = op));
        }
        let l = self.operand(&b.left)?;
        let r = self.operand(&b.right)?;
        if let Eq(_) | Ne(_) = b.op {
            if Self::is_strish(&b.right) {
                let s = format!("{}.v_eq({})", l, r);
                return Ok(if matches!(b.op, Ne(_)) { format!("!{}", s) } else { s });
            }
            if Self::is_strish(&b.left) {
                let s = format!("{}.v_eq(&{})", l, r);
                return Ok(if matches!(b.op, Ne(_)) { format!("!{}", s) } else { s });
            }
        }
        let op = match b.op {
            Add(_) => "+",
            Sub(_) => "-",
            Mul(_) => "*",
            And(_) => "&&",
            Or(_) => "||",
            Eq(_) => "==",
            Ne(_) => "!=",
            Lt(_) => "<",
            Le(_) => "<=",
            Gt(_) => ">",
            Ge(_) => ">=",
            AddAssign(_) => "+=",
            SubAssign(_) => "-=",
            BitOr(_) => "|",
            BitAnd(_) => "&",
            _ => return Err(("operator".into(), line)),
        };
        Ok(format!("{} {} {}", l, op, r))
    }

    fn if_(&mut self, i: &syn::ExprIf) -> Out {
        self.scopes.push(vec![]);
        let c = self.expr(&i.cond)?;
        let t = self.block(&i.then_branch)?;
        self.scopes.pop();
        Ok(match &i.else_branch {
            Some((_, e)) => format!("if {} {} else {}", c, t, self.expr(e)?),
            None => format!("if {} {}", c, t),
        })
    }

    fn struct_(&mut self, s: &syn::ExprStruct) -> Out {
        let line = s.span().start().line;
        let mut v = Vec::new();
        let mut named = BTreeSet::new();
        for f in &s.fields {
            let n = f.member.to_token_stream().to_string();
            v.push(format!("{}: {}", n, self.expr(&f.expr)?));
            named.insert(n);
        }
        let mut path = self.path(&s.path);
        if path == "Self" {
            path = self.f.self_ty.clone().unwrap_or(path);
        }
        match &s.rest {
            None => {}
            Some(r) if text(r) == "Default::default()" => {
                let q = if self.f.module.is_empty() { path.clone() } else { format!("{}::{}", self.f.module, path) };
                let fs = self.k.fields.get(&q).or_else(|| self.k.fields.get(&path)).ok_or(("unknown struct".to_string(), line))?;
                for (n, _) in fs {
                    if !named.contains(n) {
                        v.push(format!("{}: VDef::v_default()", n));
                    }
                }
            }
            Some(r) => v.push(format!("..{}", self.expr(r)?)),
        }
        Ok(format!("{} {{ {} }}", path, v.join(", ")))
    }

    fn args_of(&self, ts: proc_macro2::TokenStream, line: usize) -> Result<Vec<syn::Expr>, (String, usize)> {
        use syn::parse::Parser;
        syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated
            .parse2(ts)
            .map(|p| p.into_iter().collect())
            .map_err(|_| ("macro arguments".to_string(), line))
    }

    fn macro_stmt(&mut self, m: &syn::Macro) -> Result<Option<String>, (String, usize)> {
        let line = m.span().start().line;
        let name = m.path.segments.last().unwrap().ident.to_string();
        Ok(Some(match name.as_str() {
            "println" | "print" if self.f.module == "cli" => {
                let x = self.format(m, line)?;
                format!("v_{}(world, &{})", name, x)
            }
            "eprintln" | "eprint" | "trace" | "warn" | "debug" | "info" | "error" | "log" => return Ok(None),
            "panic" | "unreachable" | "unimplemented" | "todo" => format!("v_abort({})", self.may()),
            "assert" | "debug_assert" => {
                let a = self.args_of(m.tokens.clone(), line)?;
                format!("v_assert({}, {})", self.expr(&a[0])?, self.may())
            }
            "matches" => {
                use syn::parse::Parser;
                let parser = |s: syn::parse::ParseStream| -> syn::Result<(syn::Expr, syn::Pat, Option<syn::Expr>)> {
                    let e: syn::Expr = s.parse()?;
                    s.parse::<syn::Token![,]>()?;
                    let p = syn::Pat::parse_multi_with_leading_vert(s)?;
                    let g = if s.peek(syn::Token![if]) {
                        s.parse::<syn::Token![if]>()?;
                        Some(s.parse()?)
                    } else {
                        None
                    };
                    let _ = s.parse::<Option<syn::Token![,]>>()?;
                    Ok((e, p, g))
                };
                let (e, p, g) = parser.parse2(m.tokens.clone()).map_err(|_| ("matches!".to_string(), line))?;
                let x = self.operand(&e)?;
                self.scopes.push(vec![]);
                self.bind(&p);
                let ps = self.pat(&p)?;
                let gs = match g {
                    Some(g) => format!(" if {}", self.expr(&g)?),
                    None => String::new(),
                };
                self.scopes.pop();
                format!("(match {} {{ {}{} => true, _ => false }})", x, ps, gs)
            }
            "format" => self.format(m, line)?,
            "vec" => {
                let a = self.args_of(m.tokens.clone(), line)?;
                self.n += 1;
                let n = self.n;
                let mut s = format!("({{ let mut vec_{} = Vec::new(); ", n);
                for x in &a {
                    s.push_str(&format!("vec_{}.push({}); ", n, self.expr(x)?));
                }
                s.push_str(&format!("vec_{} }})", n));
                s
            }
            "hashmap" => {
                use syn::parse::Parser;
                let parser = |s: syn::parse::ParseStream| -> syn::Result<Vec<(syn::Expr, syn::Expr)>> {
                    let mut v = Vec::new();
                    while !s.is_empty() {
                        let k: syn::Expr = s.parse()?;
                        s.parse::<syn::Token![=>]>()?;
                        let x: syn::Expr = s.parse()?;
                        v.push((k, x));
                        let _ = s.parse::<Option<syn::Token![,]>>()?;
                    }
                    Ok(v)
                };
                let kv = parser.parse2(m.tokens.clone()).map_err(|_| ("hashmap!".to_string(), line))?;
                self.n += 1;
                let n = self.n;
                let mut s = format!("({{ let mut map_{} = HashMap::new(); ", n);
                for (k, x) in &kv {
                    s.push_str(&format!("map_{}.insert({}, {}); ", n, self.expr(k)?, self.expr(x)?));
                }
                s.push_str(&format!("map_{} }})", n));
                s
            }
            "json" => {
                if m.tokens.to_string() == "null" {
                    "Value::Null".into()
                } else {
                    let a = self.args_of(m.tokens.clone(), line)?;
                    if a.len() != 1 {
                        return Err(("json!".into(), line));
                    }
                    let x = self.operand(&a[0])?;
                    format!("{}.v_json()", x)
                }
            }
            _ => return Err((format!("macro {}", name), line)),
        }))
    }

    fn format(&mut self, m: &syn::Macro, line: usize) -> Out {
        let a = self.args_of(m.tokens.clone(), line)?;
        let fmt = match a.first() {
            Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) => s.value(),
            _ => return Err(("format string".into(), line)),
        };
        let mut parts: Vec<String> = Vec::new();
        let mut cur = String::new();
        let mut next = 1;
        let cs: Vec<char> = fmt.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            match cs[i] {
                '{' if cs.get(i + 1) == Some(&'{') => {
                    cur.push('{');
                    i += 2;
                }
                '}' if cs.get(i + 1) == Some(&'}') => {
                    cur.push('}');
                    i += 2;
                }
                '{' => {
                    let close = (i..cs.len()).find(|j| cs[*j] == '}').ok_or(("format".to_string(), line))?;
                    let name: String = cs[i + 1..close].iter().collect();
                    if !cur.is_empty() {
                        let l = self.lit(&cur);
                        parts.push(l);
                        cur.clear();
                    }
                    let x = if name.is_empty() {
                        next += 1;
                        let e = a.get(next - 1).ok_or(("format".to_string(), line))?.clone();
                        self.operand(&e)?
                    } else if name.chars().all(|c| c.is_alphanumeric() || c == '_') && !name.chars().all(|c| c.is_numeric()) {
                        name
                    } else {
                        return Err(("format directive".into(), line));
                    };
                    parts.push(format!("&{}.v_disp()", x));
                    i = close + 1;
                }
                c => {
                    cur.push(c);
                    i += 1;
                }
            }
        }
        if !cur.is_empty() {
            let l = self.lit(&cur);
            parts.push(l);
        }
        if parts.is_empty() {
            let l = self.lit("");
            return Ok(format!("{}.v_to_string()", l));
        }
        let mut s = if parts.len() == 1 { format!("{}.v_to_string()", parts[0].trim_start_matches('&')) } else { parts[0].clone() };
        for (k, p) in parts[1..].iter().enumerate() {
            let amp = if k == 0 { "" } else { "&" };
            s = format!("v_cat({}{}, {})", amp, s, p);
        }
        Ok(s)
    }

    fn call(&mut self, c: &syn::ExprCall) -> Out {
        let line = c.span().start().line;
        if let syn::Expr::Path(p) = &*c.func {
            if let Some(i) = p.path.get_ident() {
                if let Some(cl) = self.closures.get(&i.to_string()).cloned() {
                    return self.inline_closure(&cl, c, line);
                }
            }
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if segs.last().map(|s| s == "from_value").unwrap_or(false) {
                let a = c.args.first().ok_or(("from_value".to_string(), line))?;
                return Ok(format!("VDe::v_from_value({})", self.expr(a)?));
            }
            if segs == ["Regex", "new"] || segs == ["regex", "Regex", "new"] {
                if let Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) = c.args.first() {
                    let v = s.value();
                    let k = match self.regexes.iter().position(|r| *r == v) {
                        Some(k) => k,
                        None => {
                            self.regexes.push(v.clone());
                            self.regexes.len() - 1
                        }
                    };
                    self.rx.insert(k);
                }
            }
            if segs.len() > 1 && segs[segs.len() - 2] == "ToSnakeCase" && c.args.len() == 1 {
                return Ok(format!("{}.v_to_snake_case()", self.operand(&c.args[0])?));
            }
            if segs[0] == "env_logger" {
                return Ok("()".into());
            }
            if segs == ["Default", "default"] {
                return Ok("VDef::v_default()".into());
            }
            if let Some(k) = self.elsewhere(&segs) {
                let mut args = Vec::new();
                for a in &c.args {
                    args.push(self.expr(a)?);
                }
                return Ok(format!("crate::{}({})", k, args.join(", ")));
            }
            if let Some(h) = self.helper(segs.last().unwrap(), false) {
                let mut args = Vec::new();
                for a in &c.args {
                    args.push(self.expr(a)?);
                }
                return self.inline_fn(h, None, args, line);
            }
        }
        let mut args = Vec::new();
        for a in &c.args {
            args.push(self.expr(a)?);
        }
        if let (syn::Expr::Path(p), "cli") = (&*c.func, self.f.module.as_str()) {
            if p.path.get_ident().map(|i| self.k.fns.iter().any(|f| f.module == "cli" && f.sig.ident == *i)).unwrap_or(false) {
                args.push("world".into());
            }
        }
        Ok(format!("{}({})", self.expr(&c.func)?, args.join(", ")))
    }

    /// The function of another module (not the crate's root) that a path names.
    fn elsewhere(&self, segs: &[String]) -> Option<String> {
        let segs = match segs {
            [n] => self.k.uses.get(&(self.f.module.clone(), n.clone())).cloned()?,
            _ => segs.iter().filter(|s| !["super", "crate", "self", "jst"].contains(&s.as_str())).cloned().collect::<Vec<_>>().join("::"),
        };
        let f = self.k.fns.iter().find(|f| f.key == segs && f.self_ty.is_none())?;
        (!f.module.is_empty() && f.module != "cli" && f.module != self.f.module).then(|| f.key.clone())
    }

    /// A function without a contract that can be put in the place of its call.
    fn helper(&self, name: &str, method: bool) -> Option<&'a FnItem> {
        let mut c = self.k.fns.iter().filter(|f| f.sig.ident == name);
        let f = c.next()?;
        if c.next().is_some() || self.c.contains_key(&f.key) || f.module != self.f.module {
            return None;
        }
        let has_self = f.sig.receiver().is_some();
        if has_self != method || self.stack.contains(&f.key) || leaves(f.block.to_token_stream()) {
            return None;
        }
        if !f.sig.generics.params.is_empty() {
            return None;
        }
        Some(f)
    }

    fn inline_fn(&mut self, h: &'a FnItem, recv: Option<String>, args: Vec<String>, line: usize) -> Out {
        self.n += 1;
        let n = self.n;
        let mut out = String::from("({ ");
        let mut lets = String::new();
        let mut scope = vec![];
        let mut k = 0;
        for a in &h.sig.inputs {
            match a {
                syn::FnArg::Receiver(r) => {
                    let rv = recv.clone().ok_or(("method without a receiver".to_string(), line))?;
                    let st = h.self_ty.clone().unwrap_or_default();
                    let x = match (&r.reference, &r.mutability) {
                        (Some(_), Some(_)) => format!("let this_{}: &mut {} = {}.v_mut(); ", n, st, rv),
                        (Some(_), None) => format!("let this_{}: &{} = {}.v_ref(); ", n, st, rv),
                        _ => format!("let this_{}: {} = {}; ", n, st, rv),
                    };
                    out.push_str(&x);
                }
                syn::FnArg::Typed(t) => {
                    let x = args.get(k).ok_or(("arguments".to_string(), line))?;
                    out.push_str(&format!("let a_{}_{}: {} = {}; ", n, k, ty(&t.ty, h.err_ty.as_ref()), x));
                    lets.push_str(&format!("let {} = a_{}_{}; ", self.pat(&t.pat)?, n, k));
                    bound(&t.pat, &mut scope);
                    k += 1;
                }
            }
        }
        out.push_str(&lets);
        let closures = std::mem::take(&mut self.closures);
        self.stack.push(h.key.clone());
        self.selfs.push(format!("this_{}", n));
        self.scopes.push(scope);
        let b = self.stmts(&h.block.stmts, false);
        self.scopes.pop();
        self.selfs.pop();
        self.stack.pop();
        self.closures = closures;
        self.inlined.insert(h.key.clone());
        let ret = match &h.sig.output {
            syn::ReturnType::Type(_, t) => format!(": {}", ty(t, h.err_ty.as_ref())),
            _ => ": ()".into(),
        };
        out.push_str(&format!("let r_{0}{1} = {{ {2} }}; r_{0} }})", n, ret, b?));
        Ok(out)
    }

    fn inline_closure(&mut self, cl: &Closure, c: &syn::ExprCall, line: usize) -> Out {
        // names the closure captured must still mean the same thing
        for (d, s) in self.scopes.iter().enumerate() {
            for (i, b) in s.iter().enumerate() {
                if (d + 1 > cl.depth.0 || (d + 1 == cl.depth.0 && i >= cl.depth.1)) && cl.idents.contains(b) {
                    let mut own = vec![];
                    for (p, _) in &cl.params {
                        bound(p, &mut own);
                    }
                    if !own.contains(b) {
                        return Err((format!("`{}` captured by a closure is shadowed", b), line));
                    }
                }
            }
        }
        self.n += 1;
        let n = self.n;
        let mut out = String::from("({ ");
        let mut lets = String::new();
        for (k, (a, (p, t))) in c.args.iter().zip(cl.params.iter()).enumerate() {
            let t = t.as_ref().map(|t| format!(": {}", ty(t, self.err.as_ref()))).unwrap_or_default();
            out.push_str(&format!("let a_{}_{}{} = {}; ", n, k, t, self.expr(a)?));
            lets.push_str(&format!("let {} = a_{}_{}; ", self.pat(p)?, n, k));
        }
        out.push_str(&lets);
        let saved = self.scopes.clone();
        self.scopes.truncate(cl.depth.0);
        self.scopes.last_mut().unwrap().truncate(cl.depth.1);
        self.scopes.push(vec![]);
        for (p, _) in &cl.params {
            self.bind(p);
        }
        let b = self.expr(&cl.body)?;
        self.scopes = saved;
        let ret = cl.ret.as_ref().map(|t| format!(": {}", ty(t, self.err.as_ref()).replace("&String", "&'static String"))).unwrap_or_default();
        out.push_str(&format!("let r_{0}{1} = {2}; r_{0} }})", n, ret, b));
        Ok(out)
    }

    /// `|p| body` or a path, applied to `x`, as a block expression.
    fn apply(&mut self, f: &syn::Expr, xs: &[&str], line: usize) -> Out {
        match f {
            syn::Expr::Closure(c) => {
                if leaves(c.body.to_token_stream()) {
                    return Err(("closure that returns early".into(), line));
                }
                self.scopes.push(vec![]);
                let mut s = String::from("{ ");
                for (p, x) in c.inputs.iter().zip(xs) {
                    self.bind(p);
                    s.push_str(&format!("let {} = {}; ", self.pat(p)?, x));
                }
                let b = self.expr(&c.body);
                self.scopes.pop();
                s.push_str(&format!("{} }}", b?));
                Ok(s)
            }
            syn::Expr::Path(p) => {
                let t = text(p);
                let m = match t.as_str() {
                    "ToString::to_string" | "String::to_string" | "str::to_string" => Some("v_to_string"),
                    "String::as_str" => Some("v_as_str"),
                    "Clone::clone" | "String::clone" => Some("v_clone"),
                    "Into::into" => Some("v_into"),
                    _ => None,
                };
                if let Some(m) = m {
                    return Ok(format!("{}.{}()", xs[0], m));
                }
                if let Some(i) = p.path.get_ident() {
                    if self.closures.contains_key(&i.to_string()) {
                        return Err(("closure used as a value".into(), line));
                    }
                }
                if t == "Box::new" || t == "Some" || t == "Ok" || t == "Err" {
                    return Ok(format!("{}({})", self.path(&p.path), xs.join(", ")));
                }
                if t == "Result::is_ok" || t == "Option::is_some" || t == "Option::is_none" || t == "Result::is_err" {
                    return Ok(format!("{}.{}()", xs[0], t.split("::").nth(1).unwrap()));
                }
                let last = p.path.segments.last().unwrap().ident.to_string();
                if let Some(h) = self.helper(&last, false) {
                    return self.inline_fn(h, None, xs.iter().map(|s| s.to_string()).collect(), line);
                }
                Ok(format!("{}({})", self.path(&p.path), xs.join(", ")))
            }
            _ => Err(("function value".into(), line)),
        }
    }

    fn chain<'b>(&mut self, e: &'b syn::Expr) -> Result<Option<Chain<'b>>, (String, usize)> {
        let line = e.span().start().line;
        match e {
            syn::Expr::Paren(p) => match &*p.expr {
                syn::Expr::Range(_) => self.chain(&p.expr),
                _ => Ok(None),
            },
            syn::Expr::Range(r) => match (&r.start, &r.end, &r.limits) {
                (Some(a), Some(b), l) => Ok(Some(Chain {
                    src: Src::Range(a, b, matches!(l, syn::RangeLimits::Closed(_))),
                    stages: vec![],
                    key: text(e),
                })),
                _ => Err(("range".into(), line)),
            },
            syn::Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if SOURCES.contains(&name.as_str()) {
                    let src = match name.as_str() {
                        "iter_mut" => Src::VecMut(&m.receiver),
                        "values_mut" => Src::MapMut(&m.receiver, false),
                        "intersection" => {
                            Src::Vals(format!("{}.v_intersection({})", self.operand(&m.receiver)?, self.expr(&m.args[0])?))
                        }
                        "keys" => Src::Vals(format!("{}.v_keys_ref()", self.operand(&m.receiver)?)),
                        n => Src::Vals(format!("{}.v_{}()", self.operand(&m.receiver)?, n)),
                    };
                    return Ok(Some(Chain { src, stages: vec![], key: text(e) }));
                }
                if STAGES.contains(&name.as_str()) {
                    if let Some(mut c) = self.chain(&m.receiver)? {
                        c.key.push_str(&format!(".{}", name));
                        c.stages.push((name, m.args.iter().collect()));
                        return Ok(Some(c));
                    }
                }
                Ok(None)
            }
            _ => Ok(None),
        }
    }

    fn loop_contract(&mut self, key: &str) -> (String, LoopC, String) {
        let mut k = norm(key);
        let base = k.clone();
        let mut i = 2;
        while self.loop_keys.contains(&k) {
            k = format!("{}#{}", base, i);
            i += 1;
        }
        self.loop_keys.push(k.clone());
        let l = self.pairing.get(&k).cloned().unwrap_or_default();
        self.n += 1;
        let name = if l.name.is_empty() { format!("l{}", self.n) } else { l.name.clone() };
        self.loops.push(json!({"key": k, "contract": !l.name.is_empty()}));
        (name, l, k)
    }

    fn chain_loop(
        &mut self,
        c: Chain,
        key: &str,
        init: &dyn Fn(&str) -> String,
        sink: &mut dyn FnMut(&mut Self, &str, &str) -> Out,
        result: &dyn Fn(&str) -> String,
        pair: bool,
        line: usize,
    ) -> Out {
        let (n, l, k) = self.loop_contract(key);
        let mut pre = String::new();
        let (mut cond, item, mut inv, dec);
        let mut start = "0".to_string();
        let mut stages = c.stages;
        if let Some((s, a)) = stages.first() {
            if s == "skip" {
                start = self.expr(a[0])?;
                pre.push_str(&format!("let skip_{}: usize = {};\n", n, start));
                start = format!("skip_{}", n);
                stages.remove(0);
            }
        }
        // `skip` may follow `enumerate` or come later: refused
        if stages.iter().any(|s| s.0 == "skip") {
            return Err(("skip after another adapter".into(), line));
        }
        match &c.src {
            Src::Vals(s) => {
                pre.push_str(&format!("let src_{} = {};\n", n, s));
                cond = format!("i_{0} < src_{0}.len()", n);
                item = format!("src_{0}.v_take(j_{0})", n);
                inv = if start == "0" { format!("i_{0} <= src_{0}.v@.len(),\n", n) } else { String::new() };
                dec = format!("src_{0}.v@.len() - i_{0}", n);
            }
            Src::VecMut(x) if !pair => {
                let p = self.place(x, line)?;
                cond = format!("i_{} < {}.len()", n, p);
                item = format!("{}.v_idx_mut(j_{})", p, n);
                inv = if start == "0" { format!("i_{} <= {}.v@.len(),\n", n, p) } else { String::new() };
                dec = format!("{}.v@.len() - i_{}", p, n);
            }
            Src::VecMut(x) | Src::MapMut(x, _) => {
                let p = self.place(x, line)?;
                let both = !matches!(&c.src, Src::MapMut(_, false));
                pre.push_str(&format!("let src_{} = {}.v_keys();\n", n, p));
                cond = format!("i_{0} < src_{0}.len()", n);
                let get = format!("{}.v_idx_mut(src_{}.v_idx(j_{}))", p, n, n);
                item = if both { format!("(src_{0}.v_idx(j_{0}), {1})", n, get) } else { get };
                inv = format!("i_{0} <= src_{0}.v@.len(),\n", n);
                dec = format!("src_{0}.v@.len() - i_{0}", n);
            }
            Src::Range(a, b, closed) => {
                let x = self.expr(a)?;
                let y = self.expr(b)?;
                start = format!("lo_{}", n);
                pre.push_str(&format!("let lo_{0}: usize = {1};\nlet hi_{0}: usize = {2};\n", n, x, y));
                if *closed {
                    return Err(("inclusive range".into(), line));
                }
                cond = format!("i_{0} < hi_{0}", n);
                item = format!("j_{}", n);
                inv = String::new();
                dec = format!("hi_{0} - i_{0}", n);
            }
        }
        cond = cond.trim().to_string();
        inv.push_str(&l.inv);
        let mut body = String::new();
        let mut close = String::new();
        body.push_str(&format!("let j_{0}: usize = i_{0};\ni_{0} = i_{0} + 1;\n", n));
        let mut x = format!("x_{}_0", n);
        if c_is_pair_mut(&c.src, pair) {
            // two borrows: bind them one by one
            body.push_str(&format!("let xk_{0} = src_{0}.v_idx(j_{0});\nlet xv_{0} = {1};\n", n, match &c.src {
                Src::VecMut(e) | Src::MapMut(e, _) => format!("{}.v_idx_mut(xk_{})", self.place(e, line)?, n),
                _ => unreachable!(),
            }));
            x = format!("(xk_{0}, xv_{0})", n);
        } else {
            body.push_str(&format!("let {} = {};\n", x, item));
        }
        let mut one_to_one = true;
        for (i, (s, a)) in stages.iter().enumerate() {
            let y = format!("x_{}_{}", n, i + 1);
            match s.as_str() {
                "map" => {
                    let e = self.apply(a[0], &[&x], line)?;
                    body.push_str(&format!("let {} = {};\n", y, e));
                    x = y;
                }
                "filter" => {
                    one_to_one = false;
                    let e = self.apply(a[0], &[&format!("&{}", x)], line)?;
                    body.push_str(&format!("let keep_{}_{} = {};\nif keep_{}_{} {{\n", n, i, e, n, i));
                    close.push_str("}\n");
                }
                "filter_map" => {
                    one_to_one = false;
                    let e = self.apply(a[0], &[&x], line)?;
                    body.push_str(&format!("let o_{} = {};\nif let Some({}) = o_{} {{\n", y, e, y, y));
                    close.push_str("}\n");
                    x = y;
                }
                "flatten" => {
                    one_to_one = false;
                    body.push_str(&format!("if let Some({}) = {} {{\n", y, x));
                    close.push_str("}\n");
                    x = y;
                }
                "enumerate" => {
                    if !one_to_one || start != "0" {
                        return Err(("enumerate after filtering".into(), line));
                    }
                    x = format!("(j_{}, {})", n, x);
                }
                "cloned" | "copied" => {
                    body.push_str(&format!("let {} = (*{}).v_clone();\n", y, x));
                    x = y;
                }
                _ => return Err((format!("adapter {}", s), line)),
            }
        }
        let s = sink(self, &n, &x)?;
        body.push_str(&s);
        body.push_str(&close);
        Ok(format!(
            "{{\n{pre}let mut i_{n}: usize = {start};\n{init}{cpre}//@loop {k}\nwhile {cond}\n invariant\n{inv}\n decreases {dec}\n{{\n{begin}{body}{end}}}\n{after}{result}}}",
            pre = pre,
            n = n,
            start = start,
            init = init(&n),
            cpre = l.pre,
            k = k,
            cond = cond,
            inv = if inv.trim().is_empty() { " true,".to_string() } else { inv },
            dec = dec,
            begin = l.begin,
            body = body,
            end = l.end,
            after = l.after,
            result = result(&n),
        ))
    }

    /// A place that can be named again in every iteration.
    fn place(&mut self, e: &syn::Expr, line: usize) -> Out {
        match e {
            syn::Expr::Path(_) => self.expr(e),
            syn::Expr::Field(f) => Ok(format!("{}.{}", self.place(&f.base, line)?, f.member.to_token_stream())),
            syn::Expr::Paren(p) => self.place(&p.expr, line),
            _ => Err(("mutable iteration over a computed value".into(), line)),
        }
    }

    fn for_(&mut self, f: &syn::ExprForLoop) -> Out {
        let line = f.span().start().line;
        let mut e = &*f.expr;
        // `&mut x.values_mut()`
        if let syn::Expr::Reference(r) = e {
            if r.mutability.is_some() {
                if let syn::Expr::MethodCall(_) = &*r.expr {
                    e = &r.expr;
                }
            }
        }
        let key = format!("for {}", text(&*f.expr));
        let pair = matches!(&*f.pat, syn::Pat::Tuple(_));
        let c = match self.chain(e)? {
            Some(c) => c,
            None => match e {
                syn::Expr::Reference(r) if r.mutability.is_some() => {
                    Chain { src: if pair { Src::MapMut(&r.expr, true) } else { Src::VecMut(&r.expr) }, stages: vec![], key: key.clone() }
                }
                _ => Chain { src: Src::Vals(format!("{}.v_into_iter()", self.operand(e)?)), stages: vec![], key: key.clone() },
            },
        };
        let pair = pair && c.stages.is_empty();
        let pat = &f.pat;
        let body = &f.body;
        self.chain_loop(
            c,
            &key,
            &|_| String::new(),
            &mut |me, _, x| {
                me.scopes.push(vec![]);
                me.bind(pat);
                let p = me.pat(pat)?;
                let b = me.block(body);
                me.scopes.pop();
                Ok(format!("let {} = {};\n{}\n", p, x, b?))
            },
            &|_| String::new(),
            pair,
            line,
        )
    }

    fn while_(&mut self, w: &syn::ExprWhile) -> Out {
        let key = format!("while {}", text(&*w.cond));
        let (_, l, k) = self.loop_contract(&key);
        let c = self.expr(&w.cond)?;
        let b = self.block(&w.body)?;
        Ok(format!("{{ {}//@loop {}\nwhile {}\n invariant\n{}\n{{\n{}{}{}}}\n{} }}", l.pre, k, c, if l.inv.trim().is_empty() { " true," } else { &l.inv }, l.begin, b, l.end, l.after))
    }

    fn method(&mut self, m: &syn::ExprMethodCall) -> Out {
        let line = m.span().start().line;
        let name = m.method.to_string();
        // strings by characters
        if let syn::Expr::MethodCall(r) = &*m.receiver {
            if r.method == "chars" && name == "next" {
                return Ok(format!("{}.v_first_char()", self.operand(&r.receiver)?));
            }
            if r.method == "take" && name == "collect" {
                if let syn::Expr::MethodCall(q) = &*r.receiver {
                    if q.method == "chars" {
                        return Ok(format!("{}.v_take_chars({})", self.operand(&q.receiver)?, self.expr(&r.args[0])?));
                    }
                }
            }
            if r.method == "chars" && name == "count" {
                return Ok(format!("{}.v_char_count()", self.operand(&r.receiver)?));
            }
        }
        if SINKS.contains(&name.as_str()) {
            if let Some(c) = self.chain(&m.receiver)? {
                let key = format!("{}.{}", c.key, name);
                return self.sink(&name, m, c, &key, line);
            }
        }
        if name == "extend" {
            if let Some(c) = self.chain(&m.args[0])? {
                let key = format!("{}.extend", c.key);
                let v = self.sink("to_vec", m, c, &key, line)?;
                return Ok(format!("{}.extend({})", self.operand(&m.receiver)?, v));
            }
        }
        if STAGES.contains(&name.as_str()) {
            if self.chain(&m.receiver)?.is_some() {
                return Err(("iterator used as a value".into(), line));
            }
        }
        if name == "sort_by_key" || name == "sort_by_cached_key" {
            // the keys are computed first, then the vector is ordered by them
            let v = self.operand(&m.receiver)?;
            let c = Chain { src: Src::Vals(format!("{}.v_iter()", v)), stages: vec![], key: String::new() };
            let key = format!("{}.{}", text(&*m.receiver), name);
            let f = &m.args[0];
            let ks = self.chain_loop(
                c,
                &key,
                &|n| format!("let mut out_{}: Vec<String> = Vec::new();\n", n),
                &mut |me, n, x| {
                    let e = me.apply(f, &[x], line)?;
                    Ok(format!("let k_{0} = {1};\nout_{0}.push(k_{0});\n", n, e))
                },
                &|n| format!("out_{}", n),
                false,
                line,
            )?;
            self.n += 1;
            return Ok(format!("{{ let ks_{0} = {1};\n {2}.v_sort_by_keys(&ks_{0}); }}", self.n, ks, v));
        }
        let recv = self.operand(&m.receiver)?;
        if name == "replace" {
            let p = match &m.args[0] {
                syn::Expr::Array(a) => a.elems.iter().map(|e| self.char_pat(e, line)).collect::<Result<Vec<_>, _>>()?.join(" || "),
                e => self.char_pat(e, line)?,
            };
            let to = self.expr(&m.args[1])?;
            return Ok(format!("{}.v_replace(Ghost(|c: char| {}), {})", recv, p, to));
        }
        let alt = |me: &mut Self, some: &str, x: &str| -> Out {
            let _ = me;
            Ok(format!("(match {} {{ Some(o_{x}) => {some}, None => None }})", recv, x = x, some = some))
        };
        match name.as_str() {
            "map" => {
                self.n += 1;
                let x = format!("{}", self.n);
                let f = self.apply(&m.args[0], &[&format!("o_{}", x)], line)?;
                return alt(self, &format!("Some({})", f), &x);
            }
            "and_then" => {
                self.n += 1;
                let x = format!("{}", self.n);
                let f = self.apply(&m.args[0], &[&format!("o_{}", x)], line)?;
                return alt(self, &f, &x);
            }
            "filter" => {
                self.n += 1;
                let x = format!("{}", self.n);
                let f = self.apply(&m.args[0], &[&format!("(&o_{})", x)], line)?;
                return alt(self, &format!("(if {} {{ Some(o_{}) }} else {{ None }})", f, x), &x);
            }
            "cloned" | "copied" => {
                self.n += 1;
                let x = format!("{}", self.n);
                return alt(self, &format!("Some((*o_{}).v_clone())", x), &x);
            }
            "unwrap_or_else" => {
                self.n += 1;
                let f = self.apply(&m.args[0], &[], line)?;
                return Ok(format!("(match {0} {{ Some(o_{1}) => o_{1}, None => {2} }})", recv, self.n, f));
            }
            "unwrap_or" => {
                self.n += 1;
                let a = self.expr(&m.args[0])?;
                return Ok(format!("({{ let d_{1} = {2}; match {0} {{ Some(o_{1}) => o_{1}, None => d_{1} }} }})", recv, self.n, a));
            }
            "unwrap_or_default" => {
                self.n += 1;
                return Ok(format!("(match {0} {{ Some(o_{1}) => o_{1}, None => VDef::v_default() }})", recv, self.n));
            }
            "is_some_and" | "map_or" => {
                self.n += 1;
                let x = format!("o_{}", self.n);
                let (d, f) = if name == "map_or" { (self.expr(&m.args[0])?, &m.args[1]) } else { ("false".into(), &m.args[0]) };
                let f = self.apply(f, &[&x], line)?;
                return Ok(format!("(match {} {{ Some({}) => {}, None => {} }})", recv, x, f, d));
            }
            "ok" => {
                self.n += 1;
                return Ok(format!("(match {0} {{ Ok(o_{1}) => Some(o_{1}), Err(_) => None }})", recv, self.n));
            }
            "unwrap" | "expect" => return Ok(format!("{}.v_unwrap({})", recv, self.may())),
            _ => {}
        }
        if m.args.iter().any(|a| matches!(a, syn::Expr::Closure(_))) {
            return Err((format!("closure passed to {}", name), line));
        }
        let mut args = Vec::new();
        for a in &m.args {
            args.push(self.expr(a)?);
        }
        if let Some(h) = self.helper(&name, true) {
            return self.inline_fn(h, Some(recv), args, line);
        }
        let low = match name.as_str() {
            "clone" | "to_string" | "to_snake_case" | "into" | "as_str" | "to_owned" | "is_numeric" | "iter" | "into_iter" | "keys" | "values" | "as_deref" => {
                format!("v_{}", name)
            }
            _ => name,
        };
        Ok(format!("{}.{}({})", recv, low, args.join(", ")))
    }

    fn char_pat(&self, e: &syn::Expr, line: usize) -> Out {
        match e {
            syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Char(c), .. }) => Ok(format!("c == {:?}", c.value())),
            syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) if s.value().chars().count() == 1 => {
                Ok(format!("c == {:?}", s.value().chars().next().unwrap()))
            }
            syn::Expr::Reference(r) => self.char_pat(&r.expr, line),
            _ => Err(("replace pattern".into(), line)),
        }
    }

    fn sink(&mut self, name: &str, m: &syn::ExprMethodCall, c: Chain, key: &str, line: usize) -> Out {
        match name {
            "collect" | "to_vec" => {
                let to = match &m.turbofish {
                    Some(t) if name == "collect" => {
                        let a: Vec<String> = t.args.iter().map(|g| match g {
                            syn::GenericArgument::Type(t) => ty(t, self.err.as_ref()),
                            o => o.to_token_stream().to_string(),
                        }).collect();
                        format!("::<{}, _>", a.join(", "))
                    }
                    _ => String::new(),
                };
                let vec = name == "to_vec";
                self.chain_loop(
                    c,
                    key,
                    &|n| format!("let mut out_{} = Vec::new();\n", n),
                    &mut |_, n, x| Ok(format!("let e_{0} = {1};\nout_{0}.push(e_{0});\n", n, x)),
                    &|n| if vec { format!("out_{}", n) } else { format!("v_collect{}(out_{})", to, n) },
                    false,
                    line,
                )
            }
            "any" | "all" => {
                let all = name == "all";
                let f = &m.args[0];
                self.chain_loop(
                    c,
                    key,
                    &|n| format!("let mut found_{}: bool = {};\n", n, all),
                    &mut |me, n, x| {
                        let e = me.apply(f, &[x], line)?;
                        Ok(format!("let p_{0} = {1};\nif {2}p_{0} {{ found_{0} = {3}; }}\n", n, e, if all { "!" } else { "" }, !all))
                    },
                    &|n| format!("found_{}", n),
                    false,
                    line,
                )
            }
            "fold" => {
                let init = self.expr(&m.args[0])?;
                let f = &m.args[1];
                self.chain_loop(
                    c,
                    key,
                    &|n| format!("let mut acc_{} = {};\n", n, init),
                    &mut |me, n, x| {
                        let e = me.apply(f, &[&format!("acc_{}", n), x], line)?;
                        Ok(format!("acc_{} = {};\n", n, e))
                    },
                    &|n| format!("acc_{}", n),
                    false,
                    line,
                )
            }
            "for_each" => {
                let f = &m.args[0];
                self.chain_loop(
                    c,
                    key,
                    &|_| String::new(),
                    &mut |me, _, x| Ok(format!("{};\n", me.apply(f, &[x], line)?)),
                    &|_| String::new(),
                    false,
                    line,
                )
            }
            _ => Err((format!("iterator sink {}", name), line)),
        }
    }
}

fn c_is_pair_mut(s: &Src, pair: bool) -> bool {
    match s {
        Src::VecMut(_) => pair,
        Src::MapMut(_, both) => *both,
        _ => false,
    }
}
