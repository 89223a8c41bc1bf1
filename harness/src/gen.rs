//! Schema, document and option generators. Every random choice comes from one
//! seeded generator, so a run is reproducible from its seed.
use jst::{Context, ResolveMethod};
use serde_json::{json, Map, Value};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

/// Words and numbers taken from the string and integer literals of the source
/// under test, so that inputs reach comparisons against them.
#[derive(Default, Clone)]
pub struct Dict {
    pub words: Vec<String>,
    pub sizes: Vec<usize>,
}

impl Dict {
    pub fn mine(dir: &str) -> Dict {
        let mut d = Dict::default();
        let mut paths: Vec<_> = std::fs::read_dir(dir)
            .map(|r| r.filter_map(|e| e.ok()).map(|e| e.path()).collect())
            .unwrap_or_default();
        paths.sort();
        let sre = regex::Regex::new(r#""((?:[^"\\]|\\.)*)""#).unwrap();
        let cre = regex::Regex::new(r"'([^'\\])'").unwrap();
        let nre = regex::Regex::new(r"\b(\d[\d_]*)(?:usize|u64|i64|u32|i32)?\b").unwrap();
        for p in paths {
            if p.extension().map(|e| e != "rs").unwrap_or(true) {
                continue;
            }
            let text = std::fs::read_to_string(&p).unwrap_or_default();
            let text = match text.find("#[cfg(test)]\nmod tests") {
                Some(i) => text[..i].to_string(),
                None => text,
            };
            for line in text.lines() {
                let line = line.trim();
                if line.starts_with("//") {
                    continue;
                }
                for c in sre.captures_iter(line) {
                    let w = c[1].replace("\\\"", "\"");
                    if !w.contains("{}") && w.chars().count() <= 40 {
                        d.words.push(w);
                    }
                }
                for c in cre.captures_iter(line) {
                    d.words.push(c[1].to_string());
                }
                let nolit = sre.replace_all(line, "");
                for c in nre.captures_iter(&nolit) {
                    if let Ok(n) = c[1].replace('_', "").parse::<usize>() {
                        if n <= 5000 {
                            d.sizes.push(n);
                        }
                    }
                }
            }
        }
        d.words.sort();
        d.words.dedup();
        d.sizes.sort();
        d.sizes.dedup();
        d
    }
}

impl Dict {
    /// A length or a number of members at which something may change: near a
    /// number of the source, or near a round one.
    pub fn size(&self, r: &mut Rng) -> usize {
        let own: Vec<usize> = self.sizes.iter().copied().filter(|n| *n > 1 && *n != 1024).collect();
        let base = if !own.is_empty() && r.chance(3, 4) {
            *r.pick(&own)
        } else {
            *r.pick(&[8, 10, 12, 16, 20, 32, 50, 64, 100, 128, 256, 300, 512, 1000, 1024])
        };
        (base + r.below(4)).saturating_sub(1)
    }
}

#[derive(Clone)]
pub struct Cfg {
    pub max_depth: usize,
    /// allow names and shapes the converter is documented to reject
    pub wild: bool,
    /// allow property names of one object to collide once normalized
    pub collisions: bool,
    /// only constructs with one exact translation (no unions beyond null)
    pub exact: bool,
    /// often with an expression in the metadata
    pub paths: bool,
    /// allow an array directly holding maps
    pub tuples: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            max_depth: 4,
            wild: false,
            collisions: false,
            exact: false,
            paths: false,
            tuples: true,
        }
    }
}

const KEYS: &[&str] = &[
    "a", "b", "c", "x", "id", "list", "key", "value", "root", "f0_", "f1_", "fooBar", "FooBar",
    "foo_bar", "foo-bar", "foo.bar", "1st", "64bit", "_64bit", "HTTPServer", "a1B2", "_x", "__y__",
    "Z", "type", "name", "null", "is_root", "timeStamp", "ABC", "aBC9d",
];
const ODD_KEYS: &[&str] = &[
    "", "_", "-", ".", "__", "$schema", "a b", "a$", "caf\u{e9}", "\u{b2}x", "\u{663}z", "a\n",
    "9", "-a", ".b", "a..b", "a/b", "\u{1F600}", "x\u{301}", "#",
];

pub fn key(r: &mut Rng, d: &Dict) -> String {
    match r.below(22) {
        0..=11 => r.pick(KEYS).to_string(),
        12..=13 => r.pick(ODD_KEYS).to_string(),
        14..=15 if !d.words.is_empty() => r.pick(&d.words).clone(),
        16 => {
            let n = if r.chance(1, 3) { d.size(r).min(400) } else { r.below(12) };
            let all: &[char] = match r.below(4) {
                0 => &['a', 'b', 'q'],
                1 => &['a', 'b', 'Q', 'Z'],
                2 => &['a', 'B', '_'],
                _ => &['a', 'b', 'Z', '_', '0', '7', '-', '.', 'q'],
            };
            (0..n).map(|_| *r.pick(all)).collect()
        }
        17 => format!("{}{}", r.pick(KEYS), r.below(300)),
        18 => format!("{}{}", r.pick(KEYS), r.pick(KEYS)),
        // words run together in every way
        19..=20 => {
            let n = 1 + r.below(9);
            (0..n).map(|_| *r.pick(&['a', 'b', 'A', 'B', 'a', 'A', '1', '_', 'c', '-'])).collect()
        }
        _ => format!("k{}", r.below(8)),
    }
}

pub fn text(r: &mut Rng, d: &Dict) -> String {
    match r.below(8) {
        0 => String::new(),
        1 if !d.words.is_empty() => r.pick(&d.words).clone(),
        2 => {
            let base = if !d.sizes.is_empty() && r.chance(2, 3) {
                *r.pick(&d.sizes)
            } else {
                *r.pick(&[1usize, 255, 256, 511, 512, 1000, 1020, 1024, 1025, 2048])
            };
            let n = (base + r.below(5)).saturating_sub(2).min(5000);
            let c = *r.pick(&['x', '\u{e9}', '\u{4e2d}', '\u{1F600}', ' ']);
            let mut s: String = std::iter::repeat(c).take(n).collect();
            if r.chance(1, 2) {
                s.insert(0, 'T');
            }
            if r.chance(1, 2) {
                s.push('E');
            }
            s
        }
        3 => " lead and trail ".into(),
        4 => "multi\nline\ttext".into(),
        5 => "\u{e9}t\u{e9} - d\u{e9}j\u{e0} vu".into(),
        _ => format!("text {}", r.below(50)),
    }
}

fn annotate(r: &mut Rng, d: &Dict, m: &mut Map<String, Value>) {
    if r.chance(1, 5) {
        m.insert("description".into(), json!(text(r, d)));
    }
    if r.chance(1, 6) {
        m.insert("title".into(), json!(text(r, d)));
    }
    if r.chance(1, 30) {
        m.insert("enum".into(), json!([1, 2]));
    }
    if r.chance(1, 40) {
        m.insert("allOf".into(), json!([{}]));
    }
}

const ATOMS: &[&str] = &["null", "boolean", "integer", "number", "string"];

fn obj(v: Value) -> Map<String, Value> {
    match v {
        Value::Object(m) => m,
        _ => Map::new(),
    }
}

pub fn props(r: &mut Rng, d: &Dict, c: &Cfg, depth: usize) -> Map<String, Value> {
    let mut m = Map::new();
    let big = r.chance(1, 60);
    let n = if big {
        let cap = if r.chance(1, 30) { 520 } else { 70 };
        d.size(r).min(cap)
    } else {
        r.below(5) + usize::from(r.chance(9, 10))
    };
    let sep = *r.pick(&["", "", "-", "_", "."]);
    let mut props = Map::new();
    for i in 0..n {
        let k = if big { format!("p{}{}", sep, i) } else { key(r, d) };
        let dd = if big { 0 } else { depth };
        if r.chance(1, 3) {
            if let Some(v) = props.values().next().cloned() {
                props.insert(k, v);
                continue;
            }
        }
        props.insert(k, schema(r, d, c, dd));
    }
    if r.chance(4, 5) {
        let part = if r.chance(1, 4) { 8 } else { 4 };
        let mut req: Vec<Value> = props
            .keys()
            .filter(|_| r.chance(part, 8))
            .map(|k| json!(k))
            .collect();
        if r.chance(1, 10) {
            req.push(json!(key(r, d)));
            req.dedup();
        }
        m.insert("required".into(), json!(req));
    }
    m.insert("properties".into(), Value::Object(props));
    m
}

pub fn schema(r: &mut Rng, d: &Dict, c: &Cfg, depth: usize) -> Value {
    let mut m: Map<String, Value>;
    let kind = if depth == 0 { r.below(7) } else { r.below(26) };
    match kind {
        0..=3 => {
            m = obj(json!({ "type": r.pick(&ATOMS[if c.exact { 1 } else { 0 }..]).to_string() }));
        }
        4 => {
            let f = *r.pick(&["date-time", "bytes", "json", "uri", "email"]);
            m = obj(json!({"type": "string", "format": f}));
        }
        5 => {
            let t = *r.pick(&ATOMS[1..]);
            m = obj(json!({ "type": [t, "null"] }));
            if r.chance(1, 3) {
                m = obj(json!({ "type": ["null", t] }));
            }
        }
        6 => {
            if c.exact || r.chance(1, 3) {
                m = obj(json!({ "type": r.pick(&ATOMS[1..]).to_string() }));
            } else if r.chance(1, 2) {
                m = Map::new();
                if r.chance(1, 2) {
                    m.insert("type".into(), json!("object"));
                }
            } else {
                let n = 1 + r.below(3);
                let ts: Vec<Value> = (0..n).map(|_| json!(r.pick(ATOMS))).collect();
                m = obj(json!({ "type": ts }));
                if r.chance(1, 4) {
                    m.insert("format".into(), json!("date-time"));
                }
            }
        }
        7..=12 => {
            m = props(r, d, c, depth - 1);
            if c.exact || r.chance(3, 4) {
                m.insert("type".into(), json!("object"));
            }
            if !c.exact && r.chance(1, 8) {
                m.insert("type".into(), json!(["object", "null"]));
            }
            if !c.exact && r.chance(1, 12) {
                m.insert("additionalProperties".into(), json!(r.chance(1, 2)));
            }
        }
        13..=15 => {
            let items = schema(r, d, c, depth - 1);
            m = obj(json!({"type": "array", "items": items}));
            if !c.exact && r.chance(1, 8) {
                m.insert("type".into(), json!(["array", "null"]));
            }
            if !c.exact && r.chance(1, 30) {
                let t = *r.pick(&["object", "string", "integer"]);
                m.insert("type".into(), json!(["array", t]));
            }
            if r.chance(1, 8) {
                m.insert("minItems".into(), json!(r.below(3)));
            }
        }
        16..=18 => {
            m = obj(json!({"type": "object"}));
            match r.below(if c.exact { 2 } else { 6 }) {
                0 | 1 | 2 => {
                    m.insert("additionalProperties".into(), schema(r, d, c, depth - 1));
                }
                3 | 4 => {
                    let n = 1 + r.below(3);
                    let mut pp = Map::new();
                    let base = schema(r, d, c, depth - 1);
                    for i in 0..n {
                        let s = if r.chance(1, 2) {
                            base.clone()
                        } else {
                            schema(r, d, c, depth - 1)
                        };
                        pp.insert(format!("^{}", ["a", "b", "c"][i]), s);
                    }
                    if r.chance(1, 12) {
                        pp.clear();
                    }
                    m.insert("patternProperties".into(), Value::Object(pp));
                    if r.chance(1, 3) {
                        m.insert("additionalProperties".into(), json!(false));
                    }
                }
                _ => {
                    let s = schema(r, d, c, depth - 1);
                    m.insert("additionalProperties".into(), s.clone());
                    let s2 = if r.chance(1, 2) {
                        s
                    } else {
                        schema(r, d, c, depth - 1)
                    };
                    m.insert("patternProperties".into(), json!({ "^a": s2 }));
                }
            }
            if !c.exact && r.chance(1, 10) {
                m.insert("type".into(), json!(["object", "null"]));
            }
        }
        19..=22 if !c.exact => {
            let many = r.chance(1, 40);
            let n = if many { d.size(r).min(24) } else { 1 + r.below(4) };
            let depth = if many { depth.min(2) } else { depth };
            let base = schema(r, d, c, depth - 1);
            let mut vs = Vec::new();
            for _ in 0..n {
                match r.below(6) {
                    0 => vs.push(base.clone()),
                    1 => vs.push(json!({"type": "null"})),
                    2 | 3 => vs.push(mutate(r, d, c, &base, depth - 1)),
                    _ => vs.push(schema(r, d, c, depth - 1)),
                }
            }
            m = obj(json!({ "oneOf": vs }));
            if r.chance(1, 6) {
                m.insert("type".into(), json!("object"));
            }
        }
        23..=25 if c.tuples => {
            let many = r.chance(1, 40);
            let n = if many { d.size(r).min(if r.chance(1, 24) { 300 } else { 24 }) } else { r.below(4) + usize::from(!r.chance(1, 8)) };
            let items: Vec<Value> = if many {
                let base = schema(r, d, c, depth.min(2) - 1);
                (0..n).map(|_| if r.chance(1, 8) { schema(r, d, c, 0) } else { base.clone() }).collect()
            } else {
                (0..n).map(|_| schema(r, d, c, depth - 1)).collect()
            };
            m = obj(json!({"type": "array", "items": items}));
            match r.below(4) {
                0 => {
                    m.insert("additionalItems".into(), json!(false));
                }
                1 => {
                    m.insert("maxItems".into(), json!(n));
                }
                2 => {
                    m.insert("additionalItems".into(), schema(r, d, c, depth - 1));
                    m.insert("maxItems".into(), json!(n + r.below(3)));
                }
                _ => {
                    m.insert("additionalItems".into(), json!(false));
                }
            }
            if r.chance(1, 2) {
                m.insert("minItems".into(), json!(r.below(n + 2)));
            }
        }
        _ => {
            m = obj(json!({"type": "array", "items": schema(r, d, c, depth - 1)}));
        }
    }
    annotate(r, d, &mut m);
    if c.wild && r.chance(1, 40) {
        match r.below(6) {
            0 => {
                m.insert("type".into(), json!("array"));
                m.remove("items");
            }
            1 => {
                m.insert("type".into(), json!([]));
            }
            2 => {
                m.insert("oneOf".into(), json!([]));
            }
            3 => {
                m.remove("maxItems");
                m.remove("additionalItems");
            }
            4 => {
                m.insert("type".into(), json!("any"));
            }
            _ => {
                m.insert("maxItems".into(), json!(1));
                m.insert("additionalItems".into(), json!({"type": "string"}));
            }
        }
    }
    Value::Object(m)
}

/// A variant of a schema: some field renamed, retyped, added, removed or made
/// nullable.
pub fn mutate(r: &mut Rng, d: &Dict, c: &Cfg, s: &Value, depth: usize) -> Value {
    let mut s = s.clone();
    let Some(m) = s.as_object_mut() else {
        return s;
    };
    match r.below(7) {
        0 => {
            if let Some(t) = m.get("type").cloned() {
                if t.is_string() {
                    m.insert("type".into(), json!([t, "null"]));
                }
            }
        }
        1 | 2 => {
            if let Some(Value::Object(p)) = m.get_mut("properties") {
                let ks: Vec<String> = p.keys().cloned().collect();
                if !ks.is_empty() {
                    let k = r.pick(&ks).clone();
                    let v = p[&k].clone();
                    let nv = mutate(r, d, c, &v, depth.saturating_sub(1));
                    p.insert(k, nv);
                }
            } else if let Some(it) = m.get("items").cloned() {
                if it.is_object() {
                    let nv = mutate(r, d, c, &it, depth.saturating_sub(1));
                    m.insert("items".into(), nv);
                }
            } else if let Some(it) = m.get("additionalProperties").cloned() {
                if it.is_object() {
                    let nv = mutate(r, d, c, &it, depth.saturating_sub(1));
                    m.insert("additionalProperties".into(), nv);
                }
            } else if m.get("type") == Some(&json!("integer")) {
                m.insert("type".into(), json!("number"));
            }
        }
        3 => {
            if let Some(Value::Object(p)) = m.get_mut("properties") {
                let nv = schema(r, d, c, depth.saturating_sub(1));
                p.insert(key(r, d), nv);
            }
        }
        4 => {
            if let Some(Value::Object(p)) = m.get_mut("properties") {
                let ks: Vec<String> = p.keys().cloned().collect();
                if ks.len() > 1 {
                    let k = r.pick(&ks).clone();
                    p.remove(&k);
                }
            }
        }
        5 => {
            if r.chance(1, 2) {
                m.remove("required");
            } else if let Some(Value::Object(p)) = m.get("properties") {
                let req: Vec<Value> =
                    p.keys().filter(|_| r.chance(1, 2)).map(|k| json!(k)).collect();
                m.insert("required".into(), json!(req));
            }
        }
        _ => {
            m.remove("description");
        }
    }
    s
}

/// A root schema: mostly records, since that is what tables are made of.
pub fn root(r: &mut Rng, d: &Dict, c: &Cfg) -> Value {
    let depth = 1 + r.below(c.max_depth);
    let mut s = if r.chance(3, 5) {
        let mut m = props(r, d, c, depth);
        m.insert("type".into(), json!("object"));
        annotate(r, d, &mut m);
        Value::Object(m)
    } else {
        schema(r, d, c, depth)
    };
    // now and then far inside
    if !c.exact && r.chance(1, 300) {
        for _ in 0..d.size(r).min(30) {
            s = if r.chance(2, 3) { json!({"type": "object", "properties": {"a": s}}) } else { json!({"type": "array", "items": s}) };
        }
    }
    if r.chance(1, 20) {
        if let Some(m) = s.as_object_mut() {
            m.insert("$schema".into(), json!("http://json-schema.org/draft-04/schema#"));
        }
    }
    if !c.exact && r.chance(1, if c.paths { 3 } else { 10 }) {
        let meta = match r.below(if c.paths { 7 } else { 3 }) {
            3..=5 => json!({ "json_object_path_regex": path_regex(r) }),
            6 => json!({"json_object_path_regex": null}),
            0 => json!({ "json_object_path_regex": path_regex(r) }),
            1 => json!({"bq_table": "t"}),
            _ => json!({"json_object_path_regex": 3}),
        };
        if let Some(m) = s.as_object_mut() {
            m.insert("mozPipelineMetadata".into(), meta);
        }
    }
    s
}

pub fn path_regex(r: &mut Rng) -> String {
    let a = r.pick(KEYS).replace(['-', '.'], "_");
    let b = r.pick(KEYS).replace(['-', '.'], "_");
    match r.below(12) {
        0 => a,
        8 => "".into(),
        9 => r.pick(&["a b", " ", "\\w+", "[a-z_.]+", "(?i)ROOT\\..*", "caf\u{e9}", "root\\.\\S*", "(?x) root \\. a", "^root\\.a$", "[^.]*\\.[^.]*", "root\\.(?:a|b){1,2}", "ROOT"]).to_string(),
        10 => format!("{}| ", a),
        11 => format!("root\\.({})*", a),
        1 => format!("{}|{}", a, b),
        2 => format!("{}\\..*", a),
        3 => ".*".into(),
        4 => format!("(?:{}|{})\\.{}", a, b, a),
        5 => format!("{}$", a),
        6 => format!(".*\\.{}", b),
        _ => format!("{}.value", a),
    }
}

pub fn context(r: &mut Rng) -> Context {
    Context {
        resolve_method: *r.pick(&[
            ResolveMethod::Cast,
            ResolveMethod::Cast,
            ResolveMethod::Drop,
            ResolveMethod::Panic,
        ]),
        normalize_case: r.chance(1, 3),
        force_nullable: r.chance(1, 3),
        tuple_struct: r.chance(1, 2),
        allow_maps_without_value: r.chance(1, 3),
        json_object_path_regex: if r.chance(1, 3) { Some(path_regex(r)) } else { None },
    }
}

pub fn ctx_json(c: &Context) -> Value {
    json!({
        "resolve_method": match c.resolve_method { ResolveMethod::Cast => "Cast", ResolveMethod::Drop => "Drop", ResolveMethod::Panic => "Panic" },
        "normalize_case": c.normalize_case,
        "force_nullable": c.force_nullable,
        "tuple_struct": c.tuple_struct,
        "allow_maps_without_value": c.allow_maps_without_value,
        "json_object_path_regex": c.json_object_path_regex,
    })
}

pub fn ctx_from(v: &Value) -> Context {
    serde_json::from_value(v.clone()).unwrap()
}

/// A document the schema admits. `oneOf` is taken as any one alternative.
pub fn doc(r: &mut Rng, d: &Dict, s: &Value, tuples: bool) -> Option<Value> {
    let t = s.get("type");
    match t {
        Some(Value::String(t)) => doc_typed(r, d, s, t, tuples),
        Some(Value::Array(ts)) => {
            let t = ts.get(r.below(ts.len()))?.as_str()?.to_string();
            doc_typed(r, d, s, &t, tuples)
        }
        _ => doc_typed(r, d, s, "", tuples),
    }
}

/// A value for a location the schema says nothing about; null is admitted only
/// where the schema names it.
fn junk(r: &mut Rng) -> Value {
    match r.below(6) {
        0 => json!(1.5),
        1 => json!(true),
        2 => json!(7),
        3 => json!("s"),
        4 => json!({"a": 1}),
        _ => json!([1, "x"]),
    }
}

fn doc_typed(r: &mut Rng, d: &Dict, s: &Value, t: &str, tuples: bool) -> Option<Value> {
    Some(match t {
        "null" => Value::Null,
        "boolean" => json!(r.chance(1, 2)),
        "integer" => json!(r.below(1000) as i64 - 500),
        "number" => {
            if r.chance(1, 2) {
                json!(r.below(10))
            } else {
                json!(r.below(10) as f64 + 0.5)
            }
        }
        // of the format, if one of those with a column of its own is asked for
        "string" => match s.get("format").and_then(|f| f.as_str()) {
            Some("date-time") => json!(format!("2019-07-2{}T10:00:00Z", r.below(9))),
            Some("bytes") => json!(["", "YWJj", "AAAA", "eno="][r.below(4)]),
            _ => json!(format!("s{}", r.below(9))),
        },
        "array" => match s.get("items") {
            Some(Value::Array(items)) => {
                let lo = s.get("minItems").and_then(|v| v.as_u64()).unwrap_or(items.len() as u64);
                // a tuple without minItems is treated as fully present
                let max = match s.get("additionalItems") {
                    Some(Value::Object(_)) => s.get("maxItems").and_then(|v| v.as_u64())?,
                    _ => items.len() as u64,
                };
                if lo > max {
                    return None;
                }
                let n = lo + r.below((max - lo + 1) as usize) as u64;
                let mut out = Vec::new();
                for i in 0..n as usize {
                    let sub = items.get(i).or_else(|| s.get("additionalItems"))?;
                    out.push(doc(r, d, sub, tuples)?);
                }
                Value::Array(out)
            }
            Some(items) => {
                let lo = s.get("minItems").and_then(|v| v.as_u64()).unwrap_or(0) as usize;
                let n = lo + r.below(3);
                let mut out = Vec::new();
                for _ in 0..n {
                    out.push(doc(r, d, items, tuples)?);
                }
                Value::Array(out)
            }
            None => return None,
        },
        _ => {
            if let Some(Value::Object(p)) = s.get("properties") {
                let req: Vec<&str> = s
                    .get("required")
                    .and_then(|v| v.as_array())
                    .map(|v| v.iter().filter_map(|x| x.as_str()).collect())
                    .unwrap_or_default();
                let mut out = Map::new();
                let lean = r.chance(1, 3);
                for (k, v) in p {
                    if req.contains(&k.as_str()) || (!lean && r.chance(1, 2)) {
                        out.insert(k.clone(), doc(r, d, v, tuples)?);
                    }
                }
                for k in req {
                    // documents hold declared members only
                    if !out.contains_key(k) {
                        return None;
                    }
                }
                Value::Object(out)
            } else if s.get("patternProperties").is_some()
                || s.get("additionalProperties").map(|v| v.is_object()).unwrap_or(false)
            {
                let mut subs = Vec::new();
                if let Some(Value::Object(p)) = s.get("patternProperties") {
                    subs.extend(p.values().cloned());
                }
                if let Some(v @ Value::Object(_)) = s.get("additionalProperties") {
                    subs.push(v.clone());
                }
                if subs.is_empty() {
                    return Some(junk_obj(r));
                }
                let mut out = Map::new();
                for i in 0..r.below(4) {
                    let sub = r.pick(&subs).clone();
                    out.insert(format!("m{}", i), doc(r, d, &sub, tuples)?);
                }
                Value::Object(out)
            } else if let Some(Value::Array(vs)) = s.get("oneOf") {
                let v = vs.get(r.below(vs.len()))?;
                doc(r, d, v, tuples)?
            } else if t == "object" {
                junk_obj(r)
            } else {
                junk(r)
            }
        }
    })
}

fn junk_obj(r: &mut Rng) -> Value {
    if r.chance(1, 2) {
        json!({})
    } else {
        json!({"zz": 1})
    }
}
