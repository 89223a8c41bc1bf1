//! Property oracles over the observable behaviour: schema and options in,
//! generated schema out. None of them looks at the implementation.
use jst::{Context, ResolveMethod};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type R = Result<(), String>;

pub fn avro(s: &Value, c: &Context) -> Option<Value> {
    let c = c.clone();
    catch_unwind(AssertUnwindSafe(|| jst::convert_avro(s, c))).ok()
}
pub fn bq(s: &Value, c: &Context) -> Option<Value> {
    let c = c.clone();
    catch_unwind(AssertUnwindSafe(|| jst::convert_bigquery(s, c))).ok()
}

pub fn with<F: FnOnce(&mut Context)>(c: &Context, f: F) -> Context {
    let mut c = c.clone();
    f(&mut c);
    c
}

// ---------------------------------------------------------------- names

pub fn valid_ident(s: &str) -> bool {
    let mut cs = s.chars();
    match cs.next() {
        Some(c) if c.is_ascii_alphabetic() || c == '_' => {}
        _ => return false,
    }
    cs.all(|c| c.is_ascii_alphanumeric() || c == '_')
}

fn numeric_prefix(s: String) -> String {
    match s.chars().next() {
        Some(c) if !c.is_numeric() => s,
        _ => format!("_{}", s),
    }
}

/// Snake case as documented: underscores separate words, so does a lower-case
/// letter before an upper-case one, and a run of upper-case letters ends before
/// the last of them if a lower-case letter follows; digits have the case of the
/// letter before them.  Words are lower-cased and joined by single underscores.
pub fn snake(s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    let mut words: Vec<String> = vec![String::new()];
    // the case of the last letter of the current word
    let mut upper: Option<bool> = None;
    for (i, &c) in cs.iter().enumerate() {
        if c == '_' {
            words.push(String::new());
            upper = None;
            continue;
        }
        let next_lower = cs.get(i + 1).map(|n| n.is_ascii_lowercase()).unwrap_or(false);
        if c.is_ascii_uppercase() && (upper == Some(false) || upper == Some(true) && next_lower) {
            words.push(String::new());
            // a run that ends here starts a word anew
            upper = None;
            words.last_mut().unwrap().push(c.to_ascii_lowercase());
            if !next_lower {
                upper = Some(true);
            }
            continue;
        }
        words.last_mut().unwrap().push(c.to_ascii_lowercase());
        if c.is_ascii_uppercase() {
            upper = Some(true);
        } else if c.is_ascii_lowercase() {
            upper = Some(false);
        }
    }
    words.retain(|w| !w.is_empty());
    words.join("_")
}

/// The column a property becomes, or None when it has no valid name.
pub fn column_name(k: &str, normalize_case: bool) -> Option<String> {
    let n = numeric_prefix(k.replace(['.', '-'], "_"));
    if !valid_ident(&n) {
        return None;
    }
    if normalize_case {
        Some(numeric_prefix(snake(&n)))
    } else {
        Some(n)
    }
}

/// Does any object of the schema hold two properties of one column name?
pub fn collides(s: &Value, nc: bool) -> bool {
    match s {
        Value::Object(m) => {
            if let Some(Value::Object(p)) = m.get("properties") {
                let mut seen = BTreeSet::new();
                let mut names: BTreeSet<&str> = p.keys().map(|k| k.as_str()).collect();
                if let Some(Value::Array(req)) = m.get("required") {
                    names.extend(req.iter().filter_map(|v| v.as_str()));
                }
                for k in names {
                    if let Some(n) = column_name(k, nc) {
                        if !seen.insert(n) {
                            return true;
                        }
                    }
                }
            }
            m.values().any(|v| collides(v, nc))
        }
        Value::Array(a) => a.iter().any(|v| collides(v, nc)),
        _ => false,
    }
}

fn merged_collides(s: &Value, nc: bool) -> bool {
    // alternatives merge their fields, so look at the union of all their keys
    fn keys<'a>(s: &'a Value, out: &mut BTreeSet<&'a str>) {
        match s {
            Value::Object(m) => {
                if let Some(Value::Object(p)) = m.get("properties") {
                    out.extend(p.keys().map(|k| k.as_str()));
                }
                if let Some(Value::Array(q)) = m.get("required") {
                    out.extend(q.iter().filter_map(|v| v.as_str()));
                }
                m.values().for_each(|v| keys(v, out));
            }
            Value::Array(a) => a.iter().for_each(|v| keys(v, out)),
            _ => {}
        }
    }
    let mut ks = BTreeSet::new();
    keys(s, &mut ks);
    let mut seen = BTreeSet::new();
    ks.iter().filter_map(|k| column_name(k, nc)).any(|n| !seen.insert(n))
}

// ---------------------------------------------------------------- C01

fn shuffle_members(v: &Value, salt: u64) -> String {
    // serde_json keeps object members sorted, so write the text out by hand
    match v {
        Value::Object(m) => {
            let mut es: Vec<(&String, &Value)> = m.iter().collect();
            let n = es.len().max(1);
            es.rotate_left((salt as usize) % n);
            if salt % 2 == 1 {
                es.reverse();
            }
            let inner: Vec<String> = es
                .iter()
                .map(|(k, v)| format!("{}:{}", json!(k), shuffle_members(v, salt / 2 + 1)))
                .collect();
            format!("{{{}}}", inner.join(","))
        }
        Value::Array(a) => {
            let inner: Vec<String> = a.iter().map(|v| shuffle_members(v, salt + 1)).collect();
            format!("[{}]", inner.join(","))
        }
        _ => v.to_string(),
    }
}

fn sorted_fields(v: &Value) -> R {
    match v {
        Value::Object(m) => {
            if let Some(Value::Array(fs)) = m.get("fields") {
                let names: Vec<&str> =
                    fs.iter().filter_map(|f| f.get("name").and_then(|n| n.as_str())).collect();
                if names.windows(2).any(|w| w[0] >= w[1]) && !tuple_names(&names) {
                    return Err(format!("fields are not sorted by name: {:?}", names));
                }
            }
            m.values().try_for_each(sorted_fields)
        }
        Value::Array(a) => a.iter().try_for_each(sorted_fields),
        _ => Ok(()),
    }
}
fn tuple_names(names: &[&str]) -> bool {
    // tuple members are listed by position, not by name
    let pos: Vec<Option<usize>> = names
        .iter()
        .map(|n| n.strip_prefix('f').and_then(|n| n.strip_suffix('_')).and_then(|n| n.parse().ok()))
        .collect();
    pos.iter().all(|p| p.is_some()) && pos.windows(2).all(|w| w[0] < w[1])
}

pub fn c01(s: &Value, c: &Context) -> R {
    let a0 = avro(s, c);
    let b0 = bq(s, c);
    for round in 0..6u64 {
        if round == 3 {
            // other conversions in between must leave no trace
            let other = json!({"type": "object", "properties": {"p": {"type": ["null", "string"]}, "q-r": {}}});
            let oc = with(c, |c| {
                c.normalize_case = !c.normalize_case;
                c.force_nullable = !c.force_nullable;
                c.resolve_method = ResolveMethod::Cast;
                c.json_object_path_regex = Some("q.*".into());
            });
            let _ = avro(&other, &oc);
            let _ = bq(&other, &oc);
        }
        let s2: Value = serde_json::from_str(&shuffle_members(s, round)).map_err(|e| e.to_string())?;
        let a = avro(&s2, c);
        if a != a0 {
            return Err(format!("avro output differs between runs: {:?} / {:?}", a0, a));
        }
        let b = bq(&s2, c);
        if b != b0 {
            return Err(format!("bigquery output differs between runs: {:?} / {:?}", b0, b));
        }
    }
    if let Some(a) = &a0 {
        sorted_fields(a)?;
    }
    if let Some(b) = &b0 {
        sorted_fields(&json!({ "fields": b }))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C02

fn norm_keys(m: &Map<String, Value>, nc: bool) -> Map<String, Value> {
    m.iter().filter_map(|(k, v)| column_name(k, nc).map(|n| (n, v.clone()))).collect()
}

fn bq_value(col: &Value, v: &Value, nc: bool, path: &str) -> R {
    let ty = col["type"].as_str().unwrap_or("");
    let bad = |why: &str| Err(format!("{}: {} does not take {}: {}", path, ty, v, why));
    match ty {
        "BOOL" => {
            if !v.is_boolean() {
                return bad("not a boolean");
            }
        }
        "INT64" => {
            if !(v.is_i64() || v.is_u64()) {
                return bad("not an integer");
            }
        }
        "FLOAT64" => {
            if !v.is_number() {
                return bad("not a number");
            }
        }
        "TIMESTAMP" => {
            let t = v.as_str().unwrap_or("").as_bytes();
            if !(t.len() >= 10 && (0..10).all(|i| if i == 4 || i == 7 { t[i] == b'-' } else { t[i].is_ascii_digit() })) {
                return bad("not a point in time");
            }
        }
        "BYTES" => {
            let base64 = |t: &str| t.len() % 4 == 0 && t.chars().all(|c| c.is_ascii_alphanumeric() || "+/=".contains(c));
            if !v.as_str().map(base64).unwrap_or(false) {
                return bad("not bytes in base64");
            }
        }
        "STRING" | "JSON" => {}
        "RECORD" => {
            let fields = col["fields"].as_array().cloned().unwrap_or_default();
            match v {
                Value::Object(m) => {
                    let rec = bq_record(&fields, &norm_keys(m, nc), nc, path);
                    // a map inside of a list
                    if rec.is_err() && fields.len() == 1 && fields[0]["name"] == "list" && fields[0]["mode"] == "REPEATED" {
                        return bq_record(&fields, &obj1("list", v.clone()), nc, path);
                    }
                    return rec;
                }
                Value::Array(items) => {
                    // a nested list, or a tuple
                    if fields.len() == 1 && fields[0]["name"] == "list" && fields[0]["mode"] == "REPEATED"
                    {
                        let m = obj1("list", v.clone());
                        return bq_record(&fields, &m, nc, path);
                    }
                    let mut m = Map::new();
                    for (i, x) in items.iter().enumerate() {
                        let n = format!("f{}_", i);
                        if !fields.iter().any(|f| f["name"] == n.as_str()) {
                            return bad("tuple member without a column");
                        }
                        m.insert(n, x.clone());
                    }
                    return bq_record(&fields, &m, nc, path);
                }
                _ => return bad("not a record"),
            }
        }
        _ => return bad("unknown column type"),
    }
    Ok(())
}
fn obj1(k: &str, v: Value) -> Map<String, Value> {
    let mut m = Map::new();
    m.insert(k.into(), v);
    m
}

fn bq_col(col: &Value, v: Option<&Value>, nc: bool, path: &str) -> R {
    let mode = col["mode"].as_str().unwrap_or("");
    let null = matches!(v, None | Some(Value::Null));
    match mode {
        "REQUIRED" if null => Err(format!("{}: REQUIRED column, but a valid document holds no value there", path)),
        _ if null => Ok(()),
        "REPEATED" => match v.unwrap() {
            Value::Array(items) => {
                for x in items.iter().filter(|x| !x.is_null()) {
                    bq_value(col, x, nc, &format!("{}[]", path))?;
                }
                Ok(())
            }
            Value::Object(m) => {
                let fields = col["fields"].as_array().cloned().unwrap_or_default();
                let key = fields.iter().find(|f| f["name"] == "key");
                let value = fields.iter().find(|f| f["name"] == "value");
                let Some(key) = key else {
                    return Err(format!("{}: repeated column is not a map", path));
                };
                if key["type"] != "STRING" {
                    return Err(format!("{}: map key is not a string", path));
                }
                let Some(value) = value else {
                    return Err(format!("{}: map has no value column", path));
                };
                for (k, x) in m {
                    bq_col(value, Some(x), nc, &format!("{}.{}", path, k))?;
                }
                Ok(())
            }
            other => Err(format!("{}: REPEATED column does not take {}", path, other)),
        },
        "REQUIRED" | "NULLABLE" => bq_value(col, v.unwrap(), nc, path),
        m => Err(format!("{}: unknown mode {}", path, m)),
    }
}
fn bq_record(fields: &[Value], m: &Map<String, Value>, nc: bool, path: &str) -> R {
    for f in fields {
        let n = f["name"].as_str().unwrap_or("?");
        bq_col(f, m.get(n), nc, &format!("{}.{}", path, n))?;
    }
    Ok(())
}

fn avro_value(t: &Value, v: Option<&Value>, nc: bool, path: &str) -> R {
    let bad = |why: &str| Err(format!("{}: {} does not take {:?}: {}", path, t, v, why));
    match t {
        Value::Array(branches) => {
            let mut last = String::new();
            for b in branches {
                match avro_value(b, v, nc, path) {
                    Ok(()) => return Ok(()),
                    Err(e) => last = e,
                }
            }
            Err(last)
        }
        Value::Object(m) => {
            let Some(v) = v else {
                return bad("missing");
            };
            match m.get("type").and_then(|x| x.as_str()).unwrap_or("") {
                "null" if v.is_null() => Ok(()),
                "boolean" if v.is_boolean() => Ok(()),
                "long" if v.is_i64() || v.is_u64() => Ok(()),
                "double" if v.is_number() => Ok(()),
                "bytes" if v.is_string() => Ok(()),
                "string" if !v.is_null() => Ok(()),
                "array" => match v {
                    Value::Array(items) => items.iter().try_for_each(|x| {
                        avro_value(&m["items"], Some(x), nc, &format!("{}[]", path))
                    }),
                    _ => bad("not a list"),
                },
                "map" => match v {
                    Value::Object(es) => es.iter().try_for_each(|(k, x)| {
                        avro_value(&m["values"], Some(x), nc, &format!("{}.{}", path, k))
                    }),
                    _ => bad("not a map"),
                },
                "record" => {
                    let fields = m.get("fields").and_then(|f| f.as_array()).cloned().unwrap_or_default();
                    let vals: Map<String, Value> = match v {
                        Value::Object(o) => norm_keys(o, nc),
                        Value::Array(items) => {
                            if fields.len() == 1 && fields[0]["name"] == "list" {
                                obj1("list", v.clone())
                            } else {
                                let mut m = Map::new();
                                for (i, x) in items.iter().enumerate() {
                                    let n = format!("f{}_", i);
                                    if !fields.iter().any(|f| f["name"] == n.as_str()) {
                                        return bad("tuple member without a field");
                                    }
                                    m.insert(n, x.clone());
                                }
                                m
                            }
                        }
                        // a null inside of a nested list
                        Value::Null if fields.len() == 1 && fields[0]["name"] == "list" => {
                            obj1("list", Value::Null)
                        }
                        _ => return bad("not a record"),
                    };
                    for f in &fields {
                        let n = f["name"].as_str().unwrap_or("?");
                        let p = format!("{}.{}", path, n);
                        match vals.get(n) {
                            Some(x) => avro_value(&f["type"], Some(x), nc, &p)?,
                            None => {
                                if f.get("default") != Some(&Value::Null) {
                                    return Err(format!("{}: a valid document has no value there and the field has no null default", p));
                                }
                                avro_value(&f["type"], Some(&Value::Null), nc, &p)?
                            }
                        }
                    }
                    Ok(())
                }
                _ => bad("type mismatch"),
            }
        }
        _ => bad("malformed type"),
    }
}

/// Every document the schema admits is taken by the generated schemas.
pub fn c02(s: &Value, c: &Context, doc: &Value) -> R {
    let nc = c.normalize_case;
    if merged_collides(s, nc) {
        return Ok(());
    }
    if let Some(b) = bq(s, c) {
        let cols = b.as_array().cloned().ok_or("bigquery output is not a list")?;
        let single = cols.len() == 1 && cols[0]["name"] == "root";
        let as_root = |doc: &Value| bq_col(&cols[0], Some(doc), nc, "root");
        let as_rec = |doc: &Value| -> R {
            match doc {
                Value::Object(m) => bq_record(&cols, &norm_keys(m, nc), nc, ""),
                Value::Array(items) => {
                    let m = items.iter().enumerate().map(|(i, x)| (format!("f{}_", i), x.clone())).collect();
                    bq_record(&cols, &m, nc, "")
                }
                Value::Null => Ok(()),
                _ => Err(format!("table of columns does not take {}", doc)),
            }
        };
        if single {
            // one column called root is either the wrapped value or a field
            if let (Err(a), Err(_)) = (as_root(doc), as_rec(doc)) {
                return Err(format!("bigquery: {}", a));
            }
        } else {
            as_rec(doc).map_err(|e| format!("bigquery: {}", e))?;
        }
    }
    if let Some(a) = avro(s, c) {
        avro_value(&a, Some(doc), nc, "").map_err(|e| format!("avro: {}", e))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C03
// A direct translator for schemas with a single exact reading.

fn split_null(s: &Value) -> (Value, bool) {
    if let Some(Value::Array(ts)) = s.get("type") {
        let rest: Vec<&Value> = ts.iter().filter(|t| *t != "null").collect();
        if rest.len() == 1 {
            let mut s2 = s.clone();
            s2["type"] = rest[0].clone();
            return (s2, true);
        }
    }
    (s.clone(), false)
}

fn descr(s: &Value) -> Option<String> {
    let t = s.get("title").and_then(|v| v.as_str());
    let d = s.get("description").and_then(|v| v.as_str());
    let full = match (t, d) {
        (Some(t), Some(d)) => format!("{} - {}", t, d),
        (Some(t), None) => t.to_string(),
        (None, Some(d)) => d.to_string(),
        _ => return None,
    };
    Some(full.chars().take(1024).collect())
}

struct Exact {
    ty: Ex,
    nullable: bool,
    desc: Option<String>,
}
enum Ex {
    Atom(&'static str, &'static str),
    Rec(Vec<(String, Exact)>),
    Tup(Vec<Exact>),
    Arr(Box<Exact>),
    Map(Box<Exact>),
}

fn exact(s: &Value, c: &Context, forced: bool) -> Option<Exact> {
    let (s, opt) = split_null(s);
    let t = s.get("type")?.as_str()?;
    let ty = match (t, s.get("format").and_then(|f| f.as_str())) {
        ("boolean", _) => Ex::Atom("BOOL", "boolean"),
        ("integer", _) => Ex::Atom("INT64", "long"),
        ("number", _) => Ex::Atom("FLOAT64", "double"),
        ("string", Some("date-time")) => Ex::Atom("TIMESTAMP", "string"),
        ("string", Some("bytes")) => Ex::Atom("BYTES", "bytes"),
        ("string", _) => Ex::Atom("STRING", "string"),
        ("object", _) => {
            if let Some(Value::Object(p)) = s.get("properties") {
                let req: Vec<&str> = s
                    .get("required")
                    .and_then(|v| v.as_array())
                    .map(|v| v.iter().filter_map(|x| x.as_str()).collect())
                    .unwrap_or_default();
                let mut fs = Vec::new();
                for (k, v) in p {
                    let Some(n) = column_name(k, c.normalize_case) else {
                        continue;
                    };
                    let mut e = exact(v, c, forced)?;
                    e.nullable |= !req.contains(&k.as_str());
                    fs.push((n, e));
                }
                if fs.is_empty() {
                    return None;
                }
                fs.sort_by(|a, b| a.0.cmp(&b.0));
                Ex::Rec(fs)
            } else if let Some(v @ Value::Object(_)) = s.get("additionalProperties") {
                if s.get("patternProperties").is_some() {
                    return None;
                }
                Ex::Map(Box::new(exact(v, c, forced)?))
            } else {
                return None;
            }
        }
        ("array", _) => match s.get("items")? {
            Value::Array(items) => {
                if !c.tuple_struct || items.is_empty() {
                    return None;
                }
                let mut es = Vec::new();
                let min = s.get("minItems").and_then(|v| v.as_u64()).unwrap_or(items.len() as u64);
                for (i, it) in items.iter().enumerate() {
                    let mut e = exact(it, c, forced)?;
                    e.nullable |= i as u64 >= min;
                    es.push(e);
                }
                let max = s.get("maxItems").and_then(|v| v.as_u64());
                match s.get("additionalItems") {
                    Some(Value::Bool(false)) => {}
                    None if max == Some(items.len() as u64) => {}
                    Some(v @ Value::Object(_)) if max.unwrap_or(0) >= items.len() as u64 => {
                        for _ in items.len() as u64..max.unwrap() {
                            let mut e = exact(v, c, forced)?;
                            e.nullable = true;
                            es.push(e);
                        }
                    }
                    _ => return None,
                }
                Ex::Tup(es)
            }
            v => {
                Ex::Arr(Box::new(exact(v, c, forced)?))
            }
        },
        _ => return None,
    };
    Some(Exact { ty, nullable: opt || forced, desc: descr(&s) })
}

fn ex_bq(n: Option<&str>, e: &Exact, forced: bool) -> Value {
    let mut m = Map::new();
    if let Some(n) = n {
        m.insert("name".into(), json!(n));
    }
    if let Some(d) = &e.desc {
        m.insert("description".into(), json!(d));
    }
    let mode = if e.nullable { "NULLABLE" } else { "REQUIRED" };
    m.insert("mode".into(), json!(mode));
    match &e.ty {
        Ex::Atom(b, _) => {
            m.insert("type".into(), json!(b));
        }
        Ex::Rec(fs) => {
            m.insert("type".into(), json!("RECORD"));
            let fs: Vec<Value> = fs.iter().map(|(n, e)| ex_bq(Some(n), e, forced)).collect();
            m.insert("fields".into(), json!(fs));
        }
        Ex::Tup(es) => {
            m.insert("type".into(), json!("RECORD"));
            let mut fs: Vec<(String, &Exact)> =
                es.iter().enumerate().map(|(i, e)| (format!("f{}_", i), e)).collect();
            fs.sort_by(|a, b| a.0.cmp(&b.0));
            let fs: Vec<Value> = fs.iter().map(|(n, e)| ex_bq(Some(n), e, forced)).collect();
            m.insert("fields".into(), json!(fs));
        }
        Ex::Arr(it) => {
            m.insert("mode".into(), json!("REPEATED"));
            if let Ex::Arr(_) | Ex::Map(_) = it.ty {
                m.insert("type".into(), json!("RECORD"));
                m.insert("fields".into(), json!([ex_bq(Some("list"), it, forced)]));
            } else {
                let inner = ex_bq(None, it, forced);
                m.insert("type".into(), inner["type"].clone());
                if let Some(f) = inner.get("fields") {
                    m.insert("fields".into(), f.clone());
                }
            }
        }
        Ex::Map(v) => {
            m.insert("mode".into(), json!("REPEATED"));
            m.insert("type".into(), json!("RECORD"));
            let key_mode = if forced { "NULLABLE" } else { "REQUIRED" };
            m.insert(
                "fields".into(),
                json!([{"name": "key", "type": "STRING", "mode": key_mode}, ex_bq(Some("value"), v, forced)]),
            );
        }
    }
    Value::Object(m)
}

fn ex_avro(e: &Exact, name: &str, ns: Option<&str>) -> Value {
    let full = match ns {
        Some(ns) => format!("{}.{}", ns, name),
        None => name.to_string(),
    };
    let rec = |fields: Vec<Value>| {
        let mut m = Map::new();
        m.insert("type".into(), json!("record"));
        m.insert("name".into(), json!(name));
        if let Some(ns) = ns {
            m.insert("namespace".into(), json!(ns));
        }
        m.insert("fields".into(), json!(fields));
        Value::Object(m)
    };
    let field = |n: &str, e: &Exact| {
        let mut m = Map::new();
        m.insert("name".into(), json!(n));
        m.insert("type".into(), ex_avro(e, n, Some(&full)));
        if e.nullable {
            m.insert("default".into(), Value::Null);
        }
        Value::Object(m)
    };
    let t = match &e.ty {
        Ex::Atom(_, a) => json!({ "type": a }),
        Ex::Rec(fs) => rec(fs.iter().map(|(n, e)| field(n, e)).collect()),
        Ex::Tup(es) => {
            rec(es.iter().enumerate().map(|(i, e)| field(&format!("f{}_", i), e)).collect())
        }
        Ex::Arr(it) => {
            let items = if let Ex::Arr(_) = it.ty {
                rec(vec![field("list", it)])
            } else {
                ex_avro(it, "list", Some(&full))
            };
            json!({"type": "array", "items": items})
        }
        Ex::Map(v) => json!({"type": "map", "values": ex_avro(v, "value", Some(&full))}),
    };
    if e.nullable {
        json!([{"type": "null"}, t])
    } else {
        t
    }
}

fn strip_desc(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(
            m.iter()
                .filter(|(k, v)| !(*k == "description" && v.is_string()))
                .map(|(k, v)| (k.clone(), strip_desc(v)))
                .collect(),
        ),
        Value::Array(a) => Value::Array(a.iter().map(strip_desc).collect()),
        _ => v.clone(),
    }
}

fn exact_bq_root(e: &Exact, forced: bool) -> Value {
    match &e.ty {
        Ex::Rec(_) | Ex::Tup(_) => ex_bq(None, e, forced)["fields"].clone(),
        _ => json!([ex_bq(Some("root"), e, forced)]),
    }
}

pub fn c03(s: &Value, c: &Context) -> R {
    if collides(s, c.normalize_case) {
        return Ok(());
    }
    let Some(e) = exact(s, c, c.force_nullable) else {
        return Ok(());
    };
    let want = strip_desc(&exact_bq_root(&e, c.force_nullable));
    match bq(s, c) {
        Some(got) if strip_desc(&got) == want => {}
        got => return Err(format!("bigquery: expected {} got {:?}", want, got.map(|g| g.to_string()))),
    }
    let want = ex_avro(&e, "root", None);
    match avro(s, c) {
        Some(got) if got == want => {}
        got => return Err(format!("avro: expected {} got {:?}", want, got.map(|g| g.to_string()))),
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

const BQ_TYPES: &[&str] = &["BOOL", "INT64", "FLOAT64", "STRING", "BYTES", "TIMESTAMP", "JSON"];

fn bq_valid_cols(cols: &Value, path: &str) -> R {
    let Some(cols) = cols.as_array() else {
        return Err(format!("{}: columns are not a list", path));
    };
    let mut seen = BTreeSet::new();
    for c in cols {
        let n = c["name"].as_str().ok_or(format!("{}: column without a name: {}", path, c))?;
        if !valid_ident(n) {
            return Err(format!("{}: invalid column name {:?}", path, n));
        }
        if !seen.insert(n) {
            return Err(format!("{}: duplicate column {:?}", path, n));
        }
        let p = format!("{}.{}", path, n);
        let m = c.as_object().unwrap();
        for k in m.keys() {
            if !["name", "type", "mode", "description", "fields"].contains(&k.as_str()) {
                return Err(format!("{}: unexpected attribute {:?}", p, k));
            }
        }
        let mode = c["mode"].as_str().unwrap_or("");
        if !["NULLABLE", "REQUIRED", "REPEATED"].contains(&mode) {
            return Err(format!("{}: invalid mode {:?}", p, c["mode"]));
        }
        let ty = c["type"].as_str().unwrap_or("");
        if ty == "RECORD" {
            let f = &c["fields"];
            bq_valid_cols(f, &p)?;
            if f.as_array().map(|a| a.is_empty()).unwrap_or(true) {
                return Err(format!("{}: RECORD without columns", p));
            }
        } else if !BQ_TYPES.contains(&ty) {
            return Err(format!("{}: invalid type {:?}", p, c["type"]));
        } else if m.contains_key("fields") {
            return Err(format!("{}: {} with columns", p, ty));
        }
        if let Some(d) = m.get("description") {
            match d.as_str() {
                Some(d) if d.chars().count() <= 1024 => {}
                _ => return Err(format!("{}: invalid description", p)),
            }
        }
    }
    Ok(())
}

pub fn c04(s: &Value, c: &Context) -> R {
    if let Some(b) = bq(s, c) {
        if b.as_array().map(|a| a.is_empty()).unwrap_or(true) {
            return Err(format!("bigquery schema without columns: {}", b));
        }
        bq_valid_cols(&b, "")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

fn avro_valid(t: &Value, in_union: bool, names: &mut BTreeSet<String>, path: &str) -> R {
    match t {
        Value::Array(bs) => {
            if in_union {
                return Err(format!("{}: union directly within a union", path));
            }
            if bs.len() != 2 || bs[0] != json!({"type": "null"}) || bs[1] == json!({"type": "null"}) {
                return Err(format!("{}: union is not [null, type]: {}", path, t));
            }
            avro_valid(&bs[1], true, names, path)
        }
        Value::Object(m) => {
            let keys = |allowed: &[&str]| -> R {
                match m.keys().find(|k| !allowed.contains(&k.as_str())) {
                    Some(k) => Err(format!("{}: unexpected attribute {:?} in {}", path, k, t)),
                    None => Ok(()),
                }
            };
            match m.get("type").and_then(|v| v.as_str()).unwrap_or("") {
                "null" | "boolean" | "long" | "double" | "bytes" | "string" => keys(&["type"]),
                "array" => {
                    keys(&["type", "items"])?;
                    avro_valid(m.get("items").unwrap_or(&Value::Null), false, names, &format!("{}[]", path))
                }
                "map" => {
                    keys(&["type", "values"])?;
                    avro_valid(m.get("values").unwrap_or(&Value::Null), false, names, &format!("{}{{}}", path))
                }
                "record" => {
                    keys(&["type", "name", "namespace", "fields"])?;
                    let n = m.get("name").and_then(|v| v.as_str()).unwrap_or("");
                    if !valid_ident(n) {
                        return Err(format!("{}: invalid record name {:?}", path, n));
                    }
                    let full = match m.get("namespace") {
                        None => n.to_string(),
                        Some(Value::String(ns)) => {
                            if !ns.split('.').all(valid_ident) {
                                return Err(format!("{}: invalid namespace {:?}", path, ns));
                            }
                            format!("{}.{}", ns, n)
                        }
                        Some(x) => return Err(format!("{}: invalid namespace {}", path, x)),
                    };
                    if !names.insert(full.clone()) {
                        return Err(format!("{}: record {:?} is defined twice", path, full));
                    }
                    let fs = m.get("fields").and_then(|f| f.as_array());
                    let Some(fs) = fs else {
                        return Err(format!("{}: record without fields", path));
                    };
                    if fs.is_empty() {
                        return Err(format!("{}: record with no fields", path));
                    }
                    let mut seen = BTreeSet::new();
                    for f in fs {
                        let n = f["name"].as_str().unwrap_or("");
                        if !valid_ident(n) {
                            return Err(format!("{}: invalid field name {:?}", path, f["name"]));
                        }
                        if !seen.insert(n) {
                            return Err(format!("{}: duplicate field {:?}", path, n));
                        }
                        let p = format!("{}.{}", path, n);
                        if let Some(k) = f.as_object().and_then(|m| {
                            m.keys().find(|k| !["name", "type", "default"].contains(&k.as_str()))
                        }) {
                            return Err(format!("{}: unexpected attribute {:?}", p, k));
                        }
                        let nullable = f["type"].is_array() || f["type"] == json!({"type": "null"});
                        match f.get("default") {
                            Some(Value::Null) if nullable => {}
                            None if !nullable => {}
                            d => return Err(format!("{}: default {:?} does not match type {}", p, d, f["type"])),
                        }
                        avro_valid(&f["type"], false, names, &p)?;
                    }
                    Ok(())
                }
                x => Err(format!("{}: invalid type {:?}", path, x)),
            }
        }
        _ => Err(format!("{}: malformed type {}", path, t)),
    }
}

pub fn c05(s: &Value, c: &Context) -> R {
    match avro(s, c) {
        Some(a) => avro_valid(&a, false, &mut BTreeSet::new(), ""),
        None => Ok(()),
    }
}

// ---------------------------------------------------------------- C06

fn bq_sub(d: &Value, c: &Value, path: &str) -> R {
    for k in ["type", "mode", "description"] {
        if d.get(k) != c.get(k) {
            return Err(format!("{}: {} is {:?} under drop, {:?} under cast", path, k, d.get(k), c.get(k)));
        }
    }
    match (d.get("fields"), c.get("fields")) {
        (Some(df), Some(cf)) => bq_sub_cols(df, cf, path),
        (None, None) => Ok(()),
        _ => Err(format!("{}: columns on one side only", path)),
    }
}
fn bq_sub_cols(d: &Value, c: &Value, path: &str) -> R {
    let empty = vec![];
    let ds = d.as_array().unwrap_or(&empty);
    let cs = c.as_array().unwrap_or(&empty);
    for f in ds {
        match cs.iter().find(|g| g["name"] == f["name"]) {
            Some(g) => bq_sub(f, g, &format!("{}.{}", path, f["name"]))?,
            None => return Err(format!("{}: column {} exists under drop only", path, f["name"])),
        }
    }
    Ok(())
}
fn avro_sub(d: &Value, c: &Value, path: &str) -> R {
    match (d, c) {
        (Value::Array(a), Value::Array(b)) if a.len() == b.len() => {
            a.iter().zip(b).try_for_each(|(x, y)| avro_sub(x, y, path))
        }
        (Value::Object(a), Value::Object(b)) => {
            for k in ["type", "name", "namespace"] {
                if a.get(k) != b.get(k) {
                    return Err(format!("{}: {} is {:?} under drop, {:?} under cast", path, k, a.get(k), b.get(k)));
                }
            }
            for k in ["items", "values"] {
                if let (Some(x), Some(y)) = (a.get(k), b.get(k)) {
                    avro_sub(x, y, &format!("{}/{}", path, k))?;
                }
            }
            if let (Some(Value::Array(x)), Some(Value::Array(y))) = (a.get("fields"), b.get("fields")) {
                for f in x {
                    match y.iter().find(|g| g["name"] == f["name"]) {
                        Some(g) if g.get("default") == f.get("default") => {
                            avro_sub(&f["type"], &g["type"], &format!("{}.{}", path, f["name"]))?
                        }
                        Some(_) => return Err(format!("{}: default of {} differs", path, f["name"])),
                        None => return Err(format!("{}: field {} exists under drop only", path, f["name"])),
                    }
                }
            }
            Ok(())
        }
        _ => Err(format!("{}: {} under drop, {} under cast", path, d, c)),
    }
}

pub fn c06(s: &Value, c: &Context) -> R {
    let cast = with(c, |c| c.resolve_method = ResolveMethod::Cast);
    let drop = with(c, |c| c.resolve_method = ResolveMethod::Drop);
    let panic = with(c, |c| c.resolve_method = ResolveMethod::Panic);
    for (what, f) in [("avro", avro as fn(&Value, &Context) -> Option<Value>), ("bigquery", bq)] {
        let (vc, vd, vp) = (f(s, &cast), f(s, &drop), f(s, &panic));
        if let Some(p) = &vp {
            // nothing to resolve: all strategies agree
            for (n, v) in [("cast", &vc), ("drop", &vd)] {
                if v.as_ref() != Some(p) {
                    return Err(format!("{}: panic yields {} but {} yields {:?}", what, p, n, v.as_ref().map(|v| v.to_string())));
                }
            }
        } else if let (Some(vc), Some(vd)) = (&vc, &vd) {
            // something was resolved: dropping it must show
            let tuples_or_maps = false;
            if vc == vd && !tuples_or_maps {
                return Err(format!("{}: panic refuses the schema, yet drop and cast agree on {}", what, vc));
            }
        }
        if let Some(vd) = &vd {
            let Some(vc) = &vc else {
                return Err(format!("{}: drop yields a schema, cast fails", what));
            };
            if what == "avro" {
                avro_sub(vd, vc, "")?;
            } else {
                bq_sub_cols(vd, vc, "")?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

fn agree(t: &Value, col: &Value, path: &str) -> R {
    let mode = col["mode"].as_str().unwrap_or("");
    let (nullable, inner) = match t {
        Value::Array(bs) => (true, bs.last().cloned().unwrap_or(Value::Null)),
        x => (x == &json!({"type": "null"}), x.clone()),
    };
    let t = inner["type"].as_str().unwrap_or("");
    match mode {
        "REPEATED" => {
            if t != "array" && t != "map" {
                return Err(format!("{}: REPEATED in bigquery, {} in avro", path, t));
            }
        }
        "NULLABLE" if !nullable => return Err(format!("{}: NULLABLE in bigquery, required in avro", path)),
        "REQUIRED" if nullable => return Err(format!("{}: REQUIRED in bigquery, nullable in avro", path)),
        _ => {
            if t == "array" || t == "map" {
                return Err(format!("{}: {} in bigquery, {} in avro", path, mode, t));
            }
        }
    }
    agree_type(&inner, col, path)
}
fn agree_type(t: &Value, col: &Value, path: &str) -> R {
    let ty = col["type"].as_str().unwrap_or("");
    let name = t["type"].as_str().unwrap_or("");
    let ok = match name {
        "null" => ty == "STRING",
        "boolean" => ty == "BOOL",
        "long" => ty == "INT64",
        "double" => ty == "FLOAT64",
        "bytes" => ty == "BYTES",
        "string" => ["STRING", "TIMESTAMP", "JSON"].contains(&ty),
        "record" => {
            if ty != "RECORD" {
                return Err(format!("{}: record in avro, {} in bigquery", path, ty));
            }
            return agree_fields(&t["fields"], &col["fields"], path);
        }
        "array" => {
            if col["mode"] != "REPEATED" {
                return Err(format!("{}: array in avro, not REPEATED in bigquery", path));
            }
            let it = match &t["items"] {
                Value::Array(bs) => bs.last().cloned().unwrap_or(Value::Null),
                x => x.clone(),
            };
            if it["type"] == "map" {
                let fs = col["fields"].as_array().cloned().unwrap_or_default();
                return match fs.first() {
                    Some(l) if fs.len() == 1 && l["name"] == "list" && l["mode"] == "REPEATED" => {
                        agree_type(&it, l, &format!("{}[]", path))
                    }
                    _ => Err(format!("{}: list of maps in avro, columns {:?} in bigquery", path, fs)),
                };
            }
            if it["type"] == "array" {
                return Err(format!("{}: list of {} in avro cannot be told apart in bigquery", path, it["type"]));
            }
            return agree_type(&it, col, &format!("{}[]", path));
        }
        "map" => {
            if col["mode"] != "REPEATED" || ty != "RECORD" {
                return Err(format!("{}: map in avro, not a repeated record in bigquery", path));
            }
            let fs = col["fields"].as_array().cloned().unwrap_or_default();
            let k = fs.iter().find(|f| f["name"] == "key");
            let v = fs.iter().find(|f| f["name"] == "value");
            return match (k, v, fs.len()) {
                (Some(k), Some(v), 2) if k["type"] == "STRING" => {
                    agree(&t["values"], v, &format!("{}.value", path))
                }
                _ => Err(format!("{}: map in avro, columns {:?} in bigquery", path, fs)),
            };
        }
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("{}: {} in avro, {} in bigquery", path, name, ty))
    }
}
fn agree_fields(fs: &Value, cols: &Value, path: &str) -> R {
    let empty = vec![];
    let fs = fs.as_array().unwrap_or(&empty);
    let cs = cols.as_array().unwrap_or(&empty);
    let a: BTreeSet<&str> = fs.iter().filter_map(|f| f["name"].as_str()).collect();
    let b: BTreeSet<&str> = cs.iter().filter_map(|f| f["name"].as_str()).collect();
    if a != b {
        return Err(format!("{}: avro fields {:?}, bigquery columns {:?}", path, a, b));
    }
    for f in fs {
        let c = cs.iter().find(|c| c["name"] == f["name"]).unwrap();
        agree(&f["type"], c, &format!("{}.{}", path, f["name"].as_str().unwrap_or("?")))?;
    }
    Ok(())
}

pub fn c07(s: &Value, c: &Context) -> R {
    if !matches!(c.resolve_method, ResolveMethod::Cast) {
        return Ok(());
    }
    let (a, b) = (avro(s, c), bq(s, c));
    let (a, b) = match (a, b) {
        (Some(a), Some(b)) => (a, b),
        (None, None) => return Ok(()),
        (a, b) => {
            return Err(format!("only one of the outputs exists: avro {} bigquery {}", a.is_some(), b.is_some()))
        }
    };
    let cols = b.as_array().ok_or("bigquery output is not a list")?;
    let inner = match &a {
        Value::Array(bs) => bs.last().cloned().unwrap_or(Value::Null),
        x => x.clone(),
    };
    if inner["type"] == "record" {
        agree_fields(&inner["fields"], &b, "")
    } else if cols.len() == 1 && cols[0]["name"] == "root" {
        agree(&a, &cols[0], "root")
    } else {
        Err(format!("avro root is {}, bigquery {}", inner["type"], b))
    }
}

// ---------------------------------------------------------------- C08

/// Descriptions, for the columns whose schema location is evident.
pub fn c08(s: &Value, c: &Context) -> R {
    if let Some(b) = bq(s, c) {
        let cols = b.as_array().ok_or("bigquery output is not a list")?;
        if cols.len() == 1 && cols[0]["name"] == "root" && s.get("properties").is_none() {
            // an alternative may have a single property called root too
            if s.get("oneOf").is_some() {
                return Ok(());
            }
            desc_col(s, &cols[0], c, "root")?;
        } else {
            desc_fields(s, &b, c, "")?;
        }
    }
    Ok(())
}
/// the only type of a schema beside null
fn single_type(s: &Value) -> Option<&str> {
    match &s["type"] {
        Value::Null => Some("object"),
        Value::String(t) => Some(t),
        Value::Array(ts) => {
            let rest: Vec<&str> = ts.iter().filter_map(|t| t.as_str()).filter(|t| *t != "null").collect();
            if rest.len() == 1 && ts.len() <= 2 { Some(rest[0]) } else { None }
        }
        _ => None,
    }
}
fn desc_fields(s: &Value, cols: &Value, c: &Context, path: &str) -> R {
    if collides(s, c.normalize_case) {
        return Ok(());
    }
    if single_type(s) != Some("object") {
        return Ok(());
    }
    if let Some(Value::Object(p)) = s.get("properties") {
        for (k, v) in p {
            let Some(n) = column_name(k, c.normalize_case) else { continue };
            if let Some(col) = cols.as_array().and_then(|cs| cs.iter().find(|c| c["name"] == n.as_str())) {
                desc_col(v, col, c, &format!("{}.{}", path, n))?;
            }
        }
    }
    Ok(())
}
fn desc_col(s: &Value, col: &Value, c: &Context, path: &str) -> R {
    let want = descr(s);
    let got = col.get("description").and_then(|v| v.as_str()).map(|v| v.to_string());
    if want != got {
        return Err(format!("{}: description {:?}, expected {:?}", path, got, want));
    }
    let Some(t) = single_type(s) else { return Ok(()) };
    if t == "array" {
        if let Some(it @ Value::Object(_)) = s.get("items") {
            if single_type(it) == Some("array") {
                if let Some(l) = col["fields"].as_array().and_then(|f| f.first()) {
                    if l["name"] == "list" {
                        desc_col(it, l, c, &format!("{}.list", path))?;
                    }
                }
            } else if it.get("properties").is_some() {
                desc_fields(it, &col["fields"], c, &format!("{}[]", path))?;
            }
        }
        // the members of a tuple
        if let (Some(Value::Array(items)), true, Some(fs)) = (s.get("items"), c.tuple_struct, col["fields"].as_array()) {
            for f in fs {
                let i = f["name"].as_str().and_then(|n| n.strip_prefix('f')?.strip_suffix('_')?.parse::<usize>().ok());
                let member = i.and_then(|i| items.get(i).or(s.get("additionalItems").filter(|a| a.is_object())));
                if let (Some(i), Some(m)) = (i, member) {
                    desc_col(m, f, c, &format!("{}.f{}_", path, i))?;
                }
            }
        }
        return Ok(());
    }
    if t != "object" {
        return Ok(());
    }
    if s.get("properties").is_some() {
        desc_fields(s, &col["fields"], c, path)?;
    } else if let (Some(v @ Value::Object(_)), None) = (s.get("additionalProperties"), s.get("patternProperties")) {
        if let Some(vc) = col["fields"].as_array().and_then(|f| f.iter().find(|f| f["name"] == "value")) {
            desc_col(v, vc, c, &format!("{}.value", path))?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C09

fn json_cols(cols: &Value, base: &str, json: &mut Vec<String>, strings: &mut Vec<(String, Value)>) {
    for c in cols.as_array().unwrap_or(&vec![]) {
        let n = c["name"].as_str().unwrap_or("");
        let p = if base.is_empty() { n.to_string() } else { format!("{}.{}", base, n) };
        if c["type"] == "JSON" {
            json.push(p.clone());
        } else {
            let mut flat = c.clone();
            if let Some(m) = flat.as_object_mut() {
                m.remove("fields");
            }
            strings.push((p.clone(), flat));
        }
        if c["type"] == "RECORD" {
            json_cols(&c["fields"], &p, json, strings);
        }
    }
}

/// The path a column has inside the converter: an element of a list counts as
/// a level of its own, called list.
fn list_paths(p: &str) -> String {
    p.to_string()
}

pub fn c09(s: &Value, c: &Context) -> R {
    // effective pattern: the schema's metadata wins over the option
    let meta = s
        .get("mozPipelineMetadata")
        .and_then(|m| m.get("json_object_path_regex"))
        .and_then(|v| v.as_str())
        .map(|x| x.to_string());
    let pat = meta.or_else(|| c.json_object_path_regex.clone());
    let mut bare = s.clone();
    if let Some(m) = bare.as_object_mut() {
        m.remove("mozPipelineMetadata");
    }
    let none = with(c, |c| c.json_object_path_regex = None);
    let eff = with(c, |c| c.json_object_path_regex = pat.clone());
    let (with_pat, without) = (bq(s, c), bq(&bare, &none));
    if with_pat != bq(&bare, &eff) {
        return Err("pattern from the schema metadata and from the options differ in effect".into());
    }
    if avro(s, c) != avro(&bare, &none) {
        return Err("avro output depends on the json object path".into());
    }
    let Some(pat) = pat else {
        if let Some(b) = &with_pat {
            if b.to_string().contains("\"type\":\"JSON\"") {
                return Err("JSON column without a json object path".into());
            }
        }
        return Ok(());
    };
    if !matches!(c.resolve_method, ResolveMethod::Cast) {
        // under the other strategies a matching column is kept as JSON
        let cast = with(c, |c| c.resolve_method = ResolveMethod::Cast);
        if let (Some(b), Some(bc)) = (&with_pat, bq(s, &cast)) {
            let (mut j, mut o) = (vec![], vec![]);
            json_cols(b, "", &mut j, &mut o);
            let (mut j2, mut o2) = (vec![], vec![]);
            json_cols(&bc, "", &mut j2, &mut o2);
            if let Some(p) = j.iter().find(|p| !j2.contains(p)) {
                return Err(format!("{} is JSON only when not casting", p));
            }
        }
        return Ok(());
    }
    let (Some(b), Some(b0)) = (with_pat, without) else {
        return Ok(());
    };
    let re = regex::Regex::new(&format!(r"\A(?:{})", pat)).map_err(|e| e.to_string())?;
    let (mut j, mut rest) = (vec![], vec![]);
    json_cols(&b, "", &mut j, &mut rest);
    let (mut j0, mut rest0) = (vec![], vec![]);
    json_cols(&b0, "", &mut j0, &mut rest0);
    if !j0.is_empty() {
        return Err("JSON column without a json object path".into());
    }
    for p in &j {
        let Some((_, c0)) = rest0.iter().find(|(q, _)| q == p) else {
            return Err(format!("{}: JSON column that does not exist without the pattern", p));
        };
        if c0["type"] != "STRING" {
            return Err(format!("{}: JSON replaces a {} column", p, c0["type"]));
        }
        // a list element is matched as <path>.list, however deep, and a bare
        // root has no name of its own
        let mut cands = vec![list_paths(p)];
        if c0["mode"] == "REPEATED" {
            cands.push(format!("{}.list", p));
            cands.push("list".into());
        }
        if p == "root" {
            cands.push("__unknown__".into());
        }
        let through_list = rest0.iter().any(|(q, cq)| cq["mode"] == "REPEATED" && p.starts_with(&format!("{}.", q)));
        if !through_list && !p.starts_with("root") && !cands.iter().any(|q| re.is_match(q)) {
            return Err(format!("{}: JSON column whose path does not match {:?}", p, pat));
        }
    }
    // and nothing else changes
    for (p, c0) in &rest0 {
        if j.contains(p) {
            continue;
        }
        match rest.iter().find(|(q, _)| q == p) {
            Some((_, c1)) if c1 == c0 => {}
            x => return Err(format!("{}: {} becomes {:?} with a json object path", p, c0, x)),
        }
    }
    // ambiguous locations that do match
    for (p, v) in untyped(s, "", c) {
        if re.is_match(&p) && !j.contains(&p) {
            return Err(format!("{}: {} matches {:?} but is not JSON", p, v, pat));
        }
    }
    Ok(())
}

/// Columns reached through properties only whose schema says nothing.
fn untyped(s: &Value, base: &str, c: &Context) -> Vec<(String, String)> {
    let mut out = Vec::new();
    if collides(s, c.normalize_case) || !(s["type"].is_null() || s["type"] == "object") {
        return out;
    }
    if let Some(Value::Object(p)) = s.get("properties") {
        for (k, v) in p {
            let Some(n) = column_name(k, c.normalize_case) else { continue };
            let path = if base.is_empty() { n } else { format!("{}.{}", base, n) };
            let quiet = v.as_object().map(|m| m.keys().all(|k| k == "type" || k == "title" || k == "description")).unwrap_or(false);
            if quiet && (v["type"].is_null() || v["type"] == "object") {
                out.push((path, v.to_string()));
            } else {
                out.extend(untyped(v, &path, c));
            }
        }
    }
    out
}

// ---------------------------------------------------------------- C10

/// Can the schema be translated at all? `None` when it can, else the reason.
pub fn unsupported(s: &Value, c: &Context) -> Option<String> {
    let Some(m) = s.as_object() else {
        return Some("schema is not an object".into());
    };
    for k in ["description", "title"] {
        if m.get(k).map(|v| !v.is_string() && !v.is_null()).unwrap_or(false) {
            return Some("malformed annotation".into());
        }
    }
    let types: Vec<String> = match m.get("type") {
        Some(Value::String(t)) => vec![t.clone()],
        Some(Value::Array(ts)) => ts.iter().map(|t| t.as_str().unwrap_or("?").to_string()).collect(),
        _ => vec!["object".into()],
    };
    if types.is_empty() {
        return Some("empty list of types".into());
    }
    for t in types {
        match t.as_str() {
            "null" | "boolean" | "integer" | "number" | "string" => {}
            "array" => match m.get("items") {
                None => return Some("array without items".into()),
                Some(Value::Array(items)) => {
                    if !c.tuple_struct {
                        continue;
                    }
                    if let Some(e) = items.iter().find_map(|i| unsupported(i, c)) {
                        return Some(e);
                    }
                    let max = m.get("maxItems").and_then(|v| v.as_u64()).unwrap_or(0);
                    match m.get("additionalItems") {
                        Some(v @ Value::Object(_)) => {
                            if max < items.len() as u64 {
                                return Some("tuple without a maximum".into());
                            }
                            if max > items.len() as u64 {
                                if let Some(e) = unsupported(v, c) {
                                    return Some(e);
                                }
                            }
                        }
                        Some(Value::Bool(false)) => {}
                        None if max == items.len() as u64 => {}
                        _ => return Some("tuple without a maximum".into()),
                    }
                }
                Some(v) => {
                    if let Some(e) = unsupported(v, c) {
                        return Some(e);
                    }
                }
            },
            "object" => {
                if let Some(Value::Object(p)) = m.get("properties") {
                    if let Some(e) = p.values().find_map(|v| unsupported(v, c)) {
                        return Some(e);
                    }
                    continue;
                }
                let pats: Vec<&Value> = m
                    .get("patternProperties")
                    .and_then(|v| v.as_object())
                    .map(|p| p.values().collect())
                    .unwrap_or_default();
                let add = m.get("additionalProperties").filter(|v| v.is_object());
                if add.is_some() || !pats.is_empty() {
                    if let Some(e) = pats.into_iter().chain(add).find_map(|v| unsupported(v, c)) {
                        return Some(e);
                    }
                } else if let Some(Value::Array(vs)) = m.get("oneOf") {
                    if vs.is_empty() {
                        return Some("oneOf without alternatives".into());
                    }
                    if let Some(e) = vs.iter().find_map(|v| unsupported(v, c)) {
                        return Some(e);
                    }
                }
            }
            _ => return Some(format!("unknown type {}", t)),
        }
    }
    None
}

pub fn c10(s: &Value, c: &Context) -> R {
    let cast = with(c, |c| c.resolve_method = ResolveMethod::Cast);
    match unsupported(s, &cast) {
        None => {
            if avro(s, &cast).is_none() {
                return Err("avro conversion aborts on a supported schema".into());
            }
            if bq(s, &cast).is_none() {
                return Err("bigquery conversion aborts on a supported schema".into());
            }
        }
        Some(_) => {}
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

fn force_bq(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(
            m.iter()
                .map(|(k, v)| {
                    if k == "mode" && v == "REQUIRED" {
                        (k.clone(), json!("NULLABLE"))
                    } else {
                        (k.clone(), force_bq(v))
                    }
                })
                .collect(),
        ),
        Value::Array(a) => Value::Array(a.iter().map(force_bq).collect()),
        _ => v.clone(),
    }
}
fn force_avro(t: &Value) -> Value {
    let (inner, null) = match t {
        Value::Array(bs) => (bs.last().cloned().unwrap_or(Value::Null), false),
        x => (x.clone(), x == &json!({"type": "null"})),
    };
    let mut inner = inner;
    if let Some(m) = inner.as_object_mut() {
        for k in ["items", "values"] {
            if let Some(v) = m.get(k) {
                let v = match k {
                    // the record around a nested list is not a column itself
                    "items" if is_list_wrapper(v) => {
                        let f = force_avro(v);
                        f.as_array().and_then(|a| a.last().cloned()).unwrap_or(f)
                    }
                    _ => force_avro(v),
                };
                m.insert(k.into(), v);
            }
        }
        if let Some(Value::Array(fs)) = m.get_mut("fields") {
            for f in fs {
                f["type"] = force_avro(&f["type"]);
                f["default"] = Value::Null;
            }
        }
    }
    if null {
        inner
    } else {
        json!([{"type": "null"}, inner])
    }
}
fn is_list_wrapper(v: &Value) -> bool {
    let fs = v.get("fields").and_then(|f| f.as_array());
    match fs {
        Some(fs) if fs.len() == 1 && fs[0]["name"] == "list" => {
            let t = match &fs[0]["type"] {
                Value::Array(bs) => bs.last().cloned().unwrap_or(Value::Null),
                x => x.clone(),
            };
            // a record made for an object element is called list, the wrapper
            // carries the name of the outer array
            t["type"] == "array"
        }
        _ => false,
    }
}
fn same_modulo_wrapper(a: &Value, b: &Value) -> bool {
    if a == b {
        return true;
    }
    match (a, b) {
        (Value::Array(x), Value::Array(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_modulo_wrapper(p, q))
        }
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len()
                && x.iter().all(|(k, p)| match y.get(k) {
                    Some(q) => {
                        same_modulo_wrapper(p, q)
                            || (k == "items" && {
                                // an object element with a single list field
                                let strip = |v: &Value| match v {
                                    Value::Array(bs) if bs.len() == 2 => bs[1].clone(),
                                    x => x.clone(),
                                };
                                is_list_wrapper(&strip(p))
                                    && same_modulo_wrapper(&strip(p), &strip(q))
                            })
                    }
                    None => false,
                })
        }
        _ => false,
    }
}

pub fn c11(s: &Value, c: &Context) -> R {
    let off = with(c, |c| c.force_nullable = false);
    let on = with(c, |c| c.force_nullable = true);
    match (bq(s, &off), bq(s, &on)) {
        (Some(a), Some(b)) => {
            if force_bq(&a) != b {
                return Err(format!("bigquery: forced {} from {}", b, a));
            }
        }
        (None, None) => {}
        _ => return Err("bigquery: forcing nullability decides whether conversion succeeds".into()),
    }
    match (avro(s, &off), avro(s, &on)) {
        (Some(a), Some(b)) => {
            if !same_modulo_wrapper(&force_avro(&a), &b) {
                return Err(format!("avro: forced {} from {}", b, a));
            }
        }
        (None, None) => {}
        _ => return Err("avro: forcing nullability decides whether conversion succeeds".into()),
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

/// The tool is run as a process; `how` says how the options are spelled.
pub fn c12(s: &Value, c: &Context, how: &Value) -> R {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let Ok(tool) = std::env::var("VERIF_CLI") else {
        return Ok(());
    };
    let how = how.as_u64().unwrap_or(0);
    let bit = |n: u32| how >> n & 1 == 1;
    let bigquery = bit(0);
    let mut args: Vec<String> = Vec::new();
    if bigquery || bit(1) {
        let v = if bigquery { "bigquery" } else { "avro" };
        match how >> 2 & 3 {
            0 => args.extend(["-t".to_string(), v.to_string()]),
            1 => args.extend(["--type".to_string(), v.to_string()]),
            2 => args.push(format!("--type={}", v)),
            _ => args.push(format!("-t{}", v)),
        }
    }
    let cast = matches!(c.resolve_method, ResolveMethod::Cast);
    if !cast || bit(4) {
        let v = match c.resolve_method {
            ResolveMethod::Cast => "cast",
            ResolveMethod::Panic => "panic",
            ResolveMethod::Drop => "drop",
        };
        match how >> 5 & 1 {
            0 => args.extend(["-r".to_string(), v.to_string()]),
            _ => args.push(format!("--resolve={}", v)),
        }
    }
    for (on, n, short, long) in [
        (c.normalize_case, 6, "-c", "--normalize-case"),
        (c.force_nullable, 7, "-n", "--force-nullable"),
        (c.tuple_struct, 8, "--tuple-struct", "--tuple-struct"),
        (c.allow_maps_without_value, 9, "-w", "--allow-maps-without-value"),
    ] {
        if on {
            args.push(if bit(n) { long } else { short }.to_string());
        }
    }
    let text = s.to_string();
    let dir = std::env::temp_dir().join(format!("jst-c12-{}-{:?}", std::process::id(), std::thread::current().id()).replace(['(', ')'], ""));
    let mut stdin = text.clone();
    match how >> 10 & 3 {
        0 => {}
        1 => args.push("-".into()),
        _ => {
            // what is on standard input is not what is asked for
            stdin = "{\"type\": \"boolean\"}".into();
            std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
            let f = dir.join("schema.json");
            std::fs::write(&f, &text).map_err(|e| e.to_string())?;
            let f = f.to_string_lossy().to_string();
            if bit(12) {
                args.insert(0, f);
            } else {
                args.push(f);
            }
        }
    }
    let run = || -> Result<std::process::Output, std::io::Error> {
        let mut p = Command::new(&tool).args(&args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?;
        let mut i = p.stdin.take().unwrap();
        let _ = i.write_all(stdin.as_bytes());
        drop(i);
        p.wait_with_output()
    };
    let got = run();
    let _ = std::fs::remove_dir_all(&dir);
    // the tool could not be started: nothing to judge
    let Ok(got) = got else {
        return Ok(());
    };
    let want = if bigquery { bq(s, c) } else { avro(s, c) };
    let shown = args.iter().map(|a| if a.ends_with("schema.json") { "FILE".to_string() } else { a.clone() }).collect::<Vec<_>>().join(" ");
    let printed: Option<Value> = serde_json::from_slice(&got.stdout).ok();
    match (want, got.status.success()) {
        (Some(w), true) if printed.as_ref() == Some(&w) => Ok(()),
        (None, false) => Ok(()),
        (Some(w), ok) => Err(format!("`{}` ended {} and printed {} where the library returns {}", shown, if ok { "well" } else { "with an error" }, String::from_utf8_lossy(&got.stdout).chars().take(400).collect::<String>(), w.to_string().chars().take(400).collect::<String>())),
        (None, true) => Err(format!("`{}` printed {} where the library aborts", shown, String::from_utf8_lossy(&got.stdout).chars().take(400).collect::<String>())),
    }
}

// ---------------------------------------------------------------- C13

fn property_names<'a>(s: &'a Value, out: &mut BTreeSet<&'a str>) {
    match s {
        Value::Object(m) => {
            if let Some(Value::Object(p)) = m.get("properties") {
                out.extend(p.keys().map(|k| k.as_str()));
            }
            m.values().for_each(|v| property_names(v, out));
        }
        Value::Array(a) => a.iter().for_each(|v| property_names(v, out)),
        _ => {}
    }
}

fn all_names(v: &Value, out: &mut BTreeSet<String>) {
    match v {
        Value::Object(m) => {
            if let Some(Value::Array(fs)) = m.get("fields") {
                for f in fs {
                    if let Some(n) = f.get("name").and_then(|n| n.as_str()) {
                        out.insert(n.to_string());
                    }
                }
            }
            m.values().for_each(|v| all_names(v, out));
        }
        Value::Array(a) => a.iter().for_each(|v| all_names(v, out)),
        _ => {}
    }
}

pub fn c13(s: &Value, c: &Context) -> R {
    // every name is the form of some property's name, or one the tool gives
    let mut ps = BTreeSet::new();
    property_names(s, &mut ps);
    let allowed: BTreeSet<String> = ps.iter().filter_map(|k| column_name(k, true)).collect();
    let c = with(c, |c| c.normalize_case = true);
    for out in [bq(s, &c).map(|v| json!({ "fields": v })), avro(s, &c)].into_iter().flatten() {
        let mut names = BTreeSet::new();
        all_names(&out, &mut names);
        for n in names {
            let given = ["root", "list", "key", "value"].contains(&n.as_str()) || n.starts_with('f') && n.ends_with('_') && n[1..n.len() - 1].chars().all(|d| d.is_ascii_digit());
            if !given && !allowed.contains(&n) {
                return Err(format!("column {:?} is not the snake-case form of any property name: {:?}", n, allowed));
            }
        }
    }
    // and where single types lead, the form of the name of its own property
    let c = with(&c, |c| c.json_object_path_regex = None);
    if collides(s, true) {
        return Ok(());
    }
    let Some(e) = exact(s, &c, c.force_nullable) else {
        return Ok(());
    };
    let want = names_of(&exact_bq_root(&e, c.force_nullable));
    if let Some(got) = bq(s, &c) {
        if names_of(&got) != want {
            return Err(format!("columns: expected {} got {}", want, names_of(&got)));
        }
    }
    Ok(())
}

/// the names of columns, nested as the columns are
fn names_of(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(|f| json!([f.get("name"), names_of(f.get("fields").unwrap_or(&Value::Null))])).collect()),
        _ => Value::Null,
    }
}

/// Every name of up to seven characters from one of each kind, and of up to
/// five from two of each: how many were looked at, or the one that fails.
pub fn names_sweep() -> Result<usize, (Value, String)> {
    let mut names: BTreeSet<String> = BTreeSet::new();
    for (alphabet, most) in [("aZ0_", 7), ("azAZ09_", 5)] {
        let mut row = vec![String::new()];
        for _ in 0..most {
            row = row.iter().flat_map(|s| alphabet.chars().map(move |c| format!("{}{}", s, c))).collect();
            names.extend(row.iter().cloned());
        }
    }
    let n = names.len();
    // names that end up the same go into different schemas
    let mut batches: Vec<BTreeMap<String, String>> = vec![];
    let mut at: BTreeMap<String, usize> = BTreeMap::new();
    for k in names {
        let Some(col) = column_name(&k, true) else { continue };
        let i = at.entry(col.clone()).or_insert(0);
        if *i == batches.len() {
            batches.push(BTreeMap::new());
        }
        batches[*i].insert(col, k);
        *i += 1;
    }
    let mut c = Context { resolve_method: ResolveMethod::Cast, ..Default::default() };
    c.normalize_case = true;
    for b in batches {
        let all: Vec<(String, String)> = b.into_iter().collect();
        for part in all.chunks(300) {
            let schema = |p: &[(String, String)]| {
                let m: Map<String, Value> = p.iter().map(|(_, k)| (k.clone(), json!({"type": "string"}))).collect();
                json!({"type": "object", "properties": m})
            };
            let ok = |p: &[(String, String)]| {
                let want: Vec<&str> = p.iter().map(|(c, _)| c.as_str()).collect();
                let got = bq(&schema(p), &c);
                got.as_ref().and_then(|g| g.as_array()).map(|g| g.iter().filter_map(|f| f["name"].as_str()).collect::<Vec<_>>() == want).unwrap_or(false)
            };
            if !ok(part) {
                for x in part {
                    if !ok(std::slice::from_ref(x)) {
                        return Err((schema(std::slice::from_ref(x)), format!("the property {:?} is not called {:?}", x.1, x.0)));
                    }
                }
                return Err((schema(part), "the names of the columns are not those of the properties".into()));
            }
        }
    }
    Ok(n)
}
