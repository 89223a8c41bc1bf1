mod gen;
mod oracle;

use gen::{Cfg, Dict, Rng};
use jst::{Context, ResolveMethod};
use oracle::R;
use serde_json::{json, Value};
use std::time::{Duration, Instant};

const PROPS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13"];

fn check(p: &str, s: &Value, c: &Context, doc: Option<&Value>) -> R {
    match p {
        "C01" => oracle::c01(s, c),
        "C02" => match doc {
            Some(d) => oracle::c02(s, c, d),
            None => Ok(()),
        },
        "C03" => oracle::c03(s, c),
        "C04" => oracle::c04(s, c),
        "C05" => oracle::c05(s, c),
        "C06" => oracle::c06(s, c),
        "C07" => oracle::c07(s, c),
        "C08" => oracle::c08(s, c),
        "C09" => oracle::c09(s, c),
        "C10" => oracle::c10(s, c),
        "C11" => oracle::c11(s, c),
        "C12" => oracle::c12(s, c, doc.unwrap_or(&Value::Null)),
        "C13" => oracle::c13(s, c),
        _ => panic!("unknown property {}", p),
    }
}

fn cfg_for(p: &str, r: &mut Rng) -> Cfg {
    let mut c = Cfg::default();
    c.collisions = !matches!(p, "C02");
    match p {
        "C03" => c.exact = true,
        "C09" => c.paths = true,
        "C13" => c.exact = r.chance(2, 3),
        "C10" => {
            c.wild = true;
        }
        _ => {}
    }
    if r.chance(1, 4) {
        c.tuples = false;
    }
    c
}

fn ctx_for(p: &str, r: &mut Rng) -> Context {
    let mut c = gen::context(r);
    match p {
        "C02" => {
            c.resolve_method = ResolveMethod::Cast;
        }
        "C09" => {
            if c.json_object_path_regex.is_none() && r.chance(1, 2) {
                c.json_object_path_regex = Some(gen::path_regex(r));
            }
        }
        "C07" | "C10" => c.resolve_method = ResolveMethod::Cast,
        "C12" => c.json_object_path_regex = None,
        "C13" => c.normalize_case = true,
        "C03" | "C08" => {
            c.json_object_path_regex = None;
            if r.chance(1, 2) {
                c.resolve_method = ResolveMethod::Cast;
            }
        }
        _ => {}
    }
    c
}

/// One random case of a property; Err carries the failure.
/// Each case is shown to `note` before it is decided.
fn one(p: &str, r: &mut Rng, d: &Dict, note: &dyn Fn(&Value, &Value, Option<&Value>)) -> (Value, Value, Option<Value>, R) {
    let cfg = cfg_for(p, r);
    let s = gen::root(r, d, &cfg);
    let c = ctx_for(p, r);
    let cj = gen::ctx_json(&c);
    if p == "C02" {
        let mut last = None;
        for _ in 0..6 {
            if let Some(doc) = gen::doc(r, d, &s, c.tuple_struct) {
                note(&s, &cj, Some(&doc));
                let res = check(p, &s, &c, Some(&doc));
                if res.is_err() {
                    return (s, cj, Some(doc), res);
                }
                last = Some(doc);
            }
        }
        return (s, cj, last, Ok(()));
    }
    if p == "C12" {
        // how the options are spelled
        let how = json!(r.below(1 << 16));
        note(&s, &cj, Some(&how));
        let res = check(p, &s, &c, Some(&how));
        return (s, cj, Some(how), res);
    }
    note(&s, &cj, None);
    let res = check(p, &s, &c, None);
    (s, cj, None, res)
}

/// Smaller inputs that still fail: drop members and list entries one by one.
fn shrink(p: &str, s: &Value, c: &Value, doc: Option<&Value>) -> (Value, Option<Value>) {
    fn variants(v: &Value) -> Vec<Value> {
        let mut out = Vec::new();
        match v {
            Value::Object(m) => {
                for k in m.keys() {
                    let mut n = m.clone();
                    n.remove(k);
                    out.push(Value::Object(n));
                }
                for (k, x) in m {
                    for y in variants(x) {
                        let mut n = m.clone();
                        n.insert(k.clone(), y);
                        out.push(Value::Object(n));
                    }
                }
            }
            Value::Array(a) => {
                for i in 0..a.len() {
                    let mut n = a.clone();
                    n.remove(i);
                    out.push(Value::Array(n));
                }
                for (i, x) in a.iter().enumerate() {
                    for y in variants(x) {
                        let mut n = a.clone();
                        n[i] = y;
                        out.push(Value::Array(n));
                    }
                }
            }
            Value::String(t) if t.len() > 24 => out.push(json!("text")),
            _ => {}
        }
        out
    }
    let ctx = gen::ctx_from(c);
    let (mut cur, mut cur_doc) = (s.clone(), doc.cloned());
    let t0 = Instant::now();
    let mut r = Rng::new(7);
    let dict = Dict::default();
    loop {
        let mut better = None;
        for v in variants(&cur) {
            if t0.elapsed() > Duration::from_secs(10) {
                return (cur, cur_doc);
            }
            if p != "C10" && oracle::unsupported(&v, &ctx).is_some() {
                continue;
            }
            if p != "C02" {
                if check(p, &v, &ctx, doc).is_err() {
                    better = Some((v, doc.cloned()));
                    break;
                }
                continue;
            }
            // a smaller schema admits other documents
            for _ in 0..24 {
                let Some(nd) = gen::doc(&mut r, &dict, &v, ctx.tuple_struct) else { continue };
                if check(p, &v, &ctx, Some(&nd)).is_err() {
                    better = Some((v.clone(), Some(nd)));
                    break;
                }
            }
            if better.is_some() {
                break;
            }
        }
        match better {
            Some((v, d)) => {
                cur = v;
                cur_doc = d;
            }
            None => return (cur, cur_doc),
        }
    }
}

fn nontrivial(s: &Value) -> bool {
    s.as_object().map(|m| m.contains_key("properties") || m.contains_key("items") || m.contains_key("oneOf") || m.contains_key("additionalProperties") || m.contains_key("patternProperties")).unwrap_or(false)
}

fn search(args: &[String]) -> i32 {
    let p = args[0].clone();
    let seed: u64 = args[1].parse().unwrap();
    let secs: f64 = args[2].parse().unwrap();
    let src = args[3].clone();
    let out = args[4].clone();
    let known: Vec<Value> = args.get(5).map(|k| serde_json::from_str(&std::fs::read_to_string(k).unwrap_or("[]".into())).unwrap()).unwrap_or_default();
    let _ = known;
    let dict = Dict::mine(&src);
    let mut swept = 0;
    if p == "C13" {
        match oracle::names_sweep() {
            Ok(n) => swept = n,
            Err((s, why)) => {
                let c = json!({"resolve_method": "Cast", "normalize_case": true, "allow_maps_without_value": false, "force_nullable": false, "json_object_path_regex": null, "tuple_struct": false});
                let rep = json!({"property": p, "evaluations": 1, "distinct_nontrivial": 1, "samples": [], "failure": {"schema": s, "options": c, "document": null, "why": why}});
                std::fs::write(&out, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
                println!("{} {}", p, why);
                return 1;
            }
        }
    }
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    // what each worker is at, for a case that does not end or ends the process
    let trace = std::env::var("VERIF_TRACE").ok();
    type Slot = std::sync::Arc<std::sync::Mutex<Option<(Instant, Value, Value, Option<Value>)>>>;
    let slots: Vec<Slot> = (0..threads).map(|_| Slot::default()).collect();
    let done = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let handles: Vec<_> = (0..threads)
        .map(|t| {
            let (p, dict, stop) = (p.clone(), dict.clone(), stop.clone());
            let (slot, trace, done) = (slots[t].clone(), trace.clone(), done.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    struct Done(std::sync::Arc<std::sync::atomic::AtomicUsize>);
                    impl Drop for Done {
                        fn drop(&mut self) {
                            self.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        }
                    }
                    let _done = Done(done);
                    let note = |s: &Value, c: &Value, d: Option<&Value>| {
                        if let Some(dir) = &trace {
                            let v = json!({"property": p, "schema": s, "options": c, "document": d});
                            let _ = std::fs::write(format!("{}/{}", dir, t), v.to_string());
                        }
                        *slot.lock().unwrap() = Some((Instant::now(), s.clone(), c.clone(), d.cloned()));
                    };
                    let t0 = Instant::now();
                    let mut n = 0u64;
                    let mut distinct = std::collections::HashSet::new();
                    let mut sample = None;
                    let mut r = Rng::new(seed.wrapping_mul(1000).wrapping_add(t as u64));
                    while t0.elapsed().as_secs_f64() < secs && !stop.load(std::sync::atomic::Ordering::Relaxed) {
                        let (s, c, d, res) = one(&p, &mut r, &dict, &note);
                        n += 1;
                        if nontrivial(&s) {
                            use std::hash::{Hash, Hasher};
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            s.to_string().hash(&mut h);
                            c.to_string().hash(&mut h);
                            if distinct.len() < 4_000_000 {
                                distinct.insert(h.finish());
                            }
                            if sample.is_none() && n > 20 {
                                sample = Some(json!({"schema": s, "options": c, "document": d}));
                            }
                        }
                        if let Err(e) = res {
                            stop.store(true, std::sync::atomic::Ordering::Relaxed);
                            return (n, distinct, sample, Some((s, c, d, e)));
                        }
                    }
                    (n, distinct, sample, None)
                })
                .unwrap()
        })
        .collect();
    let mut n = 0;
    let mut distinct = std::collections::HashSet::new();
    let mut samples = Vec::new();
    let mut fail = None;
    // a case that takes this long is taken not to end
    let limit = Duration::from_secs(25);
    while done.load(std::sync::atomic::Ordering::SeqCst) < threads {
        std::thread::sleep(Duration::from_millis(50));
        let stuck = slots.iter().find_map(|s| s.lock().unwrap().clone().filter(|x| x.0.elapsed() > limit));
        if let (Some((_, s, c, d)), true) = (stuck, done.load(std::sync::atomic::Ordering::SeqCst) < threads) {
            let mut rep = json!({"property": p, "evaluations": 1, "distinct_nontrivial": 0, "samples": [], "failure": null, "stuck": {"schema": s, "options": c, "document": d}});
            if p == "C10" {
                rep["failure"] = json!({"schema": s, "options": c, "document": d, "why": format!("the translation did not end within {} s", limit.as_secs())});
            }
            std::fs::write(&out, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
            return 1;
        }
    }
    for h in handles {
        match h.join() {
            Ok((k, ds, s, f)) => {
                n += k;
                distinct.extend(ds);
                samples.extend(s);
                if fail.is_none() {
                    fail = f;
                }
            }
            Err(_) => eprintln!("worker died"),
        }
    }
    let mut rep = json!({"property": p, "evaluations": n, "distinct_nontrivial": distinct.len(), "samples": samples.into_iter().take(2).collect::<Vec<_>>(), "dict_words": dict.words.len(), "dict_sizes": dict.sizes, "failure": null});
    if swept > 0 {
        rep["names_swept"] = json!(swept);
    }
    let mut code = 0;
    if let Some((s, c, d, e)) = fail {
        let (s2, d) = shrink(&p, &s, &c, d.as_ref());
        let ctx = gen::ctx_from(&c);
        let e2 = check(&p, &s2, &ctx, d.as_ref()).err().unwrap_or(e);
        rep["failure"] = json!({"schema": s2, "options": c, "document": d, "why": e2});
        code = 1;
    }
    std::fs::write(&out, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
    println!("{} evaluations {} distinct {}", p, n, if code == 1 { rep["failure"]["why"].as_str().unwrap_or("") } else { "ok" });
    code
}

fn replay(args: &[String]) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[0]).unwrap()).unwrap();
    let p = v["property"].as_str().unwrap();
    let c = gen::ctx_from(&v["options"]);
    let d = v.get("document").filter(|_| p == "C02" || p == "C12");
    match check(p, &v["schema"], &c, d) {
        Ok(()) => {
            println!("holds");
            0
        }
        Err(e) => {
            println!("FAILS {}", e);
            1
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("search") => search(&args[1..]),
        Some("replay") => replay(&args[1..]),
        Some("props") => {
            println!("{}", PROPS.join(" "));
            0
        }
        _ => 2,
    };
    std::process::exit(code);
}
