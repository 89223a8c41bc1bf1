use std::collections::BTreeMap;
use std::fs;

#[derive(Clone, Debug, Default)]
pub struct Clause {
    pub label: String,
    pub text: String,
}

#[derive(Clone, Debug, Default)]
pub struct LoopC {
    pub order: usize,
    pub name: String,
    pub inv: String,
    pub begin: String,
    pub end: String,
    pub after: String,
    pub pre: String,
}

#[derive(Clone, Debug, Default)]
pub struct FnC {
    pub key: String,
    pub requires: Vec<Clause>,
    pub ensures: Vec<Clause>,
    pub attrs: String,
    /// what gets smaller with every call within a recursion
    pub decreases: String,
    pub start: String,
    /// names of specification functions that are not unfolded
    pub hide: String,
    pub tail: String,
    pub loops: BTreeMap<String, LoopC>,
    /// statement anchors: text prefix -> proof text put before the statement
    pub at: Vec<(String, String)>,
    /// the same, after the statement
    pub post: Vec<(String, String)>,
    /// when the function may abort
    pub may: String,
    /// assumed, not verified: why
    pub trusted: Option<String>,
    /// body replaced by inlining at every call
    pub inline: bool,
}

pub type Contracts = BTreeMap<String, FnC>;

pub fn load(dir: &str) -> Result<Contracts, String> {
    let mut out = Contracts::new();
    let mut files: Vec<_> = fs::read_dir(dir)
        .map_err(|e| e.to_string())?
        .filter_map(|e| e.ok())
        .map(|e| e.path())
        .filter(|p| p.extension().map(|x| x == "vc").unwrap_or(false))
        .collect();
    files.sort();
    for f in files {
        let text = fs::read_to_string(&f).map_err(|e| e.to_string())?;
        parse(&text, &mut out).map_err(|e| format!("{}: {}", f.display(), e))?;
    }
    Ok(out)
}

fn parse(text: &str, out: &mut Contracts) -> Result<(), String> {
    let mut blocks: Vec<(String, String)> = Vec::new();
    for line in text.lines() {
        if line.starts_with('@') {
            blocks.push((line[1..].trim().to_string(), String::new()));
        } else if let Some(b) = blocks.last_mut() {
            if line.trim_start().starts_with("##") {
                continue;
            }
            b.1.push_str(line);
            b.1.push('\n');
        }
    }
    let mut cur: Option<FnC> = None;
    for (head, body) in blocks {
        let (word, rest) = match head.split_once(char::is_whitespace) {
            Some((w, r)) => (w.to_string(), r.trim().to_string()),
            None => (head.clone(), String::new()),
        };
        if word == "fn" {
            if let Some(c) = cur.take() {
                out.insert(c.key.clone(), c);
            }
            cur = Some(FnC { key: rest, ..Default::default() });
            continue;
        }
        let c = cur.as_mut().ok_or("directive before the first @fn")?;
        match word.as_str() {
            "requires" => c.requires.push(Clause { label: rest, text: body }),
            "ensures" => c.ensures.push(Clause { label: rest, text: body }),
            "attr" => c.attrs.push_str(&format!("{}\n{}", rest, body)),
            "decreases" => c.decreases.push_str(&format!("{} {}", rest, body)),
            "start" => c.start.push_str(&body),
            "hide" => c.hide.push_str(&format!("{} {} ", rest, body)),
            "tail" => c.tail.push_str(&body),
            "trusted" => c.trusted = Some(rest),
            "inline" => c.inline = true,
            "at" => c.at.push((rest, body)),
            "post" => c.post.push((rest, body)),
            "may" => c.may = format!("{} {}", rest, body),
            "loop" => {
                let (key, name) = rest.rsplit_once(" as ").ok_or("loop needs a name")?;
                let order = c.loops.len();
                c.loops.insert(
                    norm(key),
                    LoopC { order, name: name.trim().to_string(), inv: body, ..Default::default() },
                );
            }
            "begin" | "end" | "after" | "pre" => {
                let l = c
                    .loops
                    .values_mut()
                    .find(|l| l.name == rest)
                    .ok_or(format!("no loop called {}", rest))?;
                match word.as_str() {
                    "begin" => l.begin.push_str(&body),
                    "end" => l.end.push_str(&body),
                    "pre" => l.pre.push_str(&body),
                    _ => l.after.push_str(&body),
                }
            }
            w => return Err(format!("unknown directive @{}", w)),
        }
    }
    if let Some(c) = cur.take() {
        out.insert(c.key.clone(), c);
    }
    Ok(())
}

/// Whitespace does not matter in anchors.
pub fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
