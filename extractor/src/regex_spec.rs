//! A specification function for the regex literals of the source: a sequence
//! of character classes, each with an optional quantifier, optionally anchored.

pub fn spec(name: &str, re: &str) -> Option<String> {
    let cs: Vec<char> = re.chars().collect();
    let (mut i, mut start, mut end) = (0, false, false);
    if cs.first() == Some(&'^') {
        start = true;
        i = 1;
    }
    let mut parts: Vec<(String, char)> = Vec::new();
    while i < cs.len() {
        if cs[i] == '$' && i + 1 == cs.len() {
            end = true;
            break;
        }
        let class = match cs[i] {
            '[' => {
                let close = (i + 1..cs.len()).find(|j| cs[*j] == ']')?;
                let c = class(&cs[i + 1..close])?;
                i = close + 1;
                c
            }
            '\\' => {
                let c = *cs.get(i + 1)?;
                if c.is_alphanumeric() {
                    return None;
                }
                i += 2;
                format!("c == '{}'", esc(c))
            }
            c if c.is_alphanumeric() || c == '_' || c == '-' => {
                i += 1;
                format!("c == '{}'", esc(c))
            }
            _ => return None,
        };
        let q = match cs.get(i) {
            Some(q @ ('*' | '+' | '?')) => {
                i += 1;
                *q
            }
            Some('{') => return None,
            _ => '1',
        };
        parts.push((class, q));
    }
    // only the last class may repeat
    let n = parts.len();
    if n == 0 || parts[..n - 1].iter().any(|p| p.1 != '1') {
        return None;
    }
    let mut out = String::new();
    for (k, (c, _)) in parts.iter().enumerate() {
        out.push_str(&format!("pub open spec fn {}_c{}(c: char) -> bool {{ {} }}\n", name, k, c));
    }
    let fixed = if parts[n - 1].1 == '1' { n } else { n - 1 };
    let mut conds: Vec<String> = Vec::new();
    match parts[n - 1].1 {
        '1' => conds.push(format!("s.len() == {}", n)),
        '?' => conds.push(format!("{} <= s.len() <= {}", fixed, n)),
        '+' => conds.push(format!("s.len() >= {}", n)),
        _ => conds.push(format!("s.len() >= {}", fixed)),
    }
    for k in 0..fixed {
        conds.push(format!("{}_c{}(s[{}])", name, k, k));
    }
    if fixed < n {
        conds.push(format!(
            "(forall|i: int| {} <= i < s.len() ==> {}_c{}(#[trigger] s[i]))",
            fixed, name, fixed
        ));
    }
    let core = conds.join(" && ");
    if start && end {
        out.push_str(&format!("pub open spec fn {}(s: Seq<char>) -> bool {{ {} }}\n", name, core));
    } else {
        out.push_str(&format!("pub open spec fn {}_core(s: Seq<char>) -> bool {{ {} }}\n", name, core));
        out.push_str(&format!(
            "pub open spec fn {0}(s: Seq<char>) -> bool {{ exists|a: int, b: int| {1} <= a <= b <= {2} && #[trigger] {0}_core(s.subrange(a, b)){3}{4} }}\n",
            name,
            0,
            "s.len()",
            if start { " && a == 0" } else { "" },
            if end { " && b == s.len()" } else { "" }
        ));
    }
    Some(out)
}

fn esc(c: char) -> String {
    match c {
        '\'' => "\\'".into(),
        '\\' => "\\\\".into(),
        c => c.to_string(),
    }
}

fn class(cs: &[char]) -> Option<String> {
    let (neg, cs) = match cs.first() {
        Some('^') => (true, &cs[1..]),
        _ => (false, cs),
    };
    let mut alts = Vec::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '\\' || cs[i] == '[' || cs[i] == '&' {
            return None;
        }
        if i + 2 < cs.len() && cs[i + 1] == '-' {
            alts.push(format!("('{}' <= c && c <= '{}')", esc(cs[i]), esc(cs[i + 2])));
            i += 3;
        } else {
            alts.push(format!("c == '{}'", esc(cs[i])));
            i += 1;
        }
    }
    if alts.is_empty() {
        return None;
    }
    let body = alts.join(" || ");
    Some(if neg { format!("!({})", body) } else { body })
}
