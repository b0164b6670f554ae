//! Input source: draws come from the counterexample pool, the dictionary and random
//! generation; every draw is logged, so a failing case replays from its log alone.
use serde_json::{Value, json};
use std::collections::VecDeque;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
}

#[derive(Default, Clone)]
pub struct Pool {
    pub texts: Vec<String>,
    pub names: Vec<String>,
    pub nss: Vec<String>,
    pub iris: Vec<String>,
    pub maps: Vec<Vec<(String, String)>>,
}

pub struct Gen {
    pub rng: Rng,
    pub pool: Pool,
    pub dict: Vec<String>,
    pub log: Vec<Value>,
    pub replay: Option<VecDeque<Value>>,
    local: Vec<String>,
    local_iris: Vec<String>,
    local_nss: Vec<String>,
}

pub const BASE: &[(u32, u32)] = &[
    (0x41, 0x5A), (0x61, 0x7A), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D), (0x37F, 0x1FFF),
    (0x200C, 0x200D), (0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFD),
    (0x10000, 0xEFFFF),
];
pub const EXTRA: &[(u32, u32)] = &[(0x2D, 0x2D), (0x30, 0x39), (0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040), (0x5F, 0x5F)];

fn inr(c: char, t: &[(u32, u32)]) -> bool {
    let c = c as u32;
    t.iter().any(|&(a, b)| a <= c && c <= b)
}
pub fn base(c: char) -> bool {
    inr(c, BASE)
}
pub fn chars_(c: char) -> bool {
    inr(c, BASE) || inr(c, EXTRA)
}
fn body(s: &str, first: impl Fn(char) -> bool) -> bool {
    let v: Vec<char> = s.chars().collect();
    if v.is_empty() || !first(v[0]) {
        return false;
    }
    if v.len() == 1 {
        return true;
    }
    v[1..v.len() - 1].iter().all(|&c| chars_(c) || c == '.') && chars_(v[v.len() - 1])
}
pub fn ref_name(s: &str) -> bool {
    body(s, |c| base(c) || c == '_' || c.is_ascii_digit())
}
pub fn ref_prefix(s: &str) -> bool {
    body(s, base)
}
pub fn ref_ns(s: &str) -> bool {
    match s.strip_suffix(':') {
        None => false,
        Some("") => true,
        Some(p) => ref_prefix(p),
    }
}

const CORPUS: &[&str] = &[
    "", ":", "::", "a", "a:", ":a", "a:b", "a:b:c", "rdf", "rdf:", "rdf:type", "a.", ".a", "a.b", "a..b", "a.:", "a.b:",
    "_", "_:", "_:a", "-", "-a", "a-", "9", "9:", "9a:", "a9:", "é", "é:", "xé", "a:é", "\u{b7}", "a\u{b7}", "\u{203f}",
    "a\u{203f}", "\u{300}", "a\u{300}", "a b", " a", "a ", "a: b", "<", ">", "<>", "<a>", "<a", "a>", "<<a>>", "\u{0}",
    "a\u{0}", "\n", "a\n", "a/b", "a#b", "#", "/", "?", "a?b", "%41", "a%20b", "[a:b]", "\u{10000}", "\u{effff}",
    "\u{f0000}", "a:9", "a:-", "a:_", "a:.", "a:b.", "a:.b", "a.b.c:d.e.f", ":.", ".:", "..", "http", "http:", "type",
    "genid", "empty", "\u{130}", "ß", "a\u{370}", "a\u{37e}", "名前", "名:前", "A", "Z", "z", "0", "Name", "a:b/c",
    "null", "true", "[]", "{}", "1e5", "-0", "xmlns:", "xml:", "a\u{feff}", "\u{feff}a", "\u{2028}", "'", "\"",
];

const SCHEMES: &[&str] = &["http://", "https://", "foo://", "ftp://", "ws://"];
const HOSTS: &[&str] = &["example.org", "h", "www.w3.org", "u:p@h:81", "127.0.0.1", "[::1]", "EXAMPLE.com", "a.b:8080"];
const SEGS: &[&str] = &["", "a", "ns", "Name", "name.x", "a.", "-x", "_y", "9", "a:b", "%41", "a%20b", "a;b", "é", "..a",
    "genid", ".well-known", "v1.0", "a-b", "a=b", "@", "b_", "~u", "a,b", "ns%23", "C", "Z9", "\u{203f}"];
const QUERIES: &[&str] = &["", "q", "q=1", "a/b", "a/", "?", "q=#", "x#y"];
const FRAGS: &[&str] = &["", "a", "Name", "a.b", "a.", "_x", "-x", "9", "a/b", "a/", "/", "a:b", "%41", "é", "a?b", "#", "type", "a-b", "b_c.d", "a b", "x.y.z"];
const OPAQUES: &[&str] = &["urn:", "mailto:", "data:", "tag:", "x:", "urn:isbn:", "urn:a/", "urn:a/b", "urn:x:a/", "data:text/plain,a", "urn:a b ", "file:", "urn:a.b", "blob:x"];

impl Gen {
    pub fn new(seed: u64, pool: Pool, dict: Vec<String>) -> Gen {
        Gen { rng: Rng(seed), pool, dict, log: vec![], replay: None, local: vec![], local_iris: vec![], local_nss: vec![] }
    }
    pub fn start(&mut self) {
        self.log.clear();
        self.local.clear();
        self.local_iris.clear();
        self.local_nss.clear();
    }
    fn draw(&mut self, f: impl FnOnce(&mut Gen) -> Value) -> Value {
        let v = match &mut self.replay {
            Some(q) => q.pop_front().unwrap_or(Value::Null),
            None => f(self),
        };
        self.log.push(v.clone());
        v
    }
    fn str_of(v: &Value) -> String {
        v.as_str().unwrap_or("").to_string()
    }
    pub fn pick<'a>(&mut self, v: &[&'a str]) -> &'a str {
        v[self.rng.below(v.len())]
    }
    pub fn below(&mut self, n: usize) -> usize {
        let v = self.draw(|g| json!(g.rng.below(n)));
        (v.as_u64().unwrap_or(0) as usize).min(n - 1)
    }
    pub fn flag(&mut self) -> bool {
        self.below(2) == 1
    }
    fn edge_char(&mut self) -> char {
        let t = if self.rng.one_in(3) { EXTRA } else { BASE };
        let (a, b) = t[self.rng.below(t.len())];
        let c = match self.rng.below(5) {
            0 => a,
            1 => b,
            2 => a.wrapping_sub(1),
            3 => b + 1,
            _ => a + self.rng.below((b - a + 1) as usize) as u32,
        };
        char::from_u32(c).unwrap_or('a')
    }
    fn any_char(&mut self) -> char {
        match self.rng.below(8) {
            0 => self.edge_char(),
            1 => char::from_u32(self.rng.below(0x80) as u32).unwrap(),
            2 => char::from_u32(self.rng.below(0x110000) as u32).unwrap_or('\u{d7ff}'),
            3 => ":./#?<>%-_ '\"[]\\@".chars().nth(self.rng.below(18)).unwrap_or(':'),
            4 => char::from_u32(self.rng.below(0x3000) as u32).unwrap(),
            _ => "abcxyzABC019".chars().nth(self.rng.below(12)).unwrap(),
        }
    }
    fn valid(&mut self, ns: bool) -> String {
        let mut s = String::new();
        let n = if self.rng.one_in(40) { 200 } else { self.rng.below(6) };
        let ascii = self.rng.below(3) > 0;
        loop {
            let c = if ascii { self.any_ascii() } else { self.edge_char() };
            if base(c) || (!ns && (c == '_' || c.is_ascii_digit())) {
                s.push(c);
                break;
            }
        }
        for i in 0..n {
            loop {
                let c = if self.rng.one_in(8) { '.' } else if ascii { self.any_ascii() } else { self.edge_char() };
                if chars_(c) || (c == '.' && i + 1 < n) {
                    s.push(c);
                    break;
                }
            }
        }
        s
    }
    fn any_ascii(&mut self) -> char {
        char::from_u32(0x20 + self.rng.below(0x5f) as u32).unwrap()
    }
    fn raw_text(&mut self) -> String {
        let k = self.rng.below(12);
        let mut s = match k {
            0 => self.pick(CORPUS).to_string(),
            1 if !self.dict.is_empty() => {
                let i = self.rng.below(self.dict.len());
                self.dict[i].clone()
            }
            2 | 3 => self.valid(false),
            4 => self.valid(true) + ":",
            5 => self.valid(true) + ":" + &self.valid(false),
            6 => ":".to_string() + &self.valid(false),
            7 => (0..self.rng.below(5)).map(|_| self.any_char()).collect(),
            8 if !self.local.is_empty() => {
                let i = self.rng.below(self.local.len());
                self.local[i].clone()
            }
            9 => "<".to_string() + &self.raw_iri() + ">",
            10 => self.raw_iri(),
            _ => self.pick(CORPUS).to_string() + self.pick(CORPUS),
        };
        if self.rng.one_in(3) {
            s = self.mutate(s);
        }
        s
    }
    fn mutate(&mut self, s: String) -> String {
        let mut v: Vec<char> = s.chars().collect();
        let i = match self.rng.below(3) {
            0 => 0,
            1 => v.len(),
            _ => self.rng.below(v.len() + 1),
        };
        match self.rng.below(4) {
            0 if !v.is_empty() => {
                v.remove(i.min(v.len() - 1));
            }
            1 if !v.is_empty() => {
                let j = i.min(v.len() - 1);
                v[j] = self.any_char();
            }
            2 if !self.dict.is_empty() => {
                let k = self.rng.below(self.dict.len());
                for (j, c) in self.dict[k].chars().enumerate().collect::<Vec<_>>() {
                    v.insert((i + j).min(v.len()), c);
                }
            }
            _ => {
                let c = self.any_char();
                v.insert(i, c);
            }
        }
        v.into_iter().collect()
    }
    fn raw_iri(&mut self) -> String {
        let mut s = String::new();
        if self.rng.one_in(5) {
            s += self.pick(OPAQUES);
            if self.rng.one_in(2) {
                s += self.pick(SEGS);
            }
        } else if self.rng.one_in(12) {
            s += "foo:/";
            s += self.pick(SEGS);
        } else {
            s += self.pick(SCHEMES);
            s += self.pick(HOSTS);
            for _ in 0..self.rng.below(4) {
                s += "/";
                if self.rng.one_in(4) {
                    s += &self.valid(false);
                } else if self.rng.one_in(12) && !self.dict.is_empty() {
                    let k = self.rng.below(self.dict.len());
                    s += &self.dict[k].clone();
                } else {
                    s += self.pick(SEGS);
                }
            }
            if self.rng.one_in(3) {
                s += "/";
            }
        }
        if self.rng.one_in(4) {
            s += "?";
            s += self.pick(QUERIES);
        }
        if self.rng.one_in(2) {
            s += "#";
            if self.rng.one_in(4) {
                s += &self.valid(false);
            } else if self.rng.one_in(12) && !self.dict.is_empty() {
                let k = self.rng.below(self.dict.len());
                s += &self.dict[k].clone();
            } else {
                s += self.pick(FRAGS);
            }
        }
        s
    }
    /// any text
    pub fn text(&mut self) -> String {
        let v = self.draw(|g| {
            let s = if g.rng.one_in(3) && !g.pool.texts.is_empty() {
                let i = g.rng.below(g.pool.texts.len());
                g.pool.texts[i].clone()
            } else {
                g.raw_text()
            };
            json!(s)
        });
        let s = Self::str_of(&v);
        self.local.push(s.clone());
        s
    }
    /// text of a valid name
    pub fn name(&mut self) -> String {
        let v = self.draw(|g| {
            if g.rng.one_in(3) {
                let c: Vec<String> = g.pool.names.iter().chain(g.pool.texts.iter()).chain(g.local.iter()).chain(g.dict.iter()).filter(|s| ref_name(s)).cloned().collect();
                if !c.is_empty() {
                    return json!(c[g.rng.below(c.len())]);
                }
            }
            loop {
                let s = if g.rng.one_in(3) { g.pick(CORPUS).to_string() } else { g.valid(false) };
                if ref_name(&s) {
                    return json!(s);
                }
            }
        });
        let s = Self::str_of(&v);
        let s = if ref_name(&s) { s } else { "x".to_string() };
        self.local.push(s.clone());
        s
    }
    pub fn ascii_name(&mut self) -> String {
        let v = self.draw(|g| {
            loop {
                let s = if g.rng.one_in(3) && !g.pool.names.is_empty() {
                    g.pool.names[g.rng.below(g.pool.names.len())].clone()
                } else if g.rng.one_in(4) && !g.dict.is_empty() {
                    g.dict[g.rng.below(g.dict.len())].clone()
                } else if g.rng.one_in(3) {
                    g.pick(CORPUS).to_string()
                } else {
                    g.valid(false)
                };
                if s.is_ascii() && ref_name(&s) {
                    return json!(s);
                }
            }
        });
        let s = Self::str_of(&v);
        if s.is_ascii() && ref_name(&s) { s } else { "x".to_string() }
    }
    /// text of a valid namespace
    pub fn ns(&mut self) -> String {
        let v = self.draw(|g| {
            if g.rng.one_in(3) && !g.local_nss.is_empty() {
                return json!(g.local_nss[g.rng.below(g.local_nss.len())]);
            }
            if g.rng.one_in(3) {
                let c: Vec<String> = g.pool.nss.iter().chain(g.pool.texts.iter()).cloned().filter(|s| ref_ns(s)).collect();
                if !c.is_empty() {
                    return json!(c[g.rng.below(c.len())]);
                }
            }
            loop {
                let s = match g.rng.below(4) {
                    0 => g.pick(CORPUS).to_string(),
                    1 => g.pick(&[":", "a:", "b:", "rdf:", "rdfs:", "xsd:", "owl:", "skos:", "A:", "a.b:"]).to_string(),
                    2 if !g.dict.is_empty() => g.dict[g.rng.below(g.dict.len())].clone() + ":",
                    _ => g.valid(true) + ":",
                };
                if ref_ns(&s) {
                    return json!(s);
                }
            }
        });
        let s = Self::str_of(&v);
        let s = if ref_ns(&s) { s } else { "a:".to_string() };
        self.local_nss.push(s.clone());
        s
    }
    /// text of an IRI
    pub fn iri(&mut self) -> String {
        let v = self.draw(|g| {
            if g.rng.one_in(4) && !g.local_iris.is_empty() {
                let s = g.local_iris[g.rng.below(g.local_iris.len())].clone();
                return json!(s);
            }
            if g.rng.one_in(3) && !g.pool.iris.is_empty() {
                let s = g.pool.iris[g.rng.below(g.pool.iris.len())].clone();
                if url::Url::parse(&s).is_ok() {
                    return json!(s);
                }
            }
            loop {
                let s = if g.rng.one_in(20) { g.raw_text() } else { g.raw_iri() };
                if url::Url::parse(&s).is_ok() {
                    return json!(s);
                }
            }
        });
        let s = Self::str_of(&v);
        let s = if url::Url::parse(&s).is_ok() { s } else { "http://h/".to_string() };
        self.local_iris.push(s.clone());
        s
    }
    /// an IRI that a name can be added to without replacing anything
    pub fn ns_iri(&mut self) -> String {
        let v = self.draw(|g| {
            if g.rng.one_in(4) && !g.local_iris.is_empty() {
                let s = g.local_iris[g.rng.below(g.local_iris.len())].clone();
                if is_ns_iri(&s) {
                    return json!(s);
                }
            }
            loop {
                let mut s = if g.rng.one_in(3) && !g.pool.iris.is_empty() {
                    g.pool.iris[g.rng.below(g.pool.iris.len())].clone()
                } else {
                    g.raw_iri()
                };
                if let Some(i) = s.find('#') {
                    s.truncate(i);
                }
                s += g.pick(&["#", "/", ""]);
                if is_ns_iri(&s) {
                    return json!(s);
                }
            }
        });
        let s = Self::str_of(&v);
        let s = if is_ns_iri(&s) { s } else { "http://h/".to_string() };
        self.local_iris.push(s.clone());
        s
    }
    pub fn dir_iri(&mut self) -> String {
        if self.flag() { self.ns_iri() } else { self.iri() }
    }
    pub fn map(&mut self) -> Vec<(String, String)> {
        let n = self.below(5);
        let mut out = vec![];
        let seeded = self.draw(|g| json!(!g.pool.maps.is_empty() && g.rng.one_in(2)));
        if seeded.as_bool() == Some(true) {
            let v = self.draw(|g| json!(g.pool.maps[g.rng.below(g.pool.maps.len())]));
            for p in v.as_array().cloned().unwrap_or_default() {
                let (a, b) = (p[0].as_str().unwrap_or(""), p[1].as_str().unwrap_or(""));
                if ref_ns(a) && url::Url::parse(b).is_ok() {
                    self.local_iris.push(b.to_string());
                    self.local_nss.push(a.to_string());
                    out.push((a.to_string(), b.to_string()));
                }
            }
        }
        for _ in 0..n {
            let a = self.ns();
            let b = self.dir_iri();
            out.push((a, b));
        }
        out
    }
}

/// url-crate quirks outside the stated precondition: `file:` drive letters and host-less paths
/// that start with `//`
pub fn plain(u: &url::Url) -> bool {
    u.scheme() != "file" && (u.has_authority() || !u.path().starts_with("//"))
}

pub fn is_ns_iri(s: &str) -> bool {
    match url::Url::parse(s) {
        Err(_) => false,
        Ok(u) => {
            plain(&u)
                && (u.fragment() == Some("")
                    || (u.fragment().is_none() && u.query().is_none() && !u.cannot_be_a_base() && u.path().ends_with('/')))
        }
    }
}
