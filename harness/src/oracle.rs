//! Executable form of each property over the public API, used to replay counterexamples.
use crate::r#gen::*;
use rdftk_iri::error::NameParseError;
use rdftk_iri::{Error, Iri, IriPrefixMap, IriRef, LocalName, Name, Namespace, PrefixedName, Vocabulary};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::str::FromStr;
use url::Url;

pub type R = Result<(), String>;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

fn eqd<T: PartialEq + Debug>(a: T, b: T, what: &str) -> R {
    ensure!(a == b, "{what}: {a:?} instead of {b:?}");
    Ok(())
}

fn iri(s: &str) -> Iri {
    Iri::from(Url::parse(s).unwrap())
}
fn url(i: &Iri) -> &Url {
    i.as_ref()
}
fn istr(i: &Iri) -> &str {
    i.as_ref()
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn nm(s: &str) -> Name {
    Name::new_unchecked(s)
}
fn nsp(s: &str) -> Namespace {
    Namespace::new_unchecked(s)
}

fn closed(s: &str) -> String {
    if s.ends_with(':') { s.to_string() } else { format!("{s}:") }
}

pub fn p01(g: &mut Gen) -> R {
    let s = g.text();
    name_grammar(&s)
}
pub fn name_grammar(s: &str) -> R {
    let want = ref_name(s);
    let r = Name::from_str(s);
    ensure!(r.is_ok() == want, "Name::from_str({s:?}) is_ok = {}, the grammar says {want}", r.is_ok());
    if let Ok(n) = r {
        eqd(n.as_ref(), s, "text of the parsed name")?;
    }
    ensure!(Name::is_valid_str(s) == want, "Name::is_valid_str({s:?}) is not {want}");
    let r = Name::try_from(s.to_string());
    ensure!(r.is_ok() == want, "Name::try_from({s:?}) is_ok = {}, the grammar says {want}", r.is_ok());
    if let Ok(n) = r {
        eqd(n.as_ref(), s, "text of the converted name")?;
    }
    Ok(())
}
pub fn p02(g: &mut Gen) -> R {
    let s = g.text();
    ns_grammar(&s)
}
pub fn ns_grammar(s: &str) -> R {
    let want = ref_ns(s);
    let r = Namespace::from_str(s);
    ensure!(r.is_ok() == want, "Namespace::from_str({s:?}) is_ok = {}, the grammar says {want}", r.is_ok());
    if let Ok(n) = r {
        eqd(n.as_ref(), s, "text of the parsed namespace")?;
    }
    ensure!(Namespace::is_valid_str(s) == want, "Namespace::is_valid_str({s:?}) is not {want}");
    let r = Namespace::try_from(s.to_string());
    ensure!(r.is_ok() == want, "Namespace::try_from({s:?}) is_ok = {}, the grammar says {want}", r.is_ok());
    if let Ok(n) = r {
        eqd(n.as_ref(), s, "text of the converted namespace")?;
    }
    let t = closed(s);
    let want = ref_ns(&t);
    for r in [Namespace::new_named(s), Namespace::new_named(s.to_string())] {
        ensure!(r.is_ok() == want, "Namespace::new_named({s:?}) is_ok = {}, expected {want}", r.is_ok());
        if let Ok(n) = r {
            eqd(n.as_ref(), t.as_str(), "text of the named namespace")?;
        }
    }
    Ok(())
}

fn ref_local(s: &str) -> Option<(String, String)> {
    let i = s.find(':')?;
    let (a, b) = (&s[..=i], &s[i + 1..]);
    if ref_ns(a) && ref_name(b) { Some((a.to_string(), b.to_string())) } else { None }
}

pub fn p03(g: &mut Gen) -> R {
    let s = g.text();
    let r = LocalName::from_str(&s);
    match (r, ref_local(&s)) {
        (Ok(l), Some((a, b))) => {
            eqd(l.namespace().as_ref(), a.as_str(), "namespace part")?;
            eqd(l.name().as_ref(), b.as_str(), "name part")
        }
        (Err(_), None) => Ok(()),
        (r, w) => Err(format!("LocalName::from_str({s:?}) = {r:?}, the grammar says {w:?}")),
    }
}

pub fn p04(g: &mut Gen) -> R {
    let raw = g.flag();
    let (a, b) = if raw { (closed(&g.text()), g.text()) } else { (g.ns(), g.name()) };
    let (ns, n) = (nsp(&a), nm(&b));
    let l = LocalName::new(ns.clone(), n.clone());
    let t = format!("{a}{b}");
    eqd(n.to_string(), b.clone(), "Name text")?;
    eqd(n.as_ref(), b.as_str(), "Name as_ref")?;
    eqd(String::from(&n), b.clone(), "String from &Name")?;
    eqd(String::from(n.clone()), b.clone(), "String from Name")?;
    eqd(ns.to_string(), a.clone(), "Namespace text")?;
    eqd(ns.as_ref(), a.as_str(), "Namespace as_ref")?;
    eqd(String::from(&ns), a.clone(), "String from &Namespace")?;
    eqd(String::from(ns.clone()), a.clone(), "String from Namespace")?;
    eqd(l.to_string(), t.clone(), "LocalName text")?;
    eqd(String::from(&l), t.clone(), "String from &LocalName")?;
    eqd(String::from(l.clone()), t.clone(), "String from LocalName")?;
    eqd(l.as_curie(), format!("[{t}]"), "CURIE")?;
    eqd(PrefixedName::Local(l.clone()).to_string(), t.clone(), "PrefixedName text")?;
    eqd(PrefixedName::Namespace(ns.clone()).to_string(), a.clone(), "PrefixedName text")?;
    if !raw {
        eqd(Name::from_str(&b).ok(), Some(n), "re-parsed name")?;
        eqd(Namespace::from_str(&a).ok(), Some(ns), "re-parsed namespace")?;
        eqd(LocalName::from_str(&t).ok(), Some(l), "re-parsed local name")?;
    }
    let s = g.text();
    if let Ok(v) = Name::from_str(&s) {
        eqd(v.to_string(), s.clone(), "printed name")?;
    }
    if let Ok(v) = Namespace::from_str(&s) {
        eqd(v.to_string(), s.clone(), "printed namespace")?;
    }
    if let Ok(v) = LocalName::from_str(&s) {
        eqd(v.to_string(), s.clone(), "printed local name")?;
    }
    Ok(())
}

fn kind(e: &NameParseError) -> (u8, String) {
    match e {
        NameParseError::EmptyString => (0, String::new()),
        NameParseError::InvalidCharacter(s) => (1, s.clone()),
        NameParseError::TooManySeparators(s) => (2, s.clone()),
        NameParseError::MissingSeparator(s) => (3, s.clone()),
    }
}
fn name_err(s: &str) -> (u8, String) {
    if s.is_empty() { (0, String::new()) } else { (1, s.to_string()) }
}
fn ns_err(s: &str) -> (u8, String) {
    if s.is_empty() {
        (0, String::new())
    } else if !s.ends_with(':') {
        (3, s.to_string())
    } else if s[..s.len() - 1].contains(':') {
        (2, s.to_string())
    } else {
        (1, s.to_string())
    }
}

fn rejected<T: Debug>(r: Result<T, NameParseError>, want: (u8, String), what: &str, s: &str) -> R {
    if let Err(e) = r {
        ensure!(kind(&e) == want, "{what}({s:?}) is rejected with {e:?}, expected kind/text {want:?}");
        ensure!(e.to_string().contains(&want.1), "message {:?} does not include {:?}", e.to_string(), want.1);
    }
    Ok(())
}

pub fn p05(g: &mut Gen) -> R {
    let s = g.text();
    rejected(Name::from_str(&s), name_err(&s), "Name::from_str", &s)?;
    rejected(Name::try_from(s.clone()), name_err(&s), "Name::try_from", &s)?;
    rejected(Namespace::from_str(&s), ns_err(&s), "Namespace::from_str", &s)?;
    rejected(Namespace::try_from(s.clone()), ns_err(&s), "Namespace::try_from", &s)?;
    rejected(Namespace::new_named(s.clone()), ns_err(&closed(&s)), "Namespace::new_named", &s)?;
    let want = if s.is_empty() {
        (0, String::new())
    } else {
        match s.find(':') {
            None => (3, s.clone()),
            Some(i) if !ref_ns(&s[..=i]) => ns_err(&s[..=i]),
            Some(i) => name_err(&s[i + 1..]),
        }
    };
    rejected(LocalName::from_str(&s), want, "LocalName::from_str", &s)?;
    for e in [NameParseError::EmptyString, NameParseError::InvalidCharacter(s.clone()),
              NameParseError::TooManySeparators(s.clone()), NameParseError::MissingSeparator(s.clone())] {
        let m = e.to_string();
        ensure!(!m.is_empty() && m.contains(&kind(&e).1), "message {m:?} of {e:?}");
    }
    Ok(())
}

pub fn p06(g: &mut Gen) -> R {
    let (a, b) = (g.text(), g.text());
    let c = closed(&a);
    let (ns, n) = (nsp(&a), nm(&b));
    eqd(ns.as_ref(), c.as_str(), "Namespace::new_unchecked")?;
    eqd(Namespace::new_unchecked(a.clone()).as_ref(), c.as_str(), "Namespace::new_unchecked")?;
    eqd(n.as_ref(), b.as_str(), "Name::new_unchecked")?;
    eqd(Name::new_unchecked(b.clone()).as_ref(), b.as_str(), "Name::new_unchecked")?;
    eqd(Namespace::new_default().as_ref(), ":", "Namespace::new_default")?;
    ensure!(Namespace::new_default().is_default(), "the default namespace is default");
    eqd(ns.is_default(), c == ":", "Namespace::is_default")?;
    let p = &c[..c.len() - 1];
    eqd(ns.name_string(), if p.is_empty() { None } else { Some(p) }, "Namespace::name_string")?;
    let want = LocalName::new(ns.clone(), n.clone());
    for l in [&want, &ns.qualify(&n), &n.qualify(&ns), &LocalName::new_unchecked(a.clone(), b.clone()), &LocalName::new_unchecked(a.as_str(), b.as_str())] {
        eqd(l.namespace().as_ref(), c.as_str(), "LocalName::namespace")?;
        eqd(l.name().as_ref(), b.as_str(), "LocalName::name")?;
        eqd(l.is_namespace_default(), c == ":", "LocalName::is_namespace_default")?;
    }
    let d = LocalName::new_in_default(n.clone());
    eqd(d.namespace().as_ref(), ":", "LocalName::new_in_default")?;
    eqd(d.name().as_ref(), b.as_str(), "LocalName::new_in_default")?;
    ensure!(d.is_namespace_default(), "a name in the default namespace");
    let (a, b) = (g.ns(), g.name());
    let l = LocalName::new(nsp(&a), nm(&b));
    eqd(LocalName::from_str(&l.to_string()).ok(), Some(l), "a whole of valid parts")
}

pub fn p07(g: &mut Gen) -> R {
    let s = g.text();
    let bare = if s.starts_with('<') && s.ends_with('>') { &s[1..s.len() - 1] } else { s.as_str() };
    let want = Url::parse(bare).map(|u| u.to_string());
    eqd(Iri::from_str(&s).map(|u| istr(&u).to_string()), want.clone(), "Iri::from_str")?;
    eqd(Iri::try_from(s.as_str()).map(|u| istr(&u).to_string()), want.clone(), "Iri::try_from")?;
    if bare == s {
        eqd(Iri::from_str(&format!("<{s}>")).map(|u| istr(&u).to_string()), want, "bracketed text")?;
    }
    let t = g.iri();
    let u = Url::parse(&t).unwrap();
    let i = Iri::from(u.clone());
    eqd(i.to_string(), format!("<{u}>"), "bracketed form")?;
    eqd(format!("{i:#}"), u.to_string(), "bare form")?;
    eqd(istr(&i), u.as_str(), "text")?;
    eqd(url(&i), &u, "url")?;
    eqd(Iri::from(&u), i.clone(), "Iri from &Url")?;
    eqd(Url::from(&i), u.clone(), "Url from &Iri")?;
    eqd(Url::from(i.clone()), u.clone(), "Url from Iri")?;
    let mut j = i.clone();
    AsMut::<Url>::as_mut(&mut j).set_fragment(Some("zz"));
    let mut v = u.clone();
    v.set_fragment(Some("zz"));
    eqd(Url::from(j), v, "Iri::as_mut")?;
    eqd(Iri::from_str(&i.to_string()).ok(), Some(i.clone()), "re-parsed bracketed form")?;
    eqd(Iri::from_str(&format!("{i:#}")).ok(), Some(i.clone()), "re-parsed bare form")?;
    eqd(Iri::from_str(istr(&i)).ok(), Some(i.clone()), "re-parsed text")
}

pub fn p08(g: &mut Gen) -> R {
    let t = g.iri();
    let s = g.text();
    let i = iri(&t);
    let before = i.to_string();
    let up = |f: &dyn Fn(&mut Url)| {
        let mut u = Url::parse(&t).unwrap();
        f(&mut u);
        u
    };
    eqd(url(&i.with_new_path(&s)), &up(&|u| u.set_path(&s)), "with_new_path")?;
    eqd(url(&i.with_new_fragment(&s)), &up(&|u| u.set_fragment(Some(&s))), "with_new_fragment")?;
    eqd(url(&i.with_empty_fragment()), &up(&|u| u.set_fragment(Some(""))), "with_empty_fragment")?;
    eqd(url(&i.with_no_fragment()), &up(&|u| u.set_fragment(None)), "with_no_fragment")?;
    eqd(i.to_string(), before, "the original")?;
    let head = |u: &Url| u[..url::Position::BeforePath].to_string();
    let u = url(&i);
    let p = i.with_new_path(&s);
    if plain(u) && plain(url(&p)) {
        eqd(head(url(&p)), head(u), "with_new_path: scheme and authority")?;
    }
    eqd(url(&p).query(), u.query(), "with_new_path: query")?;
    eqd(url(&p).fragment(), u.fragment(), "with_new_path: fragment")?;
    let f = i.with_new_fragment(&s);
    eqd(&url(&f)[..url::Position::AfterQuery], &u[..url::Position::AfterQuery], "with_new_fragment: the rest")?;
    eqd(url(&i.with_empty_fragment()).fragment(), Some(""), "with_empty_fragment")?;
    eqd(url(&i.with_no_fragment()).fragment(), None, "with_no_fragment")?;
    eqd(f.with_empty_fragment(), i.with_empty_fragment(), "emptying the fragment")?;
    eqd(i.with_empty_fragment().with_new_fragment(&s), f, "setting the fragment")
}

fn ref_lln(u: &Url) -> bool {
    u.fragment() == Some("") || (u.path().ends_with('/') && u.query().is_none())
}
fn ref_make(u: &Url, n: &str) -> Option<Url> {
    let mut v = u.clone();
    if u.fragment().is_some() {
        v.set_fragment(Some(n));
        Some(v)
    } else if u.path().ends_with('/') && u.query().is_none() {
        v.set_path(&format!("{}{n}", u.path()));
        Some(v)
    } else {
        None
    }
}

pub fn p09(g: &mut Gen) -> R {
    let t = g.dir_iri();
    let n = g.name();
    let i = iri(&t);
    let u = url(&i);
    ensure!(i.looks_like_namespace() == ref_lln(u), "looks_like_namespace({t:?}) is not {}", ref_lln(u));
    let m = i.make_name(nm(&n)).map(Url::from);
    ensure!(m == ref_make(u, &n), "make_name({t:?}, {n:?}) = {m:?}");
    ensure!(!i.looks_like_namespace() || m.is_some(), "no name can be added to {t:?}");
    if n.is_ascii() && is_ns_iri(&t) {
        eqd(m.unwrap().to_string(), format!("{u}{n}"), "make_name")?;
    }
    Ok(())
}

fn ref_split(u: &Url) -> Option<(Url, String)> {
    let mut v = u.clone();
    if let Some(f) = u.fragment() {
        if !f.is_empty() && ref_name(f) {
            v.set_fragment(Some(""));
            return Some((v, f.to_string()));
        }
        return None;
    }
    if u.query().is_some() || u.cannot_be_a_base() {
        return None;
    }
    let k = u.path().rfind('/')?;
    let n = &u.path()[k + 1..];
    if !ref_name(n) {
        return None;
    }
    v.set_path(&u.path()[..=k]);
    Some((v, n.to_string()))
}

pub fn p10(g: &mut Gen) -> R {
    let t = g.iri();
    let i = iri(&t);
    let r = i.split();
    let got = r.clone().map(|(a, b)| (Url::from(a), b.to_string()));
    let want = ref_split(url(&i));
    ensure!(got == want, "split({t:?}) = {got:?}, expected {want:?}");
    if let Some((a, b)) = &got {
        ensure!(ref_name(b), "{b:?} is not a valid name");
        if plain(url(&i)) {
            eqd(format!("{a}{b}"), url(&i).to_string(), "namespace followed by name")?;
        }
    }
    eqd(i.namespace(), r.clone().map(|x| x.0), "namespace part")?;
    eqd(i.name(), r.map(|x| x.1), "name part")
}

pub fn p11(g: &mut Gen) -> R {
    let t = g.iri();
    let i = iri(&t);
    if plain(url(&i)) {
        if let Some((a, b)) = i.split() {
            ensure!(a.looks_like_namespace(), "{a} of {t:?} is not a namespace");
            eqd(a.make_name(b), Some(i), "adding the name back")?;
        }
    }
    let t = g.ns_iri();
    let n = g.ascii_name();
    let i = iri(&t);
    match i.make_name(nm(&n)) {
        None => Err(format!("make_name({t:?}, {n:?}) = None")),
        Some(j) => eqd(j.split(), Some((i, nm(&n))), "splitting the made name"),
    }
}

// ---------------------------------------------------------------- the map
type Model = Vec<(String, String)>;

fn norm(s: &str) -> String {
    Url::parse(s).unwrap().to_string()
}
fn m_insert(m: &mut Model, a: &str, b: &str) {
    let b = norm(b);
    m.retain(|(x, y)| x != a && *y != b);
    m.push((a.to_string(), b));
}
fn build(pairs: &[(String, String)]) -> (IriPrefixMap, Model) {
    let mut map = IriPrefixMap::empty();
    let mut m = vec![];
    for (a, b) in pairs {
        map.insert(nsp(a), iri(b));
        m_insert(&mut m, a, b);
    }
    (map, m)
}
fn m_left<'a>(m: &'a Model, a: &str) -> Option<&'a str> {
    m.iter().find(|p| p.0 == a).map(|p| p.1.as_str())
}
fn m_right<'a>(m: &'a Model, b: &str) -> Option<&'a str> {
    let b = norm(b);
    m.iter().find(|p| p.1 == b).map(|p| p.0.as_str())
}
fn same_map(map: &IriPrefixMap, m: &Model, what: &str) -> R {
    eqd(map.len(), m.len(), &format!("{what}: len"))?;
    eqd(map.is_empty(), m.is_empty(), &format!("{what}: is_empty"))?;
    let sort = |mut v: Vec<String>| {
        v.sort();
        v
    };
    eqd(sort(map.mappings().map(|(a, b)| format!("{a} {b:#}")).collect()), sort(m.iter().map(|(a, b)| format!("{a} {b}")).collect()), &format!("{what}: mappings"))?;
    eqd(sort(map.prefixes().map(|a| a.to_string()).collect()), sort(m.iter().map(|p| p.0.clone()).collect()), &format!("{what}: prefixes"))?;
    eqd(sort(map.iris().map(|a| format!("{a:#}")).collect()), sort(m.iter().map(|p| p.1.clone()).collect()), &format!("{what}: iris"))?;
    for (a, b) in m {
        eqd(map.get_namespace(&nsp(a)).map(istr), Some(b.as_str()), &format!("{what}: get_namespace({a})"))?;
        eqd(map.get_prefix(&iri(b)).map(|x| x.as_ref()), Some(a.as_str()), &format!("{what}: get_prefix({b})"))?;
    }
    eqd(map.get_default_namespace().map(istr), m_left(m, ":"), &format!("{what}: default namespace"))
}

pub fn p12(g: &mut Gen) -> R {
    let start = g.map();
    let (mut map, mut m) = build(&start);
    same_map(&map, &m, "initial")?;
    let n = 1 + g.below(8);
    for _ in 0..n {
        let op = g.below(8);
        match op {
            0 | 1 => {
                let (a, b) = (g.ns(), g.dir_iri());
                map.insert(nsp(&a), iri(&b));
                m_insert(&mut m, &a, &b);
            }
            2 => {
                let a = g.ns();
                map.remove(&nsp(&a));
                m.retain(|p| p.0 != a);
            }
            3 => {
                let b = g.dir_iri();
                if g.flag() {
                    map.set_default_namespace(iri(&b));
                } else {
                    map = map.with_default(iri(&b));
                }
                m_insert(&mut m, ":", &b);
            }
            4 => {
                map.remove_default_namespace();
                m.retain(|p| p.0 != ":");
            }
            5 => {
                let (a, b) = (g.ns(), g.dir_iri());
                map = map.with(nsp(&a), iri(&b));
                m_insert(&mut m, &a, &b);
            }
            6 if g.below(4) == 0 => {
                map.clear();
                m.clear();
            }
            _ => {
                let (a, b) = (g.ns(), g.dir_iri());
                eqd(map.get_namespace(&nsp(&a)).map(istr), m_left(&m, &a), "get_namespace")?;
                eqd(map.get_prefix(&iri(&b)).map(|x| x.as_ref()), m_right(&m, &b), "get_prefix")?;
            }
        }
        same_map(&map, &m, &format!("after operation {op}"))?;
    }
    Ok(())
}

pub const COMMON: &[(&str, &str)] = &[
    ("rdf:", "http://www.w3.org/1999/02/22-rdf-syntax-ns#"), ("rdfs:", "http://www.w3.org/2000/01/rdf-schema#"),
    ("xsd:", "http://www.w3.org/2001/XMLSchema#"), ("owl:", "http://www.w3.org/2002/07/owl#"),
    ("dcterms:", "http://purl.org/dc/terms/"), ("skos:", "http://www.w3.org/2004/02/skos/core#"),
    ("void:", "http://rdfs.org/ns/void#"),
];

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

pub fn p13(g: &mut Gen) -> R {
    let own = |v: &[(&str, &str)]| v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Model>();
    same_map(&IriPrefixMap::default(), &own(&COMMON[..4]), "default()")?;
    same_map(&IriPrefixMap::common(), &own(COMMON), "common()")?;
    same_map(&IriPrefixMap::empty(), &vec![], "empty()")?;
    let pairs = g.map();
    let (a, b) = (g.ns(), g.dir_iri());
    let (map, m) = build(&pairs);
    let mut m1 = m.clone();
    m_insert(&mut m1, &a, &b);
    let v = Vocabulary::new(leak(&a[..a.len() - 1]), leak(&b));
    same_map(&map.clone().with(nsp(&a), iri(&b)), &m1, "with")?;
    same_map(&map.clone().with_vocabulary(&v), &m1, "with_vocabulary")?;
    let mut map2 = map.clone();
    map2.insert_vocabulary(&v);
    same_map(&map2, &m1, "insert_vocabulary")?;
    let mut m2 = m.clone();
    m_insert(&mut m2, ":", &b);
    same_map(&map.with_default(iri(&b)), &m2, "with_default")
}

fn some_ns(g: &mut Gen, m: &Model) -> String {
    if !m.is_empty() && g.flag() {
        let k = g.below(m.len());
        m[k].0.clone()
    } else {
        g.ns()
    }
}

pub fn p14(g: &mut Gen) -> R {
    let pairs = g.map();
    let (map, m) = build(&pairs);
    let a = some_ns(g, &m);
    let n = g.name();
    let got = map.expand(&LocalName::new(nsp(&a), nm(&n))).map(Url::from);
    let want = m_left(&m, &a).and_then(|b| ref_make(&Url::parse(b).unwrap(), &n));
    ensure!(got == want, "expand({a}{n}) = {got:?}, expected {want:?}");
    if let Some(b) = m_left(&m, &a) {
        if n.is_ascii() && is_ns_iri(b) {
            eqd(got.map(|u| u.to_string()), Some(format!("{b}{n}")), "expand")?;
        }
    }
    Ok(())
}

pub fn p15(g: &mut Gen) -> R {
    let pairs = g.map();
    let (map, m) = build(&pairs);
    let t = if !m.is_empty() && g.flag() {
        let k = g.below(m.len());
        let n = g.name();
        match ref_make(&Url::parse(&m[k].1).unwrap(), &n) {
            Some(u) => u.to_string(),
            None => g.iri(),
        }
    } else {
        g.iri()
    };
    let i = iri(&t);
    let got = map.compress(&i);
    let want = ref_split(url(&i)).and_then(|(a, b)| m_right(&m, a.as_str()).map(|p| LocalName::new(nsp(p), nm(&b))));
    ensure!(got == want, "compress({t:?}) = {got:?}, expected {want:?}");
    let r = map.compress_to_iriref(&i);
    match &got {
        None => eqd(r, IriRef::Iri(i.clone()), "compress_to_iriref")?,
        Some(l) => {
            eqd(r, IriRef::PrefixedName(PrefixedName::Local(l.clone())), "compress_to_iriref")?;
            if plain(url(&i)) {
                eqd(map.expand(l), Some(i), "expand(compress(iri))")?;
            }
        }
    }
    let (b, a, n) = (g.ns_iri(), g.ns(), g.ascii_name());
    let map = map.with(nsp(&a), iri(&b));
    let l = LocalName::new(nsp(&a), nm(&n));
    match map.expand(&l) {
        None => Err(format!("expand({l}) = None where {a} is {b}")),
        Some(j) => eqd(map.compress(&j), Some(l), "compress(expand(name))"),
    }
}

pub fn vocabs() -> Vec<(&'static str, Vocabulary, &'static str, &'static str)> {
    use rdftk_iri::vocab::*;
    vec![
        ("CAL", VOCABULARY_CAL, "cal", "http://www.w3.org/2002/12/cal/ical#"),
        ("DBPEDIA", VOCABULARY_DBPEDIA, "dbpedia", "http://dbpedia.org/ontology/"),
        ("DC_ELEMENTS", VOCABULARY_DC_ELEMENTS, "dc", "http://purl.org/dc/elements/1.1/"),
        ("DC_TERMS", VOCABULARY_DC_TERMS, "dcterms", "http://purl.org/dc/terms/"),
        ("DOAP", VOCABULARY_DOAP, "doap", "http://usefulinc.com/ns/doap#"),
        ("FOAF", VOCABULARY_FOAF, "foaf", "http://xmlns.com/foaf/0.1/"),
        ("GEO_NAMES", VOCABULARY_GEO_NAMES, "geonames", "http://www.geonames.org/ontology#"),
        ("ISO_SKOS", VOCABULARY_ISO_SKOS, "isothes", "http://purl.org/iso25964/skos-thes#"),
        ("OPEN_GIS", VOCABULARY_OPEN_GIS, "opengis", "http://www.opengis.net/ont/geosparql#"),
        ("ORG", VOCABULARY_ORG, "org", "http://www.w3.org/ns/org#"),
        ("OWL", VOCABULARY_OWL, "owl", "http://www.w3.org/2002/07/owl#"),
        ("RDF", VOCABULARY_RDF, "rdf", "http://www.w3.org/1999/02/22-rdf-syntax-ns#"),
        ("RDF_SCHEMA", VOCABULARY_RDF_SCHEMA, "rdfs", "http://www.w3.org/2000/01/rdf-schema#"),
        ("SIOC", VOCABULARY_SIOC, "sioc", "http://rdfs.org/sioc/ns#"),
        ("SKOS", VOCABULARY_SKOS, "skos", "http://www.w3.org/2004/02/skos/core#"),
        ("SKOS_XL", VOCABULARY_SKOS_XL, "skosxl", "http://www.w3.org/2008/05/skos-xl#"),
        ("VANN", VOCABULARY_VANN, "vann", "http://purl.org/vocab/vann/"),
        ("VOID", VOCABULARY_VOID, "void", "http://rdfs.org/ns/void#"),
        ("WOT", VOCABULARY_WOT, "wot", "http://xmlns.com/wot/0.1/"),
        ("XML", VOCABULARY_XML, "xml", "http://www.w3.org/XML/1998/namespace#"),
        ("XML_SCHEMA", VOCABULARY_XML_SCHEMA, "xsd", "http://www.w3.org/2001/XMLSchema#"),
    ]
}

pub fn p16(g: &mut Gen) -> R {
    for (c, v, p, i) in vocabs() {
        eqd(v.prefix(), p, &format!("prefix of VOCABULARY_{c}"))?;
        eqd(v.iri(), i, &format!("IRI of VOCABULARY_{c}"))?;
        eqd(v.prefix_as_namespace().to_string(), format!("{p}:"), &format!("namespace of VOCABULARY_{c}"))?;
        eqd(istr(&v.iri_as_iri()), i, &format!("IRI of VOCABULARY_{c}"))?;
        ensure!(v.iri_as_iri().looks_like_namespace(), "VOCABULARY_{c} is not a namespace");
    }
    let (a, b, d) = (g.ns(), g.iri(), g.text());
    let p = &a[..a.len() - 1];
    let (sp, sb, sd) = (leak(p), leak(&b), leak(&d));
    let v = Vocabulary::new(sp, sb);
    eqd(v.prefix(), p, "Vocabulary::prefix")?;
    eqd(v.iri(), b.as_str(), "Vocabulary::iri")?;
    eqd(v.description().map(|d| d.to_string()), None, "Vocabulary::description")?;
    let w = v.with_description(sd);
    eqd((w.prefix(), w.iri(), w.description().map(|d| d.to_string())), (p, b.as_str(), Some(d.clone())), "Vocabulary::with_description")?;
    for v in [v, w] {
        eqd(v.prefix_as_namespace().to_string(), a.clone(), "Vocabulary::prefix_as_namespace")?;
        eqd(url(&v.iri_as_iri()), &Url::parse(&b).unwrap(), "Vocabulary::iri_as_iri")?;
    }
    Ok(())
}

pub fn p17(g: &mut Gen) -> R {
    let t = g.iri();
    let i = iri(&t);
    let u = url(&i);
    if u.scheme() == "file" {
        return Ok(());
    }
    match (i.genid(), u.cannot_be_a_base()) {
        (Err(_), true) => Ok(()),
        (Ok(v), false) => {
            let w = url(&v);
            if plain(u) {
                eqd(&w[..url::Position::BeforePath], &u[..url::Position::BeforePath], "scheme and server")?;
            }
            let id = w.path().strip_prefix("/.well-known/genid/").ok_or(format!("path {:?}", w.path()))?;
            ensure!(id.len() == 32 && id.chars().all(|c| c.is_ascii_digit() || ('a'..='f').contains(&c)), "identifier {id:?}");
            ensure!(w.query().is_none() && w.fragment().is_none(), "genid({t:?}) = {v}");
            ensure!(i.genid().unwrap() != v, "repeated identifier {v}");
            Ok(())
        }
        (r, _) => Err(format!("genid({t:?}) = {r:?}")),
    }
}

// ---------------------------------------------------------------- equality, order, hash, clone
fn coherent<T: Clone + Eq + Ord + Hash + Debug>(v: &[(T, Vec<String>)]) -> R {
    for (a, ta) in v {
        ensure!(a.clone() == *a, "a clone of {a:?} differs");
        for (b, tb) in v {
            ensure!((a == b) == (ta == tb), "{a:?} == {b:?} is {}", a == b);
            ensure!((a != b) == (ta != tb), "{a:?} != {b:?} is {}", a != b);
            let c = a.cmp(b);
            ensure!((c == Ordering::Equal) == (a == b), "{a:?} cmp {b:?} is {c:?}");
            ensure!(b.cmp(a) == c.reverse(), "{b:?} cmp {a:?} is {:?}", b.cmp(a));
            ensure!(a.partial_cmp(b) == Some(c), "{a:?} partial_cmp {b:?} is {:?}", a.partial_cmp(b));
            ensure!((a < b) == (c == Ordering::Less) && (a <= b) == (c != Ordering::Greater), "{a:?} < {b:?}");
            ensure!((a > b) == (c == Ordering::Greater) && (a >= b) == (c != Ordering::Less), "{a:?} > {b:?}");
            ensure!(a != b || hash(a) == hash(b), "hashes of equal {a:?} and {b:?} differ");
            for (d, _) in v {
                ensure!(!(c == Ordering::Less && b.cmp(d) == Ordering::Less) || a.cmp(d) == Ordering::Less, "{a:?} < {b:?} < {d:?}");
            }
        }
    }
    Ok(())
}

pub fn p18(g: &mut Gen) -> R {
    let mut names = vec![];
    let mut nss = vec![];
    let mut locals = vec![];
    let mut pns = vec![];
    let mut iris = vec![];
    let mut refs = vec![];
    for _ in 0..3 {
        let (a, b) = if g.flag() { (g.ns(), g.name()) } else { (closed(&g.text()), g.text()) };
        let t = g.iri();
        let l = LocalName::new(nsp(&a), nm(&b));
        names.push((nm(&b), vec![b.clone()]));
        nss.push((nsp(&a), vec![a.clone()]));
        locals.push((l.clone(), vec![a.clone(), b.clone()]));
        pns.push((PrefixedName::Namespace(nsp(&a)), vec!["n".into(), a.clone()]));
        pns.push((PrefixedName::Local(l.clone()), vec!["l".into(), a.clone(), b.clone()]));
        let n = norm(&t);
        iris.push((iri(&t), vec![n.clone()]));
        refs.push((IriRef::Iri(iri(&t)), vec!["i".to_string(), n]));
        refs.push((IriRef::PrefixedName(PrefixedName::Local(l)), vec!["l".into(), a.clone(), b]));
        refs.push((IriRef::PrefixedName(PrefixedName::Namespace(nsp(&a))), vec!["n".into(), a]));
    }
    let (l0, l1) = (locals[0].1.clone(), locals[1].1.clone());
    for (x, y) in [(&l0[0], &l1[1]), (&l1[0], &l0[1])] {
        locals.push((LocalName::new(nsp(x), nm(y)), vec![x.clone(), y.clone()]));
    }
    coherent(&names)?;
    coherent(&nss)?;
    coherent(&locals)?;
    coherent(&pns)?;
    coherent(&iris)?;
    let mut vocabs = vec![];
    for _ in 0..2 {
        let (p, q, d) = (g.text(), g.text(), g.text());
        let v = Vocabulary::new(leak(&p), leak(&q));
        vocabs.push((v, vec![p.clone(), q.clone()]));
        vocabs.push((v.with_description(leak(&d)), vec![p, q, d]));
    }
    for (a, ta) in &vocabs {
        #[allow(clippy::clone_on_copy)]
        let c = a.clone();
        ensure!(c == *a, "a clone of {a:?} differs");
        for (b, tb) in &vocabs {
            ensure!((a == b) == (ta == tb), "{a:?} == {b:?} is {}", a == b);
            ensure!(a != b || hash(a) == hash(b), "{a:?} and {b:?} hash differently");
        }
    }
    for (a, ta) in &refs {
        ensure!(a.clone() == *a, "a clone of {a:?} differs");
        for (b, tb) in &refs {
            ensure!((a == b) == (ta == tb), "{a:?} == {b:?} is {}", a == b);
        }
    }
    let (p, q) = (g.map(), g.map());
    let ((m1, mut a), (m2, mut b)) = (build(&p), build(&q));
    a.sort();
    b.sort();
    ensure!((m1 == m2) == (a == b), "{m1:?} == {m2:?} is {}", m1 == m2);
    ensure!(m1.clone() == m1, "a clone of {m1:?} differs");
    let mut m3 = m1.clone();
    let k = g.ns();
    let i = g.iri();
    m3.insert(nsp(&k), iri(&i));
    ensure!((m3 == m1) == (m_left(&a, &k) == Some(norm(&i).as_str())), "{m3:?} == {m1:?} is {}", m3 == m1);
    Ok(())
}

// ---------------------------------------------------------------- serde
fn round<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + Debug>(v: &T) -> R {
    let j = serde_json::to_string(v).map_err(|e| format!("{v:?} does not serialize: {e}"))?;
    let r: Result<T, _> = serde_json::from_str(&j);
    ensure!(matches!(&r, Ok(x) if x == v), "{v:?} -> {j} -> {r:?}");
    let j = serde_json::to_value(v).map_err(|e| format!("{v:?} does not serialize: {e}"))?;
    let r: Result<T, _> = serde_json::from_value(j.clone());
    ensure!(matches!(&r, Ok(x) if x == v), "{v:?} -> {j} -> {r:?}");
    let j = bincode::serialize(v).map_err(|e| format!("{v:?} does not serialize: {e}"))?;
    let r: Result<T, _> = bincode::deserialize(&j);
    ensure!(matches!(&r, Ok(x) if x == v), "{v:?} -> {j:?} -> {r:?}");
    Ok(())
}

pub fn p19(g: &mut Gen) -> R {
    let (a, b, t) = (g.ns(), g.name(), g.iri());
    let (ns, n, i) = (nsp(&a), nm(&b), iri(&t));
    let l = LocalName::new(ns.clone(), n.clone());
    round(&n)?;
    round(&ns)?;
    round(&l)?;
    round(&i)?;
    round(&PrefixedName::Namespace(ns.clone()))?;
    round(&PrefixedName::Local(l.clone()))?;
    round(&IriRef::Iri(i.clone()))?;
    round(&IriRef::PrefixedName(PrefixedName::Local(l.clone())))?;
    let p = g.map();
    let (m, _) = build(&p);
    round(&m)?;
    eqd(serde_json::to_value(&n).unwrap(), serde_json::json!(b), "serialized name")?;
    eqd(serde_json::to_value(&ns).unwrap(), serde_json::json!(a), "serialized namespace")?;
    eqd(serde_json::to_value(&i).unwrap(), serde_json::json!(norm(&t)), "serialized IRI")?;
    let s = g.text();
    let j = serde_json::json!(s);
    let r: Result<Iri, _> = serde_json::from_value(j.clone());
    let q = Iri::from_str(&s);
    if let Ok(x) = &r {
        ensure!(q.as_ref().ok() == Some(x), "deserializing an Iri from {s:?}: {r:?}, parsing gives {q:?}");
    }
    // documents whose only text was replaced
    let mut d = serde_json::to_value(PrefixedName::Namespace(ns.clone())).unwrap();
    if let Some(o) = d.as_object_mut() {
        if o.len() == 1 && o.values().next() == Some(&serde_json::json!(a)) {
            let k = o.keys().next().unwrap().clone();
            o.insert(k, j.clone());
            let r: Result<PrefixedName, _> = serde_json::from_value(d.clone());
            ensure!(r.is_ok() == ref_ns(&s), "deserializing a PrefixedName from {d}: {r:?}");
        }
    }
    let (one, _) = build(&vec![(a.clone(), t.clone())]);
    let mut d = serde_json::to_value(&one).unwrap();
    if let Some(o) = d.as_object_mut() {
        if let Some(inner) = o.values_mut().next().and_then(|v| v.as_object_mut()) {
            if let Some(v) = inner.remove(&a) {
                inner.insert(s.clone(), v);
                let r: Result<IriPrefixMap, _> = serde_json::from_value(d.clone());
                ensure!(r.is_ok() == ref_ns(&s), "deserializing a prefix map from {d}: {r:?}");
            }
        }
    }
    let r: Result<Name, _> = serde_json::from_value(j.clone());
    ensure!(r.is_ok() == ref_name(&s), "deserializing a Name from {s:?}: {r:?}");
    let r: Result<Namespace, _> = serde_json::from_value(j);
    ensure!(r.is_ok() == ref_ns(&s), "deserializing a Namespace from {s:?}: {r:?}");
    // a local name whose parts were replaced by arbitrary texts
    let (x, y) = (g.text(), g.text());
    let mut d = serde_json::to_value(&l).unwrap();
    if let Some(o) = d.as_object_mut() {
        for (k, t) in [("namespace", &x), ("name", &y)] {
            if o.contains_key(k) {
                o.insert(k.to_string(), serde_json::json!(t));
            }
        }
        if o.len() == 2 && o.get("name") == Some(&serde_json::json!(y)) {
            let r: Result<LocalName, _> = serde_json::from_value(d.clone());
            ensure!(r.is_ok() == (ref_ns(&x) && ref_name(&y)), "deserializing a LocalName from {d}: {r:?}");
        }
    }
    Ok(())
}

pub fn p20(g: &mut Gen) -> R {
    let (a, b, t, s) = (closed(&g.text()), g.text(), g.iri(), g.text());
    let (ns, i) = (nsp(&a), iri(&t));
    let l = LocalName::new(ns.clone(), nm(&b));
    let (pn, pl) = (PrefixedName::Namespace(ns.clone()), PrefixedName::Local(l.clone()));
    eqd(PrefixedName::from(ns.clone()), pn.clone(), "PrefixedName from Namespace")?;
    eqd(PrefixedName::from(&ns), pn.clone(), "PrefixedName from &Namespace")?;
    eqd(PrefixedName::from(l.clone()), pl.clone(), "PrefixedName from LocalName")?;
    eqd(PrefixedName::from(&l), pl.clone(), "PrefixedName from &LocalName")?;
    ensure!(pn.is_namespace() && !pn.is_local() && pl.is_local() && !pl.is_namespace(), "PrefixedName classification");
    eqd(pn.try_as_namespace_ref(), Some(&ns), "try_as")?;
    eqd(pn.try_as_local_ref(), None, "try_as")?;
    eqd(pl.try_as_local_ref(), Some(&l), "try_as")?;
    eqd(pl.try_as_namespace_ref(), None, "try_as")?;
    eqd(pn.clone().try_as_namespace(), Some(ns.clone()), "try_as")?;
    eqd(pl.clone().try_as_local(), Some(l.clone()), "try_as")?;
    eqd(pl.clone().try_as_namespace(), None, "try_as")?;
    for p in [&pn, &pl] {
        let r = IriRef::PrefixedName(p.clone());
        eqd(IriRef::from(p.clone()), r.clone(), "IriRef from PrefixedName")?;
        eqd(IriRef::from(p), r.clone(), "IriRef from &PrefixedName")?;
        ensure!(r.is_prefixed_name() && !r.is_iri(), "IriRef classification");
        eqd(r.to_string(), p.to_string(), "IriRef text")?;
        eqd(r.try_as_prefixed_name_ref(), Some(p), "try_as")?;
        eqd(r.try_as_iri_ref(), None, "try_as")?;
        eqd(r.clone().try_as_prefixed_name(), Some(p.clone()), "try_as")?;
        eqd(r.clone().try_as_iri(), None, "try_as")?;
    }
    let mut r = IriRef::Iri(i.clone());
    eqd(IriRef::from(i.clone()), r.clone(), "IriRef from Iri")?;
    eqd(IriRef::from(&i), r.clone(), "IriRef from &Iri")?;
    ensure!(r.is_iri() && !r.is_prefixed_name(), "IriRef classification");
    eqd(r.to_string(), i.to_string(), "IriRef text")?;
    eqd(r.try_as_iri_ref(), Some(&i), "try_as")?;
    eqd(r.try_as_iri_mut().cloned(), Some(i.clone()), "try_as")?;
    eqd(r.try_as_prefixed_name_ref(), None, "try_as")?;
    eqd(r.clone().try_as_iri(), Some(i.clone()), "try_as")?;
    for e in [NameParseError::EmptyString, NameParseError::InvalidCharacter(s.clone()),
              NameParseError::TooManySeparators(s.clone()), NameParseError::MissingSeparator(s.clone())] {
        let (k, m) = (kind(&e), e.to_string());
        ensure!(e.is_empty_string() == (k.0 == 0) && e.is_invalid_character() == (k.0 == 1)
            && e.is_too_many_separators() == (k.0 == 2) && e.is_missing_separator() == (k.0 == 3), "classification of {e:?}");
        eqd(e.try_as_invalid_character_ref().cloned(), (k.0 == 1).then(|| k.1.clone()), "try_as")?;
        eqd(e.try_as_too_many_separators_ref().cloned(), (k.0 == 2).then(|| k.1.clone()), "try_as")?;
        eqd(e.try_as_missing_separator_ref().cloned(), (k.0 == 3).then(|| k.1.clone()), "try_as")?;
        let x = Error::from(e);
        ensure!(x.is_name() && !x.is_url(), "classification of {x:?}");
        ensure!(x.to_string().contains(&m), "message of {x:?}");
        let src = std::error::Error::source(&x).map(|s| s.to_string());
        eqd(src, Some(m), "source")?;
        eqd(x.try_as_name_ref().map(kind), Some(k), "try_as")?;
    }
    if let Err(e) = Url::parse(&s) {
        let x = Error::from(e);
        ensure!(x.is_url() && !x.is_name(), "classification of {x:?}");
        ensure!(x.to_string().contains(&e.to_string()), "message of {x:?}");
        eqd(std::error::Error::source(&x).map(|s| s.to_string()), Some(e.to_string()), "source")?;
        eqd(x.try_as_url_ref(), Some(&e), "try_as")?;
    }
    Ok(())
}

pub fn p21(g: &mut Gen) -> R {
    let (s, b, t, u) = (g.text(), g.text(), g.iri(), g.text());
    let (ns, n, mut i) = (nsp(&s), nm(&b), iri(&t));
    let l = LocalName::new(ns.clone(), n.clone());
    let _ = (Name::from_str(&s), Name::is_valid_str(&s), Name::try_from(s.clone()), Name::from_str(&b));
    let _ = (Namespace::from_str(&s), Namespace::is_valid_str(&s), Namespace::new_named(&*s), Namespace::try_from(b.clone()));
    let _ = (LocalName::from_str(&s), LocalName::from_str(&u), LocalName::new_unchecked(&*s, &*u), LocalName::new_in_default(n.clone()));
    let _ = (ns.name_string(), ns.is_default(), ns.qualify(&n), n.qualify(&ns), l.as_curie(), l.to_string(), String::from(&l));
    let _ = (Iri::from_str(&s), Iri::try_from(&*u), i.to_string(), format!("{i:#}"));
    let _ = (i.with_new_path(&s), i.with_new_fragment(&s), i.with_empty_fragment(), i.with_no_fragment());
    let _ = (i.looks_like_namespace(), i.split(), i.namespace(), i.name(), i.make_name(n.clone()), i.genid().is_ok());
    let _ = AsMut::<Url>::as_mut(&mut i).path().len();
    let p = g.map();
    let (mut m, _) = build(&p);
    let _ = (m.expand(&l), m.compress(&i), m.compress_to_iriref(&i), m.get_namespace(&ns), m.get_prefix(&i), m.len(), m.is_empty());
    m.insert(ns.clone(), i.clone());
    let _ = (m.expand(&l), m.compress(&i), m.compress_to_iriref(&i), m.get_default_namespace());
    m.set_default_namespace(i.clone());
    m.remove(&ns);
    m.remove_default_namespace();
    let _ = (m.mappings().count(), m.prefixes().count(), m.iris().count());
    m.clear();
    let (a, c, d) = (g.ns(), g.iri(), leak(&s));
    let v = Vocabulary::new(leak(&a[..a.len() - 1]), leak(&c)).with_description(d);
    let _ = (v.prefix_as_namespace(), v.iri_as_iri(), v.description());
    m.insert_vocabulary(&v);
    let m = m.with_vocabulary(&v).with_default(i.clone()).with(ns.clone(), iri(&c));
    let _ = (m.clone() == m, IriPrefixMap::common().len());
    let r = [IriRef::from(&i), IriRef::from(PrefixedName::from(&l)), IriRef::from(PrefixedName::from(&ns))];
    let _ = (r[0] == r[1], r[1].to_string(), r[2].to_string(), r[0].clone().try_as_iri());
    let _ = (ns.cmp(&nsp(&u)), n.cmp(&nm(&u)), i.cmp(&iri(&c)), hash(&l), hash(&i));
    let _ = (Error::from(NameParseError::InvalidCharacter(s.clone())).to_string(), format!("{l:?} {i:?} {m:?} {v:?}"));
    Ok(())
}

// ---------------------------------------------------------------- assumed contracts of `url`
const FRAGSAFE: fn(char) -> bool = |c| ('!'..='~').contains(&c) && !"\"<>`".contains(c);
const SEGSAFE: fn(char) -> bool = |c| FRAGSAFE(c) && !"#?{}/\\%:|".contains(c);

pub fn url_model(g: &mut Gen) -> R {
    let t = g.iri();
    let u = Url::parse(&t).unwrap();
    let (s, n) = (g.text(), g.ascii_name());
    eqd(Url::parse(u.as_str()), Ok(u.clone()), "U1")?;
    let w = Url::parse(&g.iri()).unwrap();
    ensure!((u == w) == (u.as_str() == w.as_str()) && u.cmp(&w) == u.as_str().cmp(w.as_str()), "U1 order");
    let head = |u: &Url| u[..url::Position::BeforePath].to_string();
    let mut v = u.clone();
    v.set_fragment(Some(&s));
    eqd(&v[..url::Position::AfterQuery], &u[..url::Position::AfterQuery], "U2")?;
    if s.chars().all(FRAGSAFE) {
        eqd(v.fragment(), Some(s.as_str()), "U2 identity")?;
    }
    ensure!(v.fragment().unwrap().chars().all(FRAGSAFE), "U2 range");
    let mut v2 = w.clone();
    v2.set_fragment(Some(&s));
    eqd(v.fragment(), v2.fragment(), "U2 function")?;
    let mut v = u.clone();
    v.set_fragment(None);
    eqd(v.fragment(), None, "U3")?;
    if !(u.cannot_be_a_base() && u.query().is_none()) {
        eqd(&v[..], &u[..url::Position::AfterQuery], "U3 rest")?;
    }
    if !u.cannot_be_a_base() && plain(&u) {
        let p = u.path().to_string();
        ensure!(p.is_empty() || p.starts_with('/'), "U5");
        for k in p.match_indices('/').map(|x| x.0 + 1).chain([p.len()]) {
            for q in [p[..k].to_string(), format!("{}{n}", &p[..k])] {
                if k == p.len() && !p.ends_with('/') && q.len() > k {
                    continue;
                }
                if q.starts_with("//") && !u.has_authority() {
                    continue;
                }
                let mut v = u.clone();
                v.set_path(&q);
                eqd(v.path(), q.as_str(), "U4 identity")?;
                eqd(head(&v), head(&u), "U4 rest")?;
                eqd((v.query(), v.fragment()), (u.query(), u.fragment()), "U4 rest")?;
            }
        }
        if n.chars().all(SEGSAFE) {
            let j = u.join(&format!("/.well-known/genid/{n}")).map_err(|e| format!("U6 {e}"))?;
            eqd(j.as_str().to_string(), format!("{}/.well-known/genid/{n}", head(&u)), "U6")?;
        }
    } else if u.cannot_be_a_base() {
        ensure!(!u.path().starts_with('/'), "U5 opaque");
        ensure!(u.join("/x").is_err(), "U6 opaque");
    }
    Ok(())
}
