//! Uses of std operations on arbitrary texts.  `rv/selftest.py` runs each function in the verifier
//! on unconstrained texts and compares what it derives with what the compiled function returns.
#![allow(clippy::all, deprecated, unused_mut)]

macro_rules! one { ($($n:ident($s:ident) -> $t:ty $b:block)*) => { $(pub fn $n($s: &str) -> $t $b)*
    pub const ONE: &[&str] = &[$(stringify!($n)),*];
    pub fn call1(f: &str, s: &str) -> String { match f { $(stringify!($n) => crate::J::j(&$n(s)),)* _ => panic!() } } } }
macro_rules! two { ($($n:ident($s:ident, $p:ident) -> $t:ty $b:block)*) => { $(pub fn $n($s: &str, $p: &str) -> $t $b)*
    pub const TWO: &[&str] = &[$(stringify!($n)),*];
    pub fn call2(f: &str, s: &str, p: &str) -> String { match f { $(stringify!($n) => crate::J::j(&$n(s, p)),)* _ => panic!() } } } }

type S = String;
type O<T> = Option<T>;

pub mod a {
use super::*;
one! {
    len(s) -> usize { s.len() }
    is_empty(s) -> bool { s.is_empty() }
    count(s) -> usize { s.chars().count() }
    first(s) -> O<char> { s.chars().next() }
    last(s) -> O<char> { s.chars().last() }
    next_back(s) -> O<char> { s.chars().next_back() }
    nth1(s) -> O<char> { s.chars().nth(1) }
    rev_nth1(s) -> O<char> { s.chars().rev().nth(1) }
    skip1(s) -> S { s.chars().skip(1).collect() }
    take2(s) -> S { s.chars().take(2).collect() }
    rev(s) -> O<char> { s.chars().rev().find(|c| c.is_ascii_digit()) }
    starts(s) -> bool { s.starts_with("a:") }
    starts_c(s) -> bool { s.starts_with(':') }
    starts_f(s) -> bool { s.starts_with(|c: char| c.is_ascii_digit()) }
    starts_a(s) -> bool { s.starts_with(&[':', 'a'][..]) }
    ends(s) -> bool { s.ends_with(":b") }
    ends_c(s) -> bool { s.ends_with('.') }
    ends_f(s) -> bool { s.ends_with(char::is_alphabetic) }
    strip_p(s) -> O<&str> { s.strip_prefix("a:") }
    strip_pc(s) -> O<&str> { s.strip_prefix('<') }
    strip_s(s) -> O<&str> { s.strip_suffix(":b") }
    strip_sc(s) -> O<&str> { s.strip_suffix(|c| c == '>' || c == ':') }
    contains(s) -> bool { s.contains("::") }
    contains_c(s) -> bool { s.contains(':') }
    contains_f(s) -> bool { s.contains(|c: char| c.is_uppercase()) }
    contains_a(s) -> bool { s.contains(['.', '#']) }
    find(s) -> O<usize> { s.find(':') }
    find_s(s) -> O<usize> { s.find("::") }
    find_f(s) -> O<usize> { s.find(|c: char| !c.is_alphanumeric()) }
    rfind(s) -> O<usize> { s.rfind(':') }
    rfind_f(s) -> O<usize> { s.rfind(|c: char| c == '/' || c == '#') }
    split_once(s) -> O<(&str, &str)> { s.split_once(':') }
    split_once_s(s) -> O<(&str, &str)> { s.split_once("::") }
    rsplit_once(s) -> O<(&str, &str)> { s.rsplit_once(':') }
    rsplit_once_s(s) -> O<(&str, &str)> { s.rsplit_once("::") }
    split_first(s) -> O<&str> { s.split(':').next() }
    split_second(s) -> O<&str> { s.split(':').nth(1) }
    split_last(s) -> O<&str> { s.split(':').next_back() }
    split_last2(s) -> O<&str> { s.split(':').last() }
    rsplit_first(s) -> O<&str> { s.rsplit(':').next() }
    rsplit_second(s) -> O<&str> { s.rsplit(':').nth(1) }
    splitn2(s) -> (O<S>, O<S>, O<S>) { let mut i = s.splitn(2, ':').map(str::to_string); (i.next(), i.next(), i.next()) }
    splitn3(s) -> (O<S>, O<S>, O<S>, O<S>) { let mut i = s.splitn(3, ':').map(String::from); (i.next(), i.next(), i.next(), i.next()) }
    rsplitn2(s) -> (O<&str>, O<&str>, O<&str>) { let mut i = s.rsplitn(2, ':'); (i.next(), i.next(), i.next()) }
    split_two(s) -> bool { s.split(':').count() == 2 }
    split_f(s) -> O<&str> { s.split(|c| c == '/' || c == '#').next_back() }
    split_term(s) -> (O<&str>, O<&str>) { let mut i = s.split_terminator(':'); (i.next(), i.next()) }
    split_term_b(s) -> O<&str> { s.split_terminator('/').next_back() }
    split_incl(s) -> (O<&str>, O<&str>) { let mut i = s.split_inclusive(':'); (i.next(), i.next()) }
    split_incl_b(s) -> O<&str> { s.split_inclusive('/').next_back() }
    split_any(s) -> bool { s.split(':').any(|p| p.is_empty()) }
    split_all(s) -> bool { s.split('/').all(|p| p != "..") }
    split_at(s) -> O<(&str, &str)> { s.find(':').map(|i| s.split_at(i)) }
    slice_to(s) -> O<&str> { s.find(':').map(|i| &s[..i]) }
    slice_from(s) -> O<&str> { s.rfind(':').map(|i| &s[i + 1..]) }
    slice_incl(s) -> O<&str> { s.find(':').map(|i| &s[..=i]) }
    get_to(s) -> O<&str> { s.get(..2) }
    get_from(s) -> O<&str> { s.get(1..) }
    get_last(s) -> O<&str> { s.get(..s.len().checked_sub(1)?) }
    boundary(s) -> bool { s.is_char_boundary(2) }
    split_checked(s) -> O<(&str, &str)> { s.split_at_checked(1) }
    trim(s) -> &str { s.trim() }
    trim_start(s) -> &str { s.trim_start() }
    trim_end(s) -> &str { s.trim_end() }
    trim_m(s) -> &str { s.trim_matches(':') }
    trim_sm(s) -> &str { s.trim_start_matches(':') }
    trim_em(s) -> &str { s.trim_end_matches(':') }
    trim_ems(s) -> &str { s.trim_end_matches("::") }
    trim_sms(s) -> &str { s.trim_start_matches("::") }
    trim_ema(s) -> &str { s.trim_end_matches(&['/', '#'][..]) }
    trim_emf(s) -> &str { s.trim_end_matches(|c: char| c.is_ascii_digit()) }
    trim_ascii(s) -> &str { s.trim_ascii() }
    replace(s) -> S { s.replace(':', "") }
    replace1(s) -> S { s.replacen(':', "_", 1) }
    replace_s(s) -> S { s.replace("::", ":") }
    upper(s) -> S { s.to_ascii_uppercase() }
    lower(s) -> S { s.to_ascii_lowercase() }
    low_c(s) -> O<char> { s.chars().next().map(|c| c.to_ascii_lowercase()) }
    eq_ic(s) -> bool { s.eq_ignore_ascii_case("Ab") }
    matches(s) -> usize { s.matches(':').count() }
    match_idx(s) -> O<usize> { s.match_indices(':').nth(1).map(|(i, _)| i) }
    match_last(s) -> O<usize> { s.match_indices(':').last().map(|(i, _)| i) }
    repeat(s) -> S { s.repeat(2) }
    char_idx(s) -> O<(usize, char)> { s.char_indices().nth(1) }
    char_idx_b(s) -> O<(usize, char)> { s.char_indices().next_back() }
    char_idx_last(s) -> O<usize> { s.char_indices().filter(|(_, c)| *c == ':').map(|(i, _)| i).last() }
    char_idx_find(s) -> O<usize> { s.char_indices().find(|&(_, c)| c == ':').map(|(i, _)| i) }
    pos(s) -> O<usize> { s.chars().position(|c| c == ':') }
    rpos(s) -> O<usize> { s.bytes().rposition(|c| c == b':') }
    bpos(s) -> O<usize> { s.bytes().position(|c| c == b':') }
    all(s) -> bool { s.chars().all(|c| c.is_ascii_alphanumeric()) }
    any(s) -> bool { s.chars().any(|c| c == ':') }
    skip_all(s) -> bool { s.chars().skip(1).all(|c| c.is_ascii_alphanumeric()) }
    skip_while(s) -> O<char> { s.chars().skip_while(|c| *c == ':').next() }
    take_while(s) -> S { s.chars().take_while(|c| *c != ':').collect() }
    map_while(s) -> S { s.chars().map_while(|c| if c == ':' { None } else { Some(c) }).collect() }
    filter(s) -> S { s.chars().filter(|c| *c != ':').collect() }
    filter_first(s) -> O<char> { s.chars().filter(|c| c.is_ascii_digit()).next() }
    filter_map(s) -> O<char> { s.chars().filter_map(|c| if c.is_ascii_digit() { Some(c) } else { None }).next() }
    find_map(s) -> O<usize> { s.char_indices().find_map(|(i, c)| if c == '.' { Some(i) } else { None }) }
    rev_pos(s) -> O<usize> { s.chars().rev().position(|c| c == ':') }
    fold_last(s) -> O<char> { s.chars().fold(None, |_, c| Some(c)) }
    fold_ok(s) -> bool { s.chars().fold(true, |ok, c| ok && c != ':') }
    fold_cnt(s) -> bool { s.chars().filter(|&c| c == ':').count() == 1 }
    try_fold(s) -> O<char> { s.chars().try_fold(' ', |_, c| if c == ':' { None } else { Some(c) }) }
    try_each(s) -> bool { s.chars().try_for_each(|c| if c == ':' { Err(()) } else { Ok(()) }).is_ok() }
    peek(s) -> (O<char>, O<char>) { let mut i = s.chars().peekable(); let p = i.peek().copied(); (p, i.next()) }
    next_if(s) -> (bool, S) { let mut i = s.chars().peekable(); let b = i.next_if(|c| *c == ':').is_some(); (b, i.collect()) }
    next_if_eq(s) -> (O<char>, O<char>) { let mut i = s.chars().peekable(); (i.next_if_eq(&'a'), i.next()) }
    as_str(s) -> &str { let mut i = s.chars(); i.next(); i.as_str() }
    as_str_b(s) -> &str { let mut i = s.chars(); i.next_back(); i.as_str() }
    enumerate(s) -> bool { s.chars().enumerate().all(|(i, c)| if i == 0 { c.is_ascii_alphabetic() } else { c.is_ascii_alphanumeric() }) }
    enum_find(s) -> O<(usize, char)> { s.chars().enumerate().find(|(i, c)| *i > 0 && *c == ':') }
    zip_idx(s) -> bool { s.chars().zip(0..).all(|(c, i)| i > 0 || c == 'a') }
    chain(s) -> S { s.chars().chain("!".chars()).collect() }
    once_chain(s) -> S { std::iter::once('<').chain(s.chars()).collect() }
    eq_iter(s) -> bool { s.chars().eq("ab".chars()) }
    vec_first(s) -> O<char> { s.chars().collect::<Vec<_>>().first().copied() }
    vec_idx(s) -> O<char> { let v: Vec<char> = s.chars().collect(); if v.len() > 1 { Some(v[1]) } else { None } }
    vec_split(s) -> bool { let v: Vec<char> = s.chars().collect(); matches!(v.split_last(), Some((l, r)) if *l == ':' && r.iter().all(|c| c.is_ascii_alphabetic())) }
    vec_pat(s) -> u8 { match s.chars().collect::<Vec<_>>()[..] { [] => 0, [':'] => 1, ['a', .., ':'] => 2, [.., '.'] => 3, _ => 4 } }
    vec_contains(s) -> bool { s.chars().collect::<Vec<_>>().contains(&':') }
    parts(s) -> u8 { match s.split(':').collect::<Vec<_>>()[..] { [_] => 1, [a, b] if a.is_empty() && !b.is_empty() => 2, [_, _] => 3, _ => 4 } }
    parts_last(s) -> O<&str> { let v: Vec<&str> = s.splitn(2, ':').collect(); v.last().copied() }
    bytes_first(s) -> O<u8> { s.as_bytes().first().copied() }
    bytes_last(s) -> O<u8> { s.as_bytes().last().copied() }
    bytes_at(s) -> O<u8> { s.as_bytes().get(1).copied() }
    bytes_pat(s) -> u8 { match s.as_bytes() { [] => 0, [b'<', .., b'>'] => 1, [b'_', b':', ..] => 2, [.., b':'] => 3, _ => 4 } }
    bytes_all(s) -> bool { s.bytes().all(|b| b.is_ascii_alphanumeric()) }
    bytes_any(s) -> bool { s.as_bytes().iter().any(|&b| b == b':') }
    bytes_cnt(s) -> bool { s.bytes().filter(|b| *b == b':').count() == 1 }
    bytes_rev(s) -> O<u8> { s.bytes().rev().next() }
    bytes_starts(s) -> bool { s.as_bytes().starts_with(b"a:") }
    bytes_ends(s) -> bool { s.as_bytes().ends_with(b":b") }
    push(s) -> S { let mut t = s.to_string(); t.push(':'); t.push_str("x"); t }
    pop(s) -> (O<char>, S) { let mut t = s.to_string(); let c = t.pop(); (c, t) }
    insert(s) -> S { let mut t = s.to_string(); t.insert(0, ':'); t.insert_str(1, "ab"); t }
    remove(s) -> (char, S) { let mut t = format!("x{s}"); let c = t.remove(0); (c, t) }
    truncate(s) -> S { let mut t = s.to_string(); if let Some(i) = t.find(':') { t.truncate(i) } t }
    retain(s) -> S { let mut t = s.to_string(); t.retain(|c| c != ':'); t }
    drain(s) -> S { let mut t = format!("{s}:"); let i = t.find(':').unwrap(); t.drain(..=i); t }
    split_off(s) -> (S, S) { let mut t = s.to_string(); let i = t.rfind(':').unwrap_or(0); let u = t.split_off(i); (t, u) }
    add(s) -> S { s.to_string() + ":" + s }
    fmt(s) -> S { format!("<{}>", s) }
    fmt2(s) -> S { format!("{s}:{{{0}}}", s) }
    concat(s) -> S { ["<", s, ">"].concat() }
    join(s) -> S { [s, "b"].join(":") }
    extend(s) -> S { let mut t = String::new(); t.extend(s.chars()); t.extend(["a", "b"]); t }
    clear(s) -> S { let mut t = s.to_string(); t.clear(); t.push('z'); t }
    cow(s) -> S { std::borrow::Cow::from(s).into_owned() }
    boxed(s) -> S { s.to_string().into_boxed_str().into_string() }
    take(s) -> (S, S) { let mut t = s.to_string(); let u = std::mem::take(&mut t); (t, u) }
    replace_m(s) -> (S, S) { let mut t = s.to_string(); let u = std::mem::replace(&mut t, "new".into()); (t, u) }
    opt_filter(s) -> O<&str> { Some(s).filter(|s| !s.is_empty()) }
    opt_zip(s) -> O<(char, char)> { s.chars().next().zip(s.chars().last()) }
    opt_xor(s) -> O<char> { s.chars().next().xor(s.chars().nth(1)) }
    opt_map_or(s) -> usize { s.find(':').map_or(s.len(), |i| i + 1) }
    opt_or(s) -> O<usize> { s.find('#').or_else(|| s.find('/')) }
    opt_and(s) -> bool { s.find(':').is_some_and(|i| i > 0) }
    opt_none_or(s) -> bool { s.chars().next().is_none_or(|c| c == 'a') }
    res(s) -> Result<S, usize> { s.find(':').ok_or(7).and_then(|i| if i == 0 { Err(i) } else { Ok(s[..i].to_string()) }) }
    res_ok(s) -> O<usize> { let r: Result<usize, ()> = s.find(':').ok_or(()); r.ok() }
    q_opt(s) -> O<char> { let (a, b) = s.split_once(':')?; let c = a.chars().next()?; if b.is_empty() { None } else { Some(c) } }
    alpha(s) -> O<bool> { s.chars().next().map(|c| c.is_alphabetic()) }
    alnum(s) -> bool { s.chars().all(char::is_alphanumeric) }
    ascii(s) -> bool { s.is_ascii() }
    white(s) -> bool { s.chars().any(char::is_whitespace) }
    ctl(s) -> bool { s.contains(char::is_control) }
    digit(s) -> O<bool> { s.chars().next().map(|c| c.is_digit(16)) }
    range(s) -> bool { s.chars().all(|c| matches!(c, 'a'..='z' | '0'..='9' | ':')) }
    range2(s) -> bool { s.chars().all(|c| ('a'..='z').contains(&c) || ('0'..'9').contains(&c)) }
    u32c(s) -> bool { s.chars().all(|c| (c as u32) < 0x80 && c as u8 != b':') }
    utf8(s) -> O<usize> { s.chars().next().map(char::len_utf8) }
    cmp_c(s) -> bool { s.chars().next() < Some('b') }
    is_sorted2(s) -> bool { s.chars().max() == Some(':') }
    loop_first(s) -> bool { let mut f = true; for c in s.chars() { if f && c == ':' { return false; } f = false; } !f }
    loop_last(s) -> O<char> { let mut l = None; for c in s.chars() { l = Some(c); } l }
    loop_two(s) -> bool { let mut p = ' '; for c in s.chars() { if c == ':' && p == ':' { return true; } p = c; } false }
    loop_cnt(s) -> bool { let mut n = 0; for c in s.chars() { if c == ':' { n += 1; if n > 1 { return true; } } } false }
    loop_look(s) -> bool { let mut i = s.chars(); while let Some(c) = i.next() { if c == ':' && i.as_str().is_empty() { return true; } } false }
    loop_look2(s) -> bool { let mut i = s.chars(); while let Some(c) = i.next() { if c == ':' && i.clone().next() == Some('a') { return true; } } false }
    loop_peek(s) -> bool { let mut i = s.chars().peekable(); while let Some(c) = i.next() { if c == '.' && i.peek().is_none() { return true; } } false }
    loop_idx(s) -> O<usize> { for (i, c) in s.char_indices() { if c == ':' { return Some(i); } } None }
    loop_idx_len(s) -> bool { for (i, c) in s.char_indices() { if c == '.' && i + 1 == s.len() { return true; } } false }
    loop_pos(s) -> O<usize> { let b = s.as_bytes(); let mut i = 0; while i < b.len() { if b[i] == b':' { return Some(i); } i += 1; } None }
    loop_pos_b(s) -> O<usize> { let b = s.as_bytes(); let mut i = b.len(); while i > 0 { i -= 1; if b[i] == b':' { return Some(i); } } None }
    loop_vec(s) -> bool { let v: Vec<char> = s.chars().collect(); let mut i = 0; while i < v.len() { if v[i] == ':' && i + 1 < v.len() { return true; } i += 1; } false }
    loop_vec2(s) -> bool { let v: Vec<char> = s.chars().collect(); for i in 0..v.len() { if v[i] == ':' && i == 0 || v[i] == '.' && i == v.len() - 1 { return true; } } false }
    loop_vec3(s) -> bool { let v: Vec<char> = s.chars().collect(); for i in 1..v.len() { if v[i] == ':' && v[i - 1] == ':' { return true; } } false }
    loop_rev(s) -> O<usize> { for (i, c) in s.char_indices().rev() { if c == '/' || c == '#' { return Some(i); } } None }
    loop_rev2(s) -> bool { for c in s.chars().rev() { if c == ':' { return true; } if !c.is_ascii_digit() { return false; } } false }
    loop_state(s) -> u8 { let mut st = 0; for c in s.chars() { st = match (st, c) { (0, ':') => 1, (0, _) => 0, (1, ':') => 2, (1, _) => 1, (x, _) => x }; } st }
    loop_pop(s) -> S { let mut t = s.to_string(); while t.ends_with(':') { t.pop(); } t }
    loop_strip(s) -> &str { let mut t = s; while let Some(r) = t.strip_suffix('/') { t = r; } t }
    loop_find(s) -> O<&str> { let mut i = s.split(':'); while let Some(p) = i.next() { if !p.is_empty() { return Some(p); } } None }
    loop_build(s) -> S { let mut t = String::new(); for c in s.chars() { if c != ':' { t.push(c); } } t }
    loop_byref(s) -> (O<char>, &str) { let mut i = s.chars(); let c = i.by_ref().find(|c| *c == ':'); (c, i.as_str()) }
    loop_takew(s) -> (bool, &str) { let mut i = s.chars(); let b = i.by_ref().take_while(|c| *c != ':').all(|c| c.is_ascii_alphabetic()); (b, i.as_str()) }
}
}

pub mod b {
use super::*;
two! {
    eq(s, p) -> bool { s == p }
    cmp(s, p) -> std::cmp::Ordering { s.cmp(p) }
    lt(s, p) -> bool { s < p }
    max(s, p) -> S { s.max(p).to_string() }
    starts(s, p) -> bool { s.starts_with(p) }
    ends(s, p) -> bool { s.ends_with(p) }
    strip_p(s, p) -> O<S> { s.strip_prefix(p).map(str::to_owned) }
    strip_s(s, p) -> O<S> { s.strip_suffix(p).map(str::to_owned) }
    concat(s, p) -> S { format!("{s}:{p}") }
    concat_eq(s, p) -> bool { format!("{s}{p}") == "ab" }
    eq_ic(s, p) -> bool { s.eq_ignore_ascii_case(p) }
    eq_rev(s, p) -> bool { s.chars().eq(p.chars()) }
    cmp_it(s, p) -> std::cmp::Ordering { s.chars().cmp(p.chars()) }
    cmp_len(s, p) -> std::cmp::Ordering { s.len().cmp(&p.len()) }
    cmp_then(s, p) -> std::cmp::Ordering { s.len().cmp(&p.len()).then_with(|| s.cmp(p)) }
    both(s, p) -> bool { !s.is_empty() && p.contains(':') }
    tuple(s, p) -> bool { (s, p) < (p, s) }
    opt(s, p) -> bool { s.chars().next() == p.chars().next() }
    split(s, p) -> bool { format!("{s}:{p}").split_once(':') == Some((s, p)) }
    rsplit(s, p) -> bool { format!("{s}:{p}").rsplit_once(':') == Some((s, p)) }
    len(s, p) -> bool { s.len() + p.len() > 3 }
    zip_all(s, p) -> bool { s.len() == p.len() && s.bytes().zip(p.bytes()).all(|(a, b)| a == b) }
}
}

pub mod c {
use super::*;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct Pair { a: String, b: Option<char> }
impl Pair {
    fn new(s: &str) -> Self { Self { a: s.to_string(), ..Default::default() } }
    fn with(mut self, c: Option<char>) -> Self { self.b = c; self }
    fn set(&mut self, s: &str) -> &mut Self { self.a.clear(); self.a.push_str(s); self }
    fn a(&self) -> &str { &self.a }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind { Empty, Sep(char), Word { first: char, digit: bool } }
impl Kind {
    fn of(s: &str) -> Kind {
        match s.chars().next() { None => Kind::Empty, Some(c @ (':' | '.')) => Kind::Sep(c), Some(c) => Kind::Word { first: c, digit: c.is_ascii_digit() } }
    }
}
impl From<char> for Kind { fn from(c: char) -> Self { Kind::Sep(c) } }
pub struct Bad(u8);
impl From<Kind> for Bad { fn from(k: Kind) -> Self { Bad(match k { Kind::Empty => 0, Kind::Sep(_) => 1, Kind::Word { .. } => 2 }) } }
pub trait Shape { fn sides(&self) -> usize; fn twice(&self) -> usize { self.sides() * 2 } }
impl Shape for Kind { fn sides(&self) -> usize { match self { Kind::Empty => 0, Kind::Sep(_) => 1, Kind::Word { digit: true, .. } => 2, _ => 3 } } }
impl Shape for Pair { fn sides(&self) -> usize { 7 } fn twice(&self) -> usize { 15 } }
fn both<T: Shape, U: Shape + ?Sized>(t: &T, u: &U) -> usize { t.twice() + u.twice() }
fn check(s: &str) -> Result<&str, Kind> { if s.is_empty() { Err(Kind::Empty) } else if s.starts_with(':') { Err(':'.into()) } else { Ok(s) } }
fn outer(s: &str) -> Result<usize, Bad> { let t = check(s)?; if t.starts_with('9') { return Err(Kind::of(t).into()); } Ok(3) }
fn apply<F: FnOnce(&str) -> bool>(f: F, s: &str) -> bool { f(s) }
fn mk(c: char) -> impl Fn(char) -> bool { move |x| x == c }
fn boxed(b: bool) -> Box<dyn Fn(char) -> bool> { if b { Box::new(|c| c == ':') } else { Box::new(char::is_alphabetic) } }
fn rec(s: &str, n: usize) -> usize { if n == 0 || s.is_empty() { n } else { rec(&s[s.chars().next().unwrap().len_utf8()..], n - 1) } }
struct Walk<'a> { rest: &'a str }
impl<'a> Iterator for Walk<'a> {
    type Item = char;
    fn next(&mut self) -> Option<char> { let c = self.rest.chars().next()?; self.rest = &self.rest[c.len_utf8()..]; Some(c) }
}
const SEPS: [char; 3] = [':', '/', '#'];
static TABLE: &[(&str, usize)] = &[("a", 1), (":", 2), ("ab", 3)];
const LIMIT: usize = 1 + 1;

one! {
    build(s) -> (S, O<char>) { let p = Pair::new(s).with(s.chars().last()); (p.a.clone(), p.b) }
    chain_mut(s) -> S { let mut p = Pair::new("x"); p.set(s).set("q"); p.set(s); p.a().to_string() }
    clone_indep(s) -> (S, S) { let p = Pair::new(s); let mut q = p.clone(); q.set("z"); (p.a, q.a) }
    derive_eq(s) -> bool { Pair::new(s) == Pair::new("ab").with(None) }
    derive_ne(s) -> bool { Pair::new("ab").with(s.chars().next()) != Pair { a: "ab".into(), b: Some(':') } }
    kind(s) -> u8 { match Kind::of(s) { Kind::Empty => 0, Kind::Sep(':') => 1, Kind::Sep(_) => 2, Kind::Word { digit: true, .. } => 3, Kind::Word { first, .. } if first == 'a' => 4, _ => 5 } }
    kind_eq(s) -> bool { Kind::of(s) == Kind::Word { first: 'a', digit: false } }
    kind_lt(s) -> bool { Kind::of(s) < Kind::Sep(':') }
    kind_copy(s) -> bool { let k = Kind::of(s); let l = k; matches!(k, Kind::Sep(c) if c == '.') || l == Kind::Empty }
    generic(s) -> usize { both(&Kind::of(s), &Pair::default()) }
    dynamic(s) -> usize { let x: &dyn Shape = if s.is_empty() { &Kind::Empty } else { &Pair { a: String::new(), b: None } }; x.twice() }
    boxed_dyn(s) -> usize { let x: Box<dyn Shape> = if s.starts_with(':') { Box::new(Kind::of(s)) } else { Box::new(Pair::default()) }; x.sides() + x.twice() }
    question(s) -> Result<usize, u8> { outer(s).map_err(|b| b.0) }
    once(s) -> bool { let t = s.to_string(); apply(move |x| x == t, "ab") }
    impl_fn(s) -> bool { s.contains(mk('.')) }
    box_fn(s) -> bool { s.starts_with(boxed(s.len() > 1)) }
    fn_ptr(s) -> bool { let f: fn(char) -> bool = if s.len() == 1 { |c| c == 'a' } else { |c| c == ':' }; s.chars().any(f) }
    capture_mut(s) -> usize { let mut n = 0; let mut bump = |k: usize| n += k; if s.is_empty() { bump(1); } else { bump(2); bump(3); } n }
    recursion(s) -> usize { rec(s, 3) }
    walk(s) -> O<char> { let mut w = Walk { rest: s }; w.next(); w.next() }
    walk_all(s) -> bool { Walk { rest: s }.all(|c| c != ':') }
    consts(s) -> bool { s.starts_with(SEPS) || s.len() == LIMIT }
    table(s) -> O<usize> { TABLE.iter().find(|(k, _)| *k == s).map(|(_, v)| *v) }
    table_rev(s) -> O<usize> { TABLE.iter().rev().position(|&(k, _)| s.starts_with(k)) }
    table_for(s) -> usize { let mut n = 0; for (i, (k, v)) in TABLE.iter().enumerate() { if s.contains(k.chars().next().unwrap()) { n += v * 10 + i; } } n }
    let_else(s) -> usize { let Some((a, _)) = s.split_once(':') else { return 99 }; a.len() }
    labels(s) -> usize { let mut n = 0; 'o: for i in 0..3 { for j in 0..3 { if j > i { continue 'o; } if s.len() == i + j { break 'o; } n += 1; } } n }
    range_loop(s) -> usize { let mut n = 0; for i in (1..=3).rev() { if s.len() >= i { n = n * 10 + i; } } n }
    step(s) -> usize { (0..6).step_by(2).filter(|i| *i != s.len()).sum() }
    arith(s) -> (usize, usize) { let n = s.len(); (n.saturating_sub(2), n.wrapping_sub(n + 1)) }
    checked(s) -> (O<usize>, O<usize>) { (s.len().checked_sub(1), s.len().checked_add(2)) }
    underflow(s) -> usize { s.len() - 1 }
    divmod(s) -> (usize, usize) { (s.len() / 2, s.len() % 3) }
    min_max(s) -> (usize, usize) { (s.len().min(2), std::cmp::max(s.len(), 3)) }
    cast(s) -> usize { s.chars().next().map_or(0, |c| (c as u32 as u8) as usize) }
    cast_char(s) -> O<char> { s.as_bytes().first().map(|b| (*b | 0x20) as char) }
    bits(s) -> bool { s.as_bytes().first().map_or(false, |b| b & 0x80 == 0 && b ^ 1 != b'`') }
    digits(s) -> O<usize> { s.chars().next().and_then(|c| c.to_digit(16)).map(|d| d as usize) }
    hex(s) -> O<char> { char::from_digit((s.len() % 16) as u32, 16) }
    from_u32(s) -> O<char> { char::from_u32(0xD7FE + s.len() as u32) }
    parse_num(s) -> O<usize> { s.parse::<usize>().ok() }
    parse_char(s) -> O<char> { s.parse::<char>().ok() }
    cow(s) -> (bool, S) { let c: Cow<str> = if s.starts_with(':') { Cow::Borrowed(&s[1..]) } else { Cow::Owned(format!("{s}!")) }; (matches!(c, Cow::Borrowed(_)), c.into_owned()) }
    cell(s) -> usize { let c = Cell::new(1); if !s.is_empty() { c.set(c.get() + 4); } c.get() }
    refcell(s) -> S { let c = RefCell::new(String::from("<")); c.borrow_mut().push_str(s); let t = c.borrow().clone(); t + ">" }
    rc(s) -> bool { let a: Rc<str> = Rc::from(s); let b = Rc::clone(&a); &*a == "ab" && Rc::ptr_eq(&a, &b) }
    swap(s) -> (S, S) { let (mut a, mut b) = (s.to_string(), "b".to_string()); if s.len() > 1 { std::mem::swap(&mut a, &mut b); } (a, b) }
    opt_take(s) -> (bool, bool) { let mut o = s.chars().next(); let t = o.take(); (o.is_none(), t.is_some()) }
    opt_replace(s) -> (O<char>, O<char>) { let mut o = s.chars().next(); let t = o.replace('q'); (o, t) }
    opt_insert(s) -> char { let mut o = s.chars().next(); *o.get_or_insert('q') }
    opt_mut(s) -> O<char> { let mut o = s.chars().next(); if let Some(c) = o.as_mut() { if *c == 'a' { *c = 'b'; } } o }
    opt_cmp(s) -> bool { s.find(':') < s.find('.') }
    opt_eq(s) -> bool { s.chars().next() == s.chars().last() }
    opt_map_else(s) -> usize { s.find(':').map_or_else(|| s.len() + 1, |i| i) }
    opt_unwrap(s) -> usize { s.find(':').unwrap() }
    opt_default(s) -> usize { s.find('.').unwrap_or_default() }
    opt_iter(s) -> usize { s.find(':').into_iter().chain(s.find('.')).max().unwrap_or(9) }
    opt_flat(s) -> O<char> { s.split_once(':').and_then(|(_, b)| b.chars().next()) }
    res_or(s) -> usize { check(s).map(str::len).unwrap_or(77) }
    res_and(s) -> bool { check(s).and_then(|t| check(&t[t.chars().next().unwrap().len_utf8()..])).is_err() }
    res_match(s) -> u8 { match (check(s), s.len()) { (Ok(_), 1) => 0, (Ok(t), n) if t.len() == n => 1, (Err(Kind::Empty), _) => 2, _ => 3 } }
    res_collect(s) -> bool { ["a", s, "b"].iter().map(|x| check(x)).collect::<Result<Vec<_>, _>>().is_ok() }
    opt_collect(s) -> O<S> { s.chars().next().into_iter().map(|c| if c == ':' { None } else { Some(c) }).collect() }
    vec_ops(s) -> (usize, O<S>) { let mut v = vec!["x".to_string()]; v.push(s.to_string()); if s.is_empty() { v.clear(); } v.insert(0, "y".into()); (v.len(), v.pop()) }
    vec_get(s) -> O<S> { let v = vec![s.to_string(), "b".into()]; v.get(s.len()).cloned() }
    vec_idx(s) -> S { let v = [s, "b", "c"]; v[s.len()].to_string() }
    vec_iter(s) -> bool { vec![s, "ab"].into_iter().all(|x| x.len() == 2) }
    vec_sort(s) -> (usize, usize) { let mut v = vec![s.len(), 2, 1]; v.sort(); v.dedup(); (v[0], v.len()) }
    vec_retain(s) -> usize { let mut v = vec![s, "a", ""]; v.retain(|x| !x.is_empty()); v.len() }
    vec_join(s) -> S { vec![s.to_string(), "b".to_string()].join("/") }
    vec_eq(s) -> bool { vec![s, "b"] == ["a", "b"] }
    vec_contains(s) -> bool { ["a", "ab", ":"].contains(&s) }
    vec_win(s) -> bool { [s, "a", ":"].windows(2).any(|w| w[0] == w[1]) }
    arr_map(s) -> (usize, usize) { let [a, b] = [s, "abc"].map(|x| x.len()); (a, b) }
    tuple_match(s) -> u8 { match (s.starts_with(':'), s.ends_with(':')) { (true, true) if s.len() == 1 => 0, (true, true) => 1, (false, true) => 2, (true, false) => 3, (false, false) => 4 } }
    str_match(s) -> u8 { match s { "" => 0, "a" | ":" => 1, x if x.len() > 2 => 2, "ab" => 3, _ => 4 } }
    slice_match(s) -> u8 { match s.split_once(':') { Some(("", "")) => 0, Some(("", _)) => 1, Some((_, "")) => 2, Some((a, b)) if a == b => 3, Some(_) => 4, None => 5 } }
    num_match(s) -> u8 { match s.len() { 0 => 0, 1..=2 => 1, n if n % 2 == 0 => 2, 3.. => 3 } }
    char_match(s) -> u8 { match s.chars().next() { Some('a'..='z') => 0, Some('A'..='Z' | '_') => 1, Some(c) if c > '\u{7f}' => 2, Some(_) => 3, None => 4 } }
    nested(s) -> O<O<char>> { s.split_once(':').map(|(_, b)| b.chars().next()) }
    shadow(s) -> S { let s = s.trim_start_matches(':'); let s = s.to_string(); let s = &s[..]; s.into() }
    block(s) -> usize { let n = { let m = s.len(); m * 2 } + if s.is_empty() { 1 } else { 0 }; n }
    lazy_and(s) -> bool { s.len() > 1 && s.as_bytes()[1] == b':' }
    lazy_or(s) -> bool { s.is_empty() || s.as_bytes()[0] == b':' }
    early(s) -> u8 { if s.is_empty() { return 1; } let c = match s.chars().next() { Some(c) => c, None => unreachable!() }; if c == ':' { 2 } else { 3 } }
    fmt_char(s) -> O<S> { s.chars().next().map(|c| format!("[{}|{}]", c, c == ':')) }
    fmt_num(s) -> S { format!("{}-{:?}", s.len(), Some(1)) }
    fmt_dbg(s) -> S { format!("{:?}", s) }
    write(s) -> S { use std::fmt::Write; let mut t = String::new(); write!(t, "{}:{}", s, 1).unwrap(); t }
    to_string_c(s) -> O<S> { s.chars().next().map(|c| c.to_string()) }
    eq_string(s) -> bool { s.to_string() == *"ab" && "ab".to_string() == s }
    sort_key(s) -> std::cmp::Ordering { (s.len(), 1).cmp(&(2, 0)) }
    ord_then(s) -> std::cmp::Ordering { s.len().cmp(&2).reverse().then(1.cmp(&0)) }
    ne_chain(s) -> bool { !(s != "a") | (s == ":") ^ s.is_empty() }
    compound(s) -> usize { let mut n = 1; n += s.len(); n *= 3; n -= 1; n /= 2; n %= 5; n <<= 1; n |= 1; n }
    zip(s) -> bool { s.chars().zip("a:".chars()).all(|(a, b)| a == b) }
    unzip(s) -> (usize, bool) { let (a, b): (Vec<_>, Vec<_>) = [(s.len(), true), (1, false)].into_iter().unzip(); (a[0] + a[1], b[0]) }
    partition(s) -> usize { let (a, _): (Vec<&str>, Vec<&str>) = [s, "a", "bb"].iter().partition(|x| x.len() == 1); a.len() }
    min_by(s) -> O<usize> { [s.len(), 2].into_iter().min() }
    successors(s) -> usize { std::iter::successors(Some(1usize), |n| if *n < 8 { Some(n * 2) } else { None }).filter(|n| *n != s.len()).count() }
    try_from(s) -> Result<u8, bool> { u8::try_from(s.len() + 250).map_err(|_| false) }
    cmp_swap(s) -> bool { let t = "b"; s > t || t >= s }
    bool_then(s) -> O<usize> { s.is_empty().then_some(1).or((s.len() == 1).then(|| 2)) }
    once_table(s) -> bool { static T: std::sync::OnceLock<Vec<(char, char)>> = std::sync::OnceLock::new(); s.chars().any(|c| T.get_or_init(|| vec![('a', 'c'), (':', ':')]).iter().any(|&(a, b)| a <= c && c <= b)) }
    lazy_table(s) -> bool { static T: std::sync::LazyLock<Vec<char>> = std::sync::LazyLock::new(|| vec!['a', ':']); s.chars().all(|c| T.contains(&c)) }
    lazy_text(s) -> bool { static T: std::sync::LazyLock<String> = std::sync::LazyLock::new(|| format!("{}b", "a")); s == T.as_str() || s.len() == T.len() + 1 }
    pos_first(s) -> bool { let mut i = 0usize; for c in s.chars() { let ok = if i == 0 { c.is_ascii_alphabetic() } else { c != ':' }; if !ok { return false; } i += 1; } i > 0 }
    pos_last(s) -> O<usize> { let mut at = None; let mut off = 0; for c in s.chars() { off += c.len_utf8(); if c == '/' || c == '#' { at = Some(off); } } at }
    pos_rest(s) -> &str { let mut off = 0; for c in s.chars() { if c == ':' { break; } off += c.len_utf8(); } &s[off..] }
    pos_third(s) -> bool { let mut i = 0usize; for c in s.chars() { if i == 2 && c == ':' { return true; } i += 1; } false }
    pos_count(s) -> usize { let mut n = 0; for _ in s.chars() { n += 1; } n }
    walk_rest(s) -> bool { let mut r = s; while let Some(c) = r.chars().next() { if c == ':' { return false; } r = &r[c.len_utf8()..]; } true }
    walk_pos(s) -> bool { let mut r = s; let mut n = 0usize; while let Some(c) = r.chars().next() { let f = if n == 0 { c != '9' } else { c != ':' }; if !f { return false; } n += 1; r = &r[c.len_utf8()..]; } true }
    walk_end(s) -> &str { let mut r = s; while r.ends_with('.') { r = &r[..r.len() - 1]; } r }
    walk_pop(s) -> S { let mut t = s.to_string(); while t.ends_with(':') { t.pop(); } t }
    walk_strip(s) -> &str { let mut r = s; while let Some(q) = r.strip_prefix(':') { r = q; } r }
    walk_stop(s) -> S { let mut t = s.to_string(); while let Some(c) = t.pop() { if c == ':' || c == '/' { t.push(c); break; } } t }
    default(s) -> (S, bool) { let p = if s.is_empty() { Pair::default() } else { Pair::new(s) }; let b = p == Default::default(); (p.a, b) }
    phase(s) -> u8 { let mut k = Kind::Empty; for c in s.chars() { k = match k { Kind::Empty if c == ':' => Kind::Sep(c), Kind::Empty => Kind::Word { first: c, digit: c == '9' }, k => k }; } match k { Kind::Empty => 0, Kind::Sep(_) => 1, Kind::Word { .. } => 2 } }
}
}

pub trait J { fn j(&self) -> String; }
impl J for str { fn j(&self) -> String { format!("[{}]", self.chars().map(|c| (c as u32).to_string()).collect::<Vec<_>>().join(",")) } }
impl J for &str { fn j(&self) -> String { (**self).j() } }
impl J for String { fn j(&self) -> String { self.as_str().j() } }
impl J for bool { fn j(&self) -> String { self.to_string() } }
impl J for () { fn j(&self) -> String { "null".into() } }
impl J for usize { fn j(&self) -> String { self.to_string() } }
impl J for u8 { fn j(&self) -> String { self.to_string() } }
impl J for char { fn j(&self) -> String { format!("{{\"c\":{}}}", *self as u32) } }
impl J for std::cmp::Ordering { fn j(&self) -> String { format!("{{\"o\":{}}}", *self as i8) } }
impl<T: J> J for Option<T> { fn j(&self) -> String { match self { None => "null".into(), Some(x) => format!("{{\"some\":{}}}", x.j()) } } }
impl<T: J, E: J> J for Result<T, E> { fn j(&self) -> String { match self { Err(x) => format!("{{\"err\":{}}}", x.j()), Ok(x) => format!("{{\"ok\":{}}}", x.j()) } } }
impl<A: J, B: J> J for (A, B) { fn j(&self) -> String { format!("{{\"t\":[{},{}]}}", self.0.j(), self.1.j()) } }
impl<A: J, B: J, C: J> J for (A, B, C) { fn j(&self) -> String { format!("{{\"t\":[{},{},{}]}}", self.0.j(), self.1.j(), self.2.j()) } }
impl<A: J, B: J, C: J, D: J> J for (A, B, C, D) { fn j(&self) -> String { format!("{{\"t\":[{},{},{},{}]}}", self.0.j(), self.1.j(), self.2.j(), self.3.j()) } }
