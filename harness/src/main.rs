mod r#gen;
mod oracle;
use r#gen::*;
use oracle::*;
use serde_json::{Value, json};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::time::{Duration, Instant};

fn oracle_of(p: &str) -> Option<fn(&mut Gen) -> R> {
    Some(match p {
        "P01" => p01, "P02" => p02, "P03" => p03, "P04" => p04, "P05" => p05, "P06" => p06, "P07" => p07,
        "P08" => p08, "P09" => p09, "P10" => p10, "P11" => p11, "P12" => p12, "P13" => p13, "P14" => p14,
        "P15" => p15, "P16" => p16, "P17" => p17, "P18" => p18, "P19" => p19, "P20" => p20, "P21" => p21,
        "url" => url_model,
        _ => return None,
    })
}

/// one case; a panic is a failure
fn one(f: fn(&mut Gen) -> R, g: &mut Gen) -> R {
    g.start();
    match catch_unwind(AssertUnwindSafe(|| f(g))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            Err(format!("panic: {}", m.unwrap_or_default()))
        }
    }
}

fn pool_of(v: &Value) -> Pool {
    let mut p = Pool::default();
    for e in v.as_array().cloned().unwrap_or_default() {
        let k = e[0].as_str().unwrap_or("").to_string();
        if let Some(s) = e[1].as_str() {
            let s = s.to_string();
            match k.as_str() {
                "text" => p.texts.push(s),
                "name" | "rawname" => {
                    p.names.push(s.clone());
                    p.texts.push(s);
                }
                "ns" | "rawns" => {
                    p.texts.push(s[..s.len().saturating_sub(1)].to_string());
                    p.nss.push(s.clone());
                    p.texts.push(s);
                }
                "iri" => p.iris.push(s),
                _ => {}
            }
        } else if k == "map" {
            let m: Vec<(String, String)> = e[1].as_array().cloned().unwrap_or_default().iter()
                .filter_map(|x| Some((x[0].as_str()?.to_string(), x[1].as_str()?.to_string()))).collect();
            if !m.is_empty() {
                for (a, b) in &m {
                    p.nss.push(a.clone());
                    p.iris.push(b.clone());
                }
                p.maps.push(m);
            }
        }
    }
    p
}

fn report(prop: &str, msg: &str, log: &[Value], cases: u64) -> ! {
    println!("{}", json!({"status": "violation", "property": prop, "what": msg, "case": log, "cases": cases}));
    std::process::exit(1)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let usage = "rvh search PROP SEED SECONDS CASES SPEC.json | rvh replay PROP CASE.json";
    let prop = a.get(2).expect(usage).clone();
    let f = oracle_of(&prop).expect("unknown property");
    match a[1].as_str() {
        "replay" => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[3]).expect(usage)).expect("json");
            let v = if v["case"].is_array() { v["case"].clone() } else { v };
            let mut g = Gen::new(0, Pool::default(), vec![]);
            g.replay = Some(v.as_array().expect("case").iter().cloned().collect());
            match one(f, &mut g) {
                Ok(()) => println!("holds"),
                Err(m) => report(&prop, &m, &g.log.clone(), 1),
            }
        }
        "search" => {
            let seed: u64 = a[3].parse().expect(usage);
            let secs: f64 = a[4].parse().expect(usage);
            let max: u64 = a[5].parse().expect(usage);
            let spec: Value = serde_json::from_str(&std::fs::read_to_string(&a[6]).expect(usage)).expect("json");
            let dict: Vec<String> = spec["dict"].as_array().cloned().unwrap_or_default().iter().filter_map(|x| Some(x.as_str()?.to_string())).collect();
            let mut g = Gen::new(seed, pool_of(&spec["inputs"]), dict);
            let t0 = Instant::now();
            let mut cases = 0;
            // every character in first, middle and last position
            if prop == "P01" || prop == "P02" || prop == "P05" {
                for c in '\0'..=char::MAX {
                    for s in [format!("{c}"), format!("{c}a"), format!("a{c}a"), format!("a{c}")] {
                        let s = if prop == "P02" { s + ":" } else { s };
                        cases += 1;
                        g.replay = Some([json!(s)].into_iter().collect());
                        if let Err(m) = one(f, &mut g) {
                            report(&prop, &m, &g.log.clone(), cases);
                        }
                    }
                }
                g.replay = None;
            }
            let mut n = 0;
            while n < max && t0.elapsed() < Duration::from_secs_f64(secs) {
                n += 1;
                cases += 1;
                if let Err(m) = one(f, &mut g) {
                    report(&prop, &m, &g.log.clone(), cases);
                }
            }
            println!("{}", json!({"status": "ok", "property": prop, "cases": cases}));
        }
        _ => panic!("{usage}"),
    }
}
