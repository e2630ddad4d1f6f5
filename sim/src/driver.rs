//! Runs, minimises and replays. `main` of every generated worker binary.
use crate::meta::TypeEntry;
use crate::rng::{Fnv, Rng, mix};
use crate::scen::{self, Ctx, Viol};
use crate::step::Step;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

static BEAT: AtomicU64 = AtomicU64::new(0);
/// A run normally takes microseconds; one that makes no progress for 20 s never will.
fn watchdog() {
    std::thread::spawn(|| {
        let mut last = 0;
        let mut same = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let b = BEAT.load(Ordering::Relaxed);
            if b == u64::MAX {
                return;
            }
            same = if b == last { same + 1 } else { 0 };
            last = b;
            if same >= 20 {
                std::process::exit(4);
            }
        }
    });
}

pub struct Outcome {
    pub steps: Vec<Step>,
    pub viol: Option<(usize, Viol)>,
    pub digest: u64,
    pub inter: u64,
}

pub fn prop_num(p: &str) -> u64 {
    p.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64))
}
pub fn run_seed(seed: u64, prop: &str, i: u64) -> u64 {
    mix(mix(seed, prop_num(prop)), i)
}

/// One run: choices online from the PRNG.
pub fn run_online(prop: &str, types: &'static [TypeEntry], rs: u64, c: &mut Ctx) -> Outcome {
    c.dig = Fnv::new();
    let mut cfg = Rng(mix(rs, 1));
    let mut sc = scen::make(prop, types, &mut cfg).expect("unknown property");
    let mut r = Rng(mix(rs, 2));
    let n = sc.max_steps();
    let mut steps = Vec::with_capacity(n);
    let mut inter = Fnv::new();
    let mut v = None;
    for k in 0..n {
        let s = sc.propose(&mut r);
        inter.u64(s.act as u64);
        inter.u64(s.t as u64);
        inter.u64(s.op.as_ref().map(|o| o.k as u64 + 1).unwrap_or(0));
        inter.u64((s.plan != crate::fault::NO_PLAN) as u64);
        steps.push(s);
        if let Err(e) = sc.apply(&steps[k], c) {
            v = Some((k, e));
            break;
        }
    }
    if v.is_none() {
        if let Err(e) = sc.finish(c) {
            v = Some((steps.len(), e));
        }
    }
    Outcome { steps, viol: v, digest: c.dig.0, inter: inter.0 }
}
/// The same run from an explicit step list.
pub fn run_steps(prop: &str, types: &'static [TypeEntry], rs: u64, steps: &[Step], c: &mut Ctx) -> Option<(usize, Viol)> {
    c.dig = Fnv::new();
    let mut cfg = Rng(mix(rs, 1));
    let mut sc = scen::make(prop, types, &mut cfg).expect("unknown property");
    for (k, s) in steps.iter().enumerate() {
        c.log(|| format!("{k:3} {}", s.text()));
        if let Err(e) = sc.apply(s, c) {
            return Some((k, e));
        }
    }
    c.log(|| "    faults stop; final phase".to_string());
    sc.finish(c).err().map(|e| (steps.len(), e))
}

fn minimise(prop: &str, types: &'static [TypeEntry], rs: u64, steps: Vec<Step>, class: &str) -> Vec<Step> {
    let t0 = Instant::now();
    let fails = |s: &[Step]| {
        let mut c = Ctx::new();
        matches!(run_steps(prop, types, rs, s, &mut c), Some((_, v)) if v.class == class)
    };
    let mut cur = steps;
    let mut chunk = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut shrunk = false;
        while i < cur.len() {
            let mut t = cur.clone();
            let hi = (i + chunk).min(t.len());
            t.drain(i..hi);
            if fails(&t) {
                cur = t;
                shrunk = true;
            } else {
                i += chunk;
            }
            if t0.elapsed().as_secs() > 20 {
                return cur;
            }
        }
        if chunk == 1 && !shrunk {
            break;
        }
        if chunk > 1 {
            chunk /= 2;
        }
    }
    // simpler arguments
    for i in 0..cur.len() {
        let mut tries: Vec<Step> = Vec::new();
        let s = &cur[i];
        if s.plan != crate::fault::NO_PLAN {
            let mut x = s.clone();
            x.plan = crate::fault::NO_PLAN;
            tries.push(x);
        }
        if let Some(op) = &s.op {
            if !op.v.is_zero() {
                let mut x = s.clone();
                x.op.as_mut().unwrap().v = crate::Bv::zero(op.v.n);
                tries.push(x);
                let mut x = s.clone();
                x.op.as_mut().unwrap().v = crate::Bv::of(op.v.n, 1);
                tries.push(x);
            }
            if op.d {
                let mut x = s.clone();
                x.op.as_mut().unwrap().d = false;
                tries.push(x);
            }
            for k in 0..op.ws.len() {
                let mut x = s.clone();
                x.op.as_mut().unwrap().ws.remove(k);
                tries.push(x);
            }
        }
        for x in tries {
            let mut t = cur.clone();
            t[i] = x;
            if fails(&t) {
                cur = t;
            }
        }
    }
    cur
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn map<K: AsRef<str>>(it: impl Iterator<Item = (K, u64)>) -> String {
    let v: Vec<String> = it.map(|(k, n)| format!("{}:{n}", esc(k.as_ref()))).collect();
    format!("{{{}}}", v.join(","))
}

/// Arguments: run PROP SEED FROM STRIDE COUNT SECS OUT | steps PROP SEED INDEX FILE | list
pub fn main(types: Vec<TypeEntry>) -> i32 {
    let types: &'static [TypeEntry] = Box::leak(types.into_boxed_slice());
    crate::fault::install();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let prop = &a[2];
            let seed: u64 = a[3].parse().unwrap();
            let from: u64 = a[4].parse().unwrap();
            let stride: u64 = a[5].parse().unwrap();
            let count: u64 = a[6].parse().unwrap();
            let secs: f64 = a[7].parse().unwrap();
            let t0 = Instant::now();
            // where a run that takes the process down leaves its index
            use std::os::unix::fs::FileExt;
            let at = std::fs::File::create(format!("{}.at", a[8])).unwrap();
            watchdog();
            let mut c = Ctx::new();
            let mut runs = 0u64;
            let mut steps = 0u64;
            let mut inters: HashSet<u64> = HashSet::new();
            let mut all = Fnv::new();
            let mut samples: Vec<String> = Vec::new();
            let mut found: Option<(u64, Outcome)> = None;
            let mut det = 0u64;
            let mut i = from;
            while i < count {
                if t0.elapsed().as_secs_f64() > secs {
                    break;
                }
                let rs = run_seed(seed, prop, i);
                let _ = at.write_at(format!("{i:20}").as_bytes(), 0);
                BEAT.fetch_add(1, Ordering::Relaxed);
                let o = run_online(prop, types, rs, &mut c);
                runs += 1;
                steps += o.steps.len() as u64;
                inters.insert(o.inter);
                all.u64(o.digest);
                if runs % 64 == 1 && o.viol.is_none() {
                    // determinism: the recorded steps and a second online run agree with the first
                    let mut c2 = Ctx::new();
                    let o2 = run_online(prop, types, rs, &mut c2);
                    let mut c3 = Ctx::new();
                    let v3 = run_steps(prop, types, rs, &o.steps, &mut c3);
                    if o2.viol.is_some() || v3.is_some() {
                        // the same run again, later in the same process, goes wrong: generated code kept something
                        let mut o = o;
                        o.viol = o2.viol.or(v3);
                        found = Some((i, o));
                        break;
                    }
                    if o2.digest != o.digest || c3.dig.0 != o.digest {
                        eprintln!("NONDETERMINISTIC run {i}: {:x} {:x} {:x}", o.digest, o2.digest, c3.dig.0);
                        return 3;
                    }
                    det += 1;
                }
                if samples.len() < 2 && o.viol.is_none() && o.steps.len() > 5 {
                    let mut cfg = Rng(mix(rs, 1));
                    let d = scen::make(prop, types, &mut cfg).unwrap().describe();
                    let t: Vec<String> = o.steps.iter().take(8).map(|s| s.text()).collect();
                    samples.push(format!("run {i}: {d}: {} ... ({} steps)", t.join("; "), o.steps.len()));
                }
                if o.viol.is_some() {
                    found = Some((i, o));
                    break;
                }
                i += stride;
            }
            BEAT.store(u64::MAX, Ordering::Relaxed);
            let mut j = format!(
                "{{\"runs\":{runs},\"steps\":{steps},\"ops\":{},\"checks\":{},\"inters\":{},\"states\":{},\"determinism_reruns\":{det},\"digest\":\"{:x}\",\"secs\":{:.3},\"types\":{},\"faults\":{},\"probes\":{},\"kinds\":{},\"known\":{},\"samples\":[{}]",
                c.stats.ops,
                c.stats.checks,
                inters.len(),
                c.stats.states.len(),
                all.0,
                t0.elapsed().as_secs_f64(),
                types.len(),
                map(c.stats.faults.iter().map(|(k, v)| (*k, *v))),
                map(c.stats.probes.iter().map(|(k, v)| (*k, *v))),
                map(c.stats.kinds.iter().map(|(k, v)| (*k, *v))),
                map(c.stats.known.iter().map(|(k, v)| (k, *v))),
                samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
            );
            if let Some((i, o)) = found {
                let (_, v) = o.viol.clone().unwrap();
                let rs = run_seed(seed, prop, i);
                let n0 = o.steps.len();
                let raw: Vec<String> = o.steps.iter().map(|s| esc(&s.text())).collect();
                let small = minimise(prop, types, rs, o.steps, v.class);
                let mut c2 = Ctx::new();
                c2.trace = Some(Vec::new());
                let (_, v2) = run_steps(prop, types, rs, &small, &mut c2).unwrap_or((0, v.clone()));
                let mut cfg = Rng(mix(rs, 1));
                let d = scen::make(prop, types, &mut cfg).unwrap().describe();
                j.push_str(&format!(
                    ",\"violation\":{{\"run\":{i},\"class\":{},\"msg\":{},\"orig_steps\":{n0},\"scenario\":{},\"steps\":[{}],\"trace\":[{}],\"raw\":[{}]}}",
                    esc(v2.class),
                    esc(&v2.msg),
                    esc(&d),
                    small.iter().map(|s| esc(&s.text())).collect::<Vec<_>>().join(","),
                    c2.trace.unwrap().iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
                    raw.join(",")
                ));
            }
            j.push_str("}\n");
            std::fs::write(&a[8], j).unwrap();
            0
        }
        Some("steps") => {
            let prop = &a[2];
            let seed: u64 = a[3].parse().unwrap();
            let i: u64 = a[4].parse().unwrap();
            let text = std::fs::read_to_string(&a[5]).unwrap();
            let steps: Vec<Step> = text.lines().filter(|l| !l.is_empty()).map(|l| Step::parse(l).expect("bad step")).collect();
            let mut c = Ctx::new();
            c.trace = Some(Vec::new());
            let v = run_steps(prop, types, run_seed(seed, prop, i), &steps, &mut c);
            for l in c.trace.as_ref().unwrap() {
                println!("{l}");
            }
            match v {
                Some((k, v)) => {
                    println!("VIOLATED at step {k}: {}: {}", v.class, v.msg);
                    println!("CLASS {}", v.class);
                    1
                }
                None => {
                    println!("no violation");
                    0
                }
            }
        }
        Some("list") => {
            for t in types {
                println!("{} {} {} fields={} group={}", t.meta.name, t.meta.storage(), t.meta.nbits, t.meta.fields.len(), t.meta.group);
            }
            0
        }
        _ => {
            eprintln!("usage: run PROP SEED FROM STRIDE COUNT SECS OUT | steps PROP SEED INDEX FILE | list");
            2
        }
    }
}
