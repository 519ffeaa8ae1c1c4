//! symrun: bounded symbolic execution of one harness entry over LLVM IR.
//!
//! usage: symrun --ir FILE --entry NAME [--threads N] [--max-instr N]
//!        [--solver-ms N] [--time N] [--out FILE] [--trace] [--dump DIR]
//! exit status: 0 all paths explored, 1 violation found, 2 inconclusive.
mod exec;
mod expr;
mod ir;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

struct Work {
    log: Vec<L>,
    model: Vec<u128>,
}
struct Q {
    items: VecDeque<Work>,
    busy: usize,
    done: bool,
}
#[derive(Default)]
struct Res {
    stats: Stats,
    sat: u64,
    unsat: u64,
    unknown: u64,
    hard: u64,
    ztime: f64,
    zmax: f64,
    funcs: BTreeMap<String, u64>,
    blocks: BTreeSet<(String, u32)>,
    fork_sites: BTreeMap<String, u64>,
    violation: Option<(String, String, Vec<(u32, u128)>, Vec<String>)>,
    inconclusive: Option<String>,
    inc_inputs: Vec<(u32, u128)>,
    n_inconclusive: u64,
    samples: Vec<String>,
    replays: Vec<String>,
    arena: usize,
    errors: Vec<String>,
}
struct Shared {
    q: Mutex<Q>,
    cv: Condvar,
    hungry: AtomicUsize,
    stop: AtomicBool,
    paths: AtomicU64,
    res: Mutex<Res>,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn esc(b: &[u8]) -> String {
    b.iter().flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect()
}

fn main() {
    let mut args = std::env::args().skip(1);
    let (mut irf, mut entry, mut threads, mut maxi, mut sms, mut tl, mut out, mut trace, mut dump) =
        (String::new(), String::new(), 8usize, 200_000_000u64, 30_000u32, 800u64, None::<String>, false, None::<String>);
    let mut sip = true;
    let mut param = 0u64;
    let mut quiet = false;
    let mut confirm = false;
    while let Some(a) = args.next() {
        let mut nx = || args.next().expect("argument");
        match a.as_str() {
            "--ir" => irf = nx(),
            "--entry" => entry = nx(),
            "--threads" => threads = nx().parse().unwrap(),
            "--max-instr" => maxi = nx().parse().unwrap(),
            "--solver-ms" => sms = nx().parse().unwrap(),
            "--time" => tl = nx().parse().unwrap(),
            "--out" => out = Some(nx()),
            "--dump" => dump = Some(nx()),
            "--trace" => trace = true,
            "--param" => param = nx().parse().unwrap(),
            "--no-sip-stub" => sip = false,
            "--quiet" => quiet = true,
            "--confirm" => confirm = true,
            x => panic!("unknown argument {x}"),
        }
    }
    let t0 = Instant::now();
    let text: &'static str = Box::leak(std::fs::read_to_string(&irf).expect("reading IR").into_boxed_str());
    let sh = Arc::new(Shared {
        q: Mutex::new(Q { items: VecDeque::from(vec![Work { log: vec![], model: vec![] }]), busy: 0, done: false }),
        cv: Condvar::new(),
        hungry: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        paths: AtomicU64::new(0),
        res: Mutex::new(Res::default()),
    });
    let deadline = t0 + Duration::from_secs(tl);
    let mut hs = vec![];
    for ti in 0..threads {
        let sh = sh.clone();
        let entry = entry.clone();
        let dump = dump.clone();
        hs.push(
            std::thread::Builder::new()
                .name(format!("w{ti}"))
                .stack_size(1 << 30)
                .spawn(move || {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| worker(&sh, text, entry, maxi, sms, deadline, trace, sip, dump, param, confirm)));
                    if let Err(p) = r {
                        let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        sh.res.lock().unwrap().inconclusive.get_or_insert(format!("engine panic: {msg}"));
                        sh.stop.store(true, SeqCst);
                        let mut q = sh.q.lock().unwrap();
                        q.done = true;
                        sh.cv.notify_all();
                    }
                })
                .unwrap(),
        );
    }
    for h in hs {
        let _ = h.join();
    }
    let r = sh.res.lock().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    let status = if r.violation.is_some() {
        "violation"
    } else if r.inconclusive.is_some() {
        "inconclusive"
    } else {
        "holds"
    };
    let mut o = String::new();
    o.push_str(&format!("{{\"entry\":{},\"status\":{},", js(&entry), js(status)));
    if let Some((k, d, v, notes)) = &r.violation {
        o.push_str(&format!(
            "\"violation\":{{\"kind\":{},\"detail\":{},\"inputs\":[{}],\"notes\":[{}]}},",
            js(k),
            js(d),
            v.iter().map(|(w, x)| format!("[{w},\"{x}\"]")).collect::<Vec<_>>().join(","),
            notes.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
        ));
    }
    if let Some(i) = &r.inconclusive {
        o.push_str(&format!(
            "\"inconclusive\":{},\"inconclusive_paths\":{},\"inconclusive_inputs\":[{}],",
            js(i),
            r.n_inconclusive,
            r.inc_inputs.iter().map(|(w, x)| format!("[{w},\"{x}\"]")).collect::<Vec<_>>().join(",")
        ));
    }
    o.push_str(&format!(
        "\"paths\":{},\"killed\":{},\"instructions\":{},\"branch_decisions\":{},\"decisions_by_domain\":{},\"table_unsat_confirmed_by_solver\":{},\"cache_hits\":{},\"asserts_symbolic\":{},\"asserts_concrete\":{},\"queries_sat\":{},\"queries_unsat\":{},\"queries_unknown\":{},\"queries_hard\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"max_constraints\":{},\"max_path_instructions\":{},\"expr_nodes\":{},\"wall_s\":{:.3},\"threads\":{},\"solver\":{},",
        r.stats.paths, r.stats.killed, r.stats.instrs, r.stats.decides, r.stats.decides_dom, r.stats.confirmed, r.stats.cache_hits, r.stats.checks_sym, r.stats.checks_conc, r.sat, r.unsat, r.unknown, r.hard, r.ztime, r.zmax, r.stats.max_pc, r.stats.max_path_instr, r.arena, wall, threads, js(&z3::version())
    ));
    o.push_str(&format!("\"covers\":{{{}}},", r.stats.covers.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"checks\":{{{}}},", r.stats.checks_by_id.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"samples\":[{}],", r.samples.iter().take(12).map(|s| js(s)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"path_inputs\":[{}],", r.replays.iter().take(12).map(|s| js(s)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"functions\":[{}]", r.funcs.keys().map(|k| js(k)).collect::<Vec<_>>().join(",")));
    if trace {
        let mut v: Vec<_> = r.fork_sites.iter().collect();
        v.sort_by(|a, b| b.1.cmp(a.1));
        for (k, n) in v.iter().take(15) {
            eprintln!("fork {n:8} {k}");
        }
    }
    o.push_str("}\n");
    if let Some(f) = out {
        std::fs::write(f, &o).unwrap();
    }
    if !quiet {
        eprintln!(
            "{entry}: {status} paths={} killed={} instr={} decides={} (dom {}) q={}/{}/{} solver={:.1}s max={:.2}s wall={:.1}s covers={:?}",
            r.stats.paths, r.stats.killed, r.stats.instrs, r.stats.decides, r.stats.decides_dom, r.sat, r.unsat, r.unknown, r.ztime, r.zmax, wall, r.stats.covers
        );
        if let Some((k, d, v, n)) = &r.violation {
            eprintln!("  VIOLATED {k}: {d}\n  inputs {v:?}\n  notes {n:?}");
        }
        if let Some(i) = &r.inconclusive {
            eprintln!("  INCONCLUSIVE {i}");
        }
    }
    std::process::exit(match status {
        "holds" => 0,
        "violation" => 1,
        _ => 2,
    });
}

#[allow(clippy::too_many_arguments)]
fn worker(sh: &Shared, text: &'static str, entry: String, maxi: u64, sms: u32, deadline: Instant, trace: bool, sip: bool, dump: Option<String>, param: u64, confirm: bool) {
    let mut ex = match Exec::new(text, Cfg { entry, max_instr: maxi, max_frames: 4000, solver_ms: sms, sip_stub: sip, param, confirm }) {
        Ok(e) => e,
        Err(e) => {
            sh.res.lock().unwrap().inconclusive.get_or_insert(e);
            sh.stop.store(true, SeqCst);
            let mut q = sh.q.lock().unwrap();
            q.done = true;
            sh.cv.notify_all();
            return;
        }
    };
    ex.trace = trace;
    ex.z.dump = dump;
    let mut samples: Vec<String> = vec![];
    let mut replays: Vec<String> = vec![];
    'outer: loop {
        let w = {
            let mut q = sh.q.lock().unwrap();
            loop {
                if q.done || sh.stop.load(Relaxed) {
                    break 'outer;
                }
                if let Some(w) = q.items.pop_front() {
                    q.busy += 1;
                    break w;
                }
                if q.busy == 0 {
                    q.done = true;
                    sh.cv.notify_all();
                    break 'outer;
                }
                sh.hungry.fetch_add(1, SeqCst);
                let (nq, _) = sh.cv.wait_timeout(q, Duration::from_millis(200)).unwrap();
                q = nq;
                sh.hungry.fetch_sub(1, SeqCst);
            }
        };
        let st = match ex.initial(w.log, w.model) {
            Ok(s) => s,
            Err(e) => {
                sh.res.lock().unwrap().inconclusive.get_or_insert(e);
                sh.stop.store(true, SeqCst);
                break;
            }
        };
        ex.pend.push(st);
        while let Some(mut st) = ex.pend.pop() {
            if sh.stop.load(Relaxed) {
                break;
            }
            if Instant::now() > deadline {
                sh.res.lock().unwrap().inconclusive.get_or_insert("time limit".to_string());
                sh.stop.store(true, SeqCst);
                break;
            }
            let n0 = st.ninstr;
            let r = ex.run(&mut st);
            ex.stats.instrs += st.ninstr - n0;
            ex.stats.max_pc = ex.stats.max_pc.max(st.pc.len());
            match r {
                Stop::Done => {
                    ex.stats.max_path_instr = ex.stats.max_path_instr.max(st.ninstr);
                    ex.stats.paths += 1;
                    let p = sh.paths.fetch_add(1, Relaxed);
                    if (p < 4 || (p & (p - 1)) == 0) && replays.len() < 12 {
                        replays.push(
                            st.vars
                                .iter()
                                .enumerate()
                                .map(|(i, w)| (st.model.get(i).copied().unwrap_or(0) & expr::ones(*w)).to_string())
                                .collect::<Vec<_>>()
                                .join(" "),
                        );
                    }
                    if (p < 4 || (p & (p - 1)) == 0) && samples.len() < 12 && !st.notes.is_empty() {
                        ex.a.new_model();
                        let mut s = vec![];
                        for (t, n) in st.notes.clone().iter().take(8) {
                            let b = ex.eval_note(&st, n);
                            s.push(format!("{}={}", t, esc(&b)));
                        }
                        samples.push(s.join(" "));
                    }
                }
                Stop::Killed => ex.stats.killed += 1,
                Stop::Bad(k, d) => {
                    ex.a.new_model();
                    let mut notes = vec![];
                    for (t, n) in st.notes.clone().iter() {
                        let b = ex.eval_note(&st, n);
                        notes.push(format!("{}={}", t, esc(&b)));
                    }
                    let v: Vec<(u32, u128)> = st
                        .vars
                        .iter()
                        .enumerate()
                        .map(|(i, w)| (*w, st.model.get(i).copied().unwrap_or(0) & expr::ones(*w)))
                        .collect();
                    let mut res = sh.res.lock().unwrap();
                    if res.violation.is_none() {
                        res.violation = Some((k, d, v, notes));
                    }
                    sh.stop.store(true, SeqCst);
                    break;
                }
                Stop::Inconclusive(s) => {
                    // The rest is still explored: a violation elsewhere stands on its own.
                    let v: Vec<(u32, u128)> = st
                        .vars
                        .iter()
                        .enumerate()
                        .map(|(i, w)| (*w, st.model.get(i).copied().unwrap_or(0) & expr::ones(*w)))
                        .collect();
                    let mut res = sh.res.lock().unwrap();
                    res.n_inconclusive += 1;
                    if res.inconclusive.is_none() {
                        res.inc_inputs = v;
                    }
                    res.inconclusive.get_or_insert(if s.contains(" < ") { s } else { format!("{s}\n at {}", ex.backtrace(&st)) });
                    if res.n_inconclusive > 2000 {
                        sh.stop.store(true, SeqCst);
                        break;
                    }
                }
            }
            if sh.hungry.load(Relaxed) > 0 && ex.pend.len() > 1 {
                let n = sh.hungry.load(Relaxed).min(ex.pend.len() - 1);
                let mut q = sh.q.lock().unwrap();
                for s in ex.pend.drain(..n) {
                    q.items.push_back(Work { log: s.log, model: (*s.model).clone() });
                }
                sh.cv.notify_all();
            }
        }
        ex.pend.clear();
        let mut q = sh.q.lock().unwrap();
        q.busy -= 1;
        if sh.stop.load(Relaxed) {
            q.done = true;
        }
        sh.cv.notify_all();
    }
    let mut q = sh.q.lock().unwrap();
    if sh.stop.load(Relaxed) {
        q.done = true;
        sh.cv.notify_all();
    }
    drop(q);
    let mut r = sh.res.lock().unwrap();
    let s = &ex.stats;
    r.stats.paths += s.paths;
    r.stats.killed += s.killed;
    r.stats.instrs += s.instrs;
    r.stats.decides += s.decides;
    r.stats.decides_dom += s.decides_dom;
    r.stats.cache_hits += s.cache_hits;
    r.stats.confirmed += s.confirmed;
    r.stats.checks_sym += s.checks_sym;
    r.stats.checks_conc += s.checks_conc;
    r.stats.max_pc = r.stats.max_pc.max(s.max_pc);
    r.stats.max_path_instr = r.stats.max_path_instr.max(s.max_path_instr);
    for (k, v) in &s.covers {
        *r.stats.covers.entry(*k).or_default() += v;
    }
    for (k, v) in &s.checks_by_id {
        *r.stats.checks_by_id.entry(*k).or_default() += v;
    }
    r.sat += ex.z.n_sat;
    r.unsat += ex.z.n_unsat;
    r.unknown += ex.z.n_unknown;
    r.hard += ex.z.n_hard;
    r.ztime += ex.z.time;
    r.zmax = r.zmax.max(ex.z.max_time);
    r.arena += ex.a.n.len();
    r.samples.extend(samples);
    r.replays.extend(replays);
    for (i, n) in ex.funcs_hit.iter().enumerate() {
        if *n > 0 {
            *r.funcs.entry(ex.m.funcs[i].name.clone()).or_default() += n;
        }
    }
    for (k, v) in &ex.fork_sites {
        *r.fork_sites.entry(k.clone()).or_default() += v;
    }
    let _ = &r.blocks;
    let _ = &r.errors;
}
