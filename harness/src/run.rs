//! Batches of simulated runs, verdicts, minimisation, replay files and evidence.

use crate::rng::{mix, Fnv, Rng};
use crate::rt::{self, Shared, St, Sw};
use crate::scn::{self, Kind, Op, Scn, UArg, KINDS};
use crate::sys;
use crate::world::{self, Variant, PROBES, PROPS};
use std::collections::{HashMap, HashSet};
use std::fmt::Write;

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    /// (property, message)
    pub viols: Vec<(String, String)>,
    pub results: HashMap<(usize, usize), (u64, u64)>,
    pub checks: Vec<u64>,
    pub kinds: Vec<u64>,
    pub probes: Vec<u64>,
    pub errs: Vec<f64>,
    pub stats: Vec<u64>,
    pub sw: Vec<Sw>,
    pub overflow: bool,
    pub harness: Option<String>,
    pub text: String,
}

fn nums<T: std::str::FromStr>(s: &str) -> Vec<T> {
    s.split_whitespace().filter_map(|x| x.parse().ok()).collect()
}

fn owner_of(scn: &Scn, c: usize, id: usize) -> (String, &'static str) {
    let op = if c == 99 { None } else { scn.clients.get(c).and_then(|v| v.iter().find(|o| o.id == id)) };
    match op {
        Some(op) => {
            (format!("client {} {}", c, op.show()), op.kind.owner())
        }
        None => (format!("client {} operation {}", c, id), "C09"),
    }
}

/// Runs one variant of a scenario in a fresh process.
pub fn one(scn: &Scn, v: Variant, order: Option<&[(usize, usize)]>, prop: &str, sh: &mut Shared) -> Outcome {
    sh.reset();
    let shp = sh as *mut Shared;
    let pid = unsafe { sys::fork() };
    if pid == 0 {
        unsafe {
            sys::alarm(90);
            sys::setrlimit(0, &[60, 60]);
            sys::setrlimit(4, &[0, 0]);
            world::simulate(scn, v, order, prop, &mut *shp)
        }
    }
    assert!(pid > 0, "fork");
    let mut status = 0;
    while unsafe { sys::waitpid(pid, &mut status, 0) } != pid {}
    let mut o = Outcome { text: sh.text(), stats: sh.stats.to_vec(), ..Default::default() };
    o.sw = sh.sw[..(sh.n_sw as usize).min(rt::MAX_SW)].to_vec();
    o.overflow = sh.n_sw as usize > rt::MAX_SW;
    for line in o.text.lines() {
        let (k, rest) = line.split_once(' ').unwrap_or((line, ""));
        match k {
            "V" => {
                let (t, m) = rest.split_once(' ').unwrap_or((rest, ""));
                o.viols.push((t.to_string(), m.to_string()));
            }
            "R" => {
                let v: Vec<&str> = rest.split(' ').collect();
                o.results.insert(
                    (v[0].parse().unwrap(), v[1].parse().unwrap()),
                    (v[2].parse().unwrap(), u64::from_str_radix(v[3], 16).unwrap()),
                );
            }
            "C" => o.checks = nums(rest),
            "K" => o.kinds = nums(rest),
            "P" => o.probes = nums(rest),
            "E" => o.errs = nums(rest),
            _ => {}
        }
    }
    let sig = status & 0x7f;
    let code = (status >> 8) & 0xff;
    if sh.status == rt::HARNESS || (sig == 0 && code != 0 && code != 3) {
        o.harness = Some(format!("exit code {} in the simulated process", code));
    } else if sig != 0 {
        let (what, t) = owner_of(scn, sh.client as usize, sh.op as usize);
        let how = match sig {
            14 | 24 | 9 => "did not end".to_string(),
            6 => "aborted the process".to_string(),
            11 | 7 => "crashed the process (or overflowed its stack)".to_string(),
            s => format!("died of signal {}", s),
        };
        o.viols.push(("C09".into(), format!("{} {}", what, how)));
        if t != "C09" {
            o.viols.push((t.into(), format!("{} {}", what, how)));
        }
    } else if sh.status == rt::FATAL {
        // a hang or deadlock is also a failure of the operation it happened in
        let (what, t) = owner_of(scn, sh.client as usize, sh.op as usize);
        let m = o.viols.last().map(|v| v.1.clone()).unwrap_or_default();
        if t != "C09" {
            o.viols.push((t.into(), format!("{}: {}", what, m)));
        }
        o.viols.push(("C07".into(), format!("{}: {}", what, m)));
    }
    o
}

fn lineage(scn: &Scn, order: &[(usize, usize)], target: (usize, usize)) -> Vec<(usize, usize)> {
    let find = |(c, id): (usize, usize)| scn.clients[c].iter().find(|o| o.id == id).unwrap();
    let slots = |o: &Op| {
        let (mut r, w) = o.slots();
        r.extend(w);
        r
    };
    let pos = order.iter().position(|x| *x == target).unwrap();
    let mut need: HashSet<usize> = slots(find(target)).into_iter().collect();
    let mut keep = vec![target];
    for &x in order[..pos].iter().rev() {
        let o = find(x);
        if o.slots().1.iter().any(|s| need.contains(s)) {
            need.extend(slots(o));
            keep.push(x);
        }
    }
    let mut v: Vec<(usize, usize)> = (0..scn.init.len()).filter(|i| need.contains(i)).map(|i| (99, i)).collect();
    v.extend(keep.into_iter().rev());
    v
}

/// Runs a scenario and returns everything that is wrong with it.
pub fn judge(scn: &Scn, prop: &str, sh: &mut Shared) -> Outcome {
    if prop != "C07" {
        return one(scn, Variant::Sim, None, prop, sh);
    }
    let mut a = one(scn, Variant::Plain, None, prop, sh);
    a.checks = vec![0; world::NP];
    if a.harness.is_some() || !a.viols.is_empty() {
        return a;
    }
    let mut order: Vec<((usize, usize), (u64, u64))> =
        a.results.iter().filter(|(k, _)| k.0 != 99).map(|(k, v)| (*k, *v)).collect();
    order.sort_by_key(|x| x.1 .0);
    let order: Vec<(usize, usize)> = order.into_iter().map(|x| x.0).collect();
    let mut full: Vec<(usize, usize)> = (0..scn.init.len()).map(|i| (99, i)).collect();
    full.extend(&order);
    let mut refs = vec![("one after the other, on one thread, in another environment", full)];
    let mut r = Rng::new(scn.seed ^ 0xabc);
    if !order.is_empty() {
        for _ in 0..2 {
            let t = order[r.below(order.len())];
            refs.push(("alone, without the unrelated operations", lineage(scn, &order, t)));
        }
        // the last result depends on the longest history
        refs.push(("alone, without the unrelated operations", lineage(scn, &order, *order.last().unwrap())));
    }
    for (how, ops) in refs {
        let b = one(scn, Variant::Serial, Some(&ops), prop, sh);
        if b.harness.is_some() {
            a.harness = b.harness;
            return a;
        }
        for v in &b.viols {
            a.viols.push(("C07".into(), format!("only when the operations run {}: {}", how, v.1)));
        }
        if !b.viols.is_empty() {
            return a;
        }
        for k in &ops {
            a.checks[6] += 1;
            let (x, y) = (a.results.get(k).map(|v| v.1), b.results.get(k).map(|v| v.1));
            if x != y {
                let what = if k.0 == 99 { format!("init {}", k.1) } else { owner_of(scn, k.0, k.1).0 };
                a.viols.push((
                    "C07".into(),
                    format!("{}: the result differs from that of the same operations run {}", what, how),
                ));
                return a;
            }
        }
    }
    a
}

// ---------------------------------------------------------------------------------------------------------- batches

const HASHES: usize = 1 << 20;

#[repr(C)]
struct Tally {
    runs: u64,
    sims: u64,
    stats: [u64; 32],
    checks: [u64; world::NP],
    kinds: [u64; world::NK],
    probes: [u64; 32],
    errs: [f64; 8],
    fault_runs: u64,
    concurrent_runs: u64,
    twice: u64,
    diverged: u64,
    nontrivial: u64,
    found: u64,
    found_run: u64,
    unrepeatable: u64,
    stalled: u64,
    harness: u64,
    done: u64,
    n_hash: u64,
    hash: [u64; HASHES],
    n_inter: u64,
    inter: [u64; HASHES],
    msg: [u8; 4096],
}

fn batch_worker(prop: &str, seed: u64, wid: u64, workers: u64, runs: u64, until: f64, t: &mut Tally, sh: &mut Shared, stop: &u64) {
    let pi = PROPS.iter().position(|p| *p == prop).unwrap();
    let mut i = wid;
    let mut local: HashSet<u64> = HashSet::new();
    while i < runs && sys::wall() < until && unsafe { std::ptr::read_volatile(stop) } == 0 {
        let mut scn = scn::generate(prop, seed, i);
        prepare(&mut scn, prop);
        let o = judge(&scn, prop, sh);
        t.runs += 1;
        if let Some(m) = &o.harness {
            t.harness = 1;
            t.found_run = i;
            let n = m.len().min(4000);
            t.msg[..n].copy_from_slice(&m.as_bytes()[..n]);
            break;
        }
        for k in 0..32 {
            t.stats[k] += o.stats[k];
        }
        for (k, v) in o.checks.iter().enumerate() {
            t.checks[k] += v;
        }
        for (k, v) in o.kinds.iter().enumerate() {
            t.kinds[k] += v;
        }
        for (k, v) in o.probes.iter().enumerate() {
            if k == 31 {
                t.probes[k] = t.probes[k].max(*v);
            } else {
                t.probes[k] += v;
            }
        }
        for (k, v) in o.errs.iter().enumerate() {
            t.errs[k] = t.errs[k].max(*v);
        }
        let faults = o.stats[St::OomFired as usize] + o.stats[St::ClockJump as usize];
        let sw = o.sw.iter().filter(|s| s.kind != 'I' as u16 && s.kind != 'F' as u16).count();
        t.fault_runs += (faults > 0) as u64;
        t.concurrent_runs += (sw > 0) as u64;
        let ops = o.results.len();
        if o.checks.get(pi).is_some_and(|c| *c > 0) && (sw > 0 || faults > 0 || ops > scn.init.len() + 2) {
            t.nontrivial += 1;
            let mut h = Fnv::default();
            for (k, v) in o.results.iter().map(|(k, v)| (*k, *v)).collect::<std::collections::BTreeMap<_, _>>() {
                h.u(k.0 as u64 * 65536 + k.1 as u64);
                h.u(v.0);
                h.u(v.1);
            }
            for s in &o.sw {
                h.u(s.client as u64 | (s.op as u64) << 16 | (s.kind as u64) << 32 | (s.to as u64) << 48);
                h.u(s.pt);
            }
            if local.insert(h.0) && (t.n_hash as usize) < HASHES {
                t.hash[t.n_hash as usize] = h.0;
                t.n_hash += 1;
            }
        }
        if sw > 0 && (t.n_inter as usize) < HASHES {
            let mut h = Fnv::default();
            for s in &o.sw {
                h.u(s.client as u64 | (s.op as u64) << 16 | (s.kind as u64) << 32 | (s.to as u64) << 48);
                h.u(s.pt);
            }
            t.inter[t.n_inter as usize] = h.0;
            t.n_inter += 1;
        }
        if let Some(v) = o.viols.iter().find(|v| v.0 == prop) {
            if (0..3).all(|_| fails(&scn, prop, sh).is_none()) {
                // the machine stalled, or something escaped the simulator
                t.unrepeatable += !v.1.ends_with("did not end") as u64;
                t.stalled += v.1.ends_with("did not end") as u64;
                i += workers;
                continue;
            }
            t.found = 1;
            t.found_run = i;
            let m = v.1.as_bytes();
            let n = m.len().min(4000);
            t.msg[..n].copy_from_slice(&m[..n]);
            break;
        }
        // determinism: some runs are executed twice
        if i % 61 == 7 {
            let o2 = judge(&scn, prop, sh);
            t.twice += 1;
            if o2.text != o.text || o2.sw != o.sw {
                t.diverged += 1;
            }
        }
        i += workers;
    }
    t.done = 1;
}

fn prepare(scn: &mut Scn, prop: &str) {
    if prop == "C07" {
        // results under faults are the business of C06
        for op in scn.clients.iter_mut().flatten() {
            op.oom.clear();
        }
    }
}

fn arg<'a>(rest: &[&'a str], name: &str) -> Option<&'a str> {
    rest.iter().position(|a| *a == name).and_then(|i| rest.get(i + 1).copied())
}

pub fn check(prop: &str, rest: &[&str]) -> i32 {
    let pi = match PROPS.iter().position(|p| *p == prop) {
        Some(i) => i,
        None => {
            eprintln!("unknown property {}", prop);
            return 2;
        }
    };
    let num = |n: &str, d: u64| arg(rest, n).map_or(d, |v| v.parse().unwrap());
    let seed = num("--seed", 1);
    let runs = num("--runs", 10_000);
    let seconds = num("--seconds", 60) as f64;
    let workers = num("--workers", 8);
    let out = arg(rest, "--out").unwrap_or(".").to_string();
    let tier = arg(rest, "--tier").unwrap_or("quick").to_string();
    println!("bsim: property={} seed={} runs<={} seconds<={} workers={}", prop, seed, runs, seconds, workers);
    let t0 = sys::wall();
    let stop = sys::map_shared(4096) as *mut u64;
    let mut tallies: Vec<&mut Tally> = vec![];
    let mut shared: Vec<&mut Shared> = vec![];
    let mut pids = vec![];
    for wid in 0..workers {
        let t = unsafe { &mut *(sys::map_shared(std::mem::size_of::<Tally>()) as *mut Tally) };
        let sh = Shared::map();
        let pid = unsafe { sys::fork() };
        if pid == 0 {
            batch_worker(prop, seed, wid, workers, runs, t0 + seconds, t, sh, unsafe { &*stop });
            if t.found == 1 || t.harness == 1 {
                unsafe { std::ptr::write_volatile(stop, 1) };
            }
            unsafe { sys::_exit(0) }
        }
        pids.push(pid);
        tallies.push(t);
        shared.push(sh);
    }
    for pid in pids {
        let mut st = 0;
        unsafe { sys::waitpid(pid, &mut st, 0) };
    }
    let wall = sys::wall() - t0;
    let text = |t: &Tally| String::from_utf8_lossy(&t.msg).trim_end_matches('\0').to_string();
    if let Some(t) = tallies.iter().find(|t| t.harness == 1 || t.done == 0) {
        eprintln!("error of the harness in run {}: {}", t.found_run, text(t));
        return 2;
    }
    let found = tallies.iter().filter(|t| t.found == 1).map(|t| (t.found_run, text(t))).min();
    let mut violations = 0;
    let mut code = 0;
    if let Some((run, msg)) = &found {
        println!("run {} violates {}: {}", run, prop, msg);
        let mut scn = scn::generate(prop, seed, *run);
        prepare(&mut scn, prop);
        let sh = Shared::map();
        match report(scn, prop, &out, seed, *run, sh) {
            Ok((path, msg)) => {
                println!("{}", msg);
                println!("VIOLATION property={} replay={}", prop, path);
                violations = 1;
                code = 1;
            }
            Err(e) => {
                eprintln!("error of the harness: {}", e);
                return 2;
            }
        }
    }
    let lost: u64 = tallies.iter().map(|t| t.unrepeatable).sum();
    if lost > 0 {
        println!("{} runs violated {} and did not do so again", lost, prop);
        if code == 0 {
            code = 2;
        }
    }
    evidence(prop, pi, &tier, seed, wall, &tallies, &shared, violations, &out);
    let n: u64 = tallies.iter().map(|t| t.runs).sum();
    println!("bsim: {} runs in {:.1} s, {} violations", n, wall, violations);
    code
}

// ------------------------------------------------------------------------------------------------------ minimisation

fn fails(scn: &Scn, prop: &str, sh: &mut Shared) -> Option<(String, Vec<Sw>)> {
    let o = judge(scn, prop, sh);
    if o.harness.is_some() {
        return None;
    }
    let sw = o.sw.clone();
    o.viols.into_iter().find(|v| v.0 == prop).map(|v| (v.1, sw))
}

fn report(scn: Scn, prop: &str, out: &str, seed: u64, run: u64, sh: &mut Shared) -> Result<(String, String), String> {
    let t0 = sys::wall();
    let mut tries = 0;
    let first = (0..3).find_map(|_| fails(&scn, prop, sh));
    let (_, sw) = match first {
        Some(x) => x,
        None => return Err(format!("run {} failed once but not again", run)),
    };
    // from generated to recorded decisions
    let mut best = scn.clone();
    let mut t = scn.clone();
    t.trace = Some(sw);
    if fails(&t, prop, sh).is_some() {
        best = t;
    }
    let size = |s: &Scn| {
        s.clients.iter().map(|c| c.len()).sum::<usize>() * 10 +
            s.trace.as_ref().map_or(0, |t| t.len()) +
            s.clients.iter().flatten().map(|o| o.oom.len()).sum::<usize>()
    };
    let before = size(&best);
    let mut accept = |best: &mut Scn, cand: Scn| -> bool {
        tries += 1;
        if sys::wall() - t0 > 60.0 || tries > 3000 {
            return false;
        }
        match fails(&cand, prop, sh) {
            Some((_, sw)) => {
                *best = cand;
                if best.trace.is_some() {
                    // keep what was really decided
                    best.trace = Some(sw);
                }
                true
            }
            None => false,
        }
    };
    for _ in 0..3 {
        let start = size(&best);
        // operations, in chunks
        let all = |s: &Scn| -> Vec<(usize, usize)> {
            s.clients.iter().enumerate().flat_map(|(c, v)| v.iter().map(move |o| (c, o.id))).collect()
        };
        let mut chunk = all(&best).len().div_ceil(2).max(1);
        loop {
            let mut i = 0;
            loop {
                let ops = all(&best);
                if i >= ops.len() {
                    break;
                }
                let cut: HashSet<(usize, usize)> = ops[i..(i + chunk).min(ops.len())].iter().copied().collect();
                let mut cand = best.clone();
                for (c, v) in cand.clients.iter_mut().enumerate() {
                    v.retain(|o| !cut.contains(&(c, o.id)));
                }
                if !accept(&mut best, cand) {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
        // decisions
        let mut chunk = best.trace.as_ref().map_or(0, |t| t.len()).div_ceil(2);
        while chunk > 0 {
            let mut i = 0;
            while i < best.trace.as_ref().map_or(0, |t| t.len()) {
                let mut cand = best.clone();
                let t = cand.trace.as_mut().unwrap();
                let end = (i + chunk).min(t.len());
                t.drain(i..end);
                let n = best.trace.as_ref().unwrap().len();
                if !accept(&mut best, cand) || best.trace.as_ref().unwrap().len() >= n {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
        // faults and arguments
        for (c, id) in all(&best) {
            let get = |s: &Scn| s.clients[c].iter().position(|o| o.id == id);
            let mut variants: Vec<Box<dyn Fn(&mut Op) -> bool>> = vec![];
            variants.push(Box::new(|o| !std::mem::take(&mut o.oom).is_empty()));
            for k in 0..3 {
                variants.push(Box::new(move |o| o.oom.len() > 1 && {
                    let x = o.oom[k % o.oom.len()];
                    o.oom = vec![x];
                    true
                }));
            }
            variants.push(Box::new(|o| {
                let was = o.oom.clone();
                o.oom.iter_mut().for_each(|x| x.1 = x.0 + 1);
                o.oom != was
            }));
            variants.push(Box::new(|o| o.kind == Kind::Insert && o.x > 1 && {
                o.x = 1;
                true
            }));
            variants.push(Box::new(|o| o.flag != 0 && !matches!(o.kind, Kind::Append | Kind::Prepend) && {
                o.flag = 0;
                true
            }));
            variants.push(Box::new(|o| {
                !matches!(o.kind, Kind::Append | Kind::Prepend) && o.u.len() > 1 && {
                    o.u.truncate(1);
                    true
                }
            }));
            for k in 0..6 {
                variants.push(Box::new(move |o| k < o.u.len() && o.u[k] != UArg::Pool(0) && {
                    o.u[k] = UArg::Pool(0);
                    true
                }));
            }
            for v in &variants {
                let mut cand = best.clone();
                if let Some(i) = get(&cand) {
                    if v(&mut cand.clients[c][i]) {
                        accept(&mut best, cand);
                    }
                }
            }
            // generators
            let mut cand = best.clone();
            if let Some(i) = get(&cand) {
                if let Some(g) = &mut cand.clients[c][i].gen {
                    if g.dim > 1 {
                        g.dim = 1;
                        accept(&mut best, cand);
                    }
                }
            }
        }
        for i in 0..best.init.len() {
            for f in 0..5 {
                let mut cand = best.clone();
                let g = &mut cand.init[i];
                let was = *g;
                match f {
                    0 => g.dim = 1,
                    1 => g.data = 4,
                    2 => g.kind = 0,
                    3 => g.n = g.p.max(1),
                    _ => g.n = (g.n - 1).max(g.p),
                }
                if *g != was {
                    accept(&mut best, cand);
                }
            }
        }
        // environment
        for f in 0..3 {
            let mut cand = best.clone();
            match f {
                0 => cand.fill = None,
                1 => cand.reuse = crate::alloc::Reuse::Lifo,
                _ => cand.stall_p = 0.0,
            }
            if cand != best {
                accept(&mut best, cand);
            }
        }
        if size(&best) >= start {
            break;
        }
    }
    // clients without operations at the end need not exist
    while best.clients.len() > 1 && best.clients.last().unwrap().is_empty() {
        let mut cand = best.clone();
        cand.clients.pop();
        if !accept(&mut best, cand) {
            break;
        }
    }
    let (msg, _) = match fails(&best, prop, sh) {
        Some(x) => x,
        None => return Err("the minimised run does not fail any more".into()),
    };
    let dir = format!("{}/replays", out);
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let path = format!("{}/{}-seed{}-run{}.txt", dir, prop, seed, run);
    let mut text = String::new();
    writeln!(text, "# bsim replay file: ./check.sh replay FILE runs it again").unwrap();
    writeln!(text, "property {}", prop).unwrap();
    writeln!(text, "message {}", msg.replace('#', "")).unwrap();
    writeln!(text, "# found in run {} of seed {}; size {} -> {} in {} attempts", run, seed, before, size(&best), tries).unwrap();
    text.push_str(&best.show());
    std::fs::write(&path, text).map_err(|e| e.to_string())?;
    // again, in a fresh process
    let st = std::process::Command::new("/proc/self/exe").args(["replay", &path]).output().map_err(|e| e.to_string())?;
    if st.status.code() != Some(1) {
        return Err(format!("replaying {} in a fresh process gave {:?}", path, st.status.code()));
    }
    Ok((path, msg))
}

pub fn replay(file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let prop = get("property ");
    let scn = Scn::read(&text);
    let sh = Shared::map();
    let o = judge(&scn, &prop, sh);
    if let Some(h) = o.harness {
        eprintln!("error of the harness: {}", h);
        return 2;
    }
    for v in &o.viols {
        println!("{}: {}", v.0, v.1);
    }
    match o.viols.iter().find(|v| v.0 == prop) {
        Some(v) => {
            let same = v.1.replace('#', "").trim() == get("message ");
            println!("VIOLATION property={} replay={}{}", prop, file, if same { "" } else { " (another message)" });
            1
        }
        None => {
            println!("{} holds on this schedule", prop);
            0
        }
    }
}

/// Runs many seeds twice, in different processes and at different worker counts, and compares the complete logs.
pub fn determinism(rest: &[&str]) -> i32 {
    let n: u64 = arg(rest, "--runs").map_or(400, |v| v.parse().unwrap());
    let seed: u64 = arg(rest, "--seed").map_or(1, |v| v.parse().unwrap());
    let logs = |workers: u64| -> Vec<u64> {
        let p = sys::map_shared(n as usize * 8 * PROPS.len() + 64) as *mut u64;
        let mut pids = vec![];
        for wid in 0..workers {
            let pid = unsafe { sys::fork() };
            if pid == 0 {
                let sh = Shared::map();
                for (pi, prop) in PROPS.iter().enumerate() {
                    for i in (wid..n).step_by(workers as usize) {
                        let mut s = scn::generate(prop, seed, i);
                        prepare(&mut s, prop);
                        let o = judge(&s, prop, sh);
                        let mut h = Fnv::default();
                        h.s(&o.text);
                        for s in &o.sw {
                            h.u(s.pt ^ mix(s.client as u64 * 31 + s.to as u64 * 17 + s.op as u64 * 1000 + s.kind as u64));
                        }
                        o.stats.iter().for_each(|x| h.u(*x));
                        unsafe { *p.add(pi * n as usize + i as usize) = h.0 };
                    }
                }
                unsafe { sys::_exit(0) }
            }
            pids.push(pid);
        }
        for pid in pids {
            let mut st = 0;
            unsafe { sys::waitpid(pid, &mut st, 0) };
        }
        (0..n as usize * PROPS.len()).map(|i| unsafe { *p.add(i) }).collect()
    };
    let (a, b, c) = (logs(8), logs(3), logs(16));
    let bad: Vec<usize> = (0..a.len()).filter(|&i| a[i] != b[i] || a[i] != c[i]).collect();
    println!("{} runs executed three times (8, 3 and 16 workers): {} differ", a.len(), bad.len());
    for i in bad.iter().take(10) {
        println!("  {} run {}", PROPS[i / n as usize], i % n as usize);
    }
    let mut h = Fnv::default();
    a.iter().for_each(|x| h.u(*x));
    println!("digest {:x}", h.0);
    i32::from(!bad.is_empty())
}

// ---------------------------------------------------------------------------------------------------------- evidence

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, pi: usize, tier: &str, seed: u64, wall: f64, ts: &[&mut Tally], sh: &[&mut Shared], violations: u64, out: &str) {
    let sum = |f: &dyn Fn(&Tally) -> u64| ts.iter().map(|t| f(t)).sum::<u64>();
    let stat = |s: St| sum(&|t: &Tally| t.stats[s as usize]);
    let runs = sum(&|t| t.runs);
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut inter: HashSet<u64> = HashSet::new();
    for t in ts {
        distinct.extend(&t.hash[..t.n_hash as usize]);
        inter.extend(&t.inter[..t.n_inter as usize]);
    }
    let guards = rt::guards() as usize;
    let edges = (0..guards.min(rt::COV)).filter(|&g| sh.iter().any(|s| s.cov[(g + 1) & (rt::COV - 1)] != 0)).count();
    let mut samples = vec![];
    for i in 0..2u64 {
        let mut s = scn::generate(prop, seed, i);
        prepare(&mut s, prop);
        samples.push(js(&s.show().lines().filter(|l| !l.starts_with("pool")).collect::<Vec<_>>().join("; ").chars().take(1500).collect::<String>()));
    }
    let kinds: Vec<String> =
        KINDS.iter().map(|(k, n)| format!("{}: {}", js(n), sum(&|t: &Tally| t.kinds[*k as usize]))).collect();
    let probes: Vec<String> =
        PROBES.iter().enumerate().map(|(i, n)| format!("{}: {}", js(n), sum(&|t: &Tally| t.probes[i]))).collect();
    let errs: Vec<String> = (0..8)
        .map(|i| format!("{:.3}", ts.iter().map(|t| t.errs[i]).fold(0.0, f64::max)))
        .collect();
    let merge_err = ts.iter().map(|t| t.probes[31]).max().unwrap_or(0) as f64 / 1000.0;
    let rate = |n: u64| if wall > 0.0 { (n as f64 / wall * 3600.0) as u64 } else { 0 };
    let faults = [
        ("preemption inside an operation", stat(St::Preempt)),
        ("client switched before an operation", stat(St::YieldSw)),
        ("client stalled for long", stat(St::Stall)),
        ("client waited for a curve in use", stat(St::LockWait)),
        ("allocation failed", stat(St::OomFired)),
        ("operation unwound by an allocation failure", stat(St::OomUnwound)),
        ("allocation served from recycled memory", stat(St::Reused)),
        ("lock inside the library contended", stat(St::FutexWait)),
        ("clock read by the library", stat(St::ClockRead)),
        ("clock jumped", stat(St::ClockJump)),
        ("randomness drawn by the library", stat(St::Random)),
        ("thread started by the library", stat(St::Spawned)),
        ("sleep of the library", stat(St::Sleep)),
    ];
    let faults: Vec<String> = faults.iter().map(|(n, v)| format!("{}: {}", js(n), v)).collect();
    let points = stat(St::Points);
    let rule = "A case is one simulated run: generated initial curves, one program of operations per client thread, a \
        schedule, and allocation failures, all derived from (seed, run number). It is non-trivial if the oracle of this \
        property was evaluated in it at least once and it had a context switch inside or between operations, an injected \
        fault, or a history of at least three operations; distinct means that schedule and all results differ.";
    let j = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"oracle_evaluations\": {},\n  \"runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n  \"simulated_steps\": {},\n  \"simulated_time\": {},\n  \"operations\": {{{}}},\n  \"faults_injected\": {{{}}},\n  \"runs_with_faults\": {},\n  \"runs_with_switches\": {},\n  \"distinct_interleavings\": {},\n  \"interleaving_measure\": \"distinct sequences of (client, operation, scheduling point, next client)\",\n  \"code_edges_reached\": {},\n  \"code_edges_total\": {},\n  \"rare_situations\": {{{}}},\n  \"runs_executed_twice\": {},\n  \"runs_that_diverged\": {},\n  \"violations_not_repeatable\": {},\n  \"runs_stalled_by_the_machine\": {},\n  \"largest_error_seen\": {{\"unit\": \"machine epsilon times the error amplification; the alarm is at 500 (50 for merged shapes)\", \"values\": [{}], \"merge\": {}}},\n  \"real_components\": \"the whole crate bsplines as in /repo's working tree with nalgebra 0.32 and std, on real threads\",\n  \"stubbed_components\": \"allocator (arena), futex, clocks, sleep, randomness and thread creation as seen by the library; the callers (client programs) are generated\"\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.1},\n \"violations\": {}\n}}\n",
        js(prop),
        js(tier),
        seed,
        runs,
        distinct.len(),
        js(rule),
        samples.join(", "),
        sum(&|t: &Tally| t.checks[pi]),
        rate(runs),
        rate(runs),
        points,
        js(&format!("{} scheduling points at 1 ns each plus injected clock jumps", points)),
        kinds.join(", "),
        faults.join(", "),
        sum(&|t: &Tally| t.fault_runs),
        sum(&|t: &Tally| t.concurrent_runs),
        inter.len(),
        edges,
        guards,
        probes.join(", "),
        sum(&|t: &Tally| t.twice),
        sum(&|t: &Tally| t.diverged),
        sum(&|t: &Tally| t.unrepeatable),
        sum(&|t: &Tally| t.stalled),
        errs.join(", "),
        merge_err,
        [
            "scheduling points are the control-flow edges, loads and stores of the crate bsplines; code of nalgebra and std is preempted only where it is compiled into bsplines or blocks",
            "interleavings are sequentially consistent",
            "sampling: a clean batch is evidence, not proof"
        ]
        .map(js)
        .join(", "),
        wall,
        violations
    );
    let dir = format!("{}/evidence", out);
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, prop), j) {
        eprintln!("evidence: {}", e);
    }
}
