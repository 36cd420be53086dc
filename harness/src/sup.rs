//! Supervisor: runs shards of cases in child processes and watches them.
use crate::stats::Stats;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Fail {
    pub sig: String,
    pub msg: String,
}
impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Fail { sig: sig.into(), msg: msg.into() }
    }
}
impl From<String> for Fail {
    fn from(m: String) -> Self {
        // signature: the message without its numbers and quoted data
        let mut s = String::new();
        let mut q = false;
        for c in m.chars() {
            if c == '"' {
                q = !q;
                if q {
                    s.push('"');
                }
            } else if !q && !c.is_ascii_digit() && s.len() < 120 {
                s.push(c);
            }
        }
        Fail { sig: s, msg: m }
    }
}
impl From<&str> for Fail {
    fn from(m: &str) -> Self {
        Fail::from(m.to_string())
    }
}

pub struct Ctx {
    pub prop: &'static str,
    pub seed: u64,
    pub thorough: bool,
    pub variant: String,
    pub st: Stats,
    pub dir: PathBuf,
    pub digests: BTreeMap<u64, u64>,
    pub replay: bool,
    pub status: Option<std::fs::File>,
}
impl Ctx {
    pub fn rng(&self, idx: u64) -> crate::rng::Rng {
        crate::rng::Rng::for_case(self.prop, self.seed, idx)
    }
    /// record progress inside a case (restarts the case's CPU budget)
    pub fn status(&mut self, idx: u64, what: &str) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.status {
            let mut s = format!("{} {}", idx, what);
            s.truncate(200);
            let s = format!("{:<220}\n", s);
            let _ = f.write_all_at(s.as_bytes(), 0);
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub case: fn(&mut Ctx, u64) -> Result<(), Fail>,
    /// evaluations counter name, distinct set name
    pub evals: &'static str,
    pub distinct: &'static str,
    pub rule: &'static str,
    /// counters that must be non-zero for the run to count as an observation
    pub need: &'static [&'static str],
    /// CPU seconds one case may burn
    pub cpu_case: u64,
    /// cross-variant digest comparison
    pub digests: bool,
    pub workers: usize,
}

struct Worker {
    child: Child,
    shard: u64,
    variant: String,
    out: PathBuf,
    status: PathBuf,
    err: PathBuf,
    last_status: String,
    cpu_at_status: u64,
    last_cpu: u64,
    quiet_since: Option<Instant>,
    quiet_samples: u32,
    done: bool,
    start_from: u64,
}

pub fn proc_cpu(pid: u32) -> Option<(u64, bool)> {
    // (ticks of all threads, all threads sleeping in futex wait)
    let mut ticks = 0;
    let mut asleep = true;
    let mut n = 0;
    for t in std::fs::read_dir(format!("/proc/{pid}/task")).ok()? {
        let t = t.ok()?;
        let s = std::fs::read_to_string(t.path().join("stat")).ok()?;
        let rest = &s[s.rfind(')')? + 2..];
        let f: Vec<&str> = rest.split(' ').collect();
        let state = f[0];
        ticks += f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?;
        if state != "S" {
            asleep = false;
        } else {
            // futex (202) when the kernel tells; otherwise sleeping is enough together with the quiet period
            if let Ok(sc) = std::fs::read_to_string(t.path().join("syscall")) {
                let nr = sc.split(' ').next().unwrap_or("");
                if nr != "202" && nr != "running" && !nr.is_empty() {
                    asleep = false;
                }
                if nr == "running" {
                    asleep = false;
                }
            }
        }
        n += 1;
    }
    if n == 0 {
        return None;
    }
    Some((ticks, asleep))
}

pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub variants: Vec<(String, PathBuf)>,
    pub scale: f64,
    pub verif: PathBuf,
}

struct Violation {
    idx: u64,
    variant: String,
    sig: String,
    msg: String,
}

fn spawn(o: &Opts, p: &Prop, dir: &Path, exe: &Path, variant: &str, shard: u64, nshard: u64, total: u64, from: u64) -> std::io::Result<Worker> {
    let base = dir.join(format!("w-{variant}-{shard}-{from}"));
    std::fs::create_dir_all(&base)?;
    let out = base.join("out.json");
    let status = base.join("status");
    let err = base.join("stderr");
    let child = Command::new(exe)
        .args(["worker", p.id])
        .args(["--seed", &o.seed.to_string()])
        .args(["--tier", if o.thorough { "thorough" } else { "quick" }])
        .args(["--variant", variant])
        .args(["--shard", &shard.to_string(), "--nshard", &nshard.to_string()])
        .args(["--total", &total.to_string(), "--from", &from.to_string()])
        .arg("--dir")
        .arg(&base)
        .arg("--verif")
        .arg(&o.verif)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(std::fs::File::create(&err)?)
        .spawn()?;
    Ok(Worker {
        child,
        shard,
        variant: variant.into(),
        out,
        status,
        err,
        last_status: String::new(),
        cpu_at_status: 0,
        last_cpu: 0,
        quiet_since: None,
        quiet_samples: 0,
        done: false,
        start_from: from,
    })
}

/// listed findings of a property: (signature, description)
pub fn known(verif: &Path, id: &str) -> Vec<(String, String)> {
    std::fs::read_to_string(verif.join("known_findings.json"))
        .ok()
        .and_then(|s| serde_json::from_str::<Value>(&s).ok())
        .and_then(|v| v["known"].as_array().cloned())
        .unwrap_or_default()
        .iter()
        .filter(|k| k["property"] == id)
        .map(|k| (k["sig"].as_str().unwrap_or("").to_string(), k["what"].as_str().unwrap_or("").to_string()))
        .collect()
}

pub fn run(o: &Opts, p: &Prop) -> i32 {
    let t0 = Instant::now();
    let total = ((if o.thorough { p.thorough } else { p.quick }) as f64 * o.scale).max(1.0) as u64;
    let dir = PathBuf::from(format!("/tmp/wzmon.{}.{}", p.id, std::process::id()));
    if std::fs::create_dir_all(&dir).is_err() {
        eprintln!("cannot create scratch directory");
        return 2;
    }
    let nshard = (p.workers as u64).min(total).max(1);
    let mut viol: Vec<Violation> = vec![];
    let mut harness_err: Vec<String> = vec![];
    let mut st = Stats::default();
    let mut digests: BTreeMap<String, BTreeMap<u64, u64>> = BTreeMap::new();
    for (vname, exe) in &o.variants {
        let mut ws: Vec<Worker> = vec![];
        for s in 0..nshard {
            match spawn(o, p, &dir, exe, vname, s, nshard, total, s) {
                Ok(w) => ws.push(w),
                Err(e) => harness_err.push(format!("spawn: {e}")),
            }
        }
        let mut restarts = 0;
        let mut stopped = false;
        while ws.iter().any(|w| !w.done) {
            std::thread::sleep(Duration::from_millis(100));
            // explore no further on a slow machine: the verdict is about what was observed so far
            if !stopped && t0.elapsed().as_secs() > if o.thorough { 6 * 3600 } else { 420 } {
                let _ = std::fs::write(dir.join("stop"), "");
                stopped = true;
            }
            let mut respawn = vec![];
            for w in ws.iter_mut().filter(|w| !w.done) {
                let stat = std::fs::read_to_string(&w.status).unwrap_or_default().trim().to_string();
                let idx: u64 = stat.split(' ').next().and_then(|x| x.parse().ok()).unwrap_or(w.start_from);
                let mut ended: Option<(Option<String>, bool)> = None; // (violation, harness error)
                match w.child.try_wait() {
                    Ok(Some(code)) => {
                        use std::os::unix::process::ExitStatusExt;
                        w.done = true;
                        let tail = std::fs::read(&w.err).map(|b| String::from_utf8_lossy(&b[b.len().saturating_sub(600)..]).into_owned()).unwrap_or_default();
                        if code.code() == Some(0) {
                            match std::fs::read_to_string(&w.out).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) {
                                Some(v) => {
                                    st.merge(Stats::from_json(&v["stats"]));
                                    for (k, d) in v["digests"].as_object().into_iter().flatten() {
                                        digests.entry(w.variant.clone()).or_default().insert(k.parse().unwrap_or(0), d.as_u64().unwrap_or(0));
                                    }
                                    for f in v["fails"].as_array().into_iter().flatten() {
                                        viol.push(Violation {
                                            idx: f["idx"].as_u64().unwrap_or(0),
                                            variant: w.variant.clone(),
                                            sig: f["sig"].as_str().unwrap_or("").into(),
                                            msg: f["msg"].as_str().unwrap_or("").into(),
                                        });
                                    }
                                }
                                None => harness_err.push("worker left no result".into()),
                            }
                        } else if code.code() == Some(77) {
                            ended = Some((Some(format!("runaway allocation: {}", tail.lines().last().unwrap_or(""))), false));
                        } else {
                            match code.signal() {
                                Some(6) | Some(11) | Some(7) | Some(4) | Some(8) => {
                                    let what = if tail.contains("stack overflow") { "stack overflow".to_string() } else { format!("signal {}", code.signal().unwrap()) };
                                    ended = Some((Some(format!("crash: {what}")), false));
                                }
                                _ => {
                                    harness_err.push(format!("worker ended with {code}: {tail}"));
                                }
                            }
                        }
                    }
                    Ok(None) => {
                        if let Some((cpu, asleep)) = proc_cpu(w.child.id()) {
                            if stat != w.last_status {
                                w.last_status = stat.clone();
                                w.cpu_at_status = cpu;
                                w.quiet_since = None;
                            }
                            if asleep && cpu == w.last_cpu && !stat.is_empty() {
                                w.quiet_samples += 1;
                                let q = *w.quiet_since.get_or_insert_with(Instant::now);
                                if q.elapsed() > Duration::from_secs(12) && w.quiet_samples > 60 {
                                    ended = Some((Some("deadlock: every thread waits on a lock and none can run".into()), false));
                                }
                            } else {
                                w.quiet_since = None;
                                w.quiet_samples = 0;
                            }
                            w.last_cpu = cpu;
                            // USER_HZ is 100
                            if cpu.saturating_sub(w.cpu_at_status) > p.cpu_case * 100 && !stat.is_empty() {
                                ended = Some((Some(format!("endless loop: one case used {} s of CPU time", p.cpu_case)), false));
                            }
                        }
                    }
                    Err(e) => harness_err.push(format!("wait: {e}")),
                }
                if let Some((Some(v), _)) = ended {
                    if !w.done {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.done = true;
                    }
                    let detail = stat.splitn(2, ' ').nth(1).unwrap_or("").trim().to_string();
                    let sig: String = v.split(": ").take(2).collect::<Vec<_>>().join(": ");
                    let sig: String = sig.chars().filter(|c| !c.is_ascii_digit()).collect();
                    viol.push(Violation { idx, variant: w.variant.clone(), sig: if detail.is_empty() { sig } else { format!("{sig} @ {detail}") }, msg: format!("{v} ({detail})") });
                    // carry on behind the fatal case
                    if restarts < 12 && !stopped && idx + nshard < total {
                        restarts += 1;
                        respawn.push((w.shard, idx + nshard));
                    }
                }
            }
            for (s, from) in respawn {
                match spawn(o, p, &dir, exe, vname, s, nshard, total, from) {
                    Ok(w) => ws.push(w),
                    Err(e) => harness_err.push(format!("spawn: {e}")),
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);

    if p.digests && digests.len() > 1 {
        let names: Vec<String> = digests.keys().cloned().collect();
        let a = &digests[&names[0]];
        let mut n = 0;
        for other in &names[1..] {
            for (k, v) in &digests[other] {
                if let Some(x) = a.get(k) {
                    n += 1;
                    if x != v {
                        viol.push(Violation {
                            idx: *k,
                            variant: other.clone(),
                            sig: format!("results differ between builds {} and {}", names[0], other),
                            msg: format!("case {k}: results differ between builds {} and {}", names[0], other),
                        });
                    }
                }
            }
        }
        st.add("cross_build_digests_compared", n);
    }

    // known findings
    let known = known(&o.verif, p.id);
    let mut shown = std::collections::BTreeSet::new();
    let mut fresh = vec![];
    for v in viol {
        if let Some((s, w)) = known.iter().find(|(s, _)| *s == v.sig) {
            if shown.insert(s.clone()) {
                println!("KNOWN-FINDING: property={} {}", p.id, w);
            }
        } else {
            fresh.push(v);
        }
    }
    let mut code = 0;
    fresh.sort_by_key(|v| v.idx);
    let mut by_sig = std::collections::BTreeSet::new();
    let mut vio_json = vec![];
    for v in &fresh {
        if !by_sig.insert(v.sig.clone()) || by_sig.len() > 8 {
            continue;
        }
        let rdir = o.verif.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let f = rdir.join(format!("{}-s{}-c{}-{}.json", p.id, o.seed, v.idx, v.variant));
        let _ = std::fs::write(
            &f,
            serde_json::to_string_pretty(&json!({
                "property": p.id, "seed": o.seed, "tier": if o.thorough {"thorough"} else {"quick"},
                "case": v.idx, "variant": v.variant, "signature": v.sig, "observed": v.msg,
                "how": "bash /verif/run.sh replay <this file>"
            }))
            .unwrap(),
        );
        println!("  case {} [{}]: {}", v.idx, v.variant, v.msg);
        println!("VIOLATION property={} replay={}", p.id, f.display());
        vio_json.push(json!({"case": v.idx, "variant": v.variant, "signature": v.sig, "observed": v.msg, "replay": f.display().to_string()}));
        code = 1;
    }
    let evals = st.counts.get(p.evals).copied().unwrap_or(0);
    let distinct = st.sets.get(p.distinct).map(|s| s.len()).unwrap_or(0);
    let mut sets = serde_json::Map::new();
    for (k, v) in &st.sets {
        sets.insert(k.clone(), json!(v.len()));
    }
    for n in p.need {
        if code == 0 && harness_err.is_empty() && st.counts.get(*n).copied().unwrap_or(0) == 0 {
            harness_err.push(format!("the run observed nothing for {n}"));
        }
    }
    if st.samples.is_empty() {
        st.samples.push(format!("{} cases", total));
    }
    let ev = json!({
        "property": p.id,
        "tier": if o.thorough { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": p.rule,
            "samples": st.samples,
            "cases": st.counts.get("cases_run").copied().unwrap_or(0),
            "builds": o.variants.iter().map(|v| v.0.clone()).collect::<Vec<_>>(),
            "counters": st.counts,
            "violation_details": vio_json,
            "distinct": sets,
        },
        "assumptions": ["the generated workloads stand for the quantifier; nothing is enumerated exhaustively"],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": vio_json.len(),
    });
    let edir = o.verif.join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    if std::fs::write(edir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).is_err() {
        harness_err.push("cannot write evidence".into());
    }
    println!("{}: {} cases, {} evaluations, {} distinct, {:.1} s", p.id, total, evals, distinct, t0.elapsed().as_secs_f64());
    if code == 0 && !harness_err.is_empty() {
        for e in harness_err.iter().take(5) {
            eprintln!("harness: {e}");
        }
        return 3;
    }
    code
}
