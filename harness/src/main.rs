mod alloc;
mod canvas;
mod crypt;
mod img;
mod ms;
mod pkg2;
mod rng;
mod stats;
mod sup;
mod wz;
mod props;

use serde_json::json;
use std::cell::RefCell;
use std::path::PathBuf;
use sup::{Ctx, Fail, Prop};

#[global_allocator]
static A: alloc::Mon = alloc::Mon;

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
/// panics of any thread (location, message)
pub static PANICS: std::sync::Mutex<Vec<(String, String)>> = std::sync::Mutex::new(Vec::new());

pub fn first_repo_frame(bt: &str) -> String {
    bt.lines()
        .filter(|l| l.trim_start().starts_with("at "))
        .map(|l| l.trim())
        .find(|l| l.contains("/repo/src"))
        .unwrap_or("")
        .to_string()
}

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if PANICS.lock().map(|p| p.len() < 50).unwrap_or(false) || std::env::var("WZMON_TRACE").is_ok() {
            eprintln!("panic at {loc}: {m}");
        }
        if std::env::var("WZMON_TRACE").is_ok() {
            eprintln!("{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc.clone(), m.clone())));
        if let Ok(mut p) = PANICS.lock() {
            if p.len() < 1000 {
                p.push((loc, m));
            }
        }
    }));
}

pub fn panic_fail(p: &(String, String)) -> Fail {
    let file = p.0.rsplit_once(':').map(|x| x.0).unwrap_or(&p.0);
    let file = file.rsplit("/src/").next().unwrap_or(file);
    let msg: String = p.1.chars().filter(|c| !c.is_ascii_digit()).take(100).collect();
    Fail::new(format!("panic in {file}: {msg}"), format!("panic at {}: {}", p.0, p.1))
}

/// Run `f`, turning a panic into a failure.
pub fn guard<T>(f: impl FnOnce() -> Result<T, Fail>) -> Result<T, Fail> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let p = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(panic_fail(&p))
        }
    }
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let env_seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let env_tier = std::env::var("VERIF_TIER").unwrap_or_default();
    let code = match a.first().map(|s| s.as_str()) {
        Some("worker") => worker(&a),
        Some("check") => {
            let id = a.get(1).cloned().unwrap_or_default();
            let Some(p) = props::all().into_iter().find(|p| p.id == id) else {
                eprintln!("no property {id}");
                std::process::exit(2);
            };
            let mut variants = vec![("main".to_string(), std::env::current_exe().unwrap())];
            for (i, x) in a.iter().enumerate() {
                if x == "--alt" {
                    if let Some((n, e)) = a.get(i + 1).and_then(|s| s.split_once('=')) {
                        variants.push((n.into(), e.into()));
                    }
                }
            }
            let tier = arg(&a, "--tier").unwrap_or(env_tier);
            let o = sup::Opts {
                prop: id,
                seed: arg(&a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(env_seed),
                thorough: tier == "thorough",
                variants,
                scale: arg(&a, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
                verif: PathBuf::from(arg(&a, "--verif").unwrap_or("/verif".into())),
            };
            sup::run(&o, &p)
        }
        Some("replay") => replay(&a),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("wzmon check <ID> | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}

fn run_case(p: &Prop, c: &mut Ctx, idx: u64) -> Result<(), Fail> {
    PANICS.lock().unwrap().clear();
    let r = guard(|| (p.case)(c, idx));
    r?;
    // a panic in a thread the library started, or one it swallowed
    let ps = PANICS.lock().unwrap().clone();
    if let Some(x) = ps.first() {
        return Err(panic_fail(x));
    }
    Ok(())
}

fn worker(a: &[String]) -> i32 {
    install_hook();
    let id = &a[1];
    let p = props::all().into_iter().find(|p| p.id == id).unwrap();
    let g = |k: &str| arg(a, k).unwrap();
    let dir = PathBuf::from(g("--dir"));
    let (nshard, total, from): (u64, u64, u64) = (g("--nshard").parse().unwrap(), g("--total").parse().unwrap(), g("--from").parse().unwrap());
    let scratch = dir.join("s");
    std::fs::create_dir_all(&scratch).unwrap();
    let mut c = Ctx {
        prop: p.id,
        seed: g("--seed").parse().unwrap(),
        thorough: g("--tier") == "thorough",
        variant: g("--variant"),
        st: Default::default(),
        dir: scratch,
        digests: Default::default(),
        replay: false,
        status: Some(std::fs::File::create(dir.join("status")).unwrap()),
    };
    let mut fails = vec![];
    let mut idx = from;
    let stop = dir.parent().unwrap().join("stop");
    let known = sup::known(&PathBuf::from(arg(a, "--verif").unwrap_or("/verif".into())), p.id);
    let mut first_fail: Option<std::time::Instant> = None;
    // cases run on a thread with the ordinary 8 MiB main-thread stack size
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            while idx < total {
                c.status(idx, "");
                c.st.add("cases_run", 1);
                if let Err(f) = run_case(&p, &mut c, idx) {
                    if !known.iter().any(|k| k.0 == f.sig) {
                        first_fail.get_or_insert_with(std::time::Instant::now);
                    }
                    fails.push(json!({"idx": idx, "sig": f.sig, "msg": f.msg.chars().take(900).collect::<String>()}));
                    if fails.len() >= 400 {
                        break;
                    }
                }
                // something was found: a little more is enough to report
                if first_fail.map_or(false, |t| t.elapsed().as_secs() > 30) || stop.exists() {
                    break;
                }
                idx += nshard;
            }
            (c, fails)
        })
        .unwrap();
    let (c, fails) = h.join().unwrap();
    let dg: serde_json::Map<String, serde_json::Value> = c.digests.iter().map(|(k, v)| (k.to_string(), json!(v))).collect();
    let out = json!({"stats": c.st.to_json(), "fails": fails, "digests": dg});
    std::fs::write(dir.join("out.json"), out.to_string()).unwrap();
    0
}

fn replay(a: &[String]) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
    let id = v["property"].as_str().unwrap();
    let p = props::all().into_iter().find(|p| p.id == id).unwrap();
    install_hook();
    let dir = PathBuf::from(format!("/tmp/wzmon.replay.{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut c = Ctx {
        prop: p.id,
        seed: v["seed"].as_u64().unwrap(),
        thorough: v["tier"] == "thorough",
        variant: v["variant"].as_str().unwrap_or("main").into(),
        st: Default::default(),
        dir: dir.clone(),
        digests: Default::default(),
        replay: true,
        status: None,
    };
    let idx = v["case"].as_u64().unwrap();
    let r = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || run_case(&p, &mut c, idx))
        .unwrap()
        .join()
        .unwrap();
    if std::env::var("WZMON_KEEP").is_err() {
        let _ = std::fs::remove_dir_all(&dir);
    }
    match r {
        Ok(()) => {
            println!("case {idx} of {id}: no violation");
            0
        }
        Err(f) => {
            println!("case {idx} of {id}: {} [{}]", f.msg, f.sig);
            println!("VIOLATION property={id} replay={}", a[1]);
            1
        }
    }
}
