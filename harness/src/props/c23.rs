//! C23: files opened in one process do not influence each other.
//!
//! The library keeps process-wide state: the keys of the known ciphers, which grow on demand and are shared by every file
//! that uses them, and the list of generations found for other archives. Callers hand keys from file to file on top of
//! that. Whatever is open, was opened before or is being opened by other threads, each file tells what was written into it.
use crate::img::{self, Cmp, GenCfg, Img};
use crate::props::{c01, c06, c14};
use crate::rng::{hash_str, Rng};
use crate::stats::Stats;
use crate::sup::{Ctx, Fail, Prop};
use crate::wz::{self, TreeCfg, T, TE};
use crate::{crypt, ms, pkg2};
use std::path::PathBuf;
use std::sync::{Arc, Mutex, RwLock};
use wz_reader::util::profile::PKG2_PROFILE_CACHE;
use wz_reader::util::string_decryptor::{DecrypterType, EcbDecryptor, Pkg2Decryptor, GLOBAL_STRING_DECRYPTOR};
use wz_reader::{SharedWzStringDecryptor, WzNode, WzNodeArc, WzNodeCast, WzObjectType};

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        quick: if cfg!(wz_sched) { 1200 } else { 6000 },
        thorough: 60_000,
        case,
        evals: "comparisons_made",
        distinct: "histories",
        rule: "each case writes two to six files of mixed kinds and ciphers and lets one to five threads open them in random order (no key, the right key, a key object another file uses), compare all they hold, unparse and parse again, while others extend and reorder the generation list, grow the shared keys and drop what they hold; at the end everything still open is compared again and every file is opened once more; distinct: the histories of all threads (and schedules, under the scheduler)",
        need: &[
            "pkg1_opened", "pkg2_opened", "packs_opened", "images_opened", "keys_handed_over", "pkg2_keys_handed_over", "wrong_keys_given", "right_keys_given", "compared_again", "parsed_again", "cache_changes", "own_ciphers", "damaged_files_read", "damaged_nodes_read", "keys_grown", "key_bytes_compared", "threads_at_once", "single_threads", "same_cipher_pairs", "searched_beside", "opened_at_the_end",
        ],
        cpu_case: 120,
        digests: false,
        workers: 8,
    }
}

enum What {
    P1(c01::Gen),
    P2(pkg2::Gen, pkg2::Pkg2, pkg2::Built),
    Ms(ms::Pack, ms::Built, Vec<Img>),
    Img(Img),
}
struct File {
    path: PathBuf,
    iv: [u8; 4],
    what: What,
    d: String,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum With {
    Nothing,
    Right,
    Registry,
    Wrong,
    Shared(usize),
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Open(usize, With),
    Look(usize),
    Again(usize),
    Forget(usize),
    Cache(u64),
    Grow(usize, usize),
    Broken(usize, u64),
}

/// key objects of files opened so far: what a caller passes on
type Keys = Arc<Mutex<Vec<(SharedWzStringDecryptor, Option<[u8; 4]>)>>>;

fn std_ivs() -> [[u8; 4]; 3] {
    [crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS]
}
fn registry(iv: [u8; 4]) -> SharedWzStringDecryptor {
    GLOBAL_STRING_DECRYPTOR.get_decryptor_by_version(c01::version_of(iv))
}

fn gen_files(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Vec<File> {
    let n = 2 + rng.below(if cfg!(wz_sched) { 2 } else { 5 });
    // many files of one cipher share one key object of the registry
    let one = rng.chance(1, 3).then(|| *rng.pick(&std_ivs()));
    let mut v: Vec<File> = vec![];
    let cfg = || TreeCfg { budget: if cfg!(wz_sched) { 5 } else { 10 }, depth: 3, img: GenCfg { max_depth: 3, budget: if cfg!(wz_sched) { 4 } else { 8 }, blobs: 40, canvases: !cfg!(wz_sched), uol: false, ..Default::default() }, ..Default::default() };
    for k in 0..n {
        let kind = rng.below(8);
        let (path, iv, what, bytes, d) = match kind {
            0..=2 => {
                let g = loop {
                    let own = rng.chance(1, 6) && one.is_none();
                    let g = c01::gen(rng, &cfg(), !own);
                    if one.map_or(true, |i| i == g.o.iv) {
                        break g;
                    }
                };
                let b = g.b.bytes.clone();
                let d = format!("PKG1 {:02x?} version {}", g.o.iv, g.o.version);
                (format!("a{k}.wz"), g.o.iv, What::P1(g), b, d)
            }
            3 | 4 => {
                let g = *rng.pick(&pkg2::ALL);
                let (o, b) = c06::make(rng, g, &TreeCfg { byref: false, ..cfg() });
                let x = b.bytes.clone();
                let d = format!("{g:?} {:x}/{:x}", o.h1, o.t);
                (format!("b{k}.wz"), o.iv, What::P2(g, o, b), x, d)
            }
            5 => {
                let (p, imgs) = c14::gen(rng, 6);
                let b = ms::build(rng, &p);
                let x = b.bytes.clone();
                let d = format!("pack {:?}", p.file);
                let _ = std::fs::create_dir_all(c.dir.join(format!("m{idx}_{k}")));
                (format!("m{idx}_{k}/{}", p.file), crypt::IV_BMS, What::Ms(p, b, imgs), x, d)
            }
            _ => {
                let iv = one.unwrap_or_else(|| if rng.chance(1, 4) { rng.u32().to_le_bytes() } else { *rng.pick(&std_ivs()) });
                let gc = GenCfg { budget: 20, uol: false, canvases: !cfg!(wz_sched), ..Default::default() };
                let kids = loop {
                    if let Img::Props(k) = wz::gen_img(rng, &gc, iv, true) {
                        break k;
                    }
                };
                let i = Img::Props(kids);
                let x = img::encode(rng, &i, iv);
                let d = format!("image {iv:02x?}");
                (format!("i{k}.img"), iv, What::Img(i), x, d)
            }
        };
        let path = if path.contains('/') { c.dir.join(path) } else { c.dir.join(format!("f{idx}_{path}")) };
        std::fs::write(&path, &bytes).unwrap();
        v.push(File { path, iv, what, d });
    }
    v
}

/// Can the first name be read with this cipher, though it was written with another?
fn taken_for(f: &File, iv: [u8; 4]) -> bool {
    match &f.what {
        What::P1(g) => g.b.first_name.is_empty() || wz::ascii_under(&g.b.first_name, iv),
        What::P2(g, _, b) => !g.own_names() && wz::ascii_under(&b.first_name, iv),
        _ => true,
    }
}

fn key_for(rng: &mut Rng, f: &File, w: With, keys: &Keys, st: &mut Stats) -> Option<SharedWzStringDecryptor> {
    let own = !std_ivs().contains(&f.iv);
    let right = || Some(Arc::new(RwLock::new(EcbDecryptor::from_iv(f.iv))) as SharedWzStringDecryptor);
    if matches!(f.what, What::Ms(..) | What::Img(_)) {
        return None;
    }
    let fallback = if own { right() } else { None };
    match w {
        With::Nothing => fallback,
        With::Right => {
            st.add("right_keys_given", 1);
            right()
        }
        With::Registry if own => right(),
        With::Registry => {
            st.add("right_keys_given", 1);
            Some(registry(f.iv))
        }
        With::Wrong => {
            let iv = if rng.chance(1, 2) { *rng.pick(&std_ivs()) } else { rng.u32().to_le_bytes() };
            if own || iv == f.iv || taken_for(f, iv) {
                return fallback;
            }
            st.add("wrong_keys_given", 1);
            Some(if rng.chance(1, 2) && std_ivs().contains(&iv) { registry(iv) } else { Arc::new(RwLock::new(EcbDecryptor::from_iv(iv))) })
        }
        With::Shared(i) => {
            let (k, iv) = {
                let l = keys.lock().unwrap();
                if l.is_empty() {
                    return fallback;
                }
                l[i % l.len()].clone()
            };
            match iv {
                Some(iv) if iv == f.iv || (!own && !taken_for(f, iv)) => {
                    st.add("keys_handed_over", 1);
                    Some(k)
                }
                // a key of the names of other archives
                None if matches!(&f.what, What::P2(g, ..) if g.own_names()) => {
                    st.add("pkg2_keys_handed_over", 1);
                    Some(k)
                }
                _ => fallback,
            }
        }
    }
}

fn compare(st: &mut Stats, f: &File, n: &WzNodeArc, when: &str) -> Result<(), Fail> {
    st.add("comparisons_made", 1);
    let e = |x: String| Fail::new(format!("{when}: a file tells something else than was written"), format!("{when}: {x} ({})", f.d));
    match &f.what {
        What::P1(g) => {
            wz::compare(st, n, &g.b.tree, "", true, false).map_err(e)?;
            if !g.b.tree.is_empty() {
                let h = n.read().unwrap().try_as_file().unwrap().wz_file_meta.hash;
                if h != g.b.hash as usize {
                    return Err(e(format!("version hash {h}, stored {}", g.b.hash)));
                }
            }
        }
        What::P2(_, o, b) => {
            wz::compare(st, n, &b.tree, "", true, false).map_err(e)?;
            let h = n.read().unwrap().try_as_file().unwrap().wz_file_meta.hash as u64;
            if h != o.t {
                return Err(e(format!("version hash {h:x}")));
            }
        }
        What::Ms(p, b, imgs) => {
            let got = n.read().unwrap().children.len();
            if got != b.entries.len() {
                return Err(e(format!("{got} entries, stored {}", b.entries.len())));
            }
            for (x, i) in b.entries.iter().zip(imgs) {
                let k = n.read().unwrap().children.get(x.name.as_str()).cloned().ok_or_else(|| e(format!("entry {:?} is missing", x.name)))?;
                if !p.v2 && !x.name.is_ascii() {
                    continue;
                }
                k.write().unwrap().parse(&k).map_err(|y| e(format!("entry {:?} does not parse: {y}", x.name)))?;
                let mut cmp = Cmp::new(st);
                cmp.payloads = true;
                cmp.image(&k, i, &x.name).map_err(e)?;
            }
        }
        What::Img(i) => {
            let mut cmp = Cmp::new(st);
            cmp.payloads = true;
            cmp.image(n, i, "").map_err(e)?;
        }
    }
    Ok(())
}

/// every file the first time: opened, parsed and looked through
fn open(st: &mut Stats, f: &File, key: Option<&SharedWzStringDecryptor>, guess: bool, when: &str) -> Result<WzNodeArc, Fail> {
    let bad = |x: String| Fail::new(format!("{when}: a file does not open"), format!("{when}: {x} ({})", f.d));
    let n = match &f.what {
        What::P1(_) => {
            st.add("pkg1_opened", 1);
            WzNode::from_wz_file_full(&f.path, None, None, None, key).map_err(|x| bad(x.to_string()))?
        }
        What::P2(..) => {
            st.add("pkg2_opened", 1);
            WzNode::from_wz_file_full(&f.path, None, None, None, key).map_err(|x| bad(x.to_string()))?
        }
        What::Ms(..) => {
            st.add("packs_opened", 1);
            WzNode::from_ms_file(&f.path, None).map_err(|x| bad(x.to_string()))?
        }
        What::Img(_) => {
            st.add("images_opened", 1);
            if !std_ivs().contains(&f.iv) {
                st.add("own_ciphers", 1);
                WzNode::from_img_file_with_iv(&f.path, f.iv, None)
            } else if guess { WzNode::from_img_file(&f.path, None, None) } else { WzNode::from_img_file(&f.path, Some(c01::version_of(f.iv)), None) }.map_err(|x| bad(x.to_string()))?
        }
    }
    .into_lock();
    n.write().unwrap().parse(&n).map_err(|x| bad(format!("does not parse: {x}")))?;
    compare(st, f, &n, when)?;
    Ok(n)
}

fn pass_on(n: &WzNodeArc, f: &File, keys: &Keys) {
    let r = n.read().unwrap();
    let Some(w) = r.try_as_file() else {
        if let WzObjectType::Image(i) = &r.object_type {
            keys.lock().unwrap().push((i.reader.keys.clone(), Some(f.iv)));
        }
        return;
    };
    let mut l = keys.lock().unwrap();
    if l.len() > 40 {
        return;
    }
    match &f.what {
        // which cipher an empty archive has nobody can tell
        What::P1(g) if g.b.first_name.is_empty() => {}
        What::P2(g, ..) if g.own_names() => l.push((w.reader.pkg2_keys.clone(), None)),
        _ => l.push((w.reader.keys.clone(), Some(f.iv))),
    }
}

/// parse what is below again, from some place in the tree
fn again(rng: &mut Rng, n: &WzNodeArc, f: &File) -> Result<(), Fail> {
    let bad = |x: String| Fail::new("a file does not parse again", format!("{x} ({})", f.d));
    let mut at = n.clone();
    if rng.chance(1, 2) {
        let mut tree: &[TE] = match &f.what {
            What::P1(g) => &g.b.tree,
            What::P2(_, _, b) => &b.tree,
            _ => &[],
        };
        while !tree.is_empty() {
            let t = rng.pick(tree);
            let k = at.read().unwrap().children.get(t.name.as_str()).cloned();
            let Some(k) = k else { break };
            at = k;
            match &t.t {
                T::Dir(d) if rng.chance(2, 3) => tree = d,
                _ => break,
            }
        }
    }
    let mut w = at.write().unwrap();
    w.unparse();
    if !w.children.is_empty() && !matches!(w.object_type, WzObjectType::MsImage(_)) {
        return Err(bad("children left after unparse".into()));
    }
    w.parse(&at).map_err(|x| bad(x.to_string()))
}

fn check_keys(rng: &mut Rng, st: &mut Stats, iv: [u8; 4], grow: usize) -> Result<(), Fail> {
    let k = registry(iv);
    if grow > 0 {
        k.write().unwrap().ensure_key_size(grow).map_err(|e| Fail::from(format!("a shared key does not grow: {e}")))?;
        st.add("keys_grown", 1);
    }
    let want = crypt::keystream(iv, 300_100);
    let r = k.read().unwrap();
    if grow > 0 && !r.is_enough(grow) {
        return Err(Fail::new("a shared key is too short after growing", format!("{grow} bytes of {iv:02x?}")));
    }
    for j in 0..200 {
        let i = if j < 100 { rng.below(300_000) } else { rng.below(4200) };
        if let Some(b) = r.try_at(i) {
            st.add("key_bytes_compared", 1);
            if *b != want[i] {
                return Err(Fail::new("a shared key is another one", format!("byte {i} of the key of {iv:02x?} is {b:02x}, not {:02x}", want[i])));
            }
        }
    }
    Ok(())
}

/// other files are searched for: more generations, in another order; what was there stays there
fn change_cache(seed: u64, st: &mut Stats) {
    let mut rng = Rng::new(seed);
    let mut l = PKG2_PROFILE_CACHE.write().unwrap();
    for _ in 0..rng.below(3) {
        if l.len() > 60 {
            break;
        }
        let g = *rng.pick(&pkg2::ALL);
        let t = rng.u64() & if g.wide() { u64::MAX } else { 0xffff_ffff };
        let at = rng.below(l.len() + 1);
        l.insert(at, c06::cached(g, t));
    }
    if rng.chance(1, 2) {
        rng.shuffle(&mut l);
    }
    st.add("cache_changes", 1);
}

/// a damaged copy is opened and everything in it looked at; what comes of it does not matter here
fn broken(seed: u64, f: &File, st: &mut Stats) {
    if matches!(f.what, What::P2(..)) {
        return; // a search through all generations
    }
    let mut rng = Rng::new(seed);
    let mut b = std::fs::read(&f.path).unwrap();
    let from = rng.below(b.len());
    for _ in 0..1 + rng.below(4) {
        let i = from + rng.below(b.len() - from);
        b[i] = if rng.chance(1, 2) { rng.u64() as u8 } else { b[i] ^ 1 << rng.below(8) };
    }
    if rng.chance(1, 3) {
        let n = rng.below(b.len()) + 1;
        b.truncate(n);
    }
    let dir = f.path.parent().unwrap().join(format!("broken{seed:x}"));
    std::fs::create_dir(&dir).unwrap();
    let p = dir.join(f.path.file_name().unwrap());
    std::fs::write(&p, &b).unwrap();
    let n = match &f.what {
        What::Ms(..) => WzNode::from_ms_file(&p, None).ok(),
        What::Img(_) => WzNode::from_img_file(&p, rng.chance(1, 2).then(|| c01::version_of(f.iv)), None).ok(),
        _ => WzNode::from_wz_file_full(&p, None, None, None, None).ok(),
    };
    if let Some(n) = n {
        look(st, &n.into_lock(), 0);
    }
    std::fs::remove_file(&p).unwrap();
    let _ = std::fs::remove_dir(&dir);
    st.add("damaged_files_read", 1);
}
fn look(st: &mut Stats, n: &WzNodeArc, depth: usize) {
    let _ = n.write().unwrap().parse(n);
    let kids: Vec<WzNodeArc> = {
        let r = n.read().unwrap();
        if let Some(x) = r.try_as_lua() {
            let _ = x.extract_lua();
        }
        if let Some(x) = r.try_as_string() {
            let _ = x.get_string();
        }
        if let Some(x) = r.try_as_png() {
            if x.width as u64 * x.height as u64 <= 10_000 {
                let _ = x.extract_png();
            }
        }
        r.children.values().cloned().collect()
    };
    st.add("damaged_nodes_read", 1);
    if depth < 30 {
        for k in kids {
            look(st, &k, depth + 1);
        }
    }
}

fn gen_ops(rng: &mut Rng, n: usize, len: usize) -> Vec<Op> {
    (0..len)
        .map(|k| match rng.below(if k == 0 { 5 } else { 16 }) {
            0..=4 => Op::Open(
                rng.below(n),
                match rng.below(8) {
                    0 | 1 => With::Nothing,
                    2 => With::Right,
                    3 => With::Registry,
                    4 => With::Wrong,
                    _ => With::Shared(rng.below(1000)),
                },
            ),
            5..=7 => Op::Look(rng.below(100)),
            8..=10 => Op::Again(rng.below(100)),
            11 => Op::Forget(rng.below(100)),
            12 => Op::Broken(rng.below(n), rng.u64()),
            13 => Op::Cache(rng.u64()),
            _ => Op::Grow(rng.below(3), if rng.chance(1, 4) { 0 } else { *rng.pick(&[1usize, 100, 4096, 4097, 10_000, 70_000, 300_000]) }),
        })
        .collect()
}

type Held = Vec<(usize, WzNodeArc)>;

fn run_ops(seed: u64, ops: &[Op], files: &[File], keys: &Keys, st: &mut Stats, held: &mut Held) -> Result<(), Fail> {
    let mut rng = Rng::new(seed);
    for o in ops {
        #[cfg(wz_sched)]
        std::sched::label(&format!("{o:?}"));
        match *o {
            Op::Open(i, w) => {
                let k = key_for(&mut rng, &files[i], w, keys, st);
                let guess = rng.chance(1, 2);
                let n = open(st, &files[i], k.as_ref(), guess, "beside other files").map_err(|e| Fail::new(e.sig, format!("{} (opened with {w:?})", e.msg)))?;
                pass_on(&n, &files[i], keys);
                held.push((i, n));
            }
            Op::Look(j) if !held.is_empty() => {
                let (i, n) = &held[j % held.len()];
                compare(st, &files[*i], n, "looked at again")?;
                st.add("compared_again", 1);
            }
            Op::Again(j) if !held.is_empty() => {
                let (i, n) = &held[j % held.len()];
                again(&mut rng, n, &files[*i])?;
                compare(st, &files[*i], n, "parsed again")?;
                st.add("parsed_again", 1);
            }
            Op::Forget(j) if !held.is_empty() => {
                let j = j % held.len();
                held.swap_remove(j);
            }
            Op::Broken(i, s) => broken(s, &files[i], st),
            Op::Cache(s) => change_cache(s, st),
            Op::Grow(k, n) => check_keys(&mut rng, st, std_ivs()[k], n)?,
            _ => {}
        }
    }
    Ok(())
}

fn case(c: &mut Ctx, idx: u64) -> Result<(), Fail> {
    let mut rng = c.rng(idx);
    let rng = &mut rng;
    let files = Arc::new(gen_files(c, rng, idx));
    for (i, f) in files.iter().enumerate() {
        if files[..i].iter().any(|g| g.iv == f.iv && !matches!(g.what, What::Ms(..))) {
            c.st.add("same_cipher_pairs", 1);
        }
    }
    // the searches of most generations take seconds, so the list starts with what they would find
    let mut l = vec![];
    for f in files.iter() {
        if let What::P2(g, o, _) = &f.what {
            if g.wide() && rng.chance(1, 2) {
                c.st.add("searched_beside", 1);
            } else {
                l.push(c06::cached(*g, o.t));
            }
        }
    }
    rng.shuffle(&mut l);
    *PKG2_PROFILE_CACHE.write().unwrap() = l;
    let keys: Keys = Default::default();
    if rng.chance(1, 2) {
        let k = Pkg2Decryptor::new_with_key(rng.u64(), DecrypterType::KMST1199);
        keys.lock().unwrap().push((Arc::new(RwLock::new(k)), None));
    }
    let threads = if rng.chance(1, 3) { 1 } else { 2 + rng.below(if cfg!(wz_sched) { 2 } else { 4 }) };
    let per = 2 + rng.below(if threads == 1 { 14 } else if cfg!(wz_sched) { 4 } else { 10 });
    let mut jobs: Vec<Vec<Op>> = (0..threads).map(|_| gen_ops(rng, files.len(), per)).collect();
    if threads > 1 && rng.chance(1, 3) {
        // everyone begins with the same file
        let i = rng.below(files.len());
        for j in jobs.iter_mut() {
            j.insert(0, Op::Open(i, With::Nothing));
        }
    }
    c.st.add(if threads == 1 { "single_threads" } else { "threads_at_once" }, threads as u64);
    let shown: String = format!("{:?}: {jobs:?}", files.iter().map(|f| &f.d).collect::<Vec<_>>()).chars().take(1500).collect();
    c.st.sample(|| shown.clone());
    let out: Arc<Mutex<Vec<(Stats, Held)>>> = Default::default();
    let bad: Arc<Mutex<Option<Fail>>> = Default::default();
    let mut fs: Vec<Box<dyn FnOnce() + Send>> = vec![];
    let gate = Arc::new(std::sync::Barrier::new(threads));
    for ops in jobs {
        let (files, keys, out, bad, gate, seed) = (files.clone(), keys.clone(), out.clone(), bad.clone(), gate.clone(), rng.u64());
        fs.push(Box::new(move || {
            if cfg!(not(wz_sched)) {
                gate.wait();
            }
            let (mut st, mut held) = (Stats::default(), vec![]);
            if let Err(f) = crate::guard(|| run_ops(seed, &ops, &files, &keys, &mut st, &mut held)) {
                bad.lock().unwrap().get_or_insert(f);
            }
            out.lock().unwrap().push((st, held));
        }));
    }
    let mut history = hash_str(&shown);
    #[cfg(wz_sched)]
    {
        let how = *rng.pick(&[0u64, 0, 1, 2, 3, 6, 15]);
        let rep = std::sched::run(rng.u64(), how, 3_000_000, fs);
        c.st.add("scheduling_points", rep.steps);
        c.st.add("thread_switches", rep.switches);
        c.st.add("waits_for_a_lock", rep.blocked);
        if let Some(o) = rep.over {
            let kind = o.split(": ").next().unwrap().to_string();
            return Err(Fail::new(if kind == "deadlock" { "deadlock: no thread can go on" } else { "endless: the threads never end" }, format!("{o} ({shown})")));
        }
        history ^= rep.schedule;
    }
    #[cfg(not(wz_sched))]
    if threads == 1 {
        fs.pop().unwrap()();
    } else {
        let hs: Vec<_> = fs.into_iter().map(std::thread::spawn).collect();
        for h in hs {
            let _ = h.join();
        }
    }
    history = history.rotate_left(5);
    c.st.seen("histories", history);
    let say = |f: Fail| Fail::new(f.sig, format!("{} ({shown})", f.msg).chars().take(2500).collect::<String>());
    if let Some(f) = bad.lock().unwrap().take() {
        return Err(say(f));
    }
    // quiet again
    let mut held: Held = vec![];
    for (st, h) in out.lock().unwrap().drain(..) {
        c.st.merge(st);
        held.extend(h);
    }
    for (i, n) in &held {
        compare(&mut c.st, &files[*i], n, "afterwards").map_err(say)?;
    }
    for f in files.iter() {
        let own = !std_ivs().contains(&f.iv);
        let k = own.then(|| Arc::new(RwLock::new(EcbDecryptor::from_iv(f.iv))) as SharedWzStringDecryptor);
        open(&mut c.st, f, k.as_ref(), true, "opened once more").map_err(say)?;
        c.st.add("opened_at_the_end", 1);
    }
    for (i, n) in &held {
        again(rng, n, &files[*i]).map_err(say)?;
        compare(&mut c.st, &files[*i], n, "parsed again at the end").map_err(say)?;
    }
    for iv in std_ivs() {
        check_keys(rng, &mut c.st, iv, 0).map_err(say)?;
    }
    for f in files.iter() {
        let _ = std::fs::remove_file(&f.path);
        if matches!(f.what, What::Ms(..)) {
            let _ = std::fs::remove_dir(f.path.parent().unwrap());
        }
    }
    Ok(())
}
