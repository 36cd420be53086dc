//! C18: split game data resolves into one merged tree.
use crate::img::{self, Img, V};
use crate::rng::Rng;
use crate::sup::{Ctx, Fail, Prop};
use crate::wz::{self, Pkg1, T, TE};
use crate::crypt;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::{Path, PathBuf};
use std::sync::{Arc, RwLock};
use wz_reader::util::string_decryptor::EcbDecryptor;
use wz_reader::util::{resolve_base, resolve_root_wz_file_dir, resolve_root_wz_file_dir_full};
use wz_reader::{SharedWzStringDecryptor, WzNode, WzNodeArc, WzNodeCast, WzObjectType};

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        quick: 5000,
        thorough: 300000,
        case,
        evals: "layouts_resolved",
        distinct: "layouts",
        rule: "each case writes one random layout of base file, category directories, numbered parts, nested categories and files that do not belong, in random creation order, and resolves it; distinct: merged trees together with the files they are split over",
        need: &["base_in_folder", "base_flat", "category_only", "parts", "nested_categories", "shared_directories", "listed_by_part_only", "categories_of_file_and_folder", "foreign_entries", "images_identified", "missing_category_files", "relative_paths"],
        cpu_case: 60,
        digests: false,
        workers: 8,
    }
}

/// What lies below a directory of the merged tree.
#[derive(Clone)]
enum L {
    Img(i32),
    Dir(Vec<(String, L)>),
    Cat(Cat),
}
/// A category with a folder (or a file) of its own.
#[derive(Clone)]
struct Cat {
    /// contents of its own files; `files` = names without .wz
    body: Vec<(String, L)>,
    files: Vec<String>,
    /// contents of the directory that lists it
    listed: Vec<(String, L)>,
    kind: Own,
}
#[derive(Clone, Copy, PartialEq)]
enum Own {
    /// <folder>/X/X.wz with numbered parts
    Folder,
    /// <folder>/X.wz
    Flat,
    /// both
    Both,
    /// no file of its own: <folder>/X without X.wz, or nothing at all
    Missing(bool),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Want {
    Img(i32),
    Dir,
    File,
}

struct G<'a> {
    rng: &'a mut Rng,
    next_id: i32,
    next_name: u32,
    iv: [u8; 4],
    version: i32,
    encver: bool,
    /// (path, bytes) of all files to create; directories without files
    out: Vec<(PathBuf, Vec<u8>)>,
    dirs: Vec<PathBuf>,
    counts: BTreeMap<&'static str, u64>,
}

const WORDS: &[&str] = &["Map", "Mob", "Npc", "Item", "Skill", "String", "Sound", "Character", "_Canvas", "Etc", "Quest_X", "UI", "Effect"];

impl G<'_> {
    fn add(&mut self, k: &'static str) {
        *self.counts.entry(k).or_default() += 1;
    }
    fn name(&mut self) -> String {
        self.next_name += 1;
        let w = *self.rng.pick(WORDS);
        if self.rng.chance(1, 12) {
            // beyond ascii
            return format!("{w}지도{}", self.next_name);
        }
        format!("{w}{}", self.next_name)
    }
    fn img(&mut self) -> (String, L) {
        self.next_id += 1;
        let id = self.next_id;
        (format!("entry{:06}{}", id, if self.rng.chance(7, 8) { ".img" } else { "" }), L::Img(id))
    }
    fn contents(&mut self, n: usize, depth: usize, cats: usize) -> Vec<(String, L)> {
        let mut v = vec![];
        for _ in 0..n {
            if depth > 0 && self.rng.chance(1, 3) {
                let m = self.rng.below(4);
                let name = self.name();
                v.push((name, L::Dir(self.contents(m, depth - 1, 0))));
            } else {
                v.push(self.img());
            }
        }
        for _ in 0..cats {
            let name = self.name();
            let kind = if self.rng.chance(1, 6) { Own::Missing(self.rng.chance(1, 2)) } else { Own::Folder };
            let c = self.cat(&name, kind, depth.saturating_sub(1));
            v.push((name, L::Cat(c)));
        }
        self.rng.shuffle(&mut v);
        v
    }
    fn cat(&mut self, name: &str, kind: Own, depth: usize) -> Cat {
        let n = 1 + self.rng.below(6);
        let nested = if matches!(kind, Own::Folder | Own::Both) && depth > 0 && self.rng.chance(2, 5) { 1 + self.rng.below(2) } else { 0 };
        let body = if let Own::Missing(_) = kind { vec![] } else { self.contents(n, depth.min(2), nested) };
        let mut files = vec![];
        if !matches!(kind, Own::Missing(_)) {
            files.push(name.to_string());
        }
        if matches!(kind, Own::Folder | Own::Both) && self.rng.chance(3, 5) {
            files.extend(self.numbers(name));
        }
        let mut listed = vec![];
        if self.rng.chance(1, 4) || matches!(kind, Own::Missing(_)) {
            let n = 1 + self.rng.below(2);
            listed = self.contents(n, 1, 0);
            // a directory that is in the category's own files as well
            if let Some((d, L::Dir(_))) = body.iter().find(|x| matches!(x.1, L::Dir(_))) {
                let m = self.rng.below(3);
                let sub = self.contents(m, 0, 0);
                listed.push((d.clone(), L::Dir(sub)));
                self.add("directories_listed_twice");
            }
        }
        Cat { body, files, listed, kind }
    }
    fn numbers(&mut self, name: &str) -> Vec<String> {
        let n = 1 + self.rng.below(4);
        let mut v = BTreeSet::new();
        let gap = self.rng.chance(1, 3);
        for i in 0..n {
            let k = if gap { self.rng.below(1000) } else { i };
            let digits = *self.rng.pick(&[3usize, 3, 3, 1, 2, 4]);
            v.insert(format!("{name}_{k:0digits$}"));
        }
        v.into_iter().collect()
    }
    /// Spread `items` over the files `to` (indices into out).
    fn spread(&mut self, items: &[(String, L)], to: &[usize], out: &mut [Vec<TE>]) {
        for (name, l) in items {
            match l {
                L::Img(id) => {
                    let f = *self.rng.pick(to);
                    let mut kids = vec![("id".to_string(), V::Int(*id))];
                    if self.rng.chance(1, 4) {
                        kids.push(("sub".to_string(), V::Prop(vec![("a".into(), V::Str(format!("text {id}")))])));
                    }
                    let i = Img::Props(kids);
                    let e = img::encode(self.rng, &i, self.iv);
                    out[f].push(te(name, T::Img(i, e)));
                }
                L::Dir(kids) => {
                    let s = self.subset(to);
                    if s.len() > 1 {
                        self.add("shared_directories");
                    }
                    self.dir(name, kids, &s, out);
                }
                L::Cat(c) => {
                    let s = self.subset(to);
                    if to.len() > 1 && !s.contains(&to[0]) {
                        self.add("listed_by_part_only");
                    }
                    self.dir(name, &c.listed, &s, out);
                }
            }
        }
    }
    fn subset(&mut self, to: &[usize]) -> Vec<usize> {
        let mut s: Vec<usize> = to.iter().copied().filter(|_| self.rng.chance(1, 2)).collect();
        if s.is_empty() {
            s.push(*self.rng.pick(to));
        }
        s
    }
    fn dir(&mut self, name: &str, kids: &[(String, L)], s: &[usize], out: &mut [Vec<TE>]) {
        let mut sub: Vec<Vec<TE>> = vec![vec![]; s.len()];
        let all: Vec<usize> = (0..s.len()).collect();
        self.spread(kids, &all, &mut sub);
        for (f, k) in s.iter().zip(sub) {
            out[*f].push(te(name, T::Dir(k)));
        }
    }
    /// Bytes of an archive that is read as what it is.
    fn archive(&mut self, mut tree: Vec<TE>) -> Option<Vec<u8>> {
        for _ in 0..20 {
            self.rng.shuffle(&mut tree);
            // the cipher is told from the first name
            if let Some(i) = tree.iter().position(|t| matches!(t.t, T::Img(..)) && t.name.is_ascii()) {
                tree.swap(0, i);
            }
            let o = Pkg1 {
                fstart: *self.rng.pick(&[60usize, 60, 16, 64, 100]),
                version: self.version,
                encver: self.encver,
                iv: self.iv,
                ignorable: self.rng.chance(1, 8),
                junk: self.rng.chance(1, 2),
                plain: self.rng.chance(1, 2),
            };
            let b = wz::build_pkg1(self.rng, tree.clone(), &o);
            let order = [crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS];
            if b.version_ambiguous() || order.iter().take_while(|x| **x != self.iv).any(|x| wz::ascii_under(&b.first_name, *x)) {
                continue;
            }
            return Some(b.bytes);
        }
        None
    }
    /// Write `items` as the files `names` of `folder`; their place in the merged tree is `at`.
    fn files(&mut self, folder: &Path, names: &[String], items: &[(String, L)], at: &str, want: &mut BTreeMap<String, Want>) -> Option<()> {
        let mut out: Vec<Vec<TE>> = vec![vec![]; names.len()];
        let all: Vec<usize> = (0..names.len()).collect();
        self.spread(items, &all, &mut out);
        self.expect(items, at, want);
        for f in &mut out {
            // an archive tells its cipher and version by its first entries
            if !f.iter().any(|t| matches!(t.t, T::Img(..))) {
                let x = self.img();
                self.expect(std::slice::from_ref(&x), at, want);
                let mut one = vec![vec![]];
                self.spread(&[x], &[0], &mut one);
                f.append(&mut one[0]);
            }
        }
        for (n, f) in names.iter().zip(out) {
            let b = self.archive(f)?;
            self.out.push((folder.join(format!("{n}.wz")), b));
        }
        for (n, l) in items {
            let L::Cat(c) = l else { continue };
            self.category(folder, n, c, &format!("{at}/{n}"), want)?;
        }
        Some(())
    }
    fn category(&mut self, folder: &Path, name: &str, c: &Cat, at: &str, want: &mut BTreeMap<String, Want>) -> Option<()> {
        match c.kind {
            Own::Folder => {
                want.insert(at.to_string(), Want::File);
                let f = folder.join(name);
                self.foreign(&f, name)?;
                self.files(&f, &c.files, &c.body, at, want)?;
                if c.files.len() > 1 {
                    *self.counts.entry("parts").or_default() += c.files.len() as u64 - 1;
                }
                self.add("categories");
            }
            Own::Flat => {
                want.insert(at.to_string(), Want::File);
                self.files(folder, &c.files, &c.body, at, want)?;
                self.add("categories");
                self.add("flat_categories");
            }
            Own::Both => {
                want.insert(at.to_string(), Want::File);
                let (mut flat, mut deep) = (vec![], vec![]);
                for (n, l) in &c.body {
                    match l {
                        L::Img(_) if self.rng.chance(1, 2) => flat.push((n.clone(), l.clone())),
                        L::Dir(k) => {
                            let at = self.rng.below(k.len() + 1);
                            flat.push((n.clone(), L::Dir(k[..at].to_vec())));
                            deep.push((n.clone(), L::Dir(k[at..].to_vec())));
                        }
                        _ => deep.push((n.clone(), l.clone())),
                    }
                }
                self.files(folder, &c.files[..1], &flat, at, want)?;
                let f = folder.join(name);
                self.foreign(&f, name)?;
                self.files(&f, &c.files, &deep, at, want)?;
                self.add("categories_of_file_and_folder");
            }
            Own::Missing(dir) => {
                self.add("missing_category_files");
                if dir {
                    let f = folder.join(name);
                    self.dirs.push(f.clone());
                    if self.rng.chance(1, 2) {
                        self.foreign(&f, name)?;
                    }
                }
            }
        }
        Some(())
    }
    fn expect(&mut self, items: &[(String, L)], at: &str, want: &mut BTreeMap<String, Want>) {
        for (n, l) in items {
            let p = format!("{at}/{n}");
            match l {
                L::Img(i) => {
                    want.insert(p, Want::Img(*i));
                }
                L::Dir(k) => {
                    want.entry(p.clone()).or_insert(Want::Dir);
                    self.expect(k, &p, want);
                }
                L::Cat(c) => {
                    want.entry(p.clone()).or_insert(Want::Dir);
                    self.expect(&c.listed, &p, want);
                }
            }
        }
    }
    /// An archive that must not be found in the tree.
    fn stray(&mut self) -> Option<Vec<u8>> {
        let x = self.img();
        let mut one = vec![vec![]];
        self.spread(&[x], &[0], &mut one);
        self.archive(one.remove(0))
    }
    /// Files and directories that do not belong to the series of `name`.
    fn foreign(&mut self, folder: &Path, name: &str) -> Option<()> {
        if !self.rng.chance(1, 2) {
            return Some(());
        }
        for _ in 0..1 + self.rng.below(3) {
            self.add("foreign_entries");
            let n = self.rng.below(40);
            let junk = self.rng.bytes(n);
            match self.rng.below(11) {
                0 => self.out.push((folder.join("readme.txt"), junk)),
                1 => self.out.push((folder.join(format!("{name}.ini")), format!("LastWzIndex|{}", self.rng.below(9)).into_bytes())),
                2 => {
                    let b = self.stray()?;
                    let w = *self.rng.pick(&["abc", "1a", "", "00x", "-1"]);
                    self.out.push((folder.join(format!("{name}_{w}.wz")), b));
                }
                3 => {
                    let e = *self.rng.pick(&["txt", "ini", "wz_bak", "nx"]);
                    self.out.push((folder.join(format!("notes_{:03}.{e}", self.rng.below(9))), junk))
                }
                4 => {
                    let b = self.stray()?;
                    self.out.push((folder.join(format!("{name}_001.wz.bak")), b));
                }
                5 => {
                    // a category nobody lists
                    let b = self.stray()?;
                    self.dirs.push(folder.join("Unlisted"));
                    self.out.push((folder.join("Unlisted/Unlisted.wz"), b));
                }
                6 => self.dirs.push(folder.join(format!("{name}_002"))),
                7 => {
                    use std::os::unix::ffi::OsStringExt;
                    let file = self.rng.chance(1, 2);
                    let s = std::ffi::OsString::from_vec(vec![if file { b'a' } else { b'b' }, 0xff, 0xfe, b'_', b'1', b'.', b'w', b'z']);
                    if file {
                        self.out.push((folder.join(s), junk));
                    } else {
                        self.dirs.push(folder.join(s));
                    }
                }
                8 => self.out.push((folder.join("_000"), junk)),
                9 => self.out.push((folder.join(".hidden_1"), junk)),
                _ => {
                    let b = self.stray()?;
                    self.out.push((folder.join(format!("{name}2.wz")), b));
                }
            }
        }
        Some(())
    }
}

fn te(name: &str, t: T) -> TE {
    TE { name: name.to_string(), t, byref: false, size: 0, off: 0 }
}

/// The merged tree as it is found.
struct Found<'a> {
    c: &'a mut Ctx,
    got: BTreeMap<String, Want>,
    ids: HashSet<i32>,
}
impl Found<'_> {
    fn walk(&mut self, node: &WzNodeArc, at: &str) -> Result<(), String> {
        let kids: Vec<(String, WzNodeArc)> = node.read().unwrap().children.iter().map(|(n, c)| (n.to_string(), c.clone())).collect();
        for (n, k) in kids {
            let p = format!("{at}/{n}");
            self.c.st.add("nodes_checked", 1);
            let (is_img, kind) = {
                let r = k.read().unwrap();
                if r.name.as_str() != n {
                    return Err(format!("{p}: the node is named {:?}", r.name.as_str()));
                }
                match r.parent.upgrade() {
                    Some(q) if Arc::ptr_eq(&q, node) => {}
                    Some(_) => return Err(format!("{p}: the parent link leads to another node")),
                    None => return Err(format!("{p}: the parent link leads nowhere")),
                }
                match &r.object_type {
                    WzObjectType::Image(_) => (true, Want::Img(0)),
                    WzObjectType::Directory(_) => (false, Want::Dir),
                    WzObjectType::File(_) => (false, Want::File),
                    _ => return Err(format!("{p}: unexpected kind of node")),
                }
            };
            if is_img {
                k.write().unwrap().parse(&k).map_err(|e| format!("{p}: the image does not parse: {e}"))?;
                let id = k.read().unwrap().at("id").and_then(|x| x.read().unwrap().try_as_int().copied()).ok_or_else(|| format!("{p}: the image has another content"))?;
                self.c.st.add("images_identified", 1);
                if !self.ids.insert(id) {
                    return Err(format!("{p}: image {id} is found twice"));
                }
                self.got.insert(p, Want::Img(id));
            } else {
                self.got.insert(p.clone(), kind);
                self.walk(&k, &p)?;
            }
        }
        Ok(())
    }
}

fn check(c: &mut Ctx, root: &WzNodeArc, name: &str, want: &BTreeMap<String, Want>, parent: Option<&WzNodeArc>) -> Result<(), String> {
    {
        let r = root.read().unwrap();
        if r.name.as_str() != name {
            return Err(format!("the root is named {:?}, not {name:?}", r.name.as_str()));
        }
        match (r.parent.upgrade(), parent) {
            (None, None) => {}
            (Some(a), Some(b)) if Arc::ptr_eq(&a, b) => {}
            _ => return Err("the parent of the root is not the given one".into()),
        }
        if r.try_as_file().is_none() {
            return Err("the root is no file".into());
        }
    }
    let mut f = Found { c, got: BTreeMap::new(), ids: HashSet::new() };
    f.walk(root, "")?;
    let got = f.got;
    for (p, w) in want {
        match got.get(p) {
            None => return Err(format!("{} is missing: {p:?}", if let Want::Img(_) = w { "an image" } else { "a directory" })),
            // what a directory with files of its own is shown as is not laid down
            Some(g) if g == w || (*w == Want::Dir && *g == Want::File) || (*w == Want::File && *g == Want::Dir) => {}
            Some(g) => return Err(format!("{p:?} is {g:?}, stored {w:?}")),
        }
    }
    if let Some((p, g)) = got.iter().find(|x| !want.contains_key(x.0)) {
        return Err(format!("{} that is not part of it: {p:?} {g:?}", if let Want::Img(_) = g { "an image" } else { "a directory" }));
    }
    // paths from the root lead to the same nodes
    for (p, w) in want.iter().take(40) {
        let n = root.read().unwrap().at_path(&p[1..]).ok_or_else(|| format!("{p:?} is not found by its path"))?;
        let back = n.read().unwrap().get_full_path();
        let full = match parent {
            Some(q) => format!("{}/{name}{p}", q.read().unwrap().get_full_path()),
            None => format!("{name}{p}"),
        };
        if back != full {
            return Err(format!("{p:?}: its full path is {back:?}, not {full:?}"));
        }
        if let Want::Img(id) = w {
            let got = n.read().unwrap().at("id").and_then(|x| x.read().unwrap().try_as_int().copied());
            if got != Some(*id) {
                return Err(format!("{p:?}: another image is found by its path"));
            }
        }
        c.st.add("paths_followed", 1);
    }
    Ok(())
}

pub struct Layout {
    pub files: Vec<(PathBuf, Vec<u8>)>,
    pub dirs: Vec<PathBuf>,
    pub want: BTreeMap<String, Want>,
    pub name: String,
    /// the file to resolve, relative to the scratch directory
    pub file: PathBuf,
    pub base: bool,
    pub version: i32,
    pub iv: [u8; 4],
    pub counts: BTreeMap<&'static str, u64>,
}

pub fn layout(rng: &mut Rng) -> Option<Layout> {
    let iv = *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS]);
    let encver = rng.chance(1, 2);
    let version = if encver { 1 + rng.below(400) as i32 } else { 770 + rng.below(11) as i32 };
    let mut g = G { rng, next_id: 0, next_name: 0, iv, version, encver, out: vec![], dirs: vec![], counts: BTreeMap::new() };
    let mut want = BTreeMap::new();
    let r = PathBuf::from("R");
    let base = g.rng.chance(2, 3);
    let (file, name);
    if base {
        name = "Base".to_string();
        let n = g.rng.below(4);
        let mut items = g.contents(n, 1, 0);
        let folder = g.rng.chance(1, 2);
        let flat_cats = g.rng.chance(1, 2);
        let ncat = g.rng.below(5);
        for _ in 0..ncat {
            let name = g.name();
            let kind = match g.rng.below(8) {
                0 => Own::Missing(g.rng.chance(1, 2)),
                1..=3 if flat_cats => Own::Flat,
                4 if flat_cats => Own::Both,
                _ => Own::Folder,
            };
            let depth = 1 + g.rng.below(3);
            let c = g.cat(&name, kind, depth);
            items.push((name, L::Cat(c)));
        }
        let mut names = vec![name.clone()];
        // numbered files beside flat ones belong to nobody in particular
        if g.rng.chance(1, 3) && (folder || !flat_cats) {
            names.extend(g.numbers("Base"));
            *g.counts.entry("parts").or_default() += names.len() as u64 - 1;
        }
        if folder {
            g.add("base_in_folder");
            file = r.join("Base/Base.wz");
            // written like a category that lists what lies one folder above
            let mut sub: Vec<(String, L)> = vec![];
            for (n, l) in &items {
                if let L::Cat(c) = l {
                    g.category(&r, n, c, &format!("/{n}"), &mut want)?;
                    let mut c = c.clone();
                    c.kind = Own::Missing(false);
                    sub.push((n.clone(), L::Cat(c)));
                } else {
                    sub.push((n.clone(), l.clone()));
                }
            }
            g.foreign(&r.join("Base"), "Base")?;
            g.files(&r.join("Base"), &names, &sub, "", &mut want)?;
        } else {
            g.add("base_flat");
            file = r.join("Base.wz");
            g.files(&r, &names, &items, "", &mut want)?;
        }
        if !flat_cats || g.rng.chance(1, 2) {
            g.foreign(&r, "R")?;
        }
    } else {
        g.add("category_only");
        name = g.name();
        let c = g.cat(&name, Own::Folder, 3);
        file = r.join(&name).join(format!("{name}.wz"));
        g.category(&r, &name, &c, "", &mut want)?;
        want.remove("");
    }
    let nested = want.iter().filter(|x| *x.1 == Want::File && x.0.matches('/').count() > if base { 1 } else { 0 }).count();
    *g.counts.entry("nested_categories").or_default() += nested as u64;
    let G { out, dirs, counts, .. } = g;
    Some(Layout { files: out, dirs, want, name, file, base, version, iv, counts })
}

fn case(c: &mut Ctx, idx: u64) -> Result<(), Fail> {
    let mut rng = c.rng(idx);
    let l = loop {
        if let Some(l) = layout(&mut rng) {
            break l;
        }
    };
    for (k, n) in &l.counts {
        c.st.add(k, *n);
    }
    let top = c.dir.join(format!("s{idx}"));
    let mut order: Vec<usize> = (0..l.files.len()).collect();
    let mut h = 7u64;
    for (p, w) in &l.want {
        h = h.wrapping_mul(31).wrapping_add(crate::rng::hash_str(p)) ^ matches!(w, Want::File) as u64;
    }
    for (p, b) in &l.files {
        h = h.wrapping_mul(31).wrapping_add(crate::rng::hash_str(&p.to_string_lossy())) ^ b.len() as u64;
    }
    c.st.seen("layouts", h);
    c.st.add("files_written", l.files.len() as u64);
    c.st.max("files_of_a_layout", l.files.len() as u64);
    c.st.sample(|| format!("{}: {} files, {} nodes; {:?}", l.file.display(), l.files.len(), l.want.len(), l.files.iter().map(|f| f.0.to_string_lossy().to_string()).take(12).collect::<Vec<_>>()));
    // twice, so that the directories are listed in another order
    let rounds = if rng.chance(1, 4) { 2 } else { 1 };
    // a file that is not what its name tells: any answer will do
    let broken = rng.chance(1, 25).then(|| {
        let i = rng.below(l.files.len());
        let n = l.files[i].1.len();
        let b = match rng.below(4) {
            0 => vec![],
            1 => rng.bytes(100),
            2 => l.files[i].1[..rng.below(n + 1)].to_vec(),
            _ => {
                let mut b = l.files[i].1.clone();
                for _ in 0..4 {
                    let at = rng.below(n.min(90));
                    if let Some(x) = b.get_mut(at) {
                        *x = rng.u8();
                    }
                }
                b
            }
        };
        (i, b)
    });
    for round in 0..rounds {
        let _ = std::fs::remove_dir_all(&top);
        std::fs::create_dir_all(top.join("R")).unwrap();
        rng.shuffle(&mut order);
        let mut dirs: Vec<usize> = (0..l.dirs.len()).collect();
        rng.shuffle(&mut dirs);
        let late = rng.chance(1, 2);
        if !late {
            dirs.iter().for_each(|d| std::fs::create_dir_all(top.join(&l.dirs[*d])).unwrap());
        }
        for i in &order {
            let (p, b) = &l.files[*i];
            let p = top.join(p);
            if broken.as_ref().is_some_and(|x| x.0 == *i) {
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(&p, &broken.as_ref().unwrap().1).unwrap();
                continue;
            }
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(&p, b).unwrap();
        }
        if late {
            dirs.iter().for_each(|d| std::fs::create_dir_all(top.join(&l.dirs[*d])).unwrap());
        }
        let rel = rng.below(6);
        let path = match rel {
            0 => l.file.strip_prefix("R").unwrap().to_path_buf(),
            1 if !l.base => PathBuf::from(l.file.file_name().unwrap()),
            2 => PathBuf::from("./R").join(l.file.strip_prefix("R").unwrap()),
            _ => top.join(&l.file),
        };
        if !path.is_absolute() {
            let cwd = match rel {
                0 => top.join("R"),
                1 => top.join(&l.file).parent().unwrap().to_path_buf(),
                _ => top.clone(),
            };
            std::env::set_current_dir(cwd).unwrap();
            c.st.add("relative_paths", 1);
        }
        let what = format!("{} (round {round})", path.display());
        let ver = if rng.chance(1, 2) { Some(super::c01::version_of(l.iv)) } else { None };
        let mut parent = None;
        let root = if l.base {
            resolve_base(&path, ver)
        } else {
            if rng.chance(1, 2) {
                parent = Some(WzNode::from_str("above", WzObjectType::Value(wz_reader::property::WzValue::Null), None).into_lock());
            }
            if rng.chance(1, 2) {
                let keys: Option<SharedWzStringDecryptor> = if rng.chance(1, 2) { Some(Arc::new(RwLock::new(EcbDecryptor::from_iv(l.iv)))) } else { None };
                let pv = if rng.chance(1, 2) { Some(l.version) } else { None };
                resolve_root_wz_file_dir_full(&path, ver, pv, parent.as_ref(), keys.as_ref())
            } else {
                resolve_root_wz_file_dir(&path, parent.as_ref())
            }
        };
        std::env::set_current_dir("/").unwrap();
        c.st.add("layouts_resolved", 1);
        if broken.is_some() {
            c.st.add(if root.is_ok() { "broken_files_passed_over" } else { "broken_files_reported" }, 1);
            continue;
        }
        let root = root.map_err(|e| format!("{what}: not resolved: {e}"))?;
        check(c, &root, &l.name, &l.want, parent.as_ref()).map_err(|e| {
            let mut s = Fail::from(e.clone());
            s.msg = format!("{what}: {e}; files {:?}", l.files.iter().map(|f| f.0.display().to_string()).collect::<Vec<_>>());
            s
        })?;
    }
    if std::env::var("WZMON_KEEP").is_err() {
        std::fs::remove_dir_all(&top).unwrap();
    }
    Ok(())
}
