//! The standard library with locks that a scheduler can see.
//!
//! The library under test and the harness are compiled with this crate in the place of `std`
//! (`--extern std=...`), so their sources need no change. Threads started by `sched::run` take
//! turns: exactly one runs at a time, and at every lock operation the scheduler chooses who goes
//! on. The locks follow the rules of std's RwLock (a reader waits behind a waiting writer; when a
//! lock becomes free with both waiting, a writer goes first). When no thread can go on, that is a
//! deadlock, and it is reported with what each thread holds and waits for.
//! On all other threads the locks behave as those of std.
pub use ::std::*;

pub mod sync {
    pub use crate::imp::{LazyLock, Mutex, MutexGuard, OnceLock, RwLock, RwLockReadGuard, RwLockWriteGuard};
    pub use ::std::sync::*;
}

pub mod thread {
    pub use ::std::thread::*;
    pub fn yield_now() {
        if !crate::sched::point() {
            ::std::thread::yield_now()
        }
    }
    pub fn sleep(d: ::std::time::Duration) {
        if !crate::sched::point() {
            ::std::thread::sleep(d)
        }
    }
}

pub mod sched {
    use ::std::cell::{Cell, RefCell};
    use ::std::collections::BTreeMap;
    use ::std::sync::{Arc, Condvar, Mutex};

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Kind {
        Read,
        Write,
    }

    #[derive(Clone, Copy, PartialEq, Eq)]
    enum Status {
        Ready,
        Blocked(usize, Kind),
        Done,
    }

    #[derive(Default)]
    struct Lock {
        ordinal: usize,
        readers: usize,
        writer: bool,
        waiting_readers: usize,
        waiting_writers: usize,
    }

    impl Lock {
        fn free(&self) -> bool {
            self.readers == 0 && !self.writer
        }
        /// may one that arrives now have it
        fn open_to_new(&self, k: Kind) -> bool {
            match k {
                Kind::Write => self.free(),
                Kind::Read => !self.writer && self.waiting_readers == 0 && (self.waiting_writers == 0 || self.readers == 0),
            }
        }
        /// may one that waits have it
        fn open_to_waiting(&self, k: Kind) -> bool {
            match k {
                Kind::Write => self.free(),
                Kind::Read => !self.writer && self.waiting_writers == 0,
            }
        }
    }

    struct Th {
        status: Status,
        label: String,
        held: Vec<(usize, Kind)>,
        prio: u64,
    }

    struct State {
        current: usize,
        started: bool,
        threads: Vec<Th>,
        locks: BTreeMap<usize, Lock>,
        ordinals: usize,
        rng: u64,
        /// one in so many points is a switch; 0: by priority, which changes at few points
        switch: u64,
        next_change: u64,
        steps: u64,
        max_steps: u64,
        blocked: u64,
        switches: u64,
        hash: u64,
        over: Option<String>,
    }

    pub struct Run {
        m: Mutex<State>,
        cvs: Vec<Condvar>,
        end: Condvar,
    }

    #[derive(Default, Clone, Debug)]
    pub struct Report {
        pub steps: u64,
        pub blocked: u64,
        pub switches: u64,
        pub schedule: u64,
        pub locks: u64,
        /// what went wrong: a deadlock or an endless run
        pub over: Option<String>,
    }

    thread_local! {
        static CUR: RefCell<Option<(Arc<Run>, usize)>> = const { RefCell::new(None) };
        static QUIET: Cell<u32> = const { Cell::new(0) };
    }

    fn cur() -> Option<(Arc<Run>, usize)> {
        CUR.try_with(|c| c.try_borrow().ok().and_then(|c| c.clone())).ok().flatten()
    }

    fn rnd(s: &mut u64) -> u64 {
        *s = s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }

    impl State {
        fn lock(&mut self, a: usize) -> &mut Lock {
            let next = self.ordinals;
            let l = self.locks.entry(a).or_insert_with(|| Lock { ordinal: next, ..Default::default() });
            if l.ordinal == next {
                self.ordinals += 1;
            }
            l
        }
        fn enabled(&self, t: usize) -> bool {
            match self.threads[t].status {
                Status::Ready => true,
                Status::Blocked(a, k) => self.locks.get(&a).map_or(true, |l| l.open_to_waiting(k)),
                Status::Done => false,
            }
        }
        /// who goes on; `me` may be among them
        fn choose(&mut self, me: Option<usize>) -> Option<usize> {
            let en: Vec<usize> = (0..self.threads.len()).filter(|t| self.enabled(*t)).collect();
            if en.is_empty() {
                return None;
            }
            if self.switch == 0 {
                if self.steps >= self.next_change {
                    self.next_change = self.steps + 1 + rnd(&mut self.rng) % 120;
                    let t = me.unwrap_or(en[0]);
                    // the lowest of all
                    self.threads[t].prio = (1 << 40) - self.steps.min(1 << 39);
                }
                return en.into_iter().max_by_key(|t| self.threads[*t].prio);
            }
            if let Some(m) = me {
                if en.contains(&m) && rnd(&mut self.rng) % self.switch != 0 {
                    return Some(m);
                }
            }
            let i = rnd(&mut self.rng) as usize % en.len();
            Some(en[i])
        }
        fn describe(&self) -> String {
            let name = |a: &usize| self.locks.get(a).map_or("?".to_string(), |l| format!("#{}", l.ordinal));
            let mut s = String::new();
            for (i, t) in self.threads.iter().enumerate() {
                if t.status == Status::Done {
                    continue;
                }
                let held: Vec<String> = t.held.iter().map(|(a, k)| format!("{k:?} {}", name(a))).collect();
                let w = match t.status {
                    Status::Blocked(a, k) => format!("waits for {k:?} {}", name(&a)),
                    _ => "runs".into(),
                };
                s += &format!("[thread {i} in {:?} holds {} and {w}] ", t.label, held.join(", "));
            }
            s
        }
    }

    impl Run {
        /// give the turn to someone; returns when `me` has it again
        fn pass<'a>(&'a self, mut s: ::std::sync::MutexGuard<'a, State>, me: usize) -> ::std::sync::MutexGuard<'a, State> {
            match s.choose(Some(me)) {
                Some(t) if t == me => s,
                Some(t) => {
                    s.switches += 1;
                    s.current = t;
                    self.cvs[t].notify_one();
                    while s.current != me {
                        s = self.cvs[me].wait(s).unwrap();
                    }
                    s
                }
                None => {
                    let d = s.describe();
                    s.over = Some(format!("deadlock: {d}"));
                    s.current = usize::MAX;
                    self.end.notify_all();
                    loop {
                        s = self.cvs[me].wait(s).unwrap();
                    }
                }
            }
        }
        fn step<'a>(&'a self, mut s: ::std::sync::MutexGuard<'a, State>, me: usize, what: u64) -> ::std::sync::MutexGuard<'a, State> {
            s.steps += 1;
            s.hash = (s.hash ^ what ^ (me as u64) << 32).wrapping_mul(0x100000001B3).rotate_left(23);
            if s.steps > s.max_steps {
                let d = s.describe();
                s.over = Some(format!("endless: {d}"));
                s.current = usize::MAX;
                self.end.notify_all();
                loop {
                    s = self.cvs[me].wait(s).unwrap();
                }
            }
            if QUIET.with(|q| q.get()) > 0 {
                return s;
            }
            self.pass(s, me)
        }
    }

    /// a place where the scheduler may choose; false on threads that are not under it
    pub fn point() -> bool {
        let Some((r, me)) = cur() else { return false };
        let s = r.m.lock().unwrap();
        drop(r.step(s, me, 1));
        true
    }

    pub(crate) fn acquire(a: usize, k: Kind) -> bool {
        let Some((r, me)) = cur() else { return false };
        let s = r.m.lock().unwrap();
        let mut s = r.step(s, me, 2 + k as u64);
        let o = s.lock(a).ordinal as u64;
        s.hash = s.hash.wrapping_add(o).wrapping_mul(31);
        if !s.lock(a).open_to_new(k) {
            s.blocked += 1;
            s.threads[me].status = Status::Blocked(a, k);
            match k {
                Kind::Read => s.lock(a).waiting_readers += 1,
                Kind::Write => s.lock(a).waiting_writers += 1,
            }
            s = r.pass(s, me);
            s.threads[me].status = Status::Ready;
            match k {
                Kind::Read => s.lock(a).waiting_readers -= 1,
                Kind::Write => s.lock(a).waiting_writers -= 1,
            }
        }
        take(&mut s, me, a, k);
        true
    }

    fn take(s: &mut State, me: usize, a: usize, k: Kind) {
        match k {
            Kind::Read => s.lock(a).readers += 1,
            Kind::Write => s.lock(a).writer = true,
        }
        s.threads[me].held.push((a, k));
    }

    /// None: not under the scheduler
    pub(crate) fn try_acquire(a: usize, k: Kind) -> Option<bool> {
        let (r, me) = cur()?;
        let s = r.m.lock().unwrap();
        let mut s = r.step(s, me, 4 + k as u64);
        let ok = s.lock(a).open_to_new(k);
        if ok {
            take(&mut s, me, a, k);
        }
        Some(ok)
    }

    pub(crate) fn release(a: usize, k: Kind) {
        let Some((r, me)) = cur() else { return };
        let mut s = r.m.lock().unwrap();
        match k {
            Kind::Read => s.lock(a).readers -= 1,
            Kind::Write => s.lock(a).writer = false,
        }
        if let Some(i) = s.threads[me].held.iter().rposition(|h| *h == (a, k)) {
            s.threads[me].held.remove(i);
        }
        drop(r.step(s, me, 6));
    }

    /// a lock goes away: its place may be used by another one
    pub(crate) fn forget(a: usize) {
        let Some((r, _)) = cur() else { return };
        let Ok(mut s) = r.m.lock() else { return };
        s.locks.remove(&a);
    }

    /// no choice is made inside `f` unless it has to wait
    pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
        struct G;
        impl Drop for G {
            fn drop(&mut self) {
                QUIET.with(|q| q.set(q.get() - 1));
            }
        }
        QUIET.with(|q| q.set(q.get() + 1));
        let _g = G;
        f()
    }

    /// what the current thread does, for reports
    pub fn label(l: &str) {
        if let Some((r, me)) = cur() {
            r.m.lock().unwrap().threads[me].label = l.to_string();
        }
    }

    /// run the jobs under the scheduler; `switch` as in `State`
    pub fn run(seed: u64, switch: u64, max_steps: u64, jobs: Vec<Box<dyn FnOnce() + Send>>) -> Report {
        let n = jobs.len();
        let mut rng = seed;
        let threads = (0..n).map(|_| Th { status: Status::Ready, label: String::new(), held: vec![], prio: (1 << 41) + (rnd(&mut rng) >> 24) }).collect();
        let r = Arc::new(Run {
            m: Mutex::new(State {
                current: usize::MAX,
                started: false,
                threads,
                locks: BTreeMap::new(),
                ordinals: 0,
                next_change: rnd(&mut rng) % 60,
                rng,
                switch,
                steps: 0,
                max_steps,
                blocked: 0,
                switches: 0,
                hash: 0xcbf29ce484222325,
                over: None,
            }),
            cvs: (0..n).map(|_| Condvar::new()).collect(),
            end: Condvar::new(),
        });
        let hs: Vec<_> = jobs
            .into_iter()
            .enumerate()
            .map(|(me, j)| {
                let r = r.clone();
                ::std::thread::Builder::new()
                    .stack_size(1 << 20)
                    .spawn(move || {
                        CUR.with(|c| *c.borrow_mut() = Some((r.clone(), me)));
                        {
                            let mut s = r.m.lock().unwrap();
                            while s.current != me {
                                s = r.cvs[me].wait(s).unwrap();
                            }
                        }
                        j();
                        CUR.with(|c| *c.borrow_mut() = None);
                        let mut s = r.m.lock().unwrap();
                        s.threads[me].status = Status::Done;
                        match s.choose(None) {
                            Some(t) => {
                                s.current = t;
                                r.cvs[t].notify_one();
                            }
                            None => {
                                if s.threads.iter().any(|t| t.status != Status::Done) {
                                    let d = s.describe();
                                    s.over = Some(format!("deadlock: {d}"));
                                }
                                s.current = usize::MAX;
                                r.end.notify_all();
                            }
                        }
                    })
                    .unwrap()
            })
            .collect();
        let mut s = r.m.lock().unwrap();
        s.started = true;
        let first = s.choose(None).unwrap();
        s.current = first;
        r.cvs[first].notify_one();
        while s.over.is_none() && s.threads.iter().any(|t| t.status != Status::Done) {
            s = r.end.wait(s).unwrap();
        }
        let rep = Report { steps: s.steps, blocked: s.blocked, switches: s.switches, schedule: s.hash, locks: s.ordinals as u64, over: s.over.clone() };
        drop(s);
        if rep.over.is_none() {
            for h in hs {
                let _ = h.join();
            }
        }
        rep
    }
}

mod imp {
    use crate::sched::{self, Kind};
    use ::std::fmt;
    use ::std::mem::ManuallyDrop;
    use ::std::ops::{Deref, DerefMut};
    use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

    pub struct RwLock<T: ?Sized> {
        // the address of this field stands for the lock (a lock of a sized value can be empty)
        id: u8,
        inner: ::std::sync::RwLock<T>,
    }
    pub struct RwLockReadGuard<'a, T: ?Sized> {
        g: ManuallyDrop<::std::sync::RwLockReadGuard<'a, T>>,
        a: usize,
    }
    pub struct RwLockWriteGuard<'a, T: ?Sized> {
        g: ManuallyDrop<::std::sync::RwLockWriteGuard<'a, T>>,
        a: usize,
    }

    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            RwLock { id: 0, inner: ::std::sync::RwLock::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            sched::forget(&self.id as *const u8 as usize);
            self.inner.into_inner()
        }
    }
    fn map<G, H>(r: LockResult<G>, f: impl FnOnce(G) -> H) -> LockResult<H> {
        match r {
            Ok(g) => Ok(f(g)),
            Err(e) => Err(PoisonError::new(f(e.into_inner()))),
        }
    }
    fn try_map<G, H>(r: TryLockResult<G>, f: impl FnOnce(G) -> H) -> TryLockResult<H> {
        match r {
            Ok(g) => Ok(f(g)),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(f(e.into_inner())))),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    impl<T: ?Sized> RwLock<T> {
        fn addr(&self) -> usize {
            &self.id as *const u8 as usize
        }
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            let a = self.addr();
            sched::acquire(a, Kind::Read);
            map(self.inner.read(), |g| RwLockReadGuard { g: ManuallyDrop::new(g), a })
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            let a = self.addr();
            sched::acquire(a, Kind::Write);
            map(self.inner.write(), |g| RwLockWriteGuard { g: ManuallyDrop::new(g), a })
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            let a = self.addr();
            if sched::try_acquire(a, Kind::Read) == Some(false) {
                return Err(TryLockError::WouldBlock);
            }
            try_map(self.inner.try_read(), |g| RwLockReadGuard { g: ManuallyDrop::new(g), a })
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            let a = self.addr();
            if sched::try_acquire(a, Kind::Write) == Some(false) {
                return Err(TryLockError::WouldBlock);
            }
            try_map(self.inner.try_write(), |g| RwLockWriteGuard { g: ManuallyDrop::new(g), a })
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.inner.get_mut()
        }
        pub fn is_poisoned(&self) -> bool {
            self.inner.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.inner.clear_poison()
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T> From<T> for RwLock<T> {
        fn from(t: T) -> Self {
            Self::new(t)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.inner.fmt(f)
        }
    }

    macro_rules! guard {
        ($g:ident, $k:expr) => {
            impl<T: ?Sized> Deref for $g<'_, T> {
                type Target = T;
                fn deref(&self) -> &T {
                    &self.g
                }
            }
            impl<T: ?Sized> Drop for $g<'_, T> {
                fn drop(&mut self) {
                    // SAFETY: the guard is not used after this
                    unsafe { ManuallyDrop::drop(&mut self.g) };
                    sched::release(self.a, $k);
                }
            }
            impl<T: ?Sized + fmt::Debug> fmt::Debug for $g<'_, T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    (**self).fmt(f)
                }
            }
            impl<T: ?Sized + fmt::Display> fmt::Display for $g<'_, T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    (**self).fmt(f)
                }
            }
        };
    }
    guard!(RwLockReadGuard, Kind::Read);
    guard!(RwLockWriteGuard, Kind::Write);
    guard!(MutexGuard, Kind::Write);
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.g
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.g
        }
    }

    pub struct Mutex<T: ?Sized> {
        id: u8,
        inner: ::std::sync::Mutex<T>,
    }
    pub struct MutexGuard<'a, T: ?Sized> {
        g: ManuallyDrop<::std::sync::MutexGuard<'a, T>>,
        a: usize,
    }
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex { id: 0, inner: ::std::sync::Mutex::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            sched::forget(&self.id as *const u8 as usize);
            self.inner.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            let a = &self.id as *const u8 as usize;
            sched::acquire(a, Kind::Write);
            map(self.inner.lock(), |g| MutexGuard { g: ManuallyDrop::new(g), a })
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            let a = &self.id as *const u8 as usize;
            if sched::try_acquire(a, Kind::Write) == Some(false) {
                return Err(TryLockError::WouldBlock);
            }
            try_map(self.inner.try_lock(), |g| MutexGuard { g: ManuallyDrop::new(g), a })
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.inner.get_mut()
        }
        pub fn is_poisoned(&self) -> bool {
            self.inner.is_poisoned()
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.inner.fmt(f)
        }
    }

    /// its initialisation is not interrupted, others would wait for it where the scheduler can't see them
    #[derive(Debug, Default, Clone)]
    pub struct OnceLock<T>(::std::sync::OnceLock<T>);
    impl<T> OnceLock<T> {
        pub const fn new() -> Self {
            OnceLock(::std::sync::OnceLock::new())
        }
        pub fn get(&self) -> Option<&T> {
            sched::point();
            self.0.get()
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.0.get_mut()
        }
        pub fn set(&self, t: T) -> Result<(), T> {
            sched::point();
            self.0.set(t)
        }
        pub fn get_or_init(&self, f: impl FnOnce() -> T) -> &T {
            sched::point();
            sched::quiet(|| self.0.get_or_init(f))
        }
        pub fn into_inner(self) -> Option<T> {
            self.0.into_inner()
        }
        pub fn take(&mut self) -> Option<T> {
            self.0.take()
        }
    }

    pub struct LazyLock<T, F = fn() -> T>(::std::sync::LazyLock<T, F>);
    impl<T, F: FnOnce() -> T> LazyLock<T, F> {
        pub const fn new(f: F) -> Self {
            LazyLock(::std::sync::LazyLock::new(f))
        }
        pub fn force(this: &Self) -> &T {
            sched::quiet(|| ::std::sync::LazyLock::force(&this.0))
        }
    }
    impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            Self::force(self)
        }
    }
}
