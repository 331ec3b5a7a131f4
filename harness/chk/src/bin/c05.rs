//! C05: writing a snapshot is atomic under crashes and I/O faults.
//!
//! The file system calls of this program go through the functions of module `io` below. In a forked child they
//! count the calls that change files under the scratch directory and can end the process before, in the middle of
//! or after any of them, or let them fail. They also keep, per file, the contents at its last successful sync: what
//! a power failure would leave.
#![allow(invalid_runtime_symbol_definitions, unknown_lints)]
use chk::{engine::snapshot as snap, engine::store::Cache, engine::vault::ClientId, engine::vault::DbView, sh::*, *};
use std::{collections::HashMap, path::Path};
use vh::prelude::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// the process ends instead of the call
    Crash,
    /// the process ends after this share (of 256) of the data is written
    CrashMid(u8),
    Fail(i32),
    /// only a share of the data is written and reported written
    Short(u8),
    /// this call and all later writes fail
    Full(i32),
}

mod io {
    use super::Fault;
    use libc::{c_char, c_int, c_long, c_void, iovec, mode_t, off_t, size_t, ssize_t};
    use std::{
        collections::HashMap,
        ffi::{CStr, OsStr},
        os::unix::{ffi::OsStrExt, fs::MetadataExt},
        path::{Path, PathBuf},
        sync::{
            atomic::{AtomicBool, Ordering::SeqCst},
            Mutex,
        },
    };

    pub struct St {
        pub n: usize,
        pub plan: Vec<(usize, Fault)>,
        pub durable: HashMap<u64, Vec<u8>>,
        pub root: PathBuf,
        pub target: PathBuf,
        pub side: PathBuf,
        pub log: Vec<String>,
        pub full: Option<i32>,
    }
    static ACTIVE: AtomicBool = AtomicBool::new(false);
    static ST: Mutex<Option<St>> = Mutex::new(None);

    pub fn start(root: &Path, target: &Path, side: &Path, plan: Vec<(usize, Fault)>) {
        let mut durable = HashMap::new();
        for e in std::fs::read_dir(root).unwrap().flatten() {
            if e.file_type().unwrap().is_file() {
                durable.insert(e.metadata().unwrap().ino(), std::fs::read(e.path()).unwrap());
            }
        }
        *ST.lock().unwrap() = Some(St { n: 0, plan, durable, root: root.into(), target: target.into(), side: side.into(), log: vec![], full: None });
        ACTIVE.store(true, SeqCst);
    }
    pub fn stop() -> St {
        ACTIVE.store(false, SeqCst);
        let st = ST.lock().unwrap().take().unwrap();
        st.dump();
        st
    }
    impl St {
        /// What the target path holds after a power failure now, if directory changes are kept.
        fn dump(&self) {
            let mut out = vec![];
            if let Ok(m) = std::fs::metadata(&self.target) {
                out.push(1);
                out.extend(self.durable.get(&m.ino()).cloned().unwrap_or_default());
            }
            std::fs::write(self.side.join("durable"), out).unwrap();
        }
    }

    fn fail(e: c_int) -> i64 {
        unsafe { *libc::__errno_location() = e };
        -1
    }
    fn fd_path(fd: c_int) -> Option<PathBuf> {
        std::fs::read_link(format!("/proc/self/fd/{fd}")).ok()
    }
    unsafe fn c_path(p: *const c_char) -> PathBuf {
        PathBuf::from(OsStr::from_bytes(CStr::from_ptr(p).to_bytes()))
    }
    /// Path relative to a directory descriptor.
    unsafe fn at_path(dir: c_int, p: *const c_char) -> PathBuf {
        let p = c_path(p);
        if p.is_absolute() {
            p
        } else if dir == libc::AT_FDCWD {
            std::env::current_dir().unwrap_or_default().join(p)
        } else {
            fd_path(dir).unwrap_or_default().join(p)
        }
    }

    /// One call that changes files. `real(None)` performs it, `real(Some(k))` performs it for `k` bytes only.
    fn call(name: &str, path: impl FnOnce() -> Option<PathBuf>, len: Option<usize>, fd: Option<c_int>, real: &mut dyn FnMut(Option<usize>) -> i64) -> i64 {
        if !ACTIVE.swap(false, SeqCst) {
            return real(None);
        }
        let mut g = ST.lock().unwrap();
        let st = g.as_mut().unwrap();
        let r = match path() {
            Some(p) if p.starts_with(&st.root) => {
                let n = st.n;
                st.n += 1;
                st.log.push(format!("{name} {}", p.file_name().map(|x| x.to_string_lossy().into_owned()).unwrap_or_default()));
                let f = st.plan.iter().find(|x| x.0 == n).map(|x| x.1);
                let part = |s: u8| len.map(|l| l * s as usize / 256);
                match f {
                    Some(Fault::Crash) => {
                        st.dump();
                        unsafe { libc::_exit(77) }
                    }
                    Some(Fault::CrashMid(s)) => {
                        match part(s) {
                            Some(k) if k > 0 => {
                                real(Some(k));
                            }
                            Some(_) => {}
                            None => {
                                real(None);
                            }
                        }
                        st.dump();
                        unsafe { libc::_exit(77) }
                    }
                    Some(Fault::Fail(e)) => fail(e),
                    Some(Fault::Full(e)) => {
                        st.full = Some(e);
                        fail(e)
                    }
                    Some(Fault::Short(s)) if len.map_or(false, |l| l > 1) => real(Some(part(s).unwrap().max(1))),
                    _ if st.full.is_some() && len.is_some() => fail(st.full.unwrap()),
                    _ => {
                        let sync = name.ends_with("sync");
                        let r = if sync { 0 } else { real(None) };
                        if let (Some(fd), true) = (fd, r >= 0) {
                            let fl = unsafe { libc::fcntl(fd, libc::F_GETFL) };
                            if sync || fl & libc::O_DSYNC != 0 {
                                let me = PathBuf::from(format!("/proc/self/fd/{fd}"));
                                if let Ok(m) = std::fs::metadata(&me) {
                                    if m.is_file() {
                                        st.durable.insert(m.ino(), std::fs::read(&me).unwrap_or_default());
                                    }
                                }
                            }
                        }
                        r
                    }
                }
            }
            _ => real(None),
        };
        let e = unsafe { *libc::__errno_location() };
        drop(g);
        ACTIVE.store(true, SeqCst);
        unsafe { *libc::__errno_location() = e };
        r
    }

    unsafe fn do_open(dir: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
        let mut real = |_| libc::syscall(libc::SYS_openat, dir, p, flags, mode as c_int);
        if flags & (libc::O_CREAT | libc::O_TRUNC) == 0 && flags & libc::O_TMPFILE != libc::O_TMPFILE {
            return real(None) as c_int;
        }
        call("open", || Some(at_path(dir, p)), None, None, &mut real) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
        do_open(libc::AT_FDCWD, p, flags, mode)
    }
    #[no_mangle]
    pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
        do_open(libc::AT_FDCWD, p, flags, mode)
    }
    #[no_mangle]
    pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
        do_open(d, p, flags, mode)
    }
    #[no_mangle]
    pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
        do_open(d, p, flags, mode)
    }
    #[no_mangle]
    pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
        let mut real = |k: Option<usize>| libc::syscall(libc::SYS_write, fd, b, k.unwrap_or(n));
        call("write", || fd_path(fd), Some(n), Some(fd), &mut real) as ssize_t
    }
    #[no_mangle]
    pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, c: c_int) -> ssize_t {
        let s = if c > 0 { std::slice::from_raw_parts(v, c as usize) } else { &[] };
        let n: usize = s.iter().map(|x| x.iov_len).sum();
        let mut real = |k: Option<usize>| match k {
            None => libc::syscall(libc::SYS_writev, fd, v, c),
            Some(mut k) => {
                let mut t = vec![];
                for x in s {
                    let l = x.iov_len.min(k);
                    t.push(iovec { iov_base: x.iov_base, iov_len: l });
                    k -= l;
                }
                libc::syscall(libc::SYS_writev, fd, t.as_ptr(), c)
            }
        };
        call("write", || fd_path(fd), Some(n), Some(fd), &mut real) as ssize_t
    }
    unsafe fn do_pwrite(fd: c_int, b: *const c_void, n: size_t, o: off_t) -> ssize_t {
        let mut real = |k: Option<usize>| libc::syscall(libc::SYS_pwrite64, fd, b, k.unwrap_or(n), o);
        call("write", || fd_path(fd), Some(n), Some(fd), &mut real) as ssize_t
    }
    #[no_mangle]
    pub unsafe extern "C" fn pwrite(fd: c_int, b: *const c_void, n: size_t, o: off_t) -> ssize_t {
        do_pwrite(fd, b, n, o)
    }
    #[no_mangle]
    pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, o: off_t) -> ssize_t {
        do_pwrite(fd, b, n, o)
    }
    #[no_mangle]
    pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
        call("fsync", || fd_path(fd), None, Some(fd), &mut |_| libc::syscall(libc::SYS_fsync, fd)) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
        call("fdatasync", || fd_path(fd), None, Some(fd), &mut |_| libc::syscall(libc::SYS_fdatasync, fd)) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
        call("rename", || Some(at_path(libc::AT_FDCWD, b)), None, None, &mut |_| libc::syscall(libc::SYS_rename, a, b)) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn renameat(d: c_int, a: *const c_char, e: c_int, b: *const c_char) -> c_int {
        call("rename", || Some(at_path(e, b)), None, None, &mut |_| libc::syscall(libc::SYS_renameat, d, a, e, b)) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn renameat2(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: libc::c_uint) -> c_int {
        call("rename", || Some(at_path(e, b)), None, None, &mut |_| libc::syscall(libc::SYS_renameat2, d, a, e, b, f)) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
        call("link", || Some(at_path(libc::AT_FDCWD, b)), None, None, &mut |_| libc::syscall(libc::SYS_link, a, b)) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_int) -> c_int {
        call("link", || Some(at_path(e, b)), None, None, &mut |_| libc::syscall(libc::SYS_linkat, d, a, e, b, f)) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
        call("unlink", || Some(at_path(libc::AT_FDCWD, a)), None, None, &mut |_| libc::syscall(libc::SYS_unlink, a)) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn unlinkat(d: c_int, a: *const c_char, f: c_int) -> c_int {
        call("unlink", || Some(at_path(d, a)), None, None, &mut |_| libc::syscall(libc::SYS_unlinkat, d, a, f)) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn ftruncate(fd: c_int, l: off_t) -> c_int {
        call("ftruncate", || fd_path(fd), None, Some(fd), &mut |_| libc::syscall(libc::SYS_ftruncate, fd, l)) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn ftruncate64(fd: c_int, l: off_t) -> c_int {
        call("ftruncate", || fd_path(fd), None, Some(fd), &mut |_| libc::syscall(libc::SYS_ftruncate, fd, l)) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut off_t, b: c_int, bo: *mut off_t, n: size_t, f: libc::c_uint) -> ssize_t {
        let mut real = |k: Option<usize>| libc::syscall(libc::SYS_copy_file_range, a, ao, b, bo, k.unwrap_or(n), f);
        // the length asked for is an upper bound; a mid-crash then copies half of the file
        let l = libc::lseek(a, 0, libc::SEEK_CUR);
        let size = std::fs::metadata(format!("/proc/self/fd/{a}")).map(|m| m.size() as i64 - l).unwrap_or(0).max(0);
        call("write", || fd_path(b), Some(n.min(size as usize)), Some(b), &mut real) as ssize_t
    }
    unsafe fn do_sendfile(o: c_int, i: c_int, off: *mut off_t, n: size_t) -> ssize_t {
        let mut real = |k: Option<usize>| -> c_long { libc::syscall(libc::SYS_sendfile, o, i, off, k.unwrap_or(n)) };
        call("write", || fd_path(o), Some(n), Some(o), &mut real) as ssize_t
    }
    #[no_mangle]
    pub unsafe extern "C" fn sendfile(o: c_int, i: c_int, off: *mut off_t, n: size_t) -> ssize_t {
        do_sendfile(o, i, off, n)
    }
    #[no_mangle]
    pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut off_t, n: size_t) -> ssize_t {
        do_sendfile(o, i, off, n)
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Level {
    Engine,
    Snapshot,
    Commit,
    CommitStored,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Old {
    None,
    /// a valid snapshot of this many bytes
    Valid(u32),
    Empty,
    Garbage(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    level: Level,
    old: Old,
    new: Pay,
    link: bool,
    /// access rights of the old file
    mode: u16,
    name: Name,
    /// which error the calls fail with
    err: u8,
    /// the path is given relative to the current directory, in one of several ways
    #[serde(default)]
    rel: u8,
    /// combinations of two faults, on top of every single one
    pairs: Vec<((u8, Fault), (u8, Fault))>,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Name {
    Plain,
    Hidden,
    Dots,
    Unicode,
    /// bytes that are not UTF-8
    Bytes,
    Long(u8),
    Hex,
}
impl Name {
    fn get(self) -> std::ffi::OsString {
        use std::os::unix::ffi::OsStringExt;
        match self {
            Name::Plain => "snapshot".into(),
            Name::Hidden => ".snapshot".into(),
            Name::Dots => "a.stronghold.tmp".into(),
            Name::Unicode => "Schl\u{fc}ssel \u{30ad}\u{30fc} 1".into(),
            Name::Bytes => std::ffi::OsString::from_vec(b"snap\xff\xfeshot".to_vec()),
            // the name of the temporary file is 13 bytes longer, 255 are allowed
            Name::Long(n) => "n".repeat(n.min(240) as usize + 1).into(),
            Name::Hex => "0123456789ab".into(),
        }
    }
}
/// Errors that one kind of call in particular may meet.
fn special(op: &str, n: u8) -> i32 {
    let l: &[i32] = match op.split(' ').next().unwrap_or("") {
        "open" => &[libc::EACCES, libc::EROFS, libc::EMFILE, libc::EPERM, libc::ENOENT, libc::EEXIST, libc::ENAMETOOLONG],
        "rename" | "link" | "unlink" => &[libc::EXDEV, libc::EACCES, libc::EPERM, libc::EBUSY, libc::EROFS, libc::ENOENT, libc::EEXIST],
        "fsync" | "fdatasync" => &[libc::EINVAL, libc::EIO, libc::ENOSPC, libc::EROFS],
        _ => &[libc::EFBIG, libc::EPERM, libc::EAGAIN, libc::EIO, libc::EROFS],
    };
    l[n as usize % l.len()]
}
const ERRS: [i32; 4] = [libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EINTR];

fn fault() -> BoxedStrategy<Fault> {
    prop_oneof![
        1 => Just(Fault::Crash),
        1 => any::<u8>().prop_map(Fault::CrashMid),
        3 => prop::sample::select(ERRS.to_vec()).prop_map(Fault::Fail),
        3 => any::<u8>().prop_map(Fault::Short),
        1 => Just(Fault::Full(libc::ENOSPC)),
    ]
    .boxed()
}
fn strategy(_: Tier) -> BoxedStrategy<Case> {
    let len = || prop_oneof![4 => pay_len(), 1 => 20_000u32..200_000];
    (
        prop_oneof![4 => Just(Level::Engine), 1 => Just(Level::Snapshot), 2 => Just(Level::Commit), 1 => Just(Level::CommitStored)],
        prop_oneof![1 => Just(Old::None), 5 => len().prop_map(Old::Valid), 1 => Just(Old::Empty), 1 => (1u16..9000).prop_map(Old::Garbage)],
        (len(), 0u16..5000).prop_map(|(len, s)| Pay { len, s }),
        prop::bool::weighted(0.1),
        (
            prop_oneof![3 => Just(0o644u16), 1 => Just(0o444), 1 => Just(0o400), 1 => Just(0o600), 1 => Just(0o777)],
            prop_oneof![6 => Just(Name::Plain), 1 => Just(Name::Hidden), 1 => Just(Name::Dots), 1 => Just(Name::Unicode), 1 => Just(Name::Bytes), 1 => any::<u8>().prop_map(Name::Long), 1 => Just(Name::Hex)],
            any::<u8>(),
            prop_oneof![3 => Just(0u8), 1 => 1u8..4],
        ),
        prop::collection::vec(((0u8..10, fault()), (0u8..10, fault())), 0..8),
    )
        .prop_map(|(level, old, new, link, (mode, name, err, rel), pairs)| Case { level, old, new, link, mode, name, err, rel, pairs })
        .boxed()
}

/// A prepared write of new contents, and the check of what it must leave.
struct Job {
    level: Level,
    new: Vec<u8>,
    hold: Stronghold,
    snapshot: Snapshot,
}
const KEY: [u8; 32] = [7; 32];
fn kp() -> KeyProvider {
    KeyProvider::try_from(KEY.to_vec()).unwrap()
}
fn e<E: std::fmt::Display>(e: E) -> vh::Failure {
    vh::Failure::new("prepare", e.to_string())
}
impl Job {
    fn new(level: Level, new: Vec<u8>) -> vh::R<Job> {
        let hold = Stronghold::default();
        let mut snapshot = Snapshot::default();
        match level {
            Level::Engine => {}
            Level::Snapshot => {
                let mut cache = Cache::new();
                cache.insert(b"k".to_vec(), new.clone(), None);
                snapshot.add_data(ClientId::load(&[1; 24]).map_err(|_| e("id"))?, (HashMap::new(), DbView::new(), cache)).map_err(e)?;
            }
            _ => {
                let c = hold.create_client("a").map_err(e)?;
                c.vault("v").write_secret(Location::generic("v", "r"), new.clone()).map_err(e)?;
                c.store().insert(b"k".to_vec(), new.clone(), None).map_err(e)?;
                if level == Level::CommitStored {
                    hold.store_snapshot_key_at_location(kp(), Location::generic("keys", "key")).map_err(e)?;
                }
            }
        }
        Ok(Job { level, new, hold, snapshot })
    }
    fn write(&self, path: &Path) -> Result<(), String> {
        let sp = SnapshotPath::from_path(path);
        match self.level {
            Level::Engine => snap::write_to(&self.new, path, &KEY, b"ad").map_err(|e| e.to_string()),
            Level::Snapshot => self.snapshot.write_to_snapshot(&sp, UseKey::Key(KEY)).map_err(|e| e.to_string()),
            Level::Commit => self.hold.commit_with_keyprovider(&sp, &kp()).map_err(|e| e.to_string()),
            Level::CommitStored => self.hold.commit(&sp).map_err(|e| e.to_string()),
        }
    }
    fn is_new(&self, path: &Path) -> Result<(), String> {
        let sp = SnapshotPath::from_path(path);
        let got = match self.level {
            Level::Engine => snap::read_from(path, &KEY, b"ad").map_err(|e| e.to_string())?,
            Level::Snapshot => Snapshot::read_from_snapshot(&sp, KEY, None)
                .map_err(|e| e.to_string())?
                .get_state(ClientId::load(&[1; 24]).unwrap())
                .map_err(|e| e.to_string())?
                .2
                .get(&b"k".to_vec())
                .cloned()
                .ok_or("entry missing")?,
            _ => {
                let h = Stronghold::default();
                let c = h.load_client_from_snapshot("a", &kp(), &sp).map_err(|e| e.to_string())?;
                match cmp_secret(&c, &Location::generic("v", "r"), &self.new) {
                    Ok(true) => {}
                    x => return Err(format!("secret: {x:?}")),
                }
                c.store().get(b"k").map_err(|e| e.to_string())?.ok_or("entry missing")?
            }
        };
        if got == self.new {
            Ok(())
        } else {
            Err("reads as other contents".into())
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Res {
    ops: usize,
    log: Vec<String>,
    result: Result<(), String>,
    retry: Result<(), String>,
}

struct World<'a> {
    job: &'a Job,
    dir: &'a Path,
    side: &'a Path,
    target: &'a Path,
    old: Option<Vec<u8>>,
    mode: u16,
    sibling: Vec<u8>,
    rel: u8,
}
impl World<'_> {
    fn restore(&self, link: bool) {
        let _ = std::fs::remove_dir_all(self.dir);
        let _ = std::fs::remove_dir_all(self.side);
        std::fs::create_dir_all(self.dir).unwrap();
        std::fs::create_dir_all(self.side).unwrap();
        if let Some(o) = &self.old {
            if link {
                std::fs::write(self.dir.join("real"), o).unwrap();
                std::os::unix::fs::symlink("real", self.target).unwrap();
            } else {
                std::fs::write(self.target, o).unwrap();
            }
            std::fs::set_permissions(self.target, std::os::unix::fs::PermissionsExt::from_mode(self.mode as u32)).unwrap();
        }
        std::fs::write(self.dir.join("sibling"), &self.sibling).unwrap();
    }
    /// Is this the old or the new contents?
    fn classify(&self, b: Option<&[u8]>) -> Result<&'static str, String> {
        if b == self.old.as_deref() {
            return Ok("old");
        }
        match b {
            None => Err("there is no file".into()),
            Some(b) => {
                let p = self.side.join("judge");
                std::fs::write(&p, b).unwrap();
                self.job.is_new(&p).map(|_| "new").map_err(|e| format!("a file of {} bytes that is neither the old nor the new contents ({e})", b.len()))
            }
        }
    }
    fn go(&self, plan: &[(usize, Fault)], link: bool) -> vh::R<(Option<Res>, &'static str)> {
        self.restore(link);
        let end = vh::probe(|| {
            let name = Path::new(self.target.file_name().unwrap());
            let given = match self.rel {
                0 => self.target.to_path_buf(),
                1 => name.to_path_buf(),
                2 => Path::new(".").join(name),
                _ => Path::new("..").join(self.dir.file_name().unwrap()).join(name),
            };
            if self.rel > 0 {
                std::env::set_current_dir(self.dir).unwrap();
            }
            io::start(self.dir, self.target, self.side, plan.to_vec());
            let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.job.write(&given)));
            let st = io::stop();
            if let Ok(b) = std::fs::read(self.target) {
                std::fs::write(self.side.join("after"), b).unwrap();
            }
            let result = match result {
                Ok(r) => r,
                Err(p) => std::panic::resume_unwind(p),
            };
            let retry = self.job.write(&given);
            serde_json::to_vec(&Res { ops: st.n, log: st.log, result, retry }).unwrap()
        });
        let what = |s: &str| format!("{s} with faults {plan:?}");
        let durable = std::fs::read(self.side.join("durable")).ok();
        let durable = durable.as_ref().map(|d| d.split_first().map(|x| x.1));
        let res = match end {
            vh::ProbeEnd::Exit(b) => {
                let r: Res = serde_json::from_slice(&b).unwrap();
                let after = std::fs::read(self.side.join("after")).ok();
                let c = self.classify(after.as_deref()).map_err(|e| vh::Failure::new("not-atomic", what(&format!("the write returned {:?}, and at the path is {e}", r.result))))?;
                let d = self.classify(durable.unwrap()).map_err(|e| vh::Failure::new("not-synced", what(&format!("the write returned {:?}; after a power failure, at the path is {e}", r.result))))?;
                match (&r.result, c) {
                    (Ok(()), "old") => fail!("success-without-write", "{}", what("the write reports success, but the old contents are still there")),
                    (Ok(()), _) if d == "old" => fail!("not-synced", "{}", what("the write reports success, but a power failure brings back the old contents")),
                    _ => {}
                }
                ensure!(r.retry.is_ok(), "retry", "{}: {:?}", what("a later write without faults fails"), r.retry);
                // the retry has written the new contents
                let now = std::fs::read(self.target).ok();
                ensure!(self.classify(now.as_deref()) == Ok("new") || (now == self.old), "retry", "{}", what("a later write without faults did not write"));
                if let Err(e) = self.job.is_new(self.target) {
                    fail!("retry", "{}: {e}", what("a later write without faults did not write"))
                }
                (Some(r), c)
            }
            vh::ProbeEnd::Panic(m) if m == "exit 77" => {
                let after = std::fs::read(self.target).ok();
                let c = self.classify(after.as_deref()).map_err(|e| vh::Failure::new("crash-not-atomic", what(&format!("after a crash, at the path is {e}"))))?;
                self.classify(durable.unwrap()).map_err(|e| vh::Failure::new("crash-not-synced", what(&format!("after a power failure, at the path is {e}"))))?;
                // what the crash left does not get in the way
                self.job.write(self.target).map_err(|e| vh::Failure::new("after-crash", what(&format!("writing again after the crash: {e}"))))?;
                self.job.is_new(self.target).map_err(|e| vh::Failure::new("after-crash", what(&format!("writing again after the crash: {e}"))))?;
                (None, c)
            }
            vh::ProbeEnd::Panic(m) => fail!("panic", "{}: {m}", what("the write panicked")),
            vh::ProbeEnd::Signal(s) => fail!("crash", "{}: {}", what("the write was ended"), vh::signal_name(s)),
        };
        ensure!(std::fs::read(self.dir.join("sibling")).ok().as_ref() == Some(&self.sibling), "other-file", "{}", what("another file in the directory was changed"));
        Ok(res)
    }
}

fn run(c: &Case) -> vh::R<Out> {
    let t = vh::TempDir::new();
    let (dir, side) = (t.path().join("d"), t.path().join("s"));
    let target = dir.join(c.name.get());
    let job = Job::new(c.level, c.new.bytes())?;
    std::fs::create_dir_all(&dir).unwrap();
    let tmp = t.path().join("old");
    let old = match c.old {
        Old::None => None,
        Old::Empty => Some(vec![]),
        Old::Garbage(n) => Some(bytes(n as usize, 4)),
        Old::Valid(n) => {
            Job::new(c.level, bytes(n as usize, 31337))?.write(&tmp).map_err(e)?;
            Some(std::fs::read(&tmp).unwrap())
        }
    };
    let w = World { job: &job, dir: &dir, side: &side, target: &target, old, mode: c.mode, sibling: b"sibling".to_vec(), rel: c.rel };
    let (r, _) = w.go(&[], c.link)?;
    let r = r.unwrap();
    if let Err(x) = &r.result {
        fail!("refused", "the write fails without any fault: {x}");
    }
    // every single fault
    let (mut old_n, mut new_n, mut err) = (0, 0, 0);
    let mut second = 0;
    let mut count = |x: (Option<Res>, &'static str)| {
        if x.1 == "old" {
            old_n += 1
        } else {
            new_n += 1
        }
        if matches!(x.0, Some(Res { result: Err(_), .. })) {
            err += 1
        }
    };
    for n in 0..r.ops {
        let mut fs = vec![Fault::Crash, Fault::Fail(ERRS[(n + c.new.len as usize) % 4]), Fault::Fail(special(&r.log[n], c.err))];
        if r.log[n].starts_with("write") {
            fs.extend([Fault::CrashMid(((n as u32 * 97 + c.new.len) % 256) as u8), Fault::Short(100), Fault::Full(libc::ENOSPC)]);
        } else {
            fs.push(Fault::CrashMid(0));
        }
        for f in fs {
            let x = w.go(&[(n, f)], c.link)?;
            // what is done instead of, or after, the call that failed may be cut short as well
            if let (Fault::Fail(_), Some(res)) = (f, &x.0) {
                for m in (n + 1..res.ops).take(12) {
                    second += 1;
                    count(w.go(&[(n, f), (m, Fault::Crash)], c.link)?);
                    if res.log[m].starts_with("write") {
                        count(w.go(&[(n, f), (m, Fault::CrashMid(128))], c.link)?);
                        count(w.go(&[(n, f), (m, Fault::Full(libc::ENOSPC))], c.link)?);
                    }
                }
            }
            count(x);
        }
    }
    for ((a, f), (b, g)) in &c.pairs {
        let (a, b) = (*a as usize % r.ops, *b as usize % (r.ops + 2));
        count(w.go(&[(a, *f), (b, *g)], c.link)?);
    }
    let lv = format!("{:?}", c.level);
    Ok(Out::new(old_n > 0 && new_n > 0 && err > 0).tag(lv).tag(match c.old {
        Old::Valid(_) => "over-valid",
        Old::None => "first",
        _ => "over-other",
    })
    .tag_if(c.mode & 0o200 == 0 && c.old != Old::None, "over a read-only file")
    .tag_if(c.name != Name::Plain, "special names")
    .tag_if(c.rel > 0, "relative paths")
    .tag_if(second > 0, "calls after a failed one"))
}

/// Readers and writers at the same time.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conc {
    writers: u8,
    readers: u8,
    rounds: u8,
    len: u32,
    instance: bool,
}
fn conc(_: Tier) -> BoxedStrategy<Conc> {
    (1u8..4, 1u8..4, 5u8..30, prop_oneof![0u32..100, 1000u32..40_000], prop::bool::weighted(0.3))
        .prop_map(|(writers, readers, rounds, len, instance)| Conc { writers, readers, rounds, len, instance })
        .boxed()
}
fn run_conc(c: &Conc) -> vh::R<Out> {
    use std::sync::atomic::{AtomicBool, Ordering};
    let t = vh::TempDir::new();
    let path = t.path().join("snapshot");
    let sp = SnapshotPath::from_path(&path);
    // contents: writer, round, filler
    let contents = |w: u8, r: u8| {
        let mut v = bytes(c.len as usize, w as u64 * 1000 + r as u64 + 2);
        v.extend([w, r]);
        v
    };
    let write = |w: u8, r: u8, hold: &Stronghold| -> Result<(), String> {
        if c.instance {
            let cl = hold.get_client("a").map_err(|e| e.to_string())?;
            cl.store().insert(b"k".to_vec(), contents(w, r), None).map_err(|e| e.to_string())?;
            hold.commit_with_keyprovider(&sp, &kp()).map_err(|e| e.to_string())
        } else {
            snap::write_to(&contents(w, r), &path, &KEY, b"").map_err(|e| e.to_string())
        }
    };
    let read = || -> Result<Vec<u8>, String> {
        if c.instance {
            let h = Stronghold::default();
            let cl = h.load_client_from_snapshot("a", &kp(), &sp).map_err(|e| e.to_string())?;
            cl.store().get(b"k").map_err(|e| e.to_string())?.ok_or_else(|| "no entry".into())
        } else {
            snap::read_from(&path, &KEY, b"").map_err(|e| e.to_string())
        }
    };
    let holds: Vec<Stronghold> = (0..c.writers + 1)
        .map(|_| {
            let h = Stronghold::default();
            h.create_client("a").unwrap();
            h
        })
        .collect();
    write(0, 0, &holds[0]).map_err(e)?;
    let done = AtomicBool::new(false);
    let bad = std::sync::Mutex::new(None);
    let seen = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        let rd: Vec<_> = (0..c.readers)
            .map(|_| {
                s.spawn(|| {
                    let mut last = HashMap::new();
                    while !done.load(Ordering::SeqCst) {
                        let m = match read() {
                            Err(x) => Some(vh::Failure::new("torn-read", format!("a reader during {} writers got an error: {x}", c.writers))),
                            Ok(v) => match v[..] {
                                [.., w, r] if v == contents(w, r) => {
                                    seen.fetch_add(1, Ordering::SeqCst);
                                    match last.insert(w, r) {
                                        Some(x) if x > r && c.writers == 1 => Some(vh::Failure::new("stale-read", format!("a reader saw round {r} after round {x}"))),
                                        _ => None,
                                    }
                                }
                                _ => Some(vh::Failure::new("torn-read", format!("a reader got {} bytes that nobody wrote", v.len()))),
                            },
                        };
                        if m.is_some() {
                            *bad.lock().unwrap() = m;
                            return;
                        }
                    }
                })
            })
            .collect();
        let wr: Vec<_> = (1..=c.writers)
            .map(|w| {
                let (holds, write, bad) = (&holds, &write, &bad);
                s.spawn(move || {
                    for r in 1..=c.rounds {
                        if let Err(x) = write(w, r, &holds[w as usize]) {
                            *bad.lock().unwrap() = Some(vh::Failure::new("write-failed", format!("a write beside {} others failed: {x}", c.writers - 1)));
                        }
                    }
                })
            })
            .collect();
        for h in wr {
            let _ = h.join();
        }
        done.store(true, Ordering::SeqCst);
        for h in rd {
            let _ = h.join();
        }
    });
    if let Some(f) = bad.into_inner().unwrap() {
        return Err(f);
    }
    let last = read().map_err(|x| vh::Failure::new("torn-read", format!("after all writers: {x}")))?;
    ensure!((1..=c.writers).any(|w| last == contents(w, c.rounds)), "lost-write", "the file holds none of the last writes of {} writers", c.writers);
    Ok(Out::new(seen.into_inner() > 1).tag(if c.instance { "instance" } else { "engine" }))
}

fn main() {
    vh::main(vec![Property {
        id: "C05",
        level: "fault_enumeration",
        assumptions: &["file system calls are made through the C library functions that the program interposes (open, write, sync, rename, unlink, truncate, link, copy); a call made in another way is not a fault point",
            "renames are atomic and kept in order; a power failure loses whatever was not synced before; whether the directory entry itself is synced is not judged",
            "a write that fails after it has replaced the file counts as failed with the new contents, which is accepted"],
        facets: vec![
            Facet { name: "faults", rule: "one write over an existing or missing file at four levels of the interface; every file system call is the point of a crash, of a crash in the middle of the write, of an error, a short write and a full disk, and random pairs of them; non-trivial = faults of the case left the old file and the new file and a reported error", cases: (320, 12000), batch: 4, racy: false, strategy, run }.boxed(),
            Facet { name: "readers", rule: "1-3 writers and 1-3 readers of one path in parallel; non-trivial = several reads in between", cases: (160, 6000), batch: 4, racy: true, strategy: conc, run: run_conc }.boxed(),
        ],
        findings: vec![],
    }])
}
