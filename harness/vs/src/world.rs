//! Files and processes. Symbolically: a model of the libc calls that read files and directories, and of
//! `Command::output`. In a replay: real files in the scratch directory; spawning a process is intercepted.
#![allow(static_mut_refs)]
use std::path::Path;
/// `Printed`: with this on standard output.
pub enum Outcome { Exit(i32), NotStarted, Printed(i32, Vec<u8>) }
pub type Handler = fn(&[String], &str) -> Outcome;
#[derive(Clone)]
pub struct File { pub path: String, pub data: Vec<u8> }
struct World { ready: bool, files: Vec<File>, dirs: Vec<String>, handler: Option<Handler>, opened: Vec<String>, cwd: String, root: String }
static mut W: World = World { ready: false, files: Vec::new(), dirs: Vec::new(), handler: None, opened: Vec::new(), cwd: String::new(), root: String::new() };
fn w() -> &'static mut World { unsafe { &mut W } }
/// The absolute path without `.`, `..` and repeated slashes.
fn canon(p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("{}/{}", w().cwd, p) };
    let mut out: Vec<&str> = Vec::new();
    for c in full.split('/') { match c { "" | "." => {} ".." => { out.pop(); } c => out.push(c) } }
    format!("/{}", out.join("/"))
}
/// Everything happens below `root()`; the working directory is `root()/w`.
pub fn root() -> &'static str { &w().root }
pub fn init() {
    let s = w();
    s.ready = true;
    if !crate::symbolic() {
        s.root = std::env::var("VS_SCRATCH").expect("VS_SCRATCH") + "/root";
        std::fs::create_dir_all(format!("{}/w", s.root)).unwrap();
        std::env::set_current_dir(format!("{}/w", s.root)).unwrap();
    }
    s.cwd = format!("{}/w", s.root);
}
pub fn handler(h: Handler) { w().handler = Some(h) }
pub fn put(path: &str, data: &[u8]) {
    let p = canon(path);
    assert!(p.starts_with(root()));
    if !crate::symbolic() {
        std::fs::create_dir_all(Path::new(&p).parent().unwrap()).unwrap();
        std::fs::write(&p, data).unwrap();
    }
    w().files.retain(|f| f.path != p);
    w().files.push(File { path: p, data: data.to_vec() });
}
pub fn mkdir(path: &str) {
    let p = canon(path);
    assert!(p.starts_with(root()));
    if !crate::symbolic() { std::fs::create_dir_all(&p).unwrap() }
    w().dirs.push(p);
}
/// Removes everything below a directory.
pub fn clear(dir: &str) {
    let p = canon(dir) + "/";
    assert!(p.starts_with(root()) && p.len() > root().len() + 2);
    if !crate::symbolic() { if let Ok(l) = std::fs::read_dir(&p) { for e in l { let e = e.unwrap().path(); if e.is_dir() { std::fs::remove_dir_all(e).unwrap() } else { std::fs::remove_file(e).unwrap() } } } else { std::fs::create_dir_all(&p).unwrap() } }
    w().files.retain(|f| !f.path.starts_with(&p));
    w().dirs.retain(|d| !d.starts_with(&p));
}
/// The files (not directories) opened so far, in order, by canonical path below `root()`.
pub fn opened() -> Vec<String> { w().opened.iter().map(|p| p[root().len()..].to_string()).collect() }
pub fn exists(path: &str) -> bool { let p = canon(path); kind(&p) != 0 }
/// 0: nothing, 1: file, 2: directory
fn kind(p: &str) -> u8 {
    if w().files.iter().any(|f| f.path == p) { return 1 }
    let q = if p == "/" { "/".to_string() } else { format!("{}/", p) };
    if p == "/" || p == w().cwd || w().dirs.iter().any(|d| d == p || d.starts_with(&q)) || w().files.iter().any(|f| f.path.starts_with(&q)) { 2 } else { 0 }
}
/// The directory (below `root()`) a path leads to from another one below it.
pub fn below(dir: &str, path: &str) -> String { let p = if path.starts_with('/') { canon(path) } else { canon(&format!("{}{}/{}", root(), dir, path)) }; p[root().len()..].to_string() }
fn run(args: &[String], dir: Option<&str>) -> Outcome {
    let d = match dir { None => w().cwd.clone(), Some(d) => canon(d) };
    match w().handler { Some(h) => h(args, &d[root().len()..]), None => panic!("a process is started") }
}
static mut OUT: Option<Vec<u8>> = None;
/// From here on standard output is kept.
pub fn capture() { unsafe { OUT = Some(Vec::new()) } }
pub fn captured() -> String { String::from_utf8(unsafe { OUT.take() }.expect("capture")).expect("output is not UTF-8") }
fn wrote(fd: i32, p: *const u8, n: usize) -> bool { unsafe { match OUT.as_mut() { Some(o) if fd == 1 => { o.extend_from_slice(std::slice::from_raw_parts(p, n)); true } _ => fd == 2 && crate::symbolic() } } }
#[cfg(not(feature = "replay"))]
pub mod model {
    use super::*;
    use std::os::unix::process::ExitStatusExt;
    use std::process::{Command, ExitStatus, Output};
    extern "C" { fn __errno_location() -> *mut i32; fn strlen(s: *const u8) -> usize; }
    unsafe fn err(n: i32) -> i32 { *__errno_location() = n; -1 }
    unsafe fn text(p: *const u8) -> String { String::from_utf8_lossy(std::slice::from_raw_parts(p, strlen(p))).into_owned() }
    #[export_name = "ovr:std::process::Command::output"]
    pub fn output(c: &mut Command) -> std::io::Result<Output> {
        let mut args = vec![c.get_program().to_string_lossy().into_owned()];
        args.extend(c.get_args().map(|a| a.to_string_lossy().into_owned()));
        let dir = c.get_current_dir().map(|d| d.to_string_lossy().into_owned());
        match run(&args, dir.as_deref()) {
            Outcome::NotStarted => Err(std::io::Error::from_raw_os_error(2)),
            Outcome::Exit(n) => Ok(Output { status: ExitStatus::from_raw(n), stdout: Vec::new(), stderr: b"fatal: \xff".to_vec() }),
            Outcome::Printed(n, stdout) => Ok(Output { status: ExitStatus::from_raw(n), stdout, stderr: b"fatal: \xff".to_vec() }),
        }
    }
    #[export_name = "ovr:std::process::Command::status"]
    pub fn status(c: &mut Command) -> std::io::Result<ExitStatus> { output(c).map(|o| o.status) }
    #[no_mangle] pub extern "C" fn model_write(fd: i32, p: *const u8, n: usize) -> isize { let _ = wrote(fd, p, n); n as isize }
    struct Fd { file: usize, at: usize, names: Vec<(String, u8)>, entry: [u8; 280] }
    static mut FDS: Vec<Fd> = Vec::new();
    #[no_mangle] pub unsafe extern "C" fn model_open64(path: *const u8, flags: i32, _mode: u32) -> i32 {
        let p = canon(&text(path));
        if flags & 3 != 0 || flags & 0o100 != 0 { return err(13) }
        let file = match kind(&p) { 0 => return err(2), 1 => w().files.iter().position(|f| f.path == p).unwrap(), _ => usize::MAX };
        if file != usize::MAX { w().opened.push(p) }
        FDS.push(Fd { file, at: 0, names: Vec::new(), entry: [0; 280] });
        100 + FDS.len() as i32 - 1
    }
    #[no_mangle] pub unsafe extern "C" fn model_read(fd: i32, buf: *mut u8, n: usize) -> isize {
        let f = &mut FDS[(fd - 100) as usize];
        if f.file == usize::MAX { return err(21) as isize }
        let d = &w().files[f.file].data;
        let k = n.min(d.len() - f.at);
        std::ptr::copy_nonoverlapping(d.as_ptr().add(f.at), buf, k);
        f.at += k;
        k as isize
    }
    #[no_mangle] pub extern "C" fn model_close(_fd: i32) -> i32 { 0 }
    #[no_mangle] pub unsafe extern "C" fn model_lseek64(fd: i32, off: i64, whence: i32) -> i64 {
        let f = &mut FDS[(fd - 100) as usize];
        let len = if f.file == usize::MAX { 0 } else { w().files[f.file].data.len() as i64 };
        f.at = (match whence { 0 => 0, 1 => f.at as i64, _ => len } + off) as usize;
        f.at as i64
    }
    unsafe fn fill(st: *mut u8, dir: bool, size: usize) -> i32 {
        std::ptr::write_bytes(st, 0, 144);
        *(st.add(16) as *mut u64) = 1;
        *(st.add(24) as *mut u32) = if dir { 0o040755 } else { 0o100644 };
        *(st.add(48) as *mut i64) = size as i64;
        0
    }
    #[no_mangle] pub unsafe extern "C" fn model_fstat64(fd: i32, st: *mut u8) -> i32 {
        let f = &FDS[(fd - 100) as usize];
        if f.file == usize::MAX { fill(st, true, 4096) } else { fill(st, false, w().files[f.file].data.len()) }
    }
    #[no_mangle] pub unsafe extern "C" fn model_stat64(path: *const u8, st: *mut u8) -> i32 {
        let p = canon(&text(path));
        match kind(&p) { 0 => err(2), 1 => fill(st, false, w().files.iter().find(|f| f.path == p).unwrap().data.len()), _ => fill(st, true, 4096) }
    }
    #[no_mangle] pub unsafe extern "C" fn model_lstat64(path: *const u8, st: *mut u8) -> i32 { model_stat64(path, st) }
    #[no_mangle] pub unsafe extern "C" fn model_opendir(path: *const u8) -> *mut u8 {
        let p = canon(&text(path));
        match kind(&p) { 0 => { err(2); return std::ptr::null_mut() } 1 => { err(20); return std::ptr::null_mut() } _ => {} }
        let q = if p == "/" { p.clone() } else { p.clone() + "/" };
        let mut names: Vec<(String, u8)> = vec![(".".into(), 2), ("..".into(), 2)];
        for f in w().files.iter().map(|f| &f.path).chain(w().dirs.iter()) {
            if let Some(r) = f.strip_prefix(&q) { let n = r.split('/').next().unwrap(); if !names.iter().any(|(m, _)| m == n) { names.push((n.to_string(), kind(&(q.clone() + n)))) } }
        }
        FDS.push(Fd { file: usize::MAX, at: 0, names, entry: [0; 280] });
        FDS.len() as *mut u8
    }
    #[no_mangle] pub unsafe extern "C" fn model_readdir64(d: *mut u8) -> *mut u8 {
        let f = &mut FDS[d as usize - 1];
        if f.at >= f.names.len() { return std::ptr::null_mut() }
        let (n, k) = &f.names[f.at];
        f.at += 1;
        // the entry stays where the vector keeps it: copied out before the vector grows
        let e = Box::leak(Box::new([0u64; 36])).as_mut_ptr() as *mut u8;
        *(e as *mut u64) = 7;
        *(e.add(16) as *mut u16) = 280;
        *e.add(18) = if *k == 2 { 4 } else { 8 };
        std::ptr::copy_nonoverlapping(n.as_ptr(), e.add(19), n.len());
        let _ = &f.entry;
        e
    }
    #[no_mangle] pub extern "C" fn model_closedir(_d: *mut u8) -> i32 { 0 }
    #[no_mangle] pub extern "C" fn model_dirfd(_d: *mut u8) -> i32 { 99 }
    #[no_mangle] pub unsafe extern "C" fn model___xpg_strerror_r(_n: i32, buf: *mut u8, _len: usize) -> i32 { std::ptr::copy_nonoverlapping(b"error\0".as_ptr(), buf, 6); 0 }
    #[no_mangle] pub unsafe extern "C" fn model_getcwd(buf: *mut u8, n: usize) -> *mut u8 {
        let c = &w().cwd;
        assert!(c.len() < n);
        std::ptr::copy_nonoverlapping(c.as_ptr(), buf, c.len());
        *buf.add(c.len()) = 0;
        buf
    }
}
#[cfg(feature = "replay")]
mod real {
    use super::*;
    use std::ffi::CStr;
    use std::os::raw::c_char;
    static mut DIR: Option<String> = None;
    extern "C" { fn posix_spawn(pid: *mut i32, path: *const c_char, fa: *const u8, at: *const u8, argv: *const *const c_char, envp: *const *const c_char) -> i32; fn openat64(d: i32, p: *const c_char, flags: i32, ...) -> i32; fn syscall(n: i64, ...) -> i64; }
    #[no_mangle] pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize { if wrote(fd, p, n) { n as isize } else { syscall(1, fd as i64, p, n) as isize } }
    #[no_mangle] pub unsafe extern "C" fn posix_spawn_file_actions_addchdir_np(_fa: *mut u8, path: *const c_char) -> i32 { DIR = Some(CStr::from_ptr(path).to_string_lossy().into_owned()); 0 }
    #[no_mangle] pub unsafe extern "C" fn posix_spawnp(pid: *mut i32, _file: *const c_char, fa: *const u8, at: *const u8, argv: *const *const c_char, envp: *const *const c_char) -> i32 {
        let mut args = Vec::new();
        let mut i = 0;
        while !(*argv.add(i)).is_null() { args.push(CStr::from_ptr(*argv.add(i)).to_string_lossy().into_owned()); i += 1 }
        let dir = DIR.take();
        match run(&args, dir.as_deref()) {
            Outcome::NotStarted => 2,
            Outcome::Exit(n) => {
                let script: &CStr = if n == 0 { c"exit 0" } else if n & 0x7f != 0 { c"kill -9 $$" } else { c"printf 'fatal: \\377' >&2; exit 1" };
                let a = [c"sh".as_ptr(), c"-c".as_ptr(), script.as_ptr(), std::ptr::null()];
                posix_spawn(pid, c"/bin/sh".as_ptr(), fa, at, a.as_ptr(), envp)
            }
            Outcome::Printed(n, out) => {
                let f = format!("{}/printed", std::env::var("VS_SCRATCH").expect("VS_SCRATCH"));
                std::fs::write(&f, out).unwrap();
                let script = std::ffi::CString::new(format!("cat '{}'; exit {}", f, (n != 0) as u8)).unwrap();
                let a = [c"sh".as_ptr(), c"-c".as_ptr(), script.as_ptr(), std::ptr::null()];
                posix_spawn(pid, c"/bin/sh".as_ptr(), fa, at, a.as_ptr(), envp)
            }
        }
    }
    #[no_mangle] pub unsafe extern "C" fn open64(path: *const c_char, flags: i32, mode: u32) -> i32 {
        if w().ready { let p = canon(&CStr::from_ptr(path).to_string_lossy()); if p.starts_with(root()) && !Path::new(&p).is_dir() && flags & 3 == 0 && flags & 0o200000 == 0 { w().opened.push(p) } }
        openat64(-100, path, flags, mode)
    }
}
