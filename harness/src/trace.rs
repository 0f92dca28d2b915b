//! Runs a child process under ptrace and injects faults at its file operations.
//!
//! Only our own child is traced. An operation is identified by the file it is about and by its rank
//! among the operations on this file, so that points do not depend on how the threads of the child
//! are scheduled (a file has a single user at any time).

use std::collections::HashMap;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    /// die just before the operation
    Kill,
    /// die once `n` bytes of the operation are done
    KillAfter(u64),
    /// the operation fails with this errno
    Err(i32),
    /// this operation and all the following ones of the same nature fail (full disk)
    Full(i32),
    /// only this many bytes are done
    Short(u64),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Point { pub file: String, pub n: usize }

#[derive(Clone, Debug)]
pub struct Op { pub at: Point, pub call: &'static str, pub len: u64, pub mutates: bool }

#[derive(Debug, Clone, PartialEq)]
pub enum End { Exit(i32), Signal(i32), Stuck }

pub struct Run { pub end: End, pub ops: Vec<Op>, /// rank in `ops` of the operation each fault met
    pub hit: Vec<Option<usize>> }

/// (name, index of the fd or of the path argument, is it a path, mutates, has a length in rdx)
#[derive(Clone, Copy)]
struct Call { name: &'static str, arg: u8, path: bool, mutates: bool, len: Option<u8> }

fn call(nr: u64) -> Option<Call> {
    let c = |name, arg, path, mutates, len| Some(Call { name, arg, path, mutates, len });
    match nr as i64 {
        libc::SYS_write => c("write", 0, false, true, Some(2)),
        libc::SYS_pwrite64 => c("pwrite", 0, false, true, Some(2)),
        libc::SYS_writev => c("writev", 0, false, true, None),
        libc::SYS_pwritev => c("pwritev", 0, false, true, None),
        libc::SYS_pwritev2 => c("pwritev2", 0, false, true, None),
        libc::SYS_copy_file_range => c("copy_file_range", 2, false, true, Some(4)),
        libc::SYS_sendfile => c("sendfile", 0, false, true, Some(3)),
        libc::SYS_splice => c("splice", 2, false, true, Some(4)),
        libc::SYS_ftruncate => c("ftruncate", 0, false, true, None),
        libc::SYS_fallocate => c("fallocate", 0, false, true, None),
        libc::SYS_fsync => c("fsync", 0, false, true, None),
        libc::SYS_fdatasync => c("fdatasync", 0, false, true, None),
        libc::SYS_fchmod => c("fchmod", 0, false, true, None),
        libc::SYS_open => c("open", 0, true, true, None),
        libc::SYS_openat => c("openat", 1, true, true, None),
        libc::SYS_openat2 => c("openat2", 1, true, true, None),
        libc::SYS_creat => c("creat", 0, true, true, None),
        libc::SYS_truncate => c("truncate", 0, true, true, None),
        libc::SYS_rename => c("rename", 0, true, true, None),
        libc::SYS_renameat => c("renameat", 1, true, true, None),
        libc::SYS_renameat2 => c("renameat2", 1, true, true, None),
        libc::SYS_link => c("link", 0, true, true, None),
        libc::SYS_linkat => c("linkat", 1, true, true, None),
        libc::SYS_symlink => c("symlink", 1, true, true, None),
        libc::SYS_symlinkat => c("symlinkat", 2, true, true, None),
        libc::SYS_unlink => c("unlink", 0, true, true, None),
        libc::SYS_unlinkat => c("unlinkat", 1, true, true, None),
        libc::SYS_mkdir => c("mkdir", 0, true, true, None),
        libc::SYS_mkdirat => c("mkdirat", 1, true, true, None),
        libc::SYS_chmod => c("chmod", 0, true, true, None),
        libc::SYS_fchmodat => c("fchmodat", 1, true, true, None),
        libc::SYS_read => c("read", 0, false, false, Some(2)),
        libc::SYS_pread64 => c("pread", 0, false, false, Some(2)),
        libc::SYS_readv => c("readv", 0, false, false, None),
        _ => None,
    }
}

fn arg(r: &libc::user_regs_struct, k: u8) -> u64 { [r.rdi, r.rsi, r.rdx, r.r10, r.r8, r.r9][k as usize] }
fn set_arg(r: &mut libc::user_regs_struct, k: u8, v: u64) { *[&mut r.rdi, &mut r.rsi, &mut r.rdx, &mut r.r10, &mut r.r8, &mut r.r9][k as usize] = v; }

struct Names { roots: Vec<PathBuf>, tmp: HashMap<String, String>, count: HashMap<String, usize> }
impl Names {
    /// canonical name of a path under the watched directories
    fn of(&mut self, p: &str) -> Option<String> {
        let p = p.strip_suffix(" (deleted)").unwrap_or(p);
        let rel = self.roots.iter().find_map(|r| Path::new(p).strip_prefix(r).ok())?.to_str()?.to_string();
        let base = rel.rsplit('/').next().unwrap_or(&rel).to_string();
        // temporary names are random: number them
        if base.starts_with('.') {
            let n = self.tmp.len();
            return Some(self.tmp.entry(base).or_insert_with(|| format!("tmp#{n}")).clone());
        }
        Some(rel)
    }
    fn next(&mut self, file: String) -> Point {
        let n = self.count.entry(file.clone()).or_insert(0);
        *n += 1;
        Point { file, n: *n - 1 }
    }
}

fn string(pid: i32, at: u64) -> String {
    use std::os::unix::fs::FileExt;
    let Ok(f) = std::fs::File::open(format!("/proc/{pid}/mem")) else { return String::new() };
    let mut out = vec![];
    let mut b = [0u8; 256];
    while out.len() < 4096 {
        // do not cross a page in one read
        let pos = at + out.len() as u64;
        let n = ((4096 - pos % 4096) as usize).min(256);
        match f.read_at(&mut b[..n], pos) {
            Ok(k) if k > 0 => { if let Some(z) = b[..k].iter().position(|c| *c == 0) { out.extend_from_slice(&b[..z]); break } out.extend_from_slice(&b[..k]); }
            _ => break,
        }
    }
    String::from_utf8_lossy(&out).into_owned()
}

fn regs(t: i32) -> Option<libc::user_regs_struct> {
    let mut r: libc::user_regs_struct = unsafe { std::mem::zeroed() };
    (unsafe { libc::ptrace(libc::PTRACE_GETREGS, t, 0usize, &mut r as *mut _) } == 0).then_some(r)
}
fn set_regs(t: i32, r: &libc::user_regs_struct) { unsafe { libc::ptrace(libc::PTRACE_SETREGS, t, 0usize, r as *const _); } }

enum After { Nothing, Kill, Ret(i64) }

/// Runs `cmd` to its end, with `faults`. Paths under `roots` are watched.
pub fn run(mut cmd: Command, roots: &[&Path], faults: &[(Point, Act)], seconds: u64) -> std::io::Result<Run> {
    cmd.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    unsafe {
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0) != 0 { return Err(std::io::Error::last_os_error()) }
            Ok(())
        });
    }
    let mut child = cmd.spawn()?;
    let pid = child.id() as i32;
    let mut names = Names { roots: roots.iter().map(|r| r.to_path_buf()).collect(), tmp: HashMap::new(), count: HashMap::new() };
    let mut out = Run { end: End::Stuck, ops: vec![], hit: vec![None; faults.len()] };
    let mut full: Option<i32> = None;
    let mut inside: HashMap<i32, After> = HashMap::new();
    let mut started = false;
    // ends a child that does not end by itself
    let over = std::sync::Arc::new((std::sync::Mutex::new(false), std::sync::Condvar::new()));
    let stuck = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let dog = { let (over, stuck) = (over.clone(), stuck.clone()); std::thread::spawn(move || {
        let g = over.0.lock().unwrap();
        let (g, t) = over.1.wait_timeout_while(g, std::time::Duration::from_secs(seconds), |o| !*o).unwrap();
        if t.timed_out() && !*g { stuck.store(true, std::sync::atomic::Ordering::SeqCst); unsafe { libc::kill(pid, libc::SIGKILL); } }
    }) };
    loop {
        let mut st = 0;
        let t = unsafe { libc::waitpid(-1, &mut st, libc::__WALL | libc::__WNOTHREAD) };
        if t < 0 { if std::io::Error::last_os_error().raw_os_error() == Some(libc::EINTR) { continue } break }
        if libc::WIFEXITED(st) || libc::WIFSIGNALED(st) {
            inside.remove(&t);
            if t == pid { out.end = if libc::WIFEXITED(st) { End::Exit(libc::WEXITSTATUS(st)) } else { End::Signal(libc::WTERMSIG(st)) }; }
            if t == pid { break }
            continue;
        }
        let sig = libc::WSTOPSIG(st);
        let go = |sig: i32| unsafe { libc::ptrace(libc::PTRACE_SYSCALL, t, 0usize, sig as usize); };
        if !started {
            unsafe { libc::ptrace(libc::PTRACE_SETOPTIONS, pid, 0usize, (libc::PTRACE_O_TRACESYSGOOD | libc::PTRACE_O_TRACECLONE | libc::PTRACE_O_TRACEFORK | libc::PTRACE_O_TRACEVFORK | libc::PTRACE_O_EXITKILL) as usize); }
            started = true;
            go(0);
            continue;
        }
        if sig == libc::SIGTRAP | 0x80 {
            match inside.remove(&t) {
                Some(After::Nothing) => {}
                Some(After::Kill) => { unsafe { libc::kill(pid, libc::SIGKILL); } }
                Some(After::Ret(v)) => if let Some(mut r) = regs(t) { r.rax = v as u64; set_regs(t, &r); },
                None => {
                    let mut after = After::Nothing;
                    if let Some(mut r) = regs(t) {
                        if let Some(c) = call(r.orig_rax) {
                            let path = if c.path { string(t, arg(&r, c.arg)) } else {
                                std::fs::read_link(format!("/proc/{t}/fd/{}", arg(&r, c.arg) as i32)).ok().and_then(|p| p.to_str().map(String::from)).unwrap_or_default()
                            };
                            let opens = c.name.starts_with("open") && {
                                let fl = arg(&r, c.arg + 1) as i32;
                                c.name == "openat2" || fl & (libc::O_CREAT | libc::O_TRUNC) == 0
                            };
                            if let Some(name) = names.of(&path) {
                                let at = names.next(name);
                                let mutates = c.mutates && !opens;
                                let len = c.len.map(|k| arg(&r, k)).unwrap_or(0);
                                out.ops.push(Op { at: at.clone(), call: c.name, len, mutates });
                                let mut act = full.filter(|_| mutates && !c.name.starts_with("unlink")).map(Act::Err);
                                for (k, (p, a)) in faults.iter().enumerate() {
                                    if *p == at { out.hit[k] = Some(out.ops.len() - 1); act = Some(*a); }
                                }
                                match act {
                                    None => {}
                                    Some(Act::Kill) => { unsafe { libc::kill(pid, libc::SIGKILL); } }
                                    Some(Act::KillAfter(n)) => { if let Some(k) = c.len { set_arg(&mut r, k, n.min(len)); set_regs(t, &r); } after = After::Kill; }
                                    Some(Act::Short(n)) => if let Some(k) = c.len { set_arg(&mut r, k, n.min(len)); set_regs(t, &r); },
                                    Some(Act::Err(e)) | Some(Act::Full(e)) => {
                                        if let Some(Act::Full(e)) = act { full = Some(e); }
                                        r.orig_rax = u64::MAX;
                                        set_regs(t, &r);
                                        after = After::Ret(-(e as i64));
                                    }
                                }
                            }
                        }
                    }
                    inside.insert(t, after);
                }
            }
            go(0);
        } else if sig == libc::SIGTRAP || sig == libc::SIGSTOP {
            // exec, clone events and first stops of threads
            go(0);
        } else {
            go(sig);
        }
    }
    *over.0.lock().unwrap() = true;
    over.1.notify_all();
    let _ = dog.join();
    if stuck.load(std::sync::atomic::Ordering::SeqCst) { out.end = End::Stuck; }
    let _ = child.try_wait();
    Ok(out)
}
