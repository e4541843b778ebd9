//! Runs write_atomic in children of this process, one file system call at a time, in a given order,
//! with faults at given calls, and observes the directory tree after every call.
use crate::{bytes, path, phex};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};

#[derive(Clone, PartialEq, Debug)]
struct Node {
    kind: char,
    mode: u32,
    data: Vec<u8>,
}

fn node(p: &Path) -> Option<Node> {
    let m = std::fs::symlink_metadata(p).ok()?;
    let t = m.file_type();
    let (kind, data) = if t.is_symlink() {
        ('l', std::fs::read_link(p).ok()?.as_os_str().as_bytes().to_vec())
    } else if t.is_dir() {
        ('d', vec![])
    } else {
        ('f', std::fs::read(p).ok()?)
    };
    Some(Node { kind, mode: m.mode() & 0o7777, data })
}

fn tree(root: &Path, out: &mut BTreeMap<PathBuf, Node>) {
    let Ok(d) = std::fs::read_dir(root) else { return };
    for e in d.flatten() {
        let p = e.path();
        if let Some(n) = node(&p) {
            let dir = n.kind == 'd';
            out.insert(p.clone(), n);
            if dir {
                tree(&p, out);
            }
        }
    }
}

/// File system calls (x86_64).
fn is_fs(nr: i64) -> bool {
    matches!(
        nr,
        0..=8 | 17..=22 | 32 | 33 | 40 | 72..=95 | 133 | 137 | 138 | 188..=199 | 217 | 221 | 257..=269 | 275..=280 | 285
            | 292 | 293 | 295 | 296 | 306 | 316 | 326..=328 | 332 | 437 | 439 | 452
    )
}
fn is_write(nr: i64) -> bool {
    matches!(nr, 1 | 18)
}

struct Child {
    pid: i32,
    n: u64,
    done: Option<&'static str>,
    last: i64,
}

unsafe fn regs(pid: i32) -> libc::user_regs_struct {
    let mut r: libc::user_regs_struct = std::mem::zeroed();
    libc::ptrace(libc::PTRACE_GETREGS, pid, 0, &mut r);
    r
}
unsafe fn set_regs(pid: i32, r: &libc::user_regs_struct) {
    libc::ptrace(libc::PTRACE_SETREGS, pid, 0, r);
}

impl Child {
    unsafe fn spawn(target: &Path, content: &[u8], uid: u32, umask: u32) -> Child {
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            if uid != 0 {
                libc::setgroups(0, std::ptr::null());
                libc::setresgid(uid, uid, uid);
                libc::setresuid(uid, uid, uid);
            }
            libc::umask(umask);
            libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0);
            libc::raise(libc::SIGSTOP);
            let r = std::panic::catch_unwind(|| tinymist_std::fs::paths::write_atomic(target, content));
            // The error may own the temporary file: the write is over when its result is gone.
            let code = match r {
                Ok(Ok(())) => 0,
                Ok(Err(e)) => {
                    drop(e);
                    1
                }
                Err(e) => {
                    drop(e);
                    2
                }
            };
            libc::_exit(code);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        assert!(libc::WIFSTOPPED(st), "child did not stop: {st:x}");
        libc::ptrace(libc::PTRACE_SETOPTIONS, pid, 0, libc::PTRACE_O_TRACESYSGOOD | libc::PTRACE_O_EXITKILL);
        Child { pid, n: 0, done: None, last: -1 }
    }

    unsafe fn wait(&mut self) -> bool {
        let mut st = 0;
        loop {
            libc::waitpid(self.pid, &mut st, 0);
            if libc::WIFEXITED(st) {
                self.done = Some(match libc::WEXITSTATUS(st) {
                    0 => "ok",
                    1 => "err",
                    _ => "panic",
                });
                return false;
            }
            if libc::WIFSIGNALED(st) {
                self.done = Some(if libc::WTERMSIG(st) == libc::SIGKILL { "dead" } else { "abort" });
                return false;
            }
            if libc::WSTOPSIG(st) == (libc::SIGTRAP | 0x80) {
                return true;
            }
            let sig = libc::WSTOPSIG(st);
            libc::ptrace(libc::PTRACE_SYSCALL, self.pid, 0, if sig == libc::SIGSTOP { 0 } else { sig });
        }
    }

    /// Runs up to and including the next file system call.
    unsafe fn step(&mut self, faults: &[Value], w: u64) {
        loop {
            libc::ptrace(libc::PTRACE_SYSCALL, self.pid, 0, 0);
            if !self.wait() {
                return;
            }
            let mut r = regs(self.pid);
            let nr = r.orig_rax as i64;
            let mut deny = None;
            let mut after = false;
            let fs = is_fs(nr);
            if fs {
                self.n += 1;
                self.last = nr;
                for f in faults {
                    if f["w"].as_u64().unwrap_or(0) != w || f["at"].as_u64() != Some(self.n) {
                        continue;
                    }
                    match f["kind"].as_str().unwrap() {
                        "kill" => {
                            libc::kill(self.pid, libc::SIGKILL);
                            self.wait();
                            return;
                        }
                        "killafter" => after = true,
                        "errno" => {
                            deny = f["n"].as_i64();
                            r.orig_rax = -1i64 as u64;
                            set_regs(self.pid, &r);
                        }
                        "short" if is_write(nr) => {
                            r.rdx = (r.rdx / 2).max(1);
                            set_regs(self.pid, &r);
                        }
                        _ => {}
                    }
                }
            }
            libc::ptrace(libc::PTRACE_SYSCALL, self.pid, 0, 0);
            if !self.wait() {
                return;
            }
            if let Some(e) = deny {
                let mut r = regs(self.pid);
                r.rax = (-e) as u64;
                set_regs(self.pid, &r);
            }
            if after {
                libc::kill(self.pid, libc::SIGKILL);
                self.wait();
                return;
            }
            if fs {
                return;
            }
        }
    }
}

fn run(c: &Value) -> Value {
    let root = path(&c["root"]);
    let target = path(&c["target"]);
    let contents: Vec<Vec<u8>> = c["contents"].as_array().unwrap().iter().map(bytes).collect();
    let faults = c["faults"].as_array().cloned().unwrap_or_default();
    let uid = c["uid"].as_u64().unwrap_or(0) as u32;
    let umask = c["umask"].as_u64().unwrap_or(0o22) as u32;
    let mut before = BTreeMap::new();
    tree(&root, &mut before);
    let old = node(&target);
    let through = std::fs::metadata(&target).ok().map(|m| m.permissions().mode() & 0o777);
    let observe = |w: i64, sys: i64, r: &str| {
        let mut now = BTreeMap::new();
        tree(&root, &mut now);
        let t = now.remove(&target);
        let strays: Vec<_> = now.keys().filter(|p| !before.contains_key(*p)).collect();
        let intact = before.iter().all(|(p, n)| *p == target || now.get(p) == Some(n));
        let who = if t == old {
            if old.is_none() { "absent".into() } else { "old".into() }
        } else {
            match &t {
                Some(n) if n.kind == 'f' => contents
                    .iter()
                    .position(|c| *c == n.data)
                    .map_or("other".into(), |i| format!("new{}", i + 1)),
                _ => "other".to_string(),
            }
        };
        let same = match (through, &t) {
            (Some(m), Some(n)) if n.kind == 'f' => m == n.mode & 0o777,
            (Some(_), Some(_)) => t == old,
            _ => true,
        };
        json!({"w": w, "sys": sys, "r": r, "t": who, "same": same, "n": strays.len(), "intact": intact,
               "mode": t.map(|n| n.mode), "strays": strays.iter().map(|p| phex(p)).collect::<Vec<_>>()})
    };
    let mut trace = vec![observe(0, -1, "")];
    let mut kids: Vec<Child> = contents.iter().map(|d| unsafe { Child::spawn(&target, d, uid, umask) }).collect();
    let mut sched: std::collections::VecDeque<usize> =
        c["sched"].as_array().map(|v| v.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default();
    let mut steps = 0;
    while kids.iter().any(|k| k.done.is_none()) {
        steps += 1;
        if steps > 5000 {
            break;
        }
        let i = match sched.pop_front() {
            Some(i) if kids[i].done.is_none() => i,
            Some(_) => continue,
            None => kids.iter().position(|k| k.done.is_none()).unwrap(),
        };
        unsafe { kids[i].step(&faults, i as u64) };
        let r = kids[i].done.unwrap_or("");
        trace.push(observe(i as i64 + 1, kids[i].last, r));
    }
    for k in &kids {
        if k.done.is_none() {
            unsafe {
                libc::kill(k.pid, libc::SIGKILL);
                libc::waitpid(k.pid, std::ptr::null_mut(), 0);
            }
        }
    }
    json!({"trace": trace, "res": kids.iter().map(|k| k.done.unwrap_or("stuck")).collect::<Vec<_>>(),
           "nsys": kids.iter().map(|k| k.n).collect::<Vec<_>>()})
}

pub fn main() {
    for line in std::io::stdin().lock().lines() {
        let c: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let v = run(&c);
        let mut o = std::io::stdout().lock();
        writeln!(o, "{v}").unwrap();
        o.flush().unwrap();
    }
}
