use super::Node;
use std::io::Write;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};

fn put(dir: &Path, w: &[Node], at: usize) {
    for (i, n) in w.iter().enumerate().skip(1).filter(|x| x.1.parent == at) {
        let p = dir.join(std::ffi::OsStr::from_bytes(&n.name));
        if let Some(l) = &n.link {
            std::os::unix::fs::symlink(std::ffi::OsStr::from_bytes(l), p).unwrap();
            continue;
        }
        match &n.data {
            Some(d) => std::fs::write(p, d).unwrap(),
            None => {
                std::fs::create_dir(&p).unwrap();
                put(&p, w, i)
            }
        }
    }
}
/// the directory bins/, found from this program's own place: bins/replay/target/PROFILE/
fn bins() -> PathBuf {
    std::env::current_exe().unwrap().ancestors().nth(4).unwrap().to_path_buf()
}
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn run(tool: &str, args: &[&str], w: Vec<Node>, k: &'static mut dyn FnMut(&[u8], i32)) {
    let prof = if cfg!(debug_assertions) { "debug" } else { "release" };
    let exe = bins().join("tools").join(prof).join(format!("elm-parser-{}", tool));
    let s = Scratch(bins().join("replay/target").join(format!("scratch-{}", std::process::id())));
    std::fs::create_dir(&s.0).unwrap();
    put(&s.0, &w, 0);
    let o = std::process::Command::new(exe)
        .arg0("elm-tool")
        .args(args)
        .current_dir(&s.0)
        .env_clear()
        .stdin(std::process::Stdio::null())
        .output()
        .unwrap();
    drop(s);
    std::io::stdout().write_all(&o.stdout).unwrap();
    let code = match o.status.code() {
        Some(c) => c,
        None => panic!("the tool was ended by a signal"),
    };
    if code == 101 && unsafe { super::MAY_PANIC } {
        return;
    }
    if code == 101 {
        panic!("the tool panicked: {}", String::from_utf8_lossy(&o.stderr));
    }
    k(&o.stdout, code)
}
