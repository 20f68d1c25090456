//! Runs the tools as processes
use std::collections::HashMap;
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

/// A tool that takes longer than this does not terminate
const LIMIT: Duration = Duration::from_secs(20);

pub struct Out {
    /// exit code, or the negated signal
    pub code: i32,
    pub out: String,
    pub err: String,
}
impl Out {
    /// The output of a run that has to succeed
    pub fn ok(self) -> Result<String, String> {
        if self.code != 0 {
            return Err(format!("exit code {}: {} {}", self.code, self.err.trim(), self.out.trim()));
        }
        Ok(self.out)
    }
}

fn running() -> &'static Mutex<HashMap<u32, Instant>> {
    static R: OnceLock<Mutex<HashMap<u32, Instant>>> = OnceLock::new();
    R.get_or_init(|| {
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(500));
            for (pid, since) in running().lock().unwrap().iter() {
                if since.elapsed() > LIMIT {
                    unsafe { libc::kill(*pid as i32, libc::SIGKILL) };
                }
            }
        });
        Mutex::default()
    })
}

pub fn run(name: &str, args: &[&str], stdin: &str) -> Result<Out, String> {
    use std::os::unix::process::ExitStatusExt;
    static DIR: OnceLock<PathBuf> = OnceLock::new();
    let dir = DIR.get_or_init(|| std::env::current_exe().unwrap().parent().unwrap().into());
    let mut child = Command::new(dir.join(name))
        .args(args)
        .env_clear()
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| format!("{name} cannot be started: {e}"))?;
    let pid = child.id();
    running().lock().unwrap().insert(pid, Instant::now());
    // inputs and outputs are smaller than the buffer of a pipe
    let _ = child.stdin.take().unwrap().write_all(stdin.as_bytes());
    let o = child.wait_with_output();
    let took = running().lock().unwrap().remove(&pid).unwrap().elapsed();
    let o = o.map_err(|e| format!("{name}: {e}"))?;
    if took > LIMIT {
        return Err(format!("{name} does not terminate"));
    }
    let text = |b: Vec<u8>| String::from_utf8(b).map_err(|_| format!("{name} prints invalid UTF-8"));
    Ok(Out { code: o.status.code().unwrap_or_else(|| -o.status.signal().unwrap_or(0)), out: text(o.stdout)?, err: text(o.stderr)? })
}

fn scratch() -> PathBuf {
    std::env::temp_dir().join(format!("mct-{}", std::process::id()))
}
pub fn cleanup() {
    let _ = std::fs::remove_dir_all(scratch());
}
/// A file that is removed when it goes out of scope
pub struct File(pub String);
impl File {
    /// Names a file that does not exist yet
    pub fn unused(ext: &str) -> File {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = scratch();
        std::fs::create_dir_all(&d).unwrap();
        File(d.join(format!("{}{ext}", N.fetch_add(1, Ordering::Relaxed))).to_str().unwrap().into())
    }
    /// A file with the given content, compressed as the extension says
    pub fn with(ext: &str, content: &str) -> File {
        let f = File::unused(ext);
        match compressor(&f.0) {
            None => std::fs::write(&f.0, content).unwrap(),
            Some(c) => {
                let mut p = Command::new(c)
                    .arg("-c")
                    .stdin(Stdio::piped())
                    .stdout(std::fs::File::create(&f.0).unwrap())
                    .spawn()
                    .unwrap();
                p.stdin.take().unwrap().write_all(content.as_bytes()).unwrap();
                assert!(p.wait().unwrap().success());
            }
        }
        f
    }
    pub fn read(&self) -> Result<String, String> {
        match compressor(&self.0) {
            None => std::fs::read_to_string(&self.0).map_err(|e| format!("output file: {e}")),
            Some(c) => {
                let o = Command::new(c).args(["-d", "-c", &self.0]).output().unwrap();
                if !o.status.success() {
                    return Err("the output file is not compressed as its extension says".into());
                }
                String::from_utf8(o.stdout).map_err(|_| "invalid UTF-8 in the output file".into())
            }
        }
    }
}
impl Drop for File {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}
fn compressor(path: &str) -> Option<&'static str> {
    match path.rsplit('.').next()? {
        "gz" => Some("gzip"),
        "bz2" => Some("bzip2"),
        "xz" => Some("xz"),
        _ => None,
    }
}
