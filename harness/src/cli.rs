//! Runs the rekordcrate binary as an unprivileged user with resource limits.
use crate::engine::Ctx;
use std::io::Read;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

pub const UID: u32 = 65534;

pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub timeout: bool,
}

impl Out {
    pub fn out(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
    pub fn err(&self) -> String {
        String::from_utf8_lossy(&self.stderr).into_owned()
    }
    fn head(&self) -> String {
        let e = self.err();
        e.chars().take(400).collect()
    }
    /// No panic, no signal, no time out.
    pub fn clean(&self) -> Result<(), String> {
        if self.timeout {
            return Err("the program does not end".into());
        }
        if let Some(s) = self.signal {
            return Err(format!("the program is ended by signal {s}: {}", self.head()));
        }
        if self.code == Some(101) || self.err().contains("panicked at") {
            return Err(format!("the program panics: {}", self.head()));
        }
        Ok(())
    }
    pub fn success(&self) -> Result<(), String> {
        self.clean()?;
        if self.code != Some(0) {
            return Err(format!("the program fails with status {:?}: {}", self.code, self.head()));
        }
        Ok(())
    }
    pub fn failure(&self) -> Result<(), String> {
        self.clean()?;
        if self.code == Some(0) {
            return Err(format!("the program reports success: {}", self.out().chars().take(200).collect::<String>()));
        }
        if self.stderr.is_empty() {
            return Err("the program fails without a message".into());
        }
        Ok(())
    }
}

/// The binary, copied to a place every user can reach.
fn binary() -> Result<&'static Path, String> {
    static BIN: OnceLock<Result<PathBuf, String>> = OnceLock::new();
    BIN.get_or_init(|| {
        let src = std::env::var_os("VH_CLI").unwrap_or_else(|| "/verif/target/cli/debug/rekordcrate".into());
        let base = base();
        std::fs::create_dir_all(&base).map_err(|e| format!("scratch: {e}"))?;
        open_dir(&base)?;
        let dst = base.join(format!("rekordcrate-{}", std::process::id()));
        std::fs::copy(src, &dst).map_err(|e| format!("scratch: copying the binary: {e}"))?;
        std::fs::set_permissions(&dst, std::fs::Permissions::from_mode(0o755)).map_err(|e| format!("scratch: {e}"))?;
        Ok(dst)
    })
    .as_deref()
    .map_err(Clone::clone)
}

fn base() -> PathBuf {
    std::env::var_os("VH_SCRATCH").map_or_else(|| std::env::temp_dir().join(format!("vh-{}", std::process::id())), PathBuf::from)
}

fn open_dir(p: &Path) -> Result<(), String> {
    std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755)).map_err(|e| format!("scratch: {}: {e}", p.display()))
}

/// Empty scratch folder of this worker thread, reachable for the unprivileged user.
pub fn scratch(ctx: &Ctx, name: &str) -> Result<PathBuf, String> {
    binary()?;
    let p = crate::props::c12::scratch(ctx, name)?;
    open_dir(&p)?;
    Ok(p)
}

/// Hand a folder over to the unprivileged user.
pub fn give(p: &Path) -> Result<(), String> {
    std::os::unix::fs::chown(p, Some(UID), Some(UID)).map_err(|e| format!("scratch: {}: {e}", p.display()))
}

pub fn run(args: &[&std::ffi::OsStr], cwd: &Path) -> Result<Out, String> {
    let bin = binary()?;
    let mut c = Command::new(bin);
    c.args(args).current_dir(cwd).env_clear().stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    if unsafe { libc::getuid() } == 0 {
        c.uid(UID).gid(UID);
    }
    unsafe {
        c.pre_exec(|| {
            let lim = |r, v: u64| {
                let l = libc::rlimit { rlim_cur: v, rlim_max: v };
                libc::setrlimit(r, &l);
            };
            lim(libc::RLIMIT_CORE, 0);
            lim(libc::RLIMIT_CPU, 30);
            lim(libc::RLIMIT_AS, 2 << 30);
            lim(libc::RLIMIT_FSIZE, 64 << 20);
            Ok(())
        });
    }
    let mut child = c.spawn().map_err(|e| format!("scratch: starting the program: {e}"))?;
    let (mut o, mut e) = (child.stdout.take().ok_or("scratch: pipe")?, child.stderr.take().ok_or("scratch: pipe")?);
    const CAP: u64 = 32 << 20;
    let t = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = e.by_ref().take(CAP).read_to_end(&mut b);
        b
    });
    let mut stdout = vec![];
    // Output beyond the cap makes the program fail with a broken pipe, which counts as endless output.
    let n = o.by_ref().take(CAP).read_to_end(&mut stdout).unwrap_or(0);
    drop(o);
    let start = Instant::now();
    let mut timeout = n as u64 == CAP;
    let status = loop {
        if let Some(s) = child.try_wait().map_err(|e| format!("scratch: {e}"))? {
            break s;
        }
        if timeout || start.elapsed() > Duration::from_secs(40) {
            timeout = true;
            let _ = child.kill();
            break child.wait().map_err(|e| format!("scratch: {e}"))?;
        }
        std::thread::sleep(Duration::from_micros(200));
    };
    let stderr = t.join().map_err(|_| "scratch: reader thread")?;
    Ok(Out { code: status.code(), signal: status.signal(), stdout, stderr, timeout })
}
