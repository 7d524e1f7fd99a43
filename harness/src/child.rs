//! Child processes under watch: exit, signal, standstill, time.
use std::{
    io::Read,
    os::unix::process::{CommandExt, ExitStatusExt},
    process::{Command, Stdio},
    time::{Duration, Instant},
};

#[derive(Debug)]
pub struct Done {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: String,
    pub err: String,
    /// every thread slept without using the processor for a long time
    pub stuck: bool,
    /// stopped by the wall-clock watchdog: says nothing
    pub late: bool,
}

impl Done {
    pub fn ok(&self) -> bool {
        self.code == Some(0) && !self.stuck && !self.late
    }
    pub fn tail(&self) -> String {
        let e: Vec<&str> = self.err.lines().collect();
        let from = e.len().saturating_sub(60);
        format!(
            "exit code {:?}, signal {:?}, standstill {}\n{}\n{}",
            self.code,
            self.signal,
            self.stuck,
            self.out.lines().filter(|l| l.starts_with("diff")).take(5).collect::<Vec<_>>().join("\n"),
            e[from..].join("\n")
        )
    }
}

/// (all threads sleep, processor time used)
fn state(pid: u32) -> Option<(bool, u64)> {
    let mut sleep = true;
    let mut t = 0;
    for d in std::fs::read_dir(format!("/proc/{pid}/task")).ok()? {
        let s = std::fs::read_to_string(d.ok()?.path().join("stat")).ok()?;
        let f: Vec<&str> = s.rsplit_once(')')?.1.split_whitespace().collect();
        sleep &= f[0] == "S";
        t += f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?;
    }
    Some((sleep, t))
}

pub fn run(mut c: Command, cpu: u64, wall: u64, stand: u64) -> Result<Done, String> {
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe {
        c.pre_exec(move || {
            let l = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            // sanitizers and valgrind reserve address space
            let a = libc::rlimit { rlim_cur: libc::RLIM_INFINITY, rlim_max: libc::RLIM_INFINITY };
            libc::setrlimit(libc::RLIMIT_AS, &a);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut ch = c.spawn().map_err(|e| format!("cannot start {c:?}: {e}"))?;
    let mut o = ch.stdout.take().unwrap();
    let mut e = ch.stderr.take().unwrap();
    let to = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = o.read_to_end(&mut v);
        v
    });
    let te = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = e.read_to_end(&mut v);
        v
    });
    let start = Instant::now();
    let mut still = (Instant::now(), u64::MAX);
    let (mut stuck, mut late) = (false, false);
    let mut nap = 1;
    let st = loop {
        if let Some(s) = ch.try_wait().map_err(|e| e.to_string())? {
            break s;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(50);
        if let Some((sleep, t)) = state(ch.id()) {
            if !sleep || t != still.1 {
                still = (Instant::now(), t);
            }
        }
        stuck = still.0.elapsed() > Duration::from_secs(stand);
        late = start.elapsed() > Duration::from_secs(wall);
        if stuck || late {
            let _ = ch.kill();
            break ch.wait().map_err(|e| e.to_string())?;
        }
    };
    Ok(Done {
        code: st.code(),
        signal: st.signal(),
        out: String::from_utf8_lossy(&to.join().unwrap()).into(),
        err: String::from_utf8_lossy(&te.join().unwrap()).into(),
        stuck,
        late,
    })
}

/// This program again.
pub fn own(args: &[String]) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(args);
    c
}
