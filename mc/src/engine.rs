//! The explorer: enumerates every execution of a scenario with at most K deviations from the default
//! schedule, re-executing the real code in a forked process for each.
use crate::scen::Scenario;
use crate::sim::{self, Sim};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::os::fd::FromRawFd;
use std::time::Instant;

#[derive(Serialize, Deserialize, Debug, Default, Clone)]
pub struct RunReport {
    pub choices: Vec<(u16, u16, u8, u64, String)>,
    pub violations: Vec<(String, String)>,
    pub steps: u64,
    /// Position of the last deviation, number of deviations, messages that trapped of themselves.
    #[serde(default)]
    pub base: usize,
    #[serde(default)]
    pub devs: u32,
    #[serde(default)]
    pub traps: BTreeMap<u64, String>,
    pub states: Vec<u64>,
    pub trapped: Vec<(String, String)>,
    pub info: Vec<(String, u64)>,
    #[serde(default)]
    pub soft: Vec<(String, String, String)>,
    #[serde(default)]
    pub upgraded: bool,
    #[serde(default)]
    pub injected: bool,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dump: Option<crate::gold::Dump>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub facts: Vec<String>,
}
#[derive(Serialize, Deserialize, Debug, Default, Clone)]
pub struct Job {
    pub prefix: Vec<usize>,
    pub traps: BTreeMap<u64, String>,
    pub devs: u32,
}
#[derive(Default)]
pub struct Stats {
    pub executions: u64,
    pub reruns: u64,
    pub steps: u64,
    pub states: BTreeSet<u64>,
    pub choice_points: u64,
    pub traps: u64,
    pub counters: BTreeMap<String, u64>,
    pub complete: bool,
    pub max_devs: u32,
    pub samples: Vec<String>,
    /// Properties violated without any upgrade, and without any injected trap.
    pub plain: BTreeMap<&'static str, BTreeSet<String>>,
    /// The first execution per property violated after an upgrade or trap.
    pub soft: BTreeMap<(String, String), Found>,
}
pub struct Found {
    pub job: Job,
    pub text: String,
    pub report: RunReport,
}
pub struct Explorer<'a> {
    pub sc: &'a Scenario,
    pub k: u32,
    pub mask: u32,
    pub props: Vec<String>,
    pub deadline: Option<Instant>,
    pub all: bool,
    pub known: Vec<String>,
    pub known_hits: BTreeMap<String, u64>,
    /// Called for every finished execution.
    pub each: Option<Box<dyn FnMut(&Job, &RunReport) + 'a>>,
}
/// Runs `f` in a forked process and returns the last line it reported.
pub fn fork_line(f: impl FnOnce()) -> String {
    let (pid, mut file) = fork_run(f);
    let mut b = vec![];
    let _ = file.read_to_end(&mut b);
    let mut status = 0;
    unsafe { libc::waitpid(pid, &mut status, 0) };
    String::from_utf8_lossy(&b).lines().last().unwrap_or("").to_string()
}
fn fork_run(f: impl FnOnce()) -> (i32, std::fs::File) {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            sim::OUT_FD.store(fds[1], std::sync::atomic::Ordering::SeqCst);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            // The canister's own log lines are of no interest here.
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 1);
            libc::dup2(null, 2);
            f();
            sim::exit_now(7)
        }
        libc::close(fds[1]);
        (pid, std::fs::File::from_raw_fd(fds[0]))
    }
}
pub fn run_child(sc: Scenario, job: Job, mask: u32, verbose: bool, k: Option<u32>) -> ! {
    sim::install_hooks();
    sim::arm_cpu_limit(60);
    let th = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let from = job.prefix.len();
            let mut s = Sim::new(sc, job.prefix, job.traps, mask);
            if let Some(k) = k {
                s.ch.tree = Some(from);
                s.ch.k = k;
                s.ch.devs = job.devs;
                s.ch.base = from;
            }
            s.verbose = verbose;
            s.run()
        })
        .unwrap();
    let _ = th.join();
    sim::exit_now(6)
}
/// One execution: its report, or the message that trapped.
pub fn one(sc: &Scenario, job: &Job, mask: u32) -> Result<Result<RunReport, (u64, String)>, String> {
    let (pid, mut file) = fork_run(|| run_child(sc.clone(), job.clone(), mask, false, None));
    let mut b = vec![];
    let _ = file.read_to_end(&mut b);
    let mut status = 0;
    unsafe { libc::waitpid(pid, &mut status, 0) };
    let text = String::from_utf8_lossy(&b).to_string();
    let line = text.lines().last().unwrap_or("");
    if let Some(r) = line.strip_prefix("R ") {
        return Ok(Ok(serde_json::from_str(r).map_err(|e| e.to_string())?));
    }
    if let Some((k, m)) = line.strip_prefix("T ").and_then(|t| t.split_once(' ')) {
        return Ok(Err((k.parse().map_err(|_| "bad trap")?, m.to_string())));
    }
    Err(format!("died (status {status:x}): {line}"))
}
impl<'a> Explorer<'a> {
    /// Explores the tree of executions. The first process runs the default execution and forks a process for each
    /// alternative at each choice, and so on; an execution in which the canister itself trapped ends there and is run
    /// again from the start with that message failing, going on from the choice it had reached.
    pub fn run(&mut self, st: &mut Stats) -> Result<Vec<Found>, String> {
        use std::sync::atomic::Ordering::SeqCst;
        let nproc = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
        let sh = sim::tree::create(nproc as u32 - 1);
        let mut fds = [0i32; 2];
        unsafe {
            assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
            libc::fcntl(fds[0], libc::F_SETPIPE_SZ, 1 << 20);
            libc::prctl(libc::PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0);
        }
        let mut jobs: Vec<Job> = vec![];
        let (k, mask) = (self.k, self.mask);
        let start = |jobs: &mut Vec<Job>, j: Job, sc: &Scenario| unsafe {
            let id = jobs.len() as u64;
            sh.started.fetch_add(1, SeqCst);
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::close(fds[0]);
                sim::OUT_FD.store(fds[1], SeqCst);
                libc::signal(libc::SIGPIPE, libc::SIG_IGN);
                let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(null, 1);
                libc::dup2(null, 2);
                sim::tree::SHARED.store(sh as *const _ as *mut _, SeqCst);
                sim::tree::JOB.store(id, SeqCst);
                run_child(sc.clone(), j, mask, false, Some(k))
            }
            jobs.push(j);
        };
        start(&mut jobs, Job::default(), self.sc);
        let mut found: Vec<Found> = vec![];
        let mut error: Option<String> = None;
        let mut buf: Vec<u8> = vec![];
        let mut chunk = vec![0u8; 1 << 18];
        let mut reports = 0u64;
        let mut last = Instant::now();
        loop {
            unsafe { while libc::waitpid(-1, std::ptr::null_mut(), libc::WNOHANG) > 0 {} }
            if self.deadline.map_or(false, |d| Instant::now() > d) && !sh.stop.load(SeqCst) {
                sh.incomplete.store(true, SeqCst);
                sh.stop.store(true, SeqCst);
            }
            let mut pf = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let n = unsafe { libc::poll(&mut pf, 1, 20) };
            if n == 0 {
                let over = sh.started.load(SeqCst) == sh.gone.load(SeqCst);
                let dead = !over && unsafe { libc::waitpid(-1, std::ptr::null_mut(), libc::WNOHANG) } < 0;
                if !over && !dead && last.elapsed().as_secs() < 300 {
                    continue;
                }
                // all gone, and the pipe is empty
                pf.revents = 0;
                unsafe { libc::poll(&mut pf, 1, 0) };
                if pf.revents == 0 {
                    if !over {
                        error.get_or_insert(format!("executions of {} died: {} started, {} ended", self.sc.name, sh.started.load(SeqCst), sh.gone.load(SeqCst)));
                    }
                    break;
                }
            }
            let n = unsafe { libc::read(fds[0], chunk.as_mut_ptr() as *mut _, chunk.len()) };
            if n <= 0 {
                break;
            }
            last = Instant::now();
            buf.extend_from_slice(&chunk[..n as usize]);
            let mut at = 0;
            while let Some(e) = buf[at..].iter().position(|b| *b == b'\n') {
                let line = String::from_utf8_lossy(&buf[at..at + e]).to_string();
                at += e + 1;
                reports += 1;
                if error.is_some() {
                    continue;
                }
                if let Err(x) = self.line(&line, st, &mut found, &jobs).map(|j| {
                    if let Some(j) = j {
                        start(&mut jobs, j, self.sc);
                    }
                }) {
                    error = Some(x);
                    sh.stop.store(true, SeqCst);
                }
                if !found.is_empty() && !self.all {
                    sh.stop.store(true, SeqCst);
                }
            }
            buf.drain(..at);
        }
        unsafe {
            libc::close(fds[0]);
            libc::close(fds[1]);
            while libc::waitpid(-1, std::ptr::null_mut(), libc::WNOHANG) > 0 {}
        }
        if error.is_none() && !sh.stop.load(SeqCst) && reports != sh.started.load(SeqCst) {
            error = Some(format!("{} executions of {} started, {reports} reported", sh.started.load(SeqCst), self.sc.name));
        }
        st.complete &= !sh.incomplete.load(SeqCst);
        unsafe { libc::munmap(sh as *const _ as *mut _, std::mem::size_of::<sim::tree::Shared>()) };
        match error {
            Some(e) if found.is_empty() => Err(e),
            _ => Ok(found),
        }
    }
    /// Deals with one report; returns an execution to run again.
    fn line(&mut self, line: &str, st: &mut Stats, found: &mut Vec<Found>, jobs: &[Job]) -> Result<Option<Job>, String> {
        if let Some(r) = line.strip_prefix("R ") {
            let rep: RunReport = serde_json::from_str(r).map_err(|e| format!("bad report: {e}"))?;
            let job = Job { prefix: rep.choices[..rep.base].iter().map(|c| c.1 as usize).collect(), traps: rep.traps.clone(), devs: rep.devs };
            st.executions += 1;
            if let Some(f) = self.each.as_mut() {
                f(&job, &rep);
            }
            st.steps += rep.steps;
            st.traps += rep.trapped.len() as u64;
            st.states.extend(rep.states.iter());
            st.max_devs = st.max_devs.max(job.devs);
            for (k, v) in &rep.info {
                *st.counters.entry(k.clone()).or_default() += v;
            }
            st.choice_points += (rep.choices.len() - rep.base) as u64;
            if st.samples.len() < 3 && (job.devs as usize) == st.samples.len().min(self.k as usize) {
                st.samples.push(format!(
                    "{}: deviations {:?}",
                    self.sc.name,
                    rep.choices.iter().filter(|x| x.1 > 0).map(|x| format!("{} -> {}", x.4, x.1)).collect::<Vec<_>>()
                ));
            }
            for (p, _) in &rep.violations {
                if !rep.upgraded {
                    st.plain.entry("S02").or_default().insert(p.clone());
                }
                if !rep.injected {
                    st.plain.entry("S04").or_default().insert(p.clone());
                }
            }
            for (w, p, t) in &rep.soft {
                if self.props.contains(w) && !self.known.iter().any(|k| t.contains(k.as_str())) {
                    st.soft.entry((w.clone(), p.clone())).or_insert_with(|| Found { job: job.clone(), text: format!("{w}: {t}"), report: rep.clone() });
                }
            }
            for (p, t) in &rep.violations {
                if self.props.iter().any(|x| x == p) || self.all {
                    if let Some(kf) = self.known.iter().find(|k| t.contains(k.as_str())) {
                        *self.known_hits.entry(kf.clone()).or_default() += 1;
                        continue;
                    }
                    if found.len() < 50 {
                        found.push(Found { job: job.clone(), text: format!("{p}: {t}"), report: rep.clone() });
                    }
                }
            }
            return Ok(None);
        }
        if let Some(t) = line.strip_prefix("T ") {
            st.reruns += 1;
            let f: Vec<&str> = t.splitn(5, ' ').collect();
            let [k, j, devs, picks, m] = f[..] else { return Err(format!("bad trap report {line}")) };
            let bad = |_| format!("bad trap report {line}");
            let k: u64 = k.parse().map_err(bad)?;
            let old = &jobs[j.parse::<usize>().map_err(bad)?];
            let mut traps = old.traps.clone();
            let m = match m {
                "L" => "instruction limit exceeded",
                "S" => "memory fault",
                m => m,
            };
            if traps.insert(k, m.to_string()).is_some() || traps.len() > 400 {
                return Err(format!("execution traps without end: {m} in {} {old:?}", self.sc.name));
            }
            let prefix = picks.split(',').filter(|p| *p != "-").map(|p| p.parse().map_err(bad)).collect::<Result<Vec<usize>, _>>()?;
            return Ok(Some(Job { prefix, traps, devs: devs.parse().map_err(bad)? }));
        }
        Err(format!("execution of {} died: {line}", self.sc.name))
    }
}
