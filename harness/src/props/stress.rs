//! The workload of the sanitizer binaries (`plain` builds), and the parent side that runs them.
use super::{conc, hostile, ExtraResult, ExtraRun, NoExtra};
use crate::ctx::Tier;
use crate::obs;
use crate::objgen;
use crate::rng::Rng;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// vmon stress MODE SEED SECONDS DIR
pub fn main(a: &[String]) -> i32 {
    let mode = a[0].as_str();
    let seed: u64 = a[1].parse().unwrap();
    let secs: u64 = a[2].parse().unwrap();
    let dir = PathBuf::from(&a[3]);
    std::fs::create_dir_all(&dir).unwrap();
    crate::ctx::install_panic_hook(false);
    crate::flight::mute();
    let end = Instant::now() + Duration::from_secs(secs);
    let mut n = 0u64;
    let mut rounds = 0u64;
    let mut bad: Option<(String, String)> = None;
    while bad.is_none() && (Instant::now() < end || rounds < 2) {
        let mut rng = Rng::new(seed, mode, rounds);
        let d = dir.join(format!("{rounds}"));
        match mode {
            "race" => {
                let np = rng.range(0, 4);
                let f = conc::fixture(&mut rng, &d, np, 2);
                match rusty_git::repository::Repository::open(&d) {
                    Err(e) => bad = Some(("open-failed".into(), obs::chain(&e))),
                    Ok(repo) => {
                        let nt = rng.range(2, 8);
                        // writers beside the readers, on the same handle
                        let stop = std::sync::atomic::AtomicBool::new(false);
                        let (r, werr) = std::thread::scope(|sc| {
                            let ws: Vec<_> = (0..2)
                                .map(|_| {
                                    let mut r = Rng::new(seed, "race-objects", rounds);
                                    let (repo, stop) = (&repo, &stop);
                                    sc.spawn(move || {
                                        for _ in 0..40 {
                                            if stop.load(std::sync::atomic::Ordering::Relaxed) {
                                                break;
                                            }
                                            let o = objgen::any_obj(&mut r, 2000);
                                            match repo.object_database().write_object(&o.enc()) {
                                                Ok(i) if obs::oid(i) == o.id() => {}
                                                Ok(i) => return Some(("wrong-id".to_string(), format!("{i}"))),
                                                Err(e) => return Some(("write-failed".to_string(), obs::chain(&e))),
                                            }
                                        }
                                        None
                                    })
                                })
                                .collect();
                            let r = conc::free_run(&f, &repo, &mut rng, nt, 25);
                            stop.store(true, std::sync::atomic::Ordering::Relaxed);
                            (r, ws.into_iter().filter_map(|w| w.join().unwrap()).next())
                        });
                        n += r.0;
                        bad = r.1.into_iter().next().or(werr);
                    }
                }
            }
            _ => {
                let p = super::find("C07").unwrap();
                let mut c = crate::sup::make_ctx(p, Tier::Quick, seed, rounds, &d, false);
                hostile::c07(&mut c);
                n += c.st.counters.get("ops").copied().unwrap_or(0);
                bad = c.st.violations.first().map(|v| (v.sig.clone(), v.msg.clone()));
            }
        }
        rounds += 1;
        let _ = std::fs::remove_dir_all(&d);
    }
    let _ = std::fs::remove_dir_all(&dir);
    println!("counter ops {n}");
    println!("counter rounds {rounds}");
    if let Some((s, m)) = bad {
        println!("violation {s}\t{}", m.replace('\n', " "));
    }
    let _ = std::io::stdout().flush();
    0
}

struct San {
    kids: Vec<(Child, PathBuf)>,
    name: &'static str,
    seed: u64,
    secs: u64,
    started: Instant,
}

fn start(bin: &str, name: &'static str, mode: &str, kids: u64, secs: u64, scratch: &Path, seed: u64) -> Box<dyn ExtraRun> {
    let Ok(bin) = std::env::var(bin) else {
        return Box::new(Missing(name));
    };
    // bytes 0.5 frees shared buffers after an acquire fence, which ThreadSanitizer does not model
    let supp = scratch.join("tsan.supp");
    std::fs::write(&supp, "race:bytes::bytes::release_shared\nrace:bytes::bytes_mut::release_shared\n").unwrap();
    let kids = (0..kids)
        .map(|i| {
            let base = scratch.join(format!("{name}-{i}"));
            let out = std::fs::File::create(base.with_extension("out")).unwrap();
            let err = std::fs::File::create(base.with_extension("err")).unwrap();
            let child = Command::new(&bin)
                .args(["stress", mode, &(seed * 1000 + i).to_string(), &secs.to_string()])
                .arg(base.with_extension("d"))
                .env("TSAN_OPTIONS", format!("halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4:print_suppressions=0:suppressions={}", supp.display()))
                .env("ASAN_OPTIONS", "exitcode=66:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0")
                .stdin(Stdio::null())
                .stdout(out)
                .stderr(err)
                .spawn()
                .unwrap();
            (child, base)
        })
        .collect();
    Box::new(San { kids, name, seed, secs, started: Instant::now() })
}

struct Missing(&'static str);
impl ExtraRun for Missing {
    fn finish(self: Box<Self>, _: bool) -> ExtraResult {
        ExtraResult { trouble: vec![format!("no {} binary", self.0)], ..Default::default() }
    }
}

impl ExtraRun for San {
    fn finish(mut self: Box<Self>, stopped: bool) -> ExtraResult {
        let mut x = ExtraResult::default();
        let limit = self.started + Duration::from_secs(self.secs + 120);
        let key = format!("{}_reads", self.name);
        for (i, (kid, base)) in self.kids.iter_mut().enumerate() {
            let mut st = None;
            loop {
                match kid.try_wait() {
                    Ok(Some(s)) => {
                        st = Some(s);
                        break;
                    }
                    Ok(None) if !stopped && Instant::now() < limit => std::thread::sleep(Duration::from_millis(30)),
                    _ => {
                        let _ = kid.kill();
                        let _ = kid.wait();
                        break;
                    }
                }
            }
            let out = std::fs::read_to_string(base.with_extension("out")).unwrap_or_default();
            let err = String::from_utf8_lossy(&std::fs::read(base.with_extension("err")).unwrap_or_default()).into_owned();
            for l in out.lines() {
                if let Some(r) = l.strip_prefix("counter ops ") {
                    *x.counters.entry(key.clone()).or_default() += r.parse::<u64>().unwrap_or(0);
                } else if let Some(r) = l.strip_prefix("counter rounds ") {
                    *x.counters.entry(format!("{}_runs", self.name)).or_default() += r.parse::<u64>().unwrap_or(0);
                } else if let Some(r) = l.strip_prefix("violation ") {
                    let (s, m) = r.split_once('\t').unwrap_or((r, ""));
                    x.violations.push((s.to_string(), format!("{m} (under {}, seed {})", self.name, self.seed * 1000 + i as u64)));
                }
            }
            let report = ["WARNING: ThreadSanitizer", "ERROR: AddressSanitizer", "FATAL: ThreadSanitizer"].iter().find_map(|k| err.find(k).map(|at| at));
            match (report, st) {
                (Some(at), _) if err[at..].starts_with("FATAL") => x.trouble.push(err[at..].chars().take(300).collect()),
                (Some(at), _) => {
                    let t: String = err[at..].chars().take(1500).collect();
                    x.violations.push(("sanitizer-report".into(), format!("{} (seed {}): {}", self.name, self.seed * 1000 + i as u64, t.replace('\n', " | "))));
                }
                (None, Some(s)) if !s.success() => {
                    let t: String = err.chars().take(500).collect();
                    x.violations.push(("sanitizer-run-died".into(), format!("{}: {s}: {}", self.name, t.replace('\n', " | "))));
                }
                (None, None) if !stopped => x.violations.push(("sanitizer-run-hung".into(), format!("{} run did not end", self.name))),
                _ => {}
            }
        }
        x
    }
}

pub fn tsan_extra(t: Tier, scratch: &Path, _exe: &Path, seed: u64) -> Box<dyn ExtraRun> {
    match t {
        Tier::Quick => start("VMON_TSAN", "tsan", "race", 3, 20, scratch, seed),
        Tier::Thorough => start("VMON_TSAN", "tsan", "race", 4, 420, scratch, seed),
    }
}

pub fn asan_extra(t: Tier, scratch: &Path, _exe: &Path, seed: u64) -> Box<dyn ExtraRun> {
    match t {
        Tier::Quick => Box::new(NoExtra),
        Tier::Thorough => start("VMON_ASAN", "asan", "hostile", 2, 420, scratch, seed),
    }
}
