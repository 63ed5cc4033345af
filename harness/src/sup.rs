//! Supervisor: spreads the cases over worker processes, attributes deaths and hangs to the
//! operation in flight, merges what the monitors saw, decides the verdict.
use crate::ctx::{self, Ctx, Stats, Tier};
use crate::props::{self, Prop};
use crate::rng::{hash64, Rng};
use crate::{flight, sys};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

const CPU_LIMIT_S: f64 = 40.0;
const ASLEEP_LIMIT_S: f64 = 45.0;

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|v| v as u64).unwrap_or(1)
}

fn scratch_base() -> PathBuf {
    for d in ["/dev/shm", "/tmp"] {
        let p = Path::new(d);
        if p.is_dir() && std::fs::create_dir(p.join(format!("vmon-probe-{}", std::process::id()))).is_ok() {
            let _ = std::fs::remove_dir(p.join(format!("vmon-probe-{}", std::process::id())));
            return p.to_path_buf();
        }
    }
    PathBuf::from("/tmp")
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

// ------------------------------------------------------------------ worker

pub fn make_ctx(p: &Prop, tier: Tier, seed: u64, case: u64, dir: &Path, verbose: bool) -> Ctx {
    if dir.exists() {
        std::fs::remove_dir_all(dir).unwrap();
    }
    std::fs::create_dir_all(dir).unwrap();
    Ctx {
        prop: p.id,
        tier,
        seed,
        case,
        rng: Rng::new(seed, p.id, case),
        dir: dir.to_path_buf(),
        st: Stats::default(),
        mem: ctx::MEM,
        events: ctx::EVENTS,
        verbose,
    }
}

pub fn warm_up(dir: &Path) {
    // lazily read process-wide state (number of CPUs, regex) before anything is monitored
    let _ = rusty_git::object::ObjectDatabase::open(dir);
    let _ = std::thread::available_parallelism();
}

pub fn worker(a: &[String]) -> i32 {
    // id tier seed k w start n scratch deadline_s
    let p = props::find(&a[0]).expect("property");
    let tier = if a[1] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let seed: u64 = a[2].parse().unwrap();
    let (k, w, start, n): (u64, u64, u64, u64) =
        (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap());
    let scratch = PathBuf::from(&a[7]);
    let deadline = Instant::now() + Duration::from_secs_f64(a[8].parse().unwrap());
    flight::attach(&scratch.join(format!("w{k}.flight"))).unwrap();
    ctx::install_panic_hook(false);
    let dir = scratch.join(format!("w{k}"));
    std::fs::create_dir_all(&dir).unwrap();
    sys::set_root(&dir);
    warm_up(&dir);
    let mut out = std::fs::OpenOptions::new().append(true).create(true).open(scratch.join(format!("w{k}.out"))).unwrap();
    let mut acc = Stats::default();
    let mut last = Instant::now();
    let mut case = start;
    while case < n {
        if Instant::now() > deadline {
            acc.add("cases_skipped_at_deadline", (n - case).div_ceil(w));
            break;
        }
        let pg = flight::page().unwrap();
        pg.case.store(case, Ordering::SeqCst);
        let mut c = make_ctx(p, tier, seed, case, &dir.join("c"), false);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.case)(&mut c)));
        if r.is_err() {
            let p = ctx::last_panic();
            if p.contains("/repo/src/") {
                // an accessor of what was read
                c.violate(format!("panic: {}", ctx::first_line(&p)), format!("panicked: {p}"));
            } else {
                // a panic outside any operation of the library: the harness' own fault
                c.trouble(format!("case {case}: the harness panicked (see worker log)"));
            }
        }
        let mut text = String::new();
        for v in &c.st.violations {
            text += &format!("V\t{case}\t{}\t{}\n", esc(&v.sig), esc(&v.msg));
        }
        for h in &c.st.harness {
            text += &format!("H\t{case}\t{}\n", esc(h));
        }
        if !text.is_empty() {
            let _ = out.write_all(text.as_bytes());
        }
        for (k, v) in c.st.counters {
            acc.add(&k, v);
        }
        acc.add("cases_run", 1);
        acc.distinct.extend(c.st.distinct);
        for s in c.st.samples {
            if acc.samples.len() < 3 {
                acc.samples.push(s);
            }
        }
        if last.elapsed() > Duration::from_millis(500) {
            last = Instant::now();
            flush(&mut out, &mut acc);
        }
        case += w;
    }
    flush(&mut out, &mut acc);
    if let Some(p) = flight::page() {
        p.done.store(1, Ordering::SeqCst);
    }
    0
}

fn flush(out: &mut std::fs::File, acc: &mut Stats) {
    let mut t = String::new();
    for (k, v) in std::mem::take(&mut acc.counters) {
        t += &format!("C\t{k}\t{v}\n");
    }
    for d in std::mem::take(&mut acc.distinct) {
        t += &format!("D\t{d:x}\n");
    }
    for s in std::mem::take(&mut acc.samples) {
        t += &format!("S\t{}\n", esc(&s));
    }
    let _ = out.write_all(t.as_bytes());
}

// ------------------------------------------------------------------ replay

pub fn replay(a: &[String]) -> i32 {
    let text = match std::fs::read_to_string(&a[0]) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let mut m = BTreeMap::new();
    for l in text.lines() {
        if let Some((k, v)) = l.split_once('=') {
            m.entry(k.to_string()).or_insert(v.to_string());
        }
    }
    print!("{text}");
    let Some(p) = m.get("property").and_then(|i| props::find(i)) else { return 2 };
    let Some(case) = m.get("case").and_then(|c| c.parse().ok()) else { return 2 };
    let seed: u64 = m.get("seed").and_then(|c| c.parse().ok()).unwrap_or(1);
    let tier = if m.get("tier").map(|s| s.as_str()) == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let keep = a.iter().any(|x| x == "--keep");
    let scratch = scratch_base().join(format!("vmon-replay-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    ctx::install_panic_hook(true);
    sys::set_root(&scratch);
    warm_up(&scratch);
    let mut c = make_ctx(p, tier, seed, case, &scratch.join("c"), true);
    (p.case)(&mut c);
    println!("counters: {:?}", c.st.counters);
    for h in &c.st.harness {
        println!("harness: {h}");
    }
    let bad = c.failed();
    if keep {
        println!("kept {}", scratch.display());
    } else {
        let _ = std::fs::remove_dir_all(&scratch);
    }
    println!("{}", if bad { "violated" } else { "held" });
    bad as i32
}

// ------------------------------------------------------------------ supervisor

struct W {
    k: u64,
    child: Child,
    page: &'static flight::Page,
    seq: u64,
    cpu0: f64,
    asleep_since: Option<(Instant, f64)>,
    killed: Option<&'static str>,
}

/// CPU seconds used by a worker, and whether all its threads sleep.
fn proc_state(pid: u32) -> Option<(f64, bool)> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = s.rsplit_once(')')?.1;
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t: f64 = f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?;
    let mut asleep = true;
    for e in std::fs::read_dir(format!("/proc/{pid}/task")).ok()?.flatten() {
        if let Ok(s) = std::fs::read_to_string(e.path().join("stat")) {
            if let Some((_, r)) = s.rsplit_once(')') {
                if r.trim_start().chars().next() != Some('S') {
                    asleep = false;
                }
            }
        }
    }
    let hz = unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as f64;
    Some((t / hz, asleep))
}

pub struct Known {
    pub property: String,
    pub signature: String,
    pub desc: String,
}

pub fn known(out: &Path) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(out.join("known_findings.txt")) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("finding: property=") {
                if let Some((p, r)) = r.split_once(" signature=") {
                    let (s, d) = r.split_once(" :: ").unwrap_or((r, ""));
                    v.push(Known { property: p.into(), signature: s.trim().into(), desc: d.into() });
                }
            }
        }
    }
    v
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            '\r' => o += "\\r",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn check(a: &[String]) -> i32 {
    let t0 = Instant::now();
    let Some(p) = a.first().and_then(|i| props::find(i)) else {
        eprintln!("unknown property");
        return 2;
    };
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let tier_name = opt("--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let tier = if tier_name == "thorough" { Tier::Thorough } else { Tier::Quick };
    let out = PathBuf::from(opt("--out").unwrap_or("/verif".into()));
    let seed = seed();
    let n: u64 = opt("--cases").and_then(|s| s.parse().ok()).unwrap_or(match tier {
        Tier::Quick => p.quick,
        Tier::Thorough => p.thorough,
    });
    let from: u64 = opt("--from").and_then(|s| s.parse().ok()).unwrap_or(0);
    let limit_s: f64 = opt("--limit").and_then(|s| s.parse().ok()).unwrap_or(match tier {
        Tier::Quick => 420.0,
        Tier::Thorough => 6.0 * 3600.0,
    });
    let cpus = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) as u64;
    let nw = opt("--workers").and_then(|s| s.parse().ok()).unwrap_or(cpus.clamp(2, 8)).min(p.max_workers);
    let scratch = scratch_base().join(format!("vmon-{}-{}", p.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&scratch);
    std::fs::create_dir_all(&scratch).unwrap();
    let exe = std::env::current_exe().unwrap();

    let mut violations: Vec<(u64, String, String)> = vec![];
    let mut trouble: Vec<String> = vec![];
    let listed = known(&out);
    let is_known = |sig: &str| listed.iter().any(|k| k.property == p.id && k.signature == sig);

    // extra runs with their own binaries (sanitizers) start first
    let extra = (p.extra)(tier, &scratch, &exe, seed);

    let spawn = |k: u64, start: u64, page: &'static flight::Page| -> Child {
        page.in_op.store(0, Ordering::SeqCst);
        page.event_budget_hit.store(0, Ordering::SeqCst);
        page.done.store(0, Ordering::SeqCst);
        let err = std::fs::OpenOptions::new().append(true).create(true).open(scratch.join(format!("w{k}.err"))).unwrap();
        let left = (limit_s - t0.elapsed().as_secs_f64()).max(1.0);
        Command::new(&exe)
            .arg("worker")
            .args([p.id, &tier_name, &seed.to_string(), &k.to_string(), &nw.to_string(), &start.to_string(), &n.to_string()])
            .arg(&scratch)
            .arg(left.to_string())
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(err)
            .env("TMPDIR", &scratch)
            .env_remove("RUST_BACKTRACE")
            .spawn()
            .expect("worker")
    };
    let mut ws: Vec<W> = vec![];
    for k in 0..nw {
        if from + k >= n {
            break;
        }
        let page = flight::create(&scratch.join(format!("w{k}.flight"))).unwrap();
        let child = spawn(k, from + k, page);
        ws.push(W { k, child, page, seq: 0, cpu0: 0.0, asleep_since: None, killed: None });
    }
    let mut read_at: BTreeMap<u64, usize> = BTreeMap::new();
    let mut stop = false;
    let mut poll = Instant::now();
    let mut respawns = 0;
    while !ws.is_empty() {
        std::thread::sleep(Duration::from_millis(10));
        // early end once an unlisted violation is in
        for w in &ws {
            let f = scratch.join(format!("w{}.out", w.k));
            if let Ok(t) = std::fs::read(&f) {
                let at = read_at.entry(w.k).or_insert(0);
                let new = String::from_utf8_lossy(&t[(*at).min(t.len())..]).into_owned();
                // keep partial last line for later
                let full = new.rfind('\n').map(|i| i + 1).unwrap_or(0);
                for l in new[..full].lines() {
                    if let Some(r) = l.strip_prefix("V\t") {
                        let f: Vec<&str> = r.splitn(3, '\t').collect();
                        if f.len() == 3 && !is_known(&unesc(f[1])) {
                            stop = true;
                        }
                    }
                }
                *at += full;
            }
        }
        if t0.elapsed().as_secs_f64() > limit_s + 120.0 && !stop {
            stop = true;
            trouble.push("a worker did not end in time (outside any call of the library)".into());
        }
        if stop {
            for w in &mut ws {
                if w.killed.is_none() {
                    w.killed = Some("stopped");
                    let _ = w.child.kill();
                }
            }
        }
        let check_hang = poll.elapsed() > Duration::from_millis(500);
        if check_hang {
            poll = Instant::now();
        }
        let mut i = 0;
        while i < ws.len() {
            let w = &mut ws[i];
            if check_hang && w.killed.is_none() {
                if let Some((cpu, asleep)) = proc_state(w.child.id()) {
                    let seq = w.page.op_seq.load(Ordering::SeqCst);
                    let in_op = w.page.in_op.load(Ordering::SeqCst) != 0;
                    if seq != w.seq || !in_op {
                        w.seq = seq;
                        w.cpu0 = cpu;
                        w.asleep_since = None;
                    } else {
                        if cpu - w.cpu0 > CPU_LIMIT_S * w.page.patience.load(Ordering::SeqCst).max(1) as f64 {
                            w.killed = Some("used too much CPU time");
                            let _ = w.child.kill();
                        }
                        match w.asleep_since {
                            _ if !asleep => w.asleep_since = None,
                            None => w.asleep_since = Some((Instant::now(), cpu)),
                            Some((_, c)) if cpu > c + 0.02 => w.asleep_since = Some((Instant::now(), cpu)),
                            Some((t, _)) if t.elapsed().as_secs_f64() > ASLEEP_LIMIT_S => {
                                w.killed = Some("is blocked: every thread sleeps and nothing runs");
                                let _ = w.child.kill();
                            }
                            _ => {}
                        }
                    }
                }
            }
            match w.child.try_wait() {
                Ok(Some(st)) => {
                    use std::os::unix::process::ExitStatusExt;
                    let case = w.page.case.load(Ordering::SeqCst);
                    let in_op = w.page.in_op.load(Ordering::SeqCst) != 0;
                    let desc = w.page.desc();
                    let mut again = false;
                    if st.success() && w.page.done.load(Ordering::SeqCst) == 1 {
                    } else if w.killed == Some("stopped") {
                    } else if let Some(why) = w.killed {
                        violations.push((case, format!("hang: {}", short(&desc)), format!("{desc}: the call {why}")));
                        again = true;
                    } else if w.page.event_budget_hit.load(Ordering::SeqCst) != 0 {
                        violations.push((
                            case,
                            format!("endless: {}", short(&desc)),
                            format!("{desc}: the call went on past {} system calls", ctx::EVENTS),
                        ));
                        again = true;
                    } else if in_op && matches!(st.signal(), Some(libc::SIGABRT) | Some(libc::SIGSEGV) | Some(libc::SIGILL) | Some(libc::SIGBUS) | Some(libc::SIGTRAP) | Some(libc::SIGFPE)) {
                        let refused = w.page.alloc_refused.load(Ordering::SeqCst);
                        let log = std::fs::read_to_string(scratch.join(format!("w{}.err", w.k))).unwrap_or_default();
                        let tail: String = log.lines().rev().take(3).collect::<Vec<_>>().join(" | ");
                        let why = if refused > 0 { format!("aborted after asking for {refused} bytes") } else { format!("killed the process ({st})") };
                        violations.push((case, format!("abort: {}", short(&desc)), format!("{desc}: the call {why}; {tail}")));
                        again = true;
                    } else {
                        let log = std::fs::read_to_string(scratch.join(format!("w{}.err", w.k))).unwrap_or_default();
                        let tail: String = log.lines().rev().take(4).collect::<Vec<_>>().join(" | ");
                        trouble.push(format!("worker {} ended with {st} in case {case} (in_op {in_op}: {desc}): {tail}", w.k));
                        again = true;
                    }
                    if again && violations.iter().any(|v| !is_known(&v.1)) {
                        stop = true;
                    }
                    respawns += again as usize;
                    let next = case + nw;
                    if again && !stop && next < n && respawns < 200 && t0.elapsed().as_secs_f64() < limit_s {
                        w.child = spawn(w.k, next, w.page);
                        w.killed = None;
                        w.seq = 0;
                        w.cpu0 = 0.0;
                        w.asleep_since = None;
                        i += 1;
                    } else {
                        ws.remove(i);
                    }
                }
                _ => i += 1,
            }
        }
    }
    // merge
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    for k in 0..nw {
        let Ok(t) = std::fs::read(scratch.join(format!("w{k}.out"))) else { continue };
        let mut mine = 0;
        for l in String::from_utf8_lossy(&t).lines() {
            let f: Vec<&str> = l.splitn(4, '\t').collect();
            match f.as_slice() {
                ["V", c, s, m] => violations.push((c.parse().unwrap_or(0), unesc(s), unesc(m))),
                ["H", c, m] => trouble.push(format!("case {c}: {}", unesc(m))),
                ["C", k, v] => *counters.entry(k.to_string()).or_default() += v.parse::<u64>().unwrap_or(0),
                ["D", h] => {
                    if let Ok(h) = u64::from_str_radix(h, 16) {
                        distinct.insert(h);
                    }
                }
                ["S", s] => {
                    if mine < 2 && samples.len() < 8 {
                        mine += 1;
                        samples.push(unesc(s));
                    }
                }
                _ => {}
            }
        }
    }
    if std::env::var("VMON_KEEP_LOGS").is_ok() {
        for k in 0..nw {
            if let Ok(t) = std::fs::read_to_string(scratch.join(format!("w{k}.err"))) {
                eprint!("{t}");
            }
        }
    }
    let x = extra.finish(stop);
    for (k, v) in x.counters {
        *counters.entry(k).or_default() += v;
    }
    for (s, m) in x.violations {
        violations.push((u64::MAX, s, m));
    }
    trouble.extend(x.trouble);
    let _ = std::fs::remove_dir_all(&scratch);

    // verdict
    violations.sort();
    violations.dedup_by(|a, b| a.0 == b.0 && a.1 == b.1);
    let evaluations = *counters.get("evaluations").unwrap_or(&0);
    let mut code = 0;
    let mut shown: HashSet<String> = HashSet::new();
    let mut unlisted = 0;
    let mut listed_seen = 0;
    let rdir = out.join("replay");
    for (case, sig, msg) in &violations {
        if let Some(k) = listed.iter().find(|k| k.property == p.id && &k.signature == sig) {
            listed_seen += 1;
            if shown.insert(sig.clone()) {
                println!("KNOWN-FINDING: property={} {} (case {case}: {})", p.id, k.desc, ctx::first_line(msg));
            }
            continue;
        }
        unlisted += 1;
        code = 1;
        if unlisted > 5 {
            continue;
        }
        let _ = std::fs::create_dir_all(&rdir);
        let f = rdir.join(format!("{}-{:x}.txt", p.id, hash64(format!("{case}{sig}{seed}").as_bytes()) & 0xffff_ffff));
        let body = format!(
            "property={}\nseed={seed}\ntier={tier_name}\ncase={case}\nsignature={}\nmessage={}\nrun=vmon replay {}\n",
            p.id, esc(sig), esc(msg), f.display()
        );
        let _ = std::fs::write(&f, body);
        println!("VIOLATION property={} replay={}", p.id, f.display());
        println!("  {}", msg.chars().take(1500).collect::<String>());
    }
    let min_evals = if opt("--cases").is_some() { 1 } else { p.min_evals(tier) };
    let mut short_of: Vec<String> = vec![];
    if evaluations < min_evals {
        short_of.push(format!("evaluations {evaluations} < {min_evals}"));
    }
    if distinct.len() < 2 {
        short_of.push("fewer than 2 distinct cases".into());
    }
    if opt("--cases").is_none() {
        for need in p.must_see {
            if counters.get(*need).copied().unwrap_or(0) == 0 {
                short_of.push(format!("monitor counter '{need}' stayed at zero"));
            }
        }
    }
    if code == 0 && (!trouble.is_empty() || !short_of.is_empty()) {
        code = 2;
        for t in trouble.iter().take(5) {
            println!("INCONCLUSIVE property={} {t}", p.id);
        }
        for t in &short_of {
            println!("INCONCLUSIVE property={} observed too little: {t}", p.id);
        }
    }
    // evidence
    let mut e = String::new();
    e += "{\n";
    e += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n", json(p.id), json(&tier_name), seed as i64, json(p.level));
    e += " \"coverage\": {\n";
    e += &format!("  \"evaluations\": {evaluations},\n  \"distinct_nontrivial\": {},\n", distinct.len());
    e += &format!("  \"rule\": {},\n", json(p.rule));
    e += &format!("  \"samples\": [{}],\n", samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "));
    e += "  \"observed\": {";
    e += &counters.iter().filter(|(k, _)| *k != "evaluations").map(|(k, v)| format!("{}: {v}", json(k))).collect::<Vec<_>>().join(", ");
    e += "},\n";
    e += &format!("  \"exhaustive\": false,\n  \"workers\": {nw}\n }},\n");
    e += &format!(" \"assumptions\": [{}],\n", p.assumptions.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "));
    e += &format!(" \"wall_s\": {:.3},\n \"violations\": {unlisted}\n}}\n", t0.elapsed().as_secs_f64());
    let _ = std::fs::create_dir_all(out.join("evidence"));
    let ef = out.join("evidence").join(format!("{}.json", p.id));
    if let Err(err) = std::fs::write(&ef, e) {
        println!("INCONCLUSIVE property={} cannot write {}: {err}", p.id, ef.display());
        if code == 0 {
            code = 2;
        }
    }
    println!(
        "{} {tier_name} seed={seed}: {} ({} evaluations, {} distinct, {} cases, {listed_seen} known, {:.1} s)",
        p.id,
        match code {
            0 => "held",
            1 => "VIOLATED",
            _ => "inconclusive",
        },
        evaluations,
        distinct.len(),
        counters.get("cases_run").unwrap_or(&0),
        t0.elapsed().as_secs_f64()
    );
    code
}

fn short(d: &str) -> String {
    d.chars().take(80).collect()
}
