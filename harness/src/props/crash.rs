//! C03: crashes and I/O errors during a write.
use super::common::*;
use crate::ctx::Ctx;
use crate::flight;
use crate::model::*;
use crate::objgen;
use crate::obs::{self, Obs, Parsed};
use crate::rng::{hash64, Rng};
use crate::sys::{self, Act, Ev, Log, Monitor, K};
use rusty_git::object::ObjectDatabase;
use std::path::PathBuf;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    Once(Act),
    /// this call and every later one of its kind
    Kind(Act),
    /// this call and every later one
    All(Act),
    /// every transfer at most this long
    AllShort(usize),
}

struct Inject {
    at: usize,
    fault: Fault,
    n: usize,
    kind: Option<K>,
    hit: bool,
    trace: Vec<String>,
}

impl Inject {
    fn new(at: usize, fault: Fault) -> Inject {
        Inject { at, fault, n: 0, kind: None, hit: false, trace: vec![] }
    }
}

impl Monitor for Inject {
    fn before(&mut self, ev: &Ev) -> Act {
        if !ev.in_root {
            return Act::Pass;
        }
        let i = self.n;
        self.n += 1;
        let closing = matches!(ev.kind, K::Close);
        let act = match self.fault {
            Fault::Once(a) if i == self.at => a,
            Fault::Kind(a) if i >= self.at => {
                if i == self.at {
                    self.kind = Some(ev.kind);
                }
                if self.kind == Some(ev.kind) { a } else { Act::Pass }
            }
            Fault::All(a) if i >= self.at && !closing => a,
            Fault::AllShort(n) if ev.kind == K::Write && ev.len > n => Act::Short(n),
            _ => Act::Pass,
        };
        // a failing close leaves nothing to observe
        let act = if closing && matches!(act, Act::Fail(_)) { Act::Pass } else { act };
        if act != Act::Pass {
            self.hit = true;
        }
        if self.trace.len() < 30 {
            self.trace.push(if act == Act::Pass { ev.show() } else { format!("{}<{act:?}>", ev.show()) });
        }
        act
    }
}

struct Scene {
    name: &'static str,
    obj: Obj,
    /// stored before, must stay
    others: Vec<Obj>,
    loose: Vec<Obj>,
    packed: Option<Pack>,
    /// earlier attempts that crashed before these calls
    earlier: Vec<usize>,
    held: bool,
}

fn scene(rng: &mut Rng, i: u64) -> Scene {
    let size = i / 7 % 5;
    let mut obj = match size {
        0 => Obj::blob(vec![]),
        1 => objgen::any_obj(rng, 800),
        2 => {
            let n = rng.range(33_000, 200_000);
            Obj::blob(rng.bytes(n))
        }
        3 => Obj::blob(vec![rng.byte(); 300_000]),
        _ => {
            let n = rng.range(1, 40);
            Obj::blob(rng.bytes(n))
        }
    };
    let n = rng.byte();
    let near = blob_with_first_byte(rng, obj.id()[0], vec![n]);
    let far = objgen::any_obj(rng, 300);
    let mut s = Scene { name: "", obj: obj.clone(), others: vec![], loose: vec![], packed: None, earlier: vec![], held: false };
    match i % 7 {
        0 => s.name = "empty database",
        1 => {
            s.name = "other objects in the same fan-out directory";
            s.loose = vec![near, far];
        }
        2 => {
            s.name = "already stored loose";
            s.loose = vec![obj.clone(), near];
            s.held = true;
        }
        3 => {
            s.name = "already stored in a pack";
            if obj.body.len() > 5000 {
                obj = objgen::any_obj(rng, 500);
                s.obj = obj.clone();
            }
            s.packed = Some(build_pack(
                &[Entry { obj: far, store: Store::Whole, delta: vec![] }, Entry { obj: obj.clone(), store: Store::Whole, delta: vec![] }],
                &PackOpts::default(),
                rng,
            ));
            s.held = true;
        }
        4 => {
            s.name = "an earlier attempt crashed";
            s.earlier = vec![rng.below(8)];
            s.loose = vec![far];
        }
        5 => {
            s.name = "two earlier attempts crashed";
            s.earlier = vec![rng.below(8), rng.below(8)];
            s.loose = vec![near];
        }
        _ => {
            s.name = "beside a pack";
            s.packed = Some(build_pack(&[Entry { obj: far, store: Store::Whole, delta: vec![] }], &PackOpts::default(), rng));
            s.loose = vec![near];
        }
    }
    s.others = s.loose.clone();
    if let Some(p) = &s.packed {
        s.others.extend(p.objs.clone());
    }
    s.others.retain(|o| *o != s.obj);
    s
}

/// Ok(code) of a child that writes with the fault installed.
fn crash_write(repo: &Repo, o: &Obj, at: usize, act: Act) -> Result<(i32, ()), String> {
    let enc = o.enc();
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        return Err("fork failed".into());
    }
    if pid == 0 {
        flight::mute();
        let code = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut m = Inject::new(at, Fault::Once(act));
            let db = ObjectDatabase::open(&repo.git());
            sys::monitored(&mut m, || db.write_object(&enc))
        })) {
            Ok(Ok(_)) => 0,
            Ok(Err(_)) => 1,
            Err(_) => 2,
        };
        unsafe { libc::_exit(code) }
    }
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
        if r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
            return Err("waitpid failed".into());
        }
    }
    if libc::WIFEXITED(st) {
        Ok((libc::WEXITSTATUS(st), ()))
    } else {
        Ok((1000 + libc::WTERMSIG(st), ()))
    }
}

fn prepare(s: &Scene, dir: &PathBuf, rng: &mut Rng) -> Result<Repo, String> {
    let _ = std::fs::remove_dir_all(dir);
    let repo = Repo::init(dir);
    for o in &s.loose {
        repo.add_loose(o, rng);
    }
    if let Some(p) = &s.packed {
        repo.add_pack(p);
    }
    for &k in &s.earlier {
        crash_write(&repo, &s.obj, k, Act::Crash)?;
    }
    Ok(repo)
}

/// What must hold after a write that was disturbed.
fn verify(c: &mut Ctx, s: &Scene, repo: &Repo, told_ok: bool, same: Option<&ObjectDatabase>, what: &str) -> bool {
    let db = ObjectDatabase::open(&repo.git());
    let id = s.obj.id();
    let must = told_ok || s.held;
    let Some(p) = c.op(|| format!("parse_object after {what}"), || obs::parse(&db, &id)) else { return false };
    let Some(r) = c.op(|| format!("read_object after {what}"), || obs::read_raw(&db, &id)) else { return false };
    let found = match p {
        Parsed::Ok { data, .. } => match obs::agrees(&data, &s.obj) {
            Ok(()) => true,
            Err(e) => {
                c.violate("damaged-object", format!("after {what}: parse_object of the written id: {e}"));
                return false;
            }
        },
        Parsed::NotFound(_) => false,
        Parsed::Err(e) => {
            c.violate("damaged-object", format!("after {what}: parse_object of the written id: {e}"));
            return false;
        }
    };
    let found2 = match r {
        Ok(b) if b == s.obj.enc() => true,
        Ok(b) => {
            c.violate("damaged-object", format!("after {what}: read_object of the written id delivers {} bytes instead of {}", b.len(), s.obj.enc().len()));
            return false;
        }
        Err(Obs::NotFound(_)) => false,
        Err(e) => {
            c.violate("damaged-object", format!("after {what}: read_object of the written id: {}", e.show()));
            return false;
        }
    };
    if found != found2 {
        c.violate("damaged-object", format!("after {what}: parse_object and read_object disagree"));
        return false;
    }
    // the file itself, judged without the library
    if let Ok(f) = std::fs::read(repo.loose_path(&id)) {
        if decode_loose(&f) != Verdict::Is(s.obj.clone()) {
            c.violate("damaged-file", format!("after {what}: the loose object file of {} bytes is not the object", f.len()));
            return false;
        }
    }
    if must && !found {
        c.violate(
            if s.held { "lost-object" } else { "success-without-object" },
            format!("after {what}: the object is not found although {}", if s.held { "it was stored before" } else { "the write reported success" }),
        );
        return false;
    }
    if !told_ok && !found {
        c.count("absent_after", 1);
    } else {
        c.count("complete_after", 1);
    }
    for o in &s.others {
        if !expect_present(c, &db, o, &format!("stored before {what}")) {
            return false;
        }
    }
    // the same content again
    let enc = s.obj.enc();
    let through = same.unwrap_or(&db);
    if same.is_some() {
        c.count("retries_same_handle", 1);
    }
    let Some(w) = c.op(|| format!("retry after {what}"), || through.write_object(&enc)) else { return false };
    match w {
        Ok(i) if obs::oid(i) == id => {}
        Ok(i) => {
            c.violate("retry-wrong-id", format!("retry after {what} returned {i}"));
            return false;
        }
        Err(e) => {
            c.violate("retry-failed", format!("retry after {what}: {}", obs::chain(&e)));
            return false;
        }
    }
    let fresh = ObjectDatabase::open(&repo.git());
    if !expect_present(c, through, &s.obj, &format!("after the retry after {what}")) || !expect_present(c, &fresh, &s.obj, &format!("fresh handle after the retry after {what}")) {
        return false;
    }
    c.count("retries_ok", 1);
    true
}

fn errnos(k: K) -> &'static [i32] {
    match k {
        K::Open => &[libc::EACCES, libc::ENOSPC, libc::EIO, libc::EMFILE, libc::EDQUOT, libc::EROFS, libc::EINTR],
        K::Write => &[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EINTR, libc::EFBIG],
        K::Mkdir => &[libc::EACCES, libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EROFS],
        K::Rename | K::Link => &[libc::EACCES, libc::EIO, libc::ENOSPC, libc::EROFS],
        K::Read => &[libc::EIO, libc::EINTR],
        _ => &[libc::EIO, libc::EACCES],
    }
}

pub fn c03(c: &mut Ctx) {
    let mut rng = c.rng.fork();
    let s = scene(&mut rng, c.case);
    let dir = c.dir.join("r");
    let enc = s.obj.enc();
    macro_rules! prep {
        () => {
            match prepare(&s, &dir, &mut rng) {
                Ok(r) => r,
                Err(e) => return c.trouble(e),
            }
        };
    }
    // an undisturbed write, to know its calls
    let repo = prep!();
    let mut log = Log { keep: true, ..Default::default() };
    let db = ObjectDatabase::open(&repo.git());
    let Some(w) = c.op(|| "undisturbed write".into(), || sys::monitored(&mut log, || db.write_object(&enc))) else { return };
    if let Err(e) = w {
        return c.violate("write-failed", format!("undisturbed write ({}): {}", s.name, obs::chain(&e)));
    }
    if !verify(c, &s, &repo, true, None, &format!("an undisturbed write ({})", s.name)) {
        return;
    }
    let evs: Vec<Ev> = log.events.into_iter().filter(|e| e.in_root).collect();
    c.count("calls_of_undisturbed_writes", evs.len() as u64);
    let key = |x: &str| hash64(format!("{}{}{}{x}", s.name, s.obj.body.len(), evs.len()).as_bytes());

    // crashes
    for (k, ev) in evs.iter().enumerate() {
        let mut acts = vec![Act::Crash, Act::CrashAfter];
        if ev.kind == K::Write && ev.len > 1 {
            acts.extend([1, ev.len / 2, ev.len - 1].map(Act::CrashPartial));
        }
        for a in acts {
            let repo = prep!();
            let what = format!("a crash ({a:?} at call {k}, {}) of a write of {} bytes ({})", ev.show(), enc.len(), s.name);
            match crash_write(&repo, &s.obj, k, a) {
                Ok((sys::CRASH_CODE, _)) => {}
                Ok((code, _)) if code < 2 => c.count("crash_not_reached", 1),
                Ok((2, _)) => return c.violate("panic", format!("{what}: panicked")),
                Ok((code, _)) => return c.violate("died", format!("{what}: ended with {code}")),
                Err(e) => return c.trouble(e),
            }
            c.count("crash_points", 1);
            c.eval(key(&format!("{k}{a:?}")), true);
            if !verify(c, &s, &repo, false, None, &what) {
                return;
            }
        }
    }
    // I/O errors and short writes
    let mut faults: Vec<(usize, Fault)> = vec![];
    for (k, ev) in evs.iter().enumerate() {
        if ev.kind == K::Close {
            continue;
        }
        for &e in errnos(ev.kind) {
            faults.push((k, Fault::Once(Act::Fail(e))));
            // calls interrupted for ever are no realistic history
            if e != libc::EINTR {
                faults.push((k, Fault::Kind(Act::Fail(e))));
            }
        }
        faults.push((k, Fault::All(Act::Fail(libc::EIO))));
        faults.push((k, Fault::All(Act::Fail(libc::ENOSPC))));
        if ev.kind == K::Write && ev.len > 1 {
            for n in [1, ev.len / 2, ev.len - 1] {
                faults.push((k, Fault::Once(Act::Short(n))));
            }
        }
    }
    faults.push((0, Fault::AllShort(7)));
    if enc.len() < 20_000 {
        faults.push((0, Fault::AllShort(1)));
    } else {
        faults.push((0, Fault::AllShort(4096)));
    }
    for (k, f) in faults {
        let repo = prep!();
        let db = ObjectDatabase::open(&repo.git());
        let mut m = Inject::new(k, f);
        let on = evs.get(k).map(|e| e.show()).unwrap_or_default();
        let what = format!("{f:?} at call {k} ({on}) of a write of {} bytes ({})", enc.len(), s.name);
        let Some(w) = c.op(|| what.clone(), || sys::monitored(&mut m, || db.write_object(&enc))) else { return };
        let short = matches!(f, Fault::AllShort(_) | Fault::Once(Act::Short(_)));
        c.count(if short { "short_writes" } else { "error_points" }, 1);
        if m.hit {
            c.count("faults_hit", 1);
        }
        c.eval(key(&format!("{k}{f:?}")), m.hit);
        let what = format!("{what} [{}]", m.trace.join(" "));
        let same = rng.chance(2, 3).then_some(&db);
        if let (Some(db), true) = (same, w.is_err() && rng.chance(1, 3)) {
            // a second attempt that fails in another place
            let k2 = rng.below(evs.len());
            let mut m = Inject::new(k2, Fault::All(Act::Fail(libc::EIO)));
            let Some(w2) = c.op(|| format!("second attempt, failing from call {k2} on, after {what}"), || sys::monitored(&mut m, || db.write_object(&enc))) else { return };
            if w2.is_ok() && m.hit {
                c.count("second_attempts_ok", 1);
            }
            if w2.is_ok() {
                let what = format!("second attempt, failing from call {k2} on, after {what} [{}]", m.trace.join(" "));
                if !verify(c, &s, &repo, true, same, &what) {
                    return;
                }
                continue;
            }
            c.count("second_attempts_failing", 1);
        }
        let ok = match w {
            Ok(i) if obs::oid(i) == s.obj.id() => true,
            Ok(i) => return c.violate("wrong-id", format!("{what}: returned {i}")),
            Err(e) => {
                if short {
                    return c.violate("short-write-failed", format!("{what}: {}", obs::chain(&e)));
                }
                c.count("writes_reporting_errors", 1);
                false
            }
        };
        if !verify(c, &s, &repo, ok, same, &what) {
            return;
        }
    }
    c.sample(|| format!("{}: {} bytes, calls {}", s.name, enc.len(), evs.iter().map(|e| e.show()).collect::<Vec<_>>().join(" ")));
}
