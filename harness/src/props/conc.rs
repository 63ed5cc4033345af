//! C02: concurrent writers and readers. C18: concurrent readers on one handle.
use super::common::*;
use crate::ctx::{Ctx, Tier};
use crate::flight;
use crate::model::*;
use crate::objgen;
use crate::obs::{self, Obs, Parsed};
use crate::rng::{hash64, Rng};
use crate::sched;
use crate::sha1;
use crate::sys::{self, Act, Ev, Monitor};
use rusty_git::object::ObjectDatabase;
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Bad = (String, String);

/// A read that must give the object, or - if nothing was stored yet - not-found. True when found.
pub fn look(db: &ObjectDatabase, o: &Obj, must: &dyn Fn() -> bool, raw: bool, label: &str) -> Result<bool, Bad> {
    let id = o.id();
    let what = || format!("{label}: {} of {} {} ({} bytes)", if raw { "read_object" } else { "parse_object" }, o.kind.name(), sha1::hex(&id), o.body.len());
    let due = must();
    if raw {
        match obs::read_raw(db, &id) {
            Ok(b) if b == o.enc() => Ok(true),
            Ok(b) => Err(("partial-object".into(), format!("{}: delivers {} bytes instead of {}", what(), b.len(), o.enc().len()))),
            Err(Obs::NotFound(_)) if !due => Ok(false),
            Err(Obs::NotFound(_)) => Err(("lost-object".into(), format!("{}: not found although it was written", what()))),
            Err(e) => Err(("read-error".into(), format!("{}: {}", what(), e.show()))),
        }
    } else {
        match obs::parse(db, &id) {
            Parsed::Ok { id: got, data } => {
                if got != id {
                    return Err(("wrong-id".into(), format!("{}: reports id {}", what(), sha1::hex(&got))));
                }
                obs::agrees(&data, o).map_err(|e| ("partial-object".into(), format!("{}: {e}", what())))?;
                Ok(true)
            }
            Parsed::NotFound(_) if !due => Ok(false),
            Parsed::NotFound(_) => Err(("lost-object".into(), format!("{}: not found although it was written", what()))),
            Parsed::Err(e) => Err(("read-error".into(), format!("{}: {e}", what()))),
        }
    }
}

fn put(db: &ObjectDatabase, o: &Obj, label: &str) -> Result<(), Bad> {
    match db.write_object(&o.enc()) {
        Ok(id) if obs::oid(id) == o.id() => Ok(()),
        Ok(id) => Err(("wrong-id".into(), format!("{label}: write_object of {} returned {id}", o.hex()))),
        Err(e) => Err(("write-failed".into(), format!("{label}: write_object of {} ({} bytes): {}", o.hex(), o.body.len(), obs::chain(&e)))),
    }
}

type Actor<'a> = Box<dyn FnOnce() -> Result<(), Bad> + Send + 'a>;

/// At the `at`-th call starts an actor on another thread and lets it run to its end; one that
/// blocks on a lock the interrupted call holds is left to finish when that call goes on.
struct Nest<'a, 's, 'e> {
    at: usize,
    n: usize,
    actor: Option<Actor<'a>>,
    sc: &'s std::thread::Scope<'s, 'e>,
    out: &'s Mutex<Option<Result<(), Bad>>>,
    trace: Vec<String>,
}

impl<'a: 's, 's, 'e> Monitor for Nest<'a, 's, 'e> {
    fn before(&mut self, ev: &Ev) -> Act {
        if ev.in_root {
            if self.n == self.at {
                if let Some(a) = self.actor.take() {
                    let out = self.out;
                    let h = self.sc.spawn(move || {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(a)).unwrap_or_else(|_| Err(("panic".into(), "the other thread panicked".into())));
                        *out.lock().unwrap() = Some(r);
                    });
                    let t = Instant::now();
                    while !h.is_finished() && t.elapsed() < Duration::from_millis(400) {
                        std::thread::yield_now();
                    }
                    self.trace.push("<other>".into());
                }
            }
            self.n += 1;
            if self.trace.len() < 40 {
                self.trace.push(ev.show());
            }
        }
        Act::Pass
    }
}

/// Runs `f` with `actor` placed before its `at`-th call (after its end if there is none).
/// Returns f's result, the calls f made, whether the actor ran inside.
fn nested<'a, R>(at: usize, actor: Actor<'a>, f: impl FnOnce() -> R) -> (R, usize, bool, Result<(), Bad>, String) {
    let out: Mutex<Option<Result<(), Bad>>> = Mutex::new(None);
    let (r, n, left, trace) = std::thread::scope(|sc| {
        let mut m = Nest { at, n: 0, actor: Some(actor), sc, out: &out, trace: vec![] };
        let r = sys::monitored(&mut m, f);
        (r, m.n, m.actor.take(), m.trace.join(" "))
    });
    let inside = left.is_none();
    let res = match left {
        Some(a) => a(),
        None => out.into_inner().unwrap().unwrap_or_else(|| Err(("panic".into(), "the other thread did not finish".into()))),
    };
    (r, n, inside, res, trace)
}

fn c02_obj(rng: &mut Rng, size: usize) -> Obj {
    match size {
        0 => Obj::blob(vec![]),
        1 => objgen::any_obj(rng, 300),
        2 => Obj::blob(rng.bytes(3000)),
        // several zlib buffers: several write(2) calls
        3 => {
            let n = rng.range(70_000, 140_000);
            Obj::blob(rng.bytes(n))
        }
        _ => {
            let n = rng.range(200_000, 400_000);
            Obj::blob((0..n).map(|i| (i / 7) as u8).collect::<Vec<u8>>())
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Who {
    Reader,
    ReaderRaw,
    Writer,
    WriterThenReader,
    /// a writer with a reader placed in its own calls
    WriterWithReader,
    /// writes something else in the same fan-out directory
    OtherWriter,
    /// writes many other things in the same fan-out directory
    ManyWriters,
}
const WHO: [Who; 7] = [Who::Reader, Who::ReaderRaw, Who::Writer, Who::WriterThenReader, Who::WriterWithReader, Who::OtherWriter, Who::ManyWriters];

fn c02_nested(c: &mut Ctx, rng: &mut Rng) {
    let size = (c.case / 3 % 5) as usize;
    let setup = rng.below(5);
    let obj = if setup == 3 { c02_obj(rng, 1) } else { c02_obj(rng, size) };
    let other = {
        let n = rng.byte();
        blob_with_first_byte(rng, obj.id()[0], vec![n])
    };
    let crowd: Vec<Obj> = if c.case % 5 == 0 { (0..rng.range(3, 20)).map(|i| blob_with_first_byte(rng, obj.id()[0], vec![i as u8, 1, 2])).collect() } else { vec![] };
    let crowd = &crowd[..];
    if !crowd.is_empty() {
        c.count("crowds", 1);
    }
    let packed = build_pack(&[Entry { obj: obj.clone(), store: Store::Whole, delta: vec![] }], &PackOpts::default(), rng);
    let mut round = 0;
    let mut prepare = |round: &mut u32| -> Repo {
        *round += 1;
        let dir = c.dir.join("n");
        let _ = std::fs::remove_dir_all(&dir);
        let repo = Repo::init(&dir);
        let mut r2 = Rng::new(1, "c02", 5);
        match setup {
            1 => repo.add_loose(&other, &mut r2),
            2 => repo.add_loose(&obj, &mut r2),
            3 => repo.add_pack(&packed),
            _ => {}
        }
        repo
    };
    let before = matches!(setup, 2 | 3);
    let names = ["empty", "fan-out directory there", "already loose", "already packed", "empty"];
    let same_handle = rng.chance(1, 3);
    let deep = rng.chance(1, 3);
    let mut bad: Option<Bad> = None;
    let mut done = vec![];
    'all: for who in WHO {
        if who == Who::WriterWithReader && !deep {
            continue;
        }
        if who == Who::OtherWriter && setup == 1 || who == Who::ManyWriters && crowd.is_empty() {
            continue;
        }
        let inner_points = if who == Who::WriterWithReader { 14 } else { 1 };
        for j in 0..inner_points {
            let mut k = 0;
            loop {
                let repo = prepare(&mut round);
                let h1 = ObjectDatabase::open(&repo.git());
                let h2 = ObjectDatabase::open(&repo.git());
                let h3 = ObjectDatabase::open(&repo.git());
                let o2 = if same_handle { &h1 } else { &h2 };
                let label = format!("{who:?} placed before call {k} of a writer ({})", names[setup]);
                let lb = label.as_str();
                let (ob, ot, h3r) = (&obj, &other, &h3);
                let actor: Actor = match who {
                    Who::Reader => Box::new(move || look(o2, ob, &|| before, false, lb).map(|_| ())),
                    Who::ReaderRaw => Box::new(move || look(o2, ob, &|| before, true, lb).map(|_| ())),
                    Who::Writer => Box::new(move || put(o2, ob, lb)),
                    Who::WriterThenReader => Box::new(move || {
                        put(o2, ob, lb)?;
                        look(o2, ob, &|| true, false, lb)?;
                        look(h3r, ob, &|| true, true, lb).map(|_| ())
                    }),
                    Who::WriterWithReader => Box::new(move || {
                        let inner: Actor = Box::new(move || look(h3r, ob, &|| before, j % 2 == 0, &format!("reader before call {j} of {lb}")).map(|_| ()));
                        let (w, _, _, r, _) = nested(j, inner, || put(o2, ob, lb));
                        w?;
                        r?;
                        look(o2, ob, &|| true, false, lb).map(|_| ())
                    }),
                    Who::ManyWriters => Box::new(move || {
                        for o in crowd {
                            put(o2, o, lb)?;
                        }
                        crowd.iter().try_for_each(|o| look(o2, o, &|| true, false, lb).map(|_| ()))
                    }),
                    Who::OtherWriter => Box::new(move || {
                        put(o2, ot, lb)?;
                        look(o2, ot, &|| true, false, lb).map(|_| ())
                    }),
                };
                let (w, n, inside, r, trace) = nested(k, actor, || put(&h1, &obj, &format!("writer with {lb}")));
                done.push((hash64(format!("{label}{j}{size}{same_handle}").as_bytes()), inside));
                let after = || -> Result<(), Bad> {
                    w?;
                    r?;
                    for (h, raw) in [(&h1, false), (&h2, true), (&h3, false)] {
                        look(h, &obj, &|| true, raw, &format!("after {lb}"))?;
                    }
                    if setup == 1 {
                        look(&h1, &other, &|| true, false, &format!("after {lb}"))?;
                    }
                    // and once more for a reader that comes later
                    look(&ObjectDatabase::open(&repo.git()), &obj, &|| true, true, &format!("after {lb}"))?;
                    Ok(())
                };
                if let Err((s, m)) = after() {
                    bad = Some((s, format!("{m}; calls: {trace}")));
                    break 'all;
                }
                // once past the end
                if k > n {
                    break;
                }
                k += 1;
            }
        }
    }
    let n = done.len() as u64;
    let inside = done.iter().filter(|d| d.1).count() as u64;
    for (key, inside) in done {
        c.eval(key, inside);
    }
    c.count("nested_placements", inside);
    c.count("reads_during_write", inside);
    c.count("executions", n);
    c.sample(|| format!("nested: {}, {} of {} bytes, {n} executions", names[setup], obj.hex(), obj.body.len()));
    if let Some((s, m)) = bad {
        c.violate(s, m);
    }
}

fn c02_sched(c: &mut Ctx, rng: &mut Rng) {
    let dir = c.fresh("s");
    let repo = Repo::init(&dir);
    let nobj = rng.range(1, 3);
    let mut objs: Vec<Obj> = vec![];
    for i in 0..nobj {
        let size = *rng.pick(&[1usize, 1, 2, 3, 4]);
        if i > 0 && rng.chance(1, 3) {
            let n = rng.byte();
            let b = objs[0].id()[0];
            objs.push(blob_with_first_byte(rng, b, vec![n, i as u8]));
        } else {
            objs.push(c02_obj(rng, size));
        }
    }
    objs.dedup();
    let done: Vec<AtomicBool> = objs.iter().map(|_| AtomicBool::new(false)).collect();
    if rng.chance(1, 4) {
        if rng.chance(1, 2) {
            repo.add_loose(&objs[0], rng);
        } else {
            let p = build_pack(&[Entry { obj: objs[0].clone(), store: Store::Whole, delta: vec![] }], &PackOpts::default(), rng);
            repo.add_pack(&p);
        }
        done[0].store(true, Ordering::SeqCst);
    }
    let shared = ObjectDatabase::open(&repo.git());
    let nthreads = rng.range(2, 4);
    let reads = AtomicU64::new(0);
    let early = AtomicU64::new(0);
    let mut plans = vec![];
    for t in 0..nthreads {
        let own = rng.chance(1, 2);
        let steps: Vec<(usize, usize)> = (0..rng.range(1, 4))
            .map(|s| {
                let w = if t == 0 && s == 0 { 0 } else { rng.below(5) };
                (w, rng.below(objs.len()))
            })
            .collect();
        plans.push((own, steps));
    }
    let desc = format!("threads {:?} (own handle, steps: 0-1 write, 2-3 parse, 4 read)", plans);
    let jobs: Vec<sched::Job<Result<(), Bad>>> = plans
        .iter()
        .map(|(own, steps)| {
            let (shared, objs, done, repo, reads, early) = (&shared, &objs, &done, &repo, &reads, &early);
            Box::new(move || {
                let mine = ObjectDatabase::open(&repo.git());
                let db = if *own { &mine } else { shared };
                for &(w, i) in steps {
                    match w {
                        0 | 1 => {
                            put(db, &objs[i], "scheduled writer")?;
                            done[i].store(true, Ordering::SeqCst);
                        }
                        k => {
                            let must = || done[i].load(Ordering::SeqCst);
                            let was = must();
                            look(db, &objs[i], &must, k == 4, "scheduled reader")?;
                            reads.fetch_add(1, Ordering::Relaxed);
                            if !was {
                                early.fetch_add(1, Ordering::Relaxed);
                            }
                        }
                    }
                }
                Ok(())
            }) as sched::Job<Result<(), Bad>>
        })
        .collect();
    let mut r2 = rng.fork();
    let Some((res, tr)) = c.op(|| format!("scheduled run: {desc}"), || sched::run(&mut r2, jobs)) else { return };
    c.count("scheduled_runs", 1);
    c.count("steps", tr.steps.len() as u64);
    c.count("blocked_steps", tr.blocked);
    c.count("reads_during_write", early.load(Ordering::Relaxed));
    c.eval(hash64(&tr.steps) ^ hash64(desc.as_bytes()), tr.steps.windows(2).any(|w| w[0] != w[1]));
    c.sample(|| format!("scheduled: {desc}; steps {:?}", &tr.steps[..tr.steps.len().min(60)]));
    let all = res.into_iter().collect::<Result<Vec<_>, _>>();
    let r = all.and_then(|_| {
        for (i, o) in objs.iter().enumerate() {
            if done[i].load(Ordering::SeqCst) {
                look(&shared, o, &|| true, i % 2 == 0, "after the run")?;
            }
        }
        Ok(())
    });
    if let Err((s, m)) = r {
        c.violate(s, format!("{m}; {desc}; steps {:?}", tr.steps));
    }
}

/// Several processes write the same objects in different orders while this one reads.
fn c02_procs(c: &mut Ctx, rng: &mut Rng) {
    let dir = c.fresh("p");
    let repo = Repo::init(&dir);
    let n = rng.range(6, 24);
    let objs: Vec<Obj> = (0..n)
        .map(|_| {
            let s = *rng.pick(&[0usize, 1, 1, 2, 3]);
            c02_obj(rng, s)
        })
        .collect();
    let kids = rng.range(2, 5);
    let mut pids = vec![];
    for k in 0..kids {
        let mut order: Vec<usize> = (0..n).collect();
        if rng.chance(2, 3) {
            rng.shuffle(&mut order);
        }
        let same = rng.chance(1, 2);
        let report = dir.join(format!("report{k}"));
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            flight::mute();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), Bad> {
                let db = ObjectDatabase::open(&repo.git());
                for &i in &order {
                    put(&db, &objs[i], "writing process")?;
                    let fresh = ObjectDatabase::open(&repo.git());
                    look(if same { &db } else { &fresh }, &objs[i], &|| true, i % 2 == 0, "the process that wrote it")?;
                }
                Ok(())
            }))
            .unwrap_or_else(|_| Err(("panic".into(), "writing process panicked".into())));
            let code = match r {
                Ok(()) => 0,
                Err((s, m)) => {
                    let _ = std::fs::write(&report, format!("{s}\n{m}"));
                    9
                }
            };
            unsafe { libc::_exit(code) }
        }
        if pid < 0 {
            c.trouble("fork failed");
            break;
        }
        pids.push((pid, report, order));
    }
    let db = ObjectDatabase::open(&repo.git());
    let mut seen = vec![false; n];
    let mut early = 0;
    let mut bad: Option<Bad> = None;
    let mut live: Vec<i32> = pids.iter().map(|p| p.0).collect();
    let mut finished = vec![];
    let mut at = 0;
    while !live.is_empty() {
        live.retain(|&p| {
            let mut st = 0;
            let r = unsafe { libc::waitpid(p, &mut st, libc::WNOHANG) };
            if r == p {
                finished.push((p, st));
            }
            r == 0
        });
        for _ in 0..4 {
            let i = at % n;
            at += 1;
            let must = seen[i];
            if bad.is_none() {
                match look(&db, &objs[i], &|| must, at % 3 == 0, "reading process") {
                    Ok(f) => {
                        seen[i] |= f;
                        if !live.is_empty() {
                            early += 1;
                        }
                    }
                    Err(e) => bad = Some(e),
                }
            }
        }
    }
    for (pid, st) in finished {
        let (_, report, order) = pids.iter().find(|p| p.0 == pid).unwrap();
        if st != 0 && bad.is_none() {
            let t = std::fs::read_to_string(report).unwrap_or_default();
            bad = Some(match t.split_once('\n') {
                Some((s, m)) => (s.to_string(), m.to_string()),
                None => ("child-died".into(), format!("writing process ended with status {st:#x} (order {order:?})")),
            });
        }
    }
    if bad.is_none() {
        for o in &objs {
            if let Err(e) = look(&db, o, &|| true, false, "after all processes wrote") {
                bad = Some(e);
                break;
            }
        }
    }
    c.count("process_runs", 1);
    c.count("reads_beside_processes", early);
    c.eval(hash64(format!("{:?}", pids.iter().map(|p| &p.2).collect::<Vec<_>>()).as_bytes()) ^ c.case, early > 0);
    if let Some((s, m)) = bad {
        c.violate(s, format!("{m} ({kids} processes writing {n} objects)"));
    }
}

pub fn c02(c: &mut Ctx) {
    let mut rng = c.rng.fork();
    match c.case % 12 {
        0 | 4 => c02_nested(c, &mut rng),
        8 => c02_procs(c, &mut rng),
        _ => {
            for _ in 0..6 {
                c02_sched(c, &mut rng);
                if c.failed() {
                    return;
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------ C18

pub struct Fixture {
    pub repo: Repo,
    pub objs: Vec<Obj>,
    pub absent: Vec<Oid>,
    pub refs: Vec<(Vec<u8>, Obj)>,
    /// packs that are added while readers run
    pub late: Vec<(Pack, Vec<Obj>)>,
}

pub fn fixture(rng: &mut Rng, dir: &Path, npacks: usize, late: usize) -> Fixture {
    let repo = Repo::init(dir);
    let mut objs = vec![];
    for _ in 0..npacks {
        let es = gen_entries(rng, &GenOpts { n: 8, delta_percent: 60, deep: true, max_body: 3000, max_result: 9000 });
        let o = rand_opts(rng, es.len());
        let p = build_pack(&es, &o, rng);
        repo.add_pack(&p);
        objs.extend(es.into_iter().map(|e| e.obj));
    }
    for _ in 0..4 {
        let o = objgen::any_obj(rng, 3000);
        repo.add_loose(&o, rng);
        objs.push(o);
    }
    let mut refs = vec![];
    for i in 0..3 {
        let o = rng.pick(&objs).clone();
        let name = format!("refs/heads/b{i}");
        repo.add_ref(&name, format!("{}\n", o.hex()).as_bytes());
        refs.push((name.into_bytes(), o));
    }
    repo.add_ref("HEAD", b"ref: refs/heads/b0\n");
    refs.push((b"HEAD".to_vec(), refs[0].1.clone()));
    let late = (0..late)
        .map(|_| {
            let es = gen_entries(rng, &GenOpts { n: 4, delta_percent: 60, deep: true, max_body: 1000, max_result: 3000 });
            let o = rand_opts(rng, es.len());
            let p = build_pack(&es, &o, rng);
            (p, es.into_iter().map(|e| e.obj).collect())
        })
        .collect();
    let absent = (0..3).map(|_| objgen::oid(rng)).collect();
    Fixture { repo, objs, absent, refs, late }
}

/// Reads one thing on a shared handle and compares with what a lone reader gets.
pub fn read_one(r: &rusty_git::repository::Repository, f: &Fixture, rng: &mut Rng, late: &[AtomicBool]) -> Result<(), Bad> {
    let db = r.object_database();
    match rng.below(10) {
        0 => {
            let id = *rng.pick(&f.absent);
            match obs::parse(db, &id) {
                Parsed::NotFound(h) if h == sha1::hex(&id) => Ok(()),
                p => Err(("absent-not-reported".into(), format!("absent id {}: {}", sha1::hex(&id), p.show()))),
            }
        }
        1 => {
            let (n, o) = rng.pick(&f.refs);
            let name = String::from_utf8_lossy(n).into_owned();
            let got = r
                .reference_database()
                .reference(n)
                .map_err(|e| ("ref-error".to_string(), format!("{name}: {}", obs::chain(&e))))?
                .peel(r)
                .map_err(|e| ("peel-error".to_string(), format!("{name}: {}", obs::chain(&e))))?;
            if obs::oid(*got.id()) != o.id() {
                return Err(("wrong-id".into(), format!("{name} peels to {}", got.id())));
            }
            obs::agrees(got.data(), o).map_err(|e| ("wrong-content".into(), format!("{name}: {e}")))
        }
        2 => {
            let mut n = r.reference_database().head_reference_names().map_err(|e| ("list-error".to_string(), obs::chain(&e)))?;
            n.sort();
            let want: Vec<Vec<u8>> = f.refs.iter().map(|r| r.0.clone()).filter(|n| n != b"HEAD").collect();
            if n != want {
                return Err(("wrong-list".into(), format!("{n:?}")));
            }
            Ok(())
        }
        3 if !f.late.is_empty() => {
            let i = rng.below(f.late.len());
            let o = rng.pick(&f.late[i].1);
            look(db, o, &|| late[i].load(Ordering::SeqCst), rng.chance(1, 2), "object of a late pack").map(|_| ())
        }
        _ => {
            let o = rng.pick(&f.objs);
            look(db, o, &|| true, rng.chance(1, 3), "reader on a shared handle").map(|_| ())
        }
    }
}

pub fn add_late(f: &Fixture, i: usize, late: &[AtomicBool]) {
    f.repo.add_pack(&f.late[i].0);
    late[i].store(true, Ordering::SeqCst);
}

fn c18_sched(c: &mut Ctx, rng: &mut Rng) {
    let dir = c.fresh("s");
    let np = rng.below(4);
    let nl = rng.below(3);
    let f = fixture(rng, &dir, np, nl);
    let late: Vec<AtomicBool> = f.late.iter().map(|_| AtomicBool::new(false)).collect();
    let repo = match rusty_git::repository::Repository::open(&dir) {
        Ok(r) => r,
        Err(e) => return c.violate("open-failed", obs::chain(&e)),
    };
    if rng.chance(1, 3) {
        // warm
        let _ = read_one(&repo, &f, rng, &late);
    }
    let nt = rng.range(2, 4);
    let per = rng.range(1, 6);
    let hot = rng.chance(1, 3).then(|| rng.pick(&f.objs).clone());
    let mut jobs: Vec<sched::Job<Result<u64, Bad>>> = vec![];
    for t in 0..nt {
        let (f, late, repo, hot) = (&f, &late, &repo, &hot);
        let mut r = rng.fork();
        jobs.push(Box::new(move || {
            let mut n = 0;
            for s in 0..per {
                if t == 0 && s < f.late.len() && r.chance(2, 3) {
                    add_late(f, s, late);
                }
                match hot {
                    Some(o) if s == 0 => look(repo.object_database(), o, &|| true, t % 2 == 0, "readers of one object").map(|_| ())?,
                    _ => read_one(repo, f, &mut r, late)?,
                }
                n += 1;
            }
            Ok(n)
        }));
    }
    let mut r2 = rng.fork();
    let Some((res, tr)) = c.op(|| format!("{nt} readers on one handle, scheduled ({np} packs, {nl} late)"), || sched::run(&mut r2, jobs)) else { return };
    c.count("scheduled_runs", 1);
    c.count("steps", tr.steps.len() as u64);
    c.count("blocked_steps", tr.blocked);
    c.eval(hash64(&tr.steps) ^ c.case, tr.steps.windows(2).any(|w| w[0] != w[1]));
    c.sample(|| format!("{nt} readers, {np} packs, {nl} late packs, steps {:?}", &tr.steps[..tr.steps.len().min(60)]));
    for r in res {
        match r {
            Ok(n) => c.count("reads", n),
            Err((s, m)) => return c.violate(s, format!("{m}; steps {:?}", tr.steps)),
        }
    }
}

pub fn free_run(f: &Fixture, repo: &rusty_git::repository::Repository, rng: &mut Rng, nt: usize, per: usize) -> (u64, Vec<Bad>) {
    let late: Vec<AtomicBool> = f.late.iter().map(|_| AtomicBool::new(false)).collect();
    let go = std::sync::Barrier::new(nt);
    let reads = AtomicU64::new(0);
    let bad: Mutex<Vec<Bad>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for t in 0..nt {
            let mut r = rng.fork();
            let (f, late, go, reads, bad, repo) = (f, &late, &go, &reads, &bad, repo);
            sc.spawn(move || {
                go.wait();
                for s in 0..per {
                    if t == 0 && s < f.late.len() {
                        add_late(f, s, late);
                    }
                    let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| read_one(repo, f, &mut r, late)))
                        .unwrap_or_else(|_| Err(("panic".into(), "a reader panicked".into())));
                    match x {
                        Ok(()) => {
                            reads.fetch_add(1, Ordering::Relaxed);
                        }
                        Err(e) => {
                            bad.lock().unwrap().push(e);
                            break;
                        }
                    }
                }
            });
        }
    });
    (reads.into_inner(), bad.into_inner().unwrap())
}

fn c18_free(c: &mut Ctx, rng: &mut Rng) {
    let dir = c.fresh("f");
    let np = rng.range(1, 4);
    let f = fixture(rng, &dir, np, 2);
    let repo = match rusty_git::repository::Repository::open(&dir) {
        Ok(r) => r,
        Err(e) => return c.violate("open-failed", obs::chain(&e)),
    };
    let nt = rng.range(2, 8);
    let per = if c.tier == Tier::Quick { 30 } else { 80 };
    let Some((n, bad)) = c.op(|| format!("{nt} free-running readers on one handle"), || free_run(&f, &repo, rng, nt, per)) else { return };
    c.count("free_runs", 1);
    c.count("reads", n);
    c.eval(hash64(format!("free{}{}", c.case, c.seed).as_bytes()), true);
    if let Some((s, m)) = bad.into_iter().next() {
        c.violate(s, format!("{m} ({nt} free-running readers)"));
    }
}

pub fn c18(c: &mut Ctx) {
    let mut rng = c.rng.fork();
    if c.case % 4 == 3 {
        c18_free(c, &mut rng);
    } else {
        for _ in 0..3 {
            c18_sched(c, &mut rng);
            if c.failed() {
                return;
            }
        }
    }
}
