//! C22: what calls take they give back: open files, mappings, threads, memory, temporary files.
use super::readfault::{self, Call, Inject, Pattern};
use crate::alloc;
use crate::ctx::Ctx;
use crate::model::*;
use crate::objgen;
use crate::obs;
use crate::rng::{hash64, Rng};
use crate::sys::{self, K};
use rusty_git::repository::Repository;
use std::io::Read;
use std::os::unix::ffi::OsStrExt;
use std::path::Path;

#[derive(Clone, Copy, Debug, PartialEq, Default)]
struct Held {
    fds: usize,
    maps: usize,
    threads: usize,
    files: usize,
    bytes: isize,
    blocks: isize,
}

fn files_below(p: &Path) -> usize {
    std::fs::read_dir(p).map_or(0, |d| {
        d.flatten().map(|e| if e.file_type().map_or(false, |t| t.is_dir()) { 1 + files_below(&e.path()) } else { 1 }).sum()
    })
}

fn held(root: &Path) -> Held {
    let (bytes, blocks) = alloc::live();
    let root_b = root.as_os_str().as_bytes();
    let fds = std::fs::read_dir("/proc/self/fd").map_or(0, |d| {
        d.flatten().filter_map(|e| std::fs::read_link(e.path()).ok()).filter(|l| l.as_os_str().as_bytes().starts_with(root_b)).count()
    });
    let maps = std::fs::read("/proc/self/maps").map_or(0, |m| m.split(|b| *b == b'\n').filter(|l| l.windows(root_b.len()).any(|w| w == root_b)).count());
    let threads = std::fs::read_dir("/proc/self/task").map_or(0, |d| d.count());
    Held { fds, maps, threads, files: files_below(root), bytes, blocks }
}

#[derive(Clone)]
enum Step {
    Call(Call),
    Fault(Call, Pattern),
    Write(Obj),
    WriteFault(Obj, Pattern),
    /// a reader that is dropped before its end
    Partial(Obj, usize),
    /// ids that were never asked for before
    NewAbsent,
    Names(Vec<u8>),
    /// another handle for a few calls
    Handle(Vec<Call>),
    /// a reference that is looked up, but not peeled
    Unpeeled(Vec<u8>),
    /// an object that is written, read and then removed
    Gone,
    /// a reference nobody saw before, loose or packed, that is removed again
    Passing(String, bool),
}

impl Step {
    fn name(&self) -> String {
        match self {
            Step::Call(c) => c.name(),
            Step::Fault(c, p) => format!("{} with {p:?}", c.name()),
            Step::Write(o) => format!("write_object {}", o.hex()),
            Step::WriteFault(o, p) => format!("write_object {} with {p:?}", o.hex()),
            Step::Partial(o, n) => format!("{n} bytes of {}", o.hex()),
            Step::NewAbsent => "new absent id".into(),
            Step::Names(n) => format!("reference {:?}", String::from_utf8_lossy(n)),
            Step::Handle(c) => format!("handle for {} calls", c.len()),
            Step::Unpeeled(n) => format!("unpeeled {:?}", String::from_utf8_lossy(n)),
            Step::Gone => "an object that is removed again".into(),
            Step::Passing(hex, packed) => format!("a {} reference to {hex} that is removed again", if *packed { "packed" } else { "loose" }),
        }
    }
    fn run(&self, dir: &Path, r: &Repository, rng: &mut Rng) {
        let db = r.object_database();
        match self {
            Step::Call(c) => drop(c.run(dir, r)),
            Step::Fault(c, p) => {
                let mut m = Inject::new(*p, rng);
                sys::monitored(&mut m, || drop(c.run(dir, r)));
            }
            Step::Write(o) => drop(db.write_object(&o.enc())),
            Step::WriteFault(o, p) => {
                let mut m = Inject::new(*p, rng);
                sys::monitored(&mut m, || drop(db.write_object(&o.enc())));
            }
            Step::Partial(o, n) => {
                if let Ok(mut rd) = db.read_object(obs::id(&o.id())) {
                    let mut b = vec![0; *n];
                    let _ = rd.reader().read(&mut b);
                }
            }
            Step::NewAbsent => {
                let id = objgen::oid(rng);
                drop(db.parse_object(obs::id(&id)));
                drop(db.read_object(obs::id(&id)));
            }
            Step::Names(n) => {
                drop(r.reference_database().reference(n));
            }
            Step::Handle(cs) => {
                if let Ok(r2) = Repository::open(dir) {
                    for c in cs {
                        drop(c.run(dir, &r2));
                    }
                }
            }
            Step::Unpeeled(n) => {
                if let Ok(x) = r.reference_database().reference(n) {
                    let _ = format!("{:?}", x.target());
                }
            }
            Step::Gone => {
                let o = Obj::blob(rng.bytes(60));
                drop(db.write_object(&o.enc()));
                drop(db.parse_object(obs::id(&o.id())));
                let hex = o.hex();
                let fan = dir.join(".git/objects").join(&hex[..2]);
                let _ = std::fs::remove_file(fan.join(&hex[2..]));
                let _ = std::fs::remove_dir(fan);
                drop(db.parse_object(obs::id(&o.id())));
            }
            Step::Passing(hex, packed) => {
                // names of the same length, so that it takes as much each time
                let name = format!("refs/heads/t{:016x}", rng.next());
                let git = dir.join(".git");
                let (loose, list, old) = (git.join(&name), git.join("packed-refs"), git.join("packed-refs.was"));
                let was = std::fs::read(&list).ok();
                if *packed {
                    let mut new = was.clone().unwrap_or_default();
                    new.extend_from_slice(format!("{hex} {name}\n").as_bytes());
                    let _ = std::fs::write(&old, new);
                    let _ = std::fs::rename(&old, &list);
                } else {
                    let _ = std::fs::write(&loose, format!("{hex}\n"));
                }
                let rdb = r.reference_database();
                drop(rdb.reference(name.as_bytes()).and_then(|x| x.peel(r)));
                drop(rdb.reference_names());
                drop(rdb.head_reference_names());
                let _ = match (packed, was) {
                    (true, Some(b)) => std::fs::write(&old, b).and_then(|_| std::fs::rename(&old, &list)),
                    (true, None) => std::fs::remove_file(&list),
                    (false, _) => std::fs::remove_file(&loose),
                };
                drop(rdb.reference(name.as_bytes()));
            }
        }
    }
}

fn errs(k: K) -> &'static [i32] {
    match k {
        K::Open | K::Opendir => &[libc::EIO, libc::EMFILE, libc::EACCES, libc::ENOMEM],
        K::Write => &[libc::ENOSPC, libc::EIO],
        K::Rename | K::Link | K::Mkdir => &[libc::ENOSPC, libc::EIO, libc::EACCES],
        _ => &[libc::EIO, libc::ENOMEM],
    }
}

/// every call of `f` is a place for a fault; some of them are chosen
fn faults(rng: &mut Rng, n: usize, mut f: impl FnMut(&mut Inject)) -> Vec<Pattern> {
    let mut m = Inject::new(Pattern::None, rng);
    f(&mut m);
    let kinds: Vec<K> = m.kinds.clone();
    (0..n)
        .filter(|_| !kinds.is_empty())
        .map(|_| {
            let i = rng.below(kinds.len());
            let e = *rng.pick(errs(kinds[i]));
            match rng.below(4) {
                0 => Pattern::Kind(i, e),
                1 => Pattern::Cut(rng.range(1, 300), rng.below(12), e),
                _ => Pattern::Once(i, e),
            }
        })
        .collect()
}

/// A pack, its index, a reference or the packed references, wrong in a way that is found at a
/// particular point.
fn damage_known(rng: &mut Rng, dir: &Path) {
    let git = dir.join(".git");
    let packs = git.join("objects/pack");
    let mut idx: Vec<_> = std::fs::read_dir(&packs).map_or(vec![], |d| d.flatten().map(|e| e.path()).filter(|p| p.extension() == Some("idx".as_ref())).collect());
    idx.sort();
    let put = |p: &Path, b: &[u8]| {
        let _ = std::fs::remove_file(p);
        let _ = std::fs::write(p, b);
    };
    match (rng.below(14), idx.is_empty()) {
        (k @ 0..=9, false) => {
            let ip = rng.pick(&idx).clone();
            let pp = ip.with_extension("pack");
            let (mut i, mut p) = (std::fs::read(&ip).unwrap_or_default(), std::fs::read(&pp).unwrap_or_default());
            if i.len() < 1072 || p.len() < 40 {
                return;
            }
            let n = p.len();
            match k {
                0 => p[11] ^= 1 << rng.below(3),
                1 => p[n - 1 - rng.below(20)] ^= 1,
                2 => p[rng.below(4)] ^= 0x20,
                3 => p[7] = rng.byte(),
                4 => p.truncate(rng.below(32)),
                5 => i[rng.below(8)] ^= 1 << rng.below(8),
                6 => {
                    let at = i.len() - 21 - rng.below(20);
                    i[at] ^= 1
                }
                7 => i.truncate(rng.below(1072)),
                8 => {
                    let _ = std::fs::remove_file(&pp);
                    return;
                }
                _ => {
                    let _ = std::fs::remove_file(&ip);
                    let _ = std::fs::create_dir(&ip);
                    return;
                }
            }
            put(&ip, &i);
            put(&pp, &p);
        }
        (0..=9, true) => {
            let _ = std::fs::create_dir_all(&packs);
            put(&packs.join("pack-x.idx"), b"\xfftOc\0\0\0\x02");
        }
        (10, _) => put(&git.join("packed-refs"), b"# pack-refs with: sorted \nnot a line\n"),
        (11, _) => put(&git.join("refs/heads/broken"), rng.pick(&[&b""[..], b"ref:", b"123\n", b"\xff\xfe"])),
        (12, _) => {
            let _ = std::fs::create_dir_all(packs.join("pack-d.idx"));
            let _ = std::fs::create_dir_all(packs.join("pack-d.pack"));
        }
        _ => {
            let _ = std::fs::write(packs.join("pack-e.idx"), b"");
            let _ = std::fs::write(packs.join("pack-e.pack"), b"");
        }
    }
}

fn damage(rng: &mut Rng, dir: &Path) {
    let mut all = vec![];
    let mut todo = vec![dir.join(".git")];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(d).unwrap().flatten() {
            if e.path().is_dir() {
                todo.push(e.path())
            } else {
                all.push(e.path())
            }
        }
    }
    all.sort();
    let p = rng.pick(&all).clone();
    let mut b = std::fs::read(&p).unwrap();
    if b.is_empty() {
        return;
    }
    if rng.chance(1, 2) {
        let n = rng.below(b.len());
        b.truncate(n);
    } else {
        for _ in 0..rng.range(1, 4) {
            let i = rng.below(b.len());
            b[i] ^= 1 << rng.below(8);
        }
    }
    let _ = std::fs::remove_file(&p);
    std::fs::write(&p, b).unwrap();
}

/// Rounds after which is measured.
const AT: [usize; 5] = [4, 8, 16, 32, 64];

pub fn c22(c: &mut Ctx) {
    let mut rng = c.rng.fork();
    let dir = c.fresh("r");
    let s = readfault::scene(&mut rng, &dir);
    let damaged = c.case % 3 == 2;
    if damaged {
        for _ in 0..rng.range(1, 3) {
            if rng.chance(1, 2) {
                damage_known(&mut rng, &dir);
            } else {
                damage(&mut rng, &dir);
            }
        }
    }
    let before = held(&dir);
    // a round: all kinds of steps, the same ones each time
    let mut steps: Vec<Step> = vec![];
    for _ in 0..rng.range(6, 16) {
        steps.push(Step::Call(rng.pick(&s.calls).clone()));
    }
    let Ok(probe) = Repository::open(&dir) else {
        return c.violate("open-failed", "Repository::open failed");
    };
    for _ in 0..rng.range(2, 6) {
        let call = rng.pick(&s.calls).clone();
        let Some(ps) = c.op(|| format!("probe {}", call.name()), || {
            // on a handle of its own: calls of a handle that knows nothing yet
            let cold = Repository::open(&dir);
            let r = cold.as_ref().unwrap_or(&probe);
            faults(&mut rng, 2, |m| sys::monitored(m, || drop(call.run(&dir, r))))
        }) else { return };
        for p in ps {
            steps.push(Step::Fault(call.clone(), p));
        }
    }
    for _ in 0..2 {
        let o = Obj::blob(rng.bytes(40));
        let seen = Obj::blob(rng.bytes(40));
        let Some(ps) = c.op(|| "probe write_object".into(), || faults(&mut rng, 2, |m| sys::monitored(m, || drop(probe.object_database().write_object(&seen.enc()))))) else { return };
        for p in ps {
            steps.push(Step::WriteFault(if rng.chance(1, 2) { o.clone() } else { Obj::blob(rng.bytes(3000)) }, p));
        }
    }
    drop(probe);
    if rng.chance(1, 2) {
        steps.push(Step::Write(Obj::blob(rng.bytes(200))));
        steps.push(Step::Write(rng.pick(&s.f.objs).clone()));
    }
    for _ in 0..3 {
        steps.push(Step::Partial(rng.pick(&s.f.objs).clone(), rng.below(40)));
        steps.push(Step::NewAbsent);
    }
    for n in ["refs/heads/none", "/etc/hostname", "refs/heads/../../x", "refs/heads", "", "refs/heads/b0", "HEAD", "a\0b"] {
        if rng.chance(1, 2) {
            steps.push(if rng.chance(1, 2) { Step::Names(n.as_bytes().to_vec()) } else { Step::Unpeeled(n.as_bytes().to_vec()) });
        }
    }
    for _ in 0..rng.range(1, 3) {
        let calls = (0..rng.range(0, 5)).map(|_| rng.pick(&s.calls).clone()).collect();
        steps.push(Step::Handle(calls));
    }
    // what comes and goes
    if rng.chance(1, 2) {
        steps.push(Step::Gone);
    }
    for packed in [false, true] {
        if rng.chance(1, 2) {
            steps.push(Step::Passing(rng.pick(&s.f.objs).hex(), packed));
        }
    }
    let passing = steps.iter().filter(|s| matches!(s, Step::Gone | Step::Passing(..))).count();
    rng.shuffle(&mut steps);

    let r = match Repository::open(&dir) {
        Ok(r) => r,
        Err(e) => return c.violate("open-failed", obs::chain(&e)),
    };
    let mut seen: Vec<Held> = Vec::with_capacity(AT.len());
    let names: Vec<String> = steps.iter().map(|s| s.name()).collect();
    let mut done = 0;
    let kept_o = rng.pick(&s.f.objs).clone();
    for round in 1..=AT[AT.len() - 1] {
        let mut rr = Rng::new(c.seed ^ round as u64, "c22round", c.case);
        // what readers and objects a caller keeps for a while
        let Some(kept) = c.op(|| "kept reader".into(), || (r.object_database().read_object(obs::id(&kept_o.id())), r.object_database().parse_object(obs::id(&kept_o.id())))) else { return };
        for (s, n) in steps.iter().zip(&names) {
            if c.op(|| n.clone(), || s.run(&dir, &r, &mut rr)).is_none() {
                return;
            }
            done += 1;
        }
        if c.op(|| "drop".into(), move || drop(kept)).is_none() {
            return;
        }
        if AT.contains(&round) {
            seen.push(held(&dir));
        }
    }
    drop(r);
    let after = held(&dir);
    c.count("calls", done);
    c.count("rounds", AT[AT.len() - 1] as u64);
    c.count("faulted_steps", names.iter().filter(|n| n.contains(" with ")).count() as u64 * AT[AT.len() - 1] as u64);
    c.count("damaged_repositories", damaged as u64);
    c.count("changing_steps", passing as u64 * AT[AT.len() - 1] as u64);
    c.count("samples", seen.len() as u64);
    c.count("held_while_open", seen.iter().map(|h| h.bytes.max(0) as u64).max().unwrap_or(0).saturating_sub(before.bytes.max(0) as u64));
    c.eval(hash64(format!("{} {}", c.case, names.join(";")).as_bytes()), true);
    c.sample(|| format!("{} steps a round; {:?}", names.len(), seen.iter().map(|h| (h.fds, h.bytes - before.bytes, h.blocks - before.blocks, h.files)).collect::<Vec<_>>()));

    // grows without end: more at each doubling of the number of rounds
    let grows = |f: &dyn Fn(&Held) -> isize, min_last: isize| seen.windows(2).all(|w| f(&w[1]) > f(&w[0])) && f(&seen[AT.len() - 1]) - f(&seen[AT.len() - 2]) >= min_last;
    let all = |f: &dyn Fn(&Held) -> isize| format!("{:?} after {AT:?} rounds of [{}]{}", seen.iter().map(f).collect::<Vec<_>>(), names.join("; "), if damaged { " on a damaged repository" } else { "" });
    let fds = |h: &Held| h.fds as isize;
    let maps = |h: &Held| h.maps as isize;
    let threads = |h: &Held| h.threads as isize;
    let files = |h: &Held| h.files as isize;
    let bytes = |h: &Held| h.bytes - before.bytes;
    if grows(&fds, 4) {
        c.violate("open-files-grow", format!("open files: {}", all(&fds)));
    } else if grows(&maps, 4) {
        c.violate("mappings-grow", format!("mapped files: {}", all(&maps)));
    } else if grows(&threads, 4) {
        c.violate("threads-grow", format!("threads: {}", all(&threads)));
    } else if grows(&files, 4) {
        c.violate("files-grow", format!("files in the repository: {}", all(&files)));
    } else if grows(&bytes, 128) {
        c.violate("memory-grows", format!("bytes allocated: {}", all(&bytes)));
    }
    if after.fds != before.fds {
        c.violate("open-after-drop", format!("{} files of the repository are still open when its handles and readers are dropped (rounds of [{}])", after.fds, names.join("; ")));
    }
    if after.maps != before.maps {
        c.violate("mapped-after-drop", format!("{} files of the repository are still mapped when its handles and readers are dropped", after.maps));
    }
}
