//! C20: what calls leave behind on disk.
use super::common::*;
use super::conc;
use crate::ctx::Ctx;
use crate::model::*;
use crate::objgen;
use crate::obs::{self};
use crate::rng::{hash64, Rng};
use crate::sys::{self, Act, Ev, Monitor, K};
use rusty_git::repository::Repository;
use std::collections::BTreeMap;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};

#[derive(Clone, PartialEq, Debug)]
pub struct Node {
    dir: bool,
    size: u64,
    mode: u32,
    mtime: (i64, i64),
    ino: u64,
    hash: u64,
}

pub fn snapshot(dir: &Path, out: &mut BTreeMap<PathBuf, Node>) {
    let m = std::fs::symlink_metadata(dir).unwrap();
    let hash = if m.is_file() { hash64(&std::fs::read(dir).unwrap()) } else { 0 };
    let dirp = m.is_dir();
    out.insert(
        dir.to_path_buf(),
        Node { dir: dirp, size: if dirp { 0 } else { m.size() }, mode: m.mode(), mtime: (m.mtime(), m.mtime_nsec()), ino: m.ino(), hash },
    );
    if dirp {
        for e in std::fs::read_dir(dir).unwrap() {
            snapshot(&e.unwrap().path(), out);
        }
    }
}

fn diff(a: &BTreeMap<PathBuf, Node>, b: &BTreeMap<PathBuf, Node>, root: &Path) -> Vec<String> {
    let short = |p: &PathBuf| p.strip_prefix(root).unwrap_or(p).display().to_string();
    let mut d = vec![];
    for (p, n) in a {
        match b.get(p) {
            None => d.push(format!("{} is gone", short(p))),
            Some(m) if m != n => d.push(format!("{} changed ({n:?} -> {m:?})", short(p))),
            _ => {}
        }
    }
    for p in b.keys() {
        if !a.contains_key(p) {
            d.push(format!("{} is new", short(p)));
        }
    }
    d
}

/// System calls that change something on disk.
#[derive(Default)]
struct Changes {
    n: u64,
    seen: Vec<String>,
}

impl Monitor for Changes {
    fn before(&mut self, ev: &Ev) -> Act {
        self.n += 1;
        let exists = || std::fs::symlink_metadata(Path::new(std::ffi::OsStr::from_bytes(&ev.path))).is_ok();
        let changes = match ev.kind {
            K::Open => ev.flags & libc::O_TRUNC != 0 || ev.flags & libc::O_TMPFILE == libc::O_TMPFILE || ev.flags & libc::O_CREAT != 0 && !exists(),
            K::Mkdir => !exists(),
            K::Unlink | K::Rename => exists(),
            K::Write | K::Link | K::Truncate | K::Utime | K::Chmod => true,
            _ => false,
        };
        if changes && self.seen.len() < 10 {
            self.seen.push(ev.show());
        }
        Act::Pass
    }
}

/// Anything from just now to long ago, or of a clock that was ahead.
fn age(rng: &mut Rng, p: &Path) {
    use std::time::{Duration, SystemTime};
    let s = *rng.pick(&[0u64, 5, 120, 4000, 90_000, 15 * 86_400, 400 * 86_400]);
    let t = if rng.chance(1, 8) { SystemTime::now() + Duration::from_secs(s) } else { SystemTime::now() - Duration::from_secs(s) };
    if let Ok(f) = std::fs::File::open(p) {
        let _ = f.set_modified(t);
    }
}

fn leave(rng: &mut Rng, p: &Path) {
    let k = rng.below(60);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, rng.bytes(k)).unwrap();
    age(rng, p);
}

pub fn c20(c: &mut Ctx) {
    let mut rng = c.rng.fork();
    let top = c.fresh("top");
    let dir = top.join("repo");
    let np = rng.below(3);
    let mut f = conc::fixture(&mut rng, &dir, np, 1);
    std::fs::write(top.join("beside"), b"left alone").unwrap();
    // what other tools leave in a repository
    if rng.chance(1, 2) {
        f.repo.add_ref("packed-refs", format!("# pack-refs with: peeled fully-peeled sorted \n{} refs/tags/p\n", f.objs[0].hex()).as_bytes());
    }
    for (n, t) in [("index", "DIRC"), ("objects/17/tmp_obj_a", "x"), ("objects/tmp_b", ""), ("refs/heads/b0.lock", ""), ("objects/pack/tmp_pack_1", "PACK"), ("objects/info/alternates", ""), ("logs/HEAD", "x")] {
        if rng.chance(1, 3) {
            f.repo.add_ref(n, t.as_bytes());
        }
    }
    for n in ["index.lock", "HEAD.lock", "gc.pid", "packed-refs.lock", "packed-refs.new", "refs/heads/gone.lock", "objects/maintenance.lock", "objects/pack/.tmp-9-pack-1.pack", "objects/pack/pack-1.keep", "objects/pack/tmp_idx_2", "objects/tmp_objdir-incoming-1/aa/x", "objects/de/tmp_obj_9_9", "refs/remotes/origin/HEAD.lock"] {
        if rng.chance(1, 6) {
            leave(&mut rng, &f.repo.git().join(n));
        }
    }
    let damaged = rng.chance(1, 3);
    if damaged {
        // damaged things are read, too
        for _ in 0..rng.range(1, 4) {
            let o = objgen::any_obj(&mut rng, 300);
            let mut z = zlib_any(&o.enc(), &mut rng);
            match rng.below(5) {
                0 => z.clear(),
                1 => z.truncate(z.len() / 2),
                2 => z = rng.bytes(30),
                3 => z = zlib_any(b"blob 5\0123", &mut rng),
                _ => z = zlib_any(b"nothing", &mut rng),
            }
            f.repo.add_loose_raw(&o.id(), &z);
            age(&mut rng, &f.repo.loose_path(&o.id()));
            f.absent.push(o.id());
        }
        if rng.chance(1, 2) {
            std::fs::write(f.repo.packs().join("pack-bad.idx"), if rng.chance(1, 2) { &b"junk"[..] } else { b"" }).unwrap();
        }
        if rng.chance(1, 2) {
            std::fs::write(f.repo.packs().join("pack-bad.pack"), b"").unwrap();
        }
        for n in ["refs/heads/none", "refs/heads/new/deep/name"] {
            if rng.chance(1, 3) {
                f.repo.add_ref(n, *rng.pick(&[&b""[..], b"\n", b"ref:", b"0000\n", b"\xff\xff"]));
            }
        }
        c.count("damaged_repositories", 1);
    }
    // what need not be there
    for d in ["refs/tags", "refs/remotes", "objects/info", "objects/pack", "info", "hooks", "logs"] {
        if rng.chance(1, 3) {
            if d == "objects/pack" && (np > 0 || std::fs::read_dir(f.repo.packs()).map_or(false, |mut d| d.next().is_some())) {
                continue;
            }
            let d = f.repo.git().join(d);
            if rng.chance(1, 2) {
                let _ = std::fs::remove_dir_all(d);
            } else {
                // empty
                let _ = std::fs::create_dir_all(d);
            }
        }
    }
    let mut loose: Vec<Obj> = f.objs[f.objs.len() - 4..].to_vec();
    let mut repo: Option<Repository> = None;
    let steps = rng.range(8, 22);
    let mut plan = String::new();
    let mut before = BTreeMap::new();
    snapshot(&top, &mut before);
    for _ in 0..steps {
        let mut m = Changes::default();
        if repo.is_none() || rng.chance(1, 10) {
            let Some(r) = c.op(|| "open".into(), || sys::monitored(&mut m, || Repository::open(&dir))) else { return };
            match r {
                Ok(r) => repo = Some(r),
                Err(e) => return c.violate("open-failed", obs::chain(&e)),
            }
            plan += "open ";
            if !unchanged(c, &top, &mut before, &m, "Repository::open", &plan) {
                return;
            }
            continue;
        }
        let r = repo.as_ref().unwrap();
        let db = r.object_database();
        let rd = r.reference_database();
        let kind = rng.below(12);
        let step: String = match kind {
            0..=2 => {
                let o = match kind {
                    0 => objgen::any_obj(&mut rng, 3000),
                    1 => rng.pick(&loose).clone(),
                    _ => rng.pick(&f.objs).clone(),
                };
                let o = if kind == 0 && rng.chance(1, 6) {
                    let n = rng.range(40_000, 300_000);
                    Obj::blob(rng.bytes(n))
                } else {
                    o
                };
                let name = format!("write {}", &o.hex()[..8]);
                // what others left there, or what is theirs and not finished
                if rng.chance(1, 3) {
                    let fan = f.repo.loose_path(&o.id()).parent().unwrap().to_path_buf();
                    for _ in 0..rng.range(1, 4) {
                        let n = match rng.below(7) {
                            0 => "tmp_obj_Ab3dE9".to_string(),
                            1 => format!("tmp_obj_{}_{}", std::process::id(), rng.below(40)),
                            2 => format!("tmp_obj_{}_{}", rng.range(2, 40_000), rng.below(40)),
                            3 => crate::sha1::hex(&objgen::oid(&mut rng))[2..].to_string(),
                            4 => format!("{}.lock", &o.hex()[2..]),
                            5 => format!("{}.tmp", &o.hex()[2..]),
                            _ => "tmp_obj_".to_string(),
                        };
                        if !fan.join(&n).exists() {
                            leave(&mut rng, &fan.join(n));
                        }
                    }
                    c.count("leftovers_beside", 1);
                    before.clear();
                    snapshot(&top, &mut before);
                }
                plan += &name;
                plan += " ";
                let w = c.op(|| name.clone(), || sys::monitored(&mut m, || db.write_object(&o.enc())));
                let Some(w) = w else { return };
                if let Err(e) = w {
                    return c.violate("write-failed", obs::chain(&e));
                }
                c.count("write_calls", 1);
                c.count("events_logged", m.n);
                let mut after = BTreeMap::new();
                snapshot(&top, &mut after);
                c.count("snapshots", 1);
                if !write_ok(c, &f.repo, &o, &before, &after, &name, &plan) {
                    return;
                }
                before = after;
                if f.repo.loose_path(&o.id()).exists() {
                    loose.push(o);
                }
                continue;
            }
            3 if !f.late.is_empty() => {
                // a pack appears
                let (p, objs) = f.late.pop().unwrap();
                f.repo.add_pack(&p);
                f.objs.splice(0..0, objs);
                before.clear();
                snapshot(&top, &mut before);
                plan += "late ";
                continue;
            }
            4 => {
                let id = *rng.pick(&f.absent);
                let n = format!("parse absent {}", &crate::sha1::hex(&id)[..8]);
                let ok = c.op(|| n.clone(), || sys::monitored(&mut m, || { let _ = obs::parse(db, &id); let _ = obs::raw(db, &id); }));
                if ok.is_none() {
                    return;
                }
                n
            }
            5 => {
                if c.op(|| "lists".into(), || sys::monitored(&mut m, || {
                    let _ = (rd.reference_names(), rd.head_reference_names(), rd.tag_reference_names(), rd.remote_reference_names());
                })).is_none() {
                    return;
                }
                "lists".into()
            }
            6 | 7 => {
                let n: Vec<u8> = match rng.below(6) {
                    0 => b"refs/heads/none".to_vec(),
                    1 => b"refs/tags/p".to_vec(),
                    2 => b"refs/heads".to_vec(),
                    3 => b"refs/heads/new/deep/name".to_vec(),
                    _ => rng.pick(&f.refs).0.clone(),
                };
                let s = format!("reference {}", String::from_utf8_lossy(&n));
                if c.op(|| s.clone(), || sys::monitored(&mut m, || {
                    if let Ok(x) = rd.reference(&n) {
                        let _ = x.peel(r).map(|o| obs::exercise(o.data()));
                    }
                    let _ = rd.parse_reference(&n);
                })).is_none() {
                    return;
                }
                s
            }
            8 => {
                if c.op(|| "head".into(), || sys::monitored(&mut m, || {
                    let _ = rd.head().and_then(|h| h.peel(r)).map(|o| obs::exercise(o.data()));
                })).is_none() {
                    return;
                }
                "head".into()
            }
            _ => {
                let o = rng.pick(&f.objs).clone();
                let s = format!("read {}", &o.hex()[..8]);
                let id = o.id();
                if c.op(|| s.clone(), || sys::monitored(&mut m, || {
                    if let obs::Parsed::Ok { data, .. } = obs::parse(db, &id) {
                        obs::exercise(&data);
                    }
                    let _ = obs::raw(db, &id);
                })).is_none() {
                    return;
                }
                s
            }
        };
        plan += &step;
        plan += " ";
        if !unchanged(c, &top, &mut before, &m, &step, &plan) {
            return;
        }
    }
    // the handle going away changes nothing either
    let m = Changes::default();
    drop(repo);
    if !unchanged(c, &top, &mut before, &m, "dropping the handle", &plan) {
        return;
    }
    c.eval(hash64(plan.as_bytes()), true);
    c.sample(|| format!("{np} packs, {} entries on disk: {plan}", before.len()));
}

fn unchanged(c: &mut Ctx, top: &Path, before: &mut BTreeMap<PathBuf, Node>, m: &Changes, step: &str, plan: &str) -> bool {
    let mut after = BTreeMap::new();
    snapshot(top, &mut after);
    c.count("snapshots", 1);
    c.count("read_calls", 1);
    c.count("events_logged", m.n);
    let d = diff(before, &after, top);
    if !d.is_empty() {
        c.violate("read-changed-disk", format!("{step}: {} (steps: {plan})", d.join("; ")));
        return false;
    }
    if !m.seen.is_empty() {
        c.violate("read-changed-disk", format!("{step} made the changing calls {:?} (steps: {plan})", m.seen));
        return false;
    }
    true
}

fn write_ok(c: &mut Ctx, repo: &Repo, o: &Obj, before: &BTreeMap<PathBuf, Node>, after: &BTreeMap<PathBuf, Node>, step: &str, plan: &str) -> bool {
    let file = repo.loose_path(&o.id());
    let fan = file.parent().unwrap().to_path_buf();
    let objects = fan.parent().unwrap().to_path_buf();
    let short = |p: &PathBuf| p.strip_prefix(repo.git()).unwrap_or(p).display().to_string();
    let had = before.contains_key(&file);
    for p in after.keys() {
        if !before.contains_key(p) && *p != file && *p != fan {
            c.violate("write-left-file", format!("{step}: {} is new (steps: {plan})", short(p)));
            return false;
        }
    }
    if after.contains_key(&fan) && !before.contains_key(&fan) && !after.contains_key(&file) {
        c.violate("write-left-file", format!("{step}: {} is new, but holds no object (steps: {plan})", short(&fan)));
        return false;
    }
    for (p, n) in before {
        let Some(m) = after.get(p) else {
            c.violate("write-removed-file", format!("{step}: {} is gone (steps: {plan})", short(p)));
            return false;
        };
        let mut n2 = n.clone();
        if *p == fan || *p == objects {
            n2.mtime = m.mtime;
        }
        if *p == file && had {
            n2.mtime = m.mtime;
            n2.ino = m.ino;
        }
        if n2 != *m {
            c.violate("write-changed-file", format!("{step}: {} changed ({n:?} -> {m:?}) (steps: {plan})", short(p)));
            return false;
        }
    }
    true
}
#[allow(unused_imports)]
use absent_id as _;
