//! C05: lookup finds exactly what is held. C06: a concurrent repack hides nothing.
use super::common::*;
use crate::ctx::Ctx;
use crate::git;
use crate::model::*;
use crate::objgen;
use crate::obs::{self, Parsed};
use crate::rng::{hash64, Rng};
use crate::sha1;
use crate::sys::{self, Act, Ev, Monitor};
use rusty_git::object::ObjectDatabase;
use std::collections::HashMap;
use std::path::{Path, PathBuf};

#[derive(Default, Clone)]
struct Where {
    loose: bool,
    packs: usize,
    late_pack: bool,
}

pub fn c05(c: &mut Ctx) {
    let mut rng = c.rng.fork();
    let dir = c.fresh("r");
    let repo = Repo::init(&dir);
    if c.case == 3 || c.case % 40_000 == 15_003 {
        // a loose object whose size needs more than 32 bits
        let Some(h) = super::pack::Huge::make(c, &mut rng) else { return };
        let id: Oid = rng.bytes(20).try_into().unwrap();
        let hex = sha1::hex(&id);
        let d = repo.git().join("objects").join(&hex[..2]);
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(d.join(&hex[2..]), zlib_repeated(format!("blob {}\0", h.len()).as_bytes(), &h.block, h.times, &h.tail)).unwrap();
        h.read(c, &ObjectDatabase::open(&repo.git()), id, "loose");
        return c.eval(hash64(&id), true);
    }
    if c.case % 500 == 7 {
        return many(c, &mut rng, &repo);
    }
    if c.case % 60 == 11 {
        return tended(c, &mut rng, &repo);
    }
    // parts of the repository may be links
    let scattered = if c.case % 9 == 4 { repo.scatter(hash64(&c.case.to_be_bytes()) & !0x3c) } else { String::new() };
    if !scattered.is_empty() {
        c.count("scattered", 1);
    }
    let bare = if scattered.is_empty() { rng.below(10) } else { 9 };
    if bare < 2 {
        std::fs::remove_dir(repo.packs()).unwrap();
        c.count("no_pack_dir", 1);
        if bare == 0 {
            std::fs::remove_dir_all(repo.git().join("objects/info")).unwrap();
        }
    }
    let mut held: HashMap<Oid, (Obj, Where)> = HashMap::new();
    let mut pool: Vec<Obj> = (0..rng.range(4, 16)).map(|_| objgen::any_obj(&mut rng, 3000)).collect();
    for _ in 0..2 {
        let b = *rng.pick(&[0u8, 0xff, 0x7f]);
        let n = rng.byte();
        pool.push(blob_with_first_byte(&mut rng, b, vec![n]));
    }
    let mut handles: Vec<(ObjectDatabase, usize)> = vec![(ObjectDatabase::open(&repo.git()), 0)];
    let mut packs_made = 0usize;
    let steps = rng.range(10, 40);
    let mut log = if scattered.is_empty() { String::new() } else { format!("(links: {scattered}); ") };
    let mut key = 0u64;
    let frozen = rng.chance(1, 3);
    if frozen {
        freeze_time(&repo.packs());
        c.count("frozen_times", 1);
    }
    for _ in 0..steps {
        match rng.below(14) {
            0 => {
                let o = rng.pick(&pool).clone();
                log += &format!("loose {}; ", &o.hex()[..6]);
                repo.add_loose(&o, &mut rng);
                held.entry(o.id()).or_insert((o, Where::default())).1.loose = true;
            }
            1 | 2 => {
                // a pack over some of the pool, with deltas, and some objects of its own
                let es = if rng.chance(1, 12) {
                    // git makes these too
                    c.count("empty_packs", 1);
                    vec![]
                } else if rng.chance(1, 2) {
                    let mut objs: Vec<Obj> = vec![];
                    for _ in 0..rng.range(1, 6) {
                        let o = rng.pick(&pool).clone();
                        if !objs.contains(&o) {
                            objs.push(o);
                        }
                    }
                    objs.into_iter().map(|o| Entry { obj: o, store: Store::Whole, delta: vec![] }).collect()
                } else {
                    gen_entries(&mut rng, &GenOpts { n: 6, delta_percent: 50, deep: false, max_body: 2000, max_result: 5000 })
                };
                let o = rand_opts(&mut rng, es.len());
                let p = build_pack(&es, &o, &mut rng);
                if repo.packs().join(p.name() + ".pack").exists() {
                    continue;
                }
                log += &format!("pack of {} idx v{}; ", es.len(), o.idx_version);
                if rng.chance(1, 4) {
                    // any name will do
                    let stem: Vec<u8> = match rng.below(5) {
                        0 => format!("old{packs_made}").into_bytes(),
                        1 => format!("pack-{packs_made}.x y").into_bytes(),
                        2 => format!("\u{fc}-{packs_made}").into_bytes(),
                        3 => [&b"\xff\xfe"[..], packs_made.to_string().as_bytes()].concat(),
                        _ => format!("pack-{}", sha1::hex(&rng.bytes(20))).into_bytes(),
                    };
                    log += "(named otherwise); ";
                    if rng.chance(1, 3) {
                        // kept elsewhere, with links to it
                        let store = dir.join("store");
                        let ip = write_pack_as(&store, &p, &stem);
                        std::fs::create_dir_all(repo.packs()).unwrap();
                        for f in [ip.with_extension("pack"), ip] {
                            std::os::unix::fs::symlink(&f, repo.packs().join(f.file_name().unwrap())).unwrap();
                        }
                    } else {
                        write_pack_as(&repo.packs(), &p, &stem);
                    }
                    c.count("packs_named_otherwise", 1);
                } else {
                    repo.add_pack(&p);
                }
                if frozen {
                    freeze_time(&repo.packs());
                }
                packs_made += 1;
                for e in es {
                    let w = &mut held.entry(e.obj.id()).or_insert((e.obj.clone(), Where::default())).1;
                    w.packs += 1;
                    w.late_pack = true;
                    if pool.len() < 60 {
                        pool.push(e.obj);
                    }
                }
            }
            3 => {
                let o = rng.pick(&pool).clone();
                let i = rng.below(handles.len());
                let enc = o.enc();
                log += &format!("write {}; ", &o.hex()[..6]);
                match c.op(|| format!("write_object {}", o.hex()), || handles[i].0.write_object(&enc)) {
                    Some(Ok(_)) => held.entry(o.id()).or_insert((o, Where::default())).1.loose = true,
                    Some(Err(e)) => return c.violate("write-failed", obs::chain(&e)),
                    None => return,
                }
            }
            4 => {
                if handles.len() < 4 {
                    log += "open; ";
                    handles.push((ObjectDatabase::open(&repo.git()), packs_made));
                }
            }
            5 => {
                // files git keeps beside packs
                if repo.packs().is_dir() {
                    let n = *rng.pick(&["pack-00.keep", "pack-00.rev", "tmp_pack_a1b2c3", "tmp_idx_x9", "pack-00.bitmap", "multi-pack-index", "pack-00.promisor", ".tmp-123-pack-00.pack", "pack-00.mtimes"]);
                    log += &format!("junk {n}; ");
                    let k = rng.below(50);
                    std::fs::write(repo.packs().join(n), rng.bytes(k)).unwrap();
                }
            }
            6 | 7 => {
                let near = if held.is_empty() { None } else { Some(*rng.pick(&held.keys().copied().collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>())) };
                let id = if rng.chance(1, 2) { rng.pick(&pool).id() } else { absent_id(&mut rng, near.as_ref()) };
                if held.contains_key(&id) {
                    continue;
                }
                let i = rng.below(handles.len());
                log += &format!("absent {}; ", &sha1::hex(&id)[..6]);
                expect_absent(c, &handles[i].0, &id, &format!("handle {i} after [{log}]"));
                c.count("reads_absent", 1);
            }
            8 => {
                // what git prune and git prune-packed do: a loose copy goes
                let mut ids: Vec<Oid> = held.iter().filter(|(_, (_, w))| w.loose).map(|(id, _)| *id).collect();
                ids.sort();
                if ids.is_empty() {
                    continue;
                }
                let id = *rng.pick(&ids);
                let hex = sha1::hex(&id);
                let fan = repo.git().join("objects").join(&hex[..2]);
                std::fs::remove_file(fan.join(&hex[2..])).unwrap();
                let _ = std::fs::remove_dir(fan);
                log += &format!("prune {}; ", &hex[..6]);
                held.get_mut(&id).unwrap().1.loose = false;
                let i = rng.below(handles.len());
                if held[&id].1.packs > 0 {
                    if !expect_present(c, &handles[i].0, &held[&id].0, &format!("handle {i} after [{log}]")) {
                        return;
                    }
                    c.count("reads_after_prune_packed", 1);
                } else {
                    held.remove(&id);
                    expect_absent(c, &handles[i].0, &id, &format!("handle {i} after [{log}]"));
                    c.count("reads_after_prune", 1);
                }
            }
            _ => {
                if held.is_empty() {
                    continue;
                }
                let mut ids: Vec<Oid> = held.keys().copied().collect();
                ids.sort();
                let (o, w) = held[rng.pick(&ids)].clone();
                let i = rng.below(handles.len());
                log += &format!("read {}; ", &o.hex()[..6]);
                if !expect_present(c, &handles[i].0, &o, &format!("handle {i} after [{log}]")) {
                    return;
                }
                if w.loose && w.packs > 0 || w.packs > 1 {
                    c.count("reads_both", 1);
                } else if w.loose {
                    c.count("reads_loose", 1);
                } else {
                    c.count("reads_packed", 1);
                }
                if w.packs > 0 && handles[i].1 < packs_made {
                    c.count("reads_after_late_pack", 1);
                }
            }
        }
        if c.failed() {
            return;
        }
    }
    // everything, once more, on every handle
    let mut ids: Vec<Oid> = held.keys().copied().collect();
    ids.sort();
    for (i, (db, _)) in handles.iter().enumerate() {
        rng.shuffle(&mut ids);
        for id in &ids {
            key ^= hash64(id);
            if !expect_present(c, db, &held[id].0, &format!("handle {i} at the end of [{log}]")) {
                return;
            }
        }
    }
    let places = held.values().filter(|(_, w)| w.loose).count().min(1) + held.values().filter(|(_, w)| w.packs > 0).count().min(1);
    c.eval(hash64(log.as_bytes()) ^ key, places > 1);
    c.sample(|| log);
}

/// A repository of very many packs and loose objects, as one becomes when nobody tidies it up.
fn many(c: &mut Ctx, rng: &mut Rng, repo: &Repo) {
    let n = *rng.pick(&[40usize, 130, 280]);
    let mut objs: Vec<Obj> = vec![];
    let dbs = [ObjectDatabase::open(&repo.git()), ObjectDatabase::open(&repo.git())];
    let mut at = 0;
    for stage in 0..3 {
        let until = [n / 3, n - 2, n][stage];
        while at < until {
            let mut es = vec![];
            for _ in 0..rng.range(1, 3) {
                let k = rng.range(0, 60);
                let o = Obj::blob([&rng.bytes(k)[..], &at.to_be_bytes()].concat());
                if !objs.contains(&o) {
                    objs.push(o.clone());
                    es.push(Entry { obj: o, store: Store::Whole, delta: vec![] });
                }
            }
            // one more copy of an older object
            if rng.chance(1, 3) && !objs.is_empty() {
                let o = rng.pick(&objs).clone();
                if !es.iter().any(|e| e.obj == o) {
                    es.push(Entry { obj: o, store: Store::Whole, delta: vec![] });
                }
            }
            if !es.is_empty() {
                repo.add_pack(&build_pack(&es, &PackOpts::default(), rng));
            }
            at += 1;
        }
        for i in 0..n {
            let o = Obj::blob([b"loose ", &rng.bytes(3)[..], &i.to_be_bytes()].concat());
            repo.add_loose(&o, rng);
            objs.push(o);
        }
        c.count("many_packs", until as u64);
        let db = &dbs[if stage == 0 { 0 } else { rng.below(2) }];
        let mut order: Vec<usize> = (0..objs.len()).collect();
        rng.shuffle(&mut order);
        // the newest first, half of the time
        if rng.chance(1, 2) {
            order.sort_by_key(|&i| std::cmp::Reverse(i));
        }
        for (k, &i) in order.iter().enumerate() {
            if k % 50 == 0 {
                let id = absent_id(rng, Some(&objs[i].id()));
                if !objs.iter().any(|o| o.id() == id) {
                    expect_absent(c, db, &id, &format!("{until} packs"));
                }
            }
            if !expect_present(c, db, &objs[i], &format!("{until} packs")) || c.failed() {
                return;
            }
        }
    }
    c.eval(hash64(&objs[0].id()), true);
    c.sample(|| format!("{n} packs and {} loose objects", 3 * n));
}

/// A repository that git tends between the reads: packed, repacked, pruned, with all the files git keeps
/// beside packs, in all the ways it can be told to do that. What is held is what git lists.
fn tended(c: &mut Ctx, rng: &mut Rng, repo: &Repo) {
    let dir = repo.path.clone();
    let mut handles = vec![ObjectDatabase::open(&repo.git())];
    let mut files: Vec<(Vec<u8>, Obj)> = vec![];
    let mut tip: Option<Oid> = None;
    let mut gone: Vec<Oid> = vec![];
    let mut log = String::new();
    let mut reads = 0u64;
    for round in 0..rng.range(2, 7) {
        let mut new: Vec<Obj> = vec![];
        for _ in 0..rng.range(1, 6) {
            // a file, often much like an older one
            let n = rng.range(20, 2500);
            let mut body = if files.is_empty() || rng.chance(1, 3) { rng.bytes(n) } else { rng.pick(&files).1.body.clone() };
            let at = rng.below(body.len() + 1);
            let k = rng.range(1, 30);
            body.splice(at..at, rng.bytes(k));
            let o = Obj::blob(body);
            let name = format!("f{:02}", rng.below(12)).into_bytes();
            match files.iter_mut().find(|(n, _)| *n == name) {
                Some(f) => f.1 = o.clone(),
                None => files.push((name, o.clone())),
            }
            new.push(o);
        }
        files.sort_by(|a, b| a.0.cmp(&b.0));
        let entries: Vec<_> = files.iter().map(|(n, o)| objgen::EntryT { mode: 0o100644, name: n.clone(), id: o.id() }).collect();
        let tree = Obj::new(Kind::Tree, objgen::tree_body(&entries));
        let mut body = format!("tree {}\n", tree.hex()).into_bytes();
        if let Some(t) = &tip {
            body.extend_from_slice(format!("parent {}\n", sha1::hex(t)).as_bytes());
        }
        let who = format!("A <a@x> {} +0000\n", 1_600_000_000 + round);
        body.extend_from_slice(format!("author {who}committer {who}\nround {round}\n").as_bytes());
        let commit = Obj::new(Kind::Commit, body);
        tip = Some(commit.id());
        new.extend([tree, commit.clone()]);
        if rng.chance(1, 2) {
            // nothing leads to this one
            new.push(Obj::blob(rng.bytes(50)));
        }
        let h = rng.below(handles.len());
        for o in &new {
            if rng.chance(1, 4) {
                let enc = o.enc();
                match c.op(|| format!("write_object {}", o.hex()), || handles[h].write_object(&enc)) {
                    Some(Ok(_)) => (),
                    Some(Err(e)) => return c.violate("write-failed", obs::chain(&e)),
                    None => return,
                }
            } else {
                repo.add_loose(o, rng);
            }
        }
        repo.add_ref("refs/heads/master", format!("{}\n", commit.hex()).as_bytes());
        for _ in 0..rng.range(1, 3) {
            let how: &[&str] = *rng.pick(&[
                &["repack", "-d", "-q"][..],
                &["repack", "-a", "-d", "-q"],
                &["repack", "-a", "-d", "-q", "-f", "--depth=50", "--window=20"],
                &["repack", "-a", "-d", "-b", "-q"],
                &["repack", "-d", "-q", "--write-midx"],
                &["repack", "-a", "-d", "-b", "-m", "-q"],
                &["repack", "--cruft", "-d", "-q"],
                &["repack", "--geometric=2", "-d", "-q"],
                &["repack", "-A", "-d", "-q"],
                &["repack", "-k", "-a", "-d", "-q"],
                &["repack", "-a", "-q", "-n"],
                &["multi-pack-index", "write"],
                &["multi-pack-index", "repack"],
                &["multi-pack-index", "expire"],
                &["prune-packed", "-q"],
                &["prune", "--expire=now"],
                &["commit-graph", "write", "--reachable"],
                &["gc", "-q", "--prune=never"],
                &["gc", "-q", "--aggressive", "--prune=now"],
            ]);
            let conf = *rng.pick(&["pack.indexVersion=1", "pack.indexVersion=2", "pack.compression=0", "pack.compression=9", "core.looseCompression=0", "repack.useDeltaBaseOffset=false", "pack.writeReverseIndex=true", "core.bigFileThreshold=100", "pack.packSizeLimit=4k", "pack.depth=1", "pack.indexVersion=2"]);
            log += &format!("{} ({conf}); ", how.join(" "));
            // some need what is not there yet: nothing is done then
            match git::run_in(git::cmd(&dir).args(["-c", conf]).args(how), b"") {
                Ok(_) => c.count("tended", 1),
                Err(_) => c.count("tending_refused", 1),
            }
        }
        let mut held = match git::all(&dir) {
            Ok(h) => h,
            Err(e) => return c.trouble(e),
        };
        for (id, _) in &held {
            gone.retain(|g| g != id);
        }
        if rng.chance(1, 2) && handles.len() < 4 {
            handles.push(ObjectDatabase::open(&repo.git()));
        }
        let fresh = ObjectDatabase::open(&repo.git());
        rng.shuffle(&mut held);
        let n = handles.len();
        for (k, (id, o)) in held.iter().enumerate() {
            if o.id() != *id {
                return c.trouble(format!("git lists other content under {}", sha1::hex(id)));
            }
            let i = (k + round) % (n + 1);
            let db = handles.get(i).unwrap_or(&fresh);
            if !expect_present(c, db, o, &format!("handle {i} of {n} after [{log}]")) {
                return;
            }
            reads += 1;
        }
        for id in gone.iter().chain(&[absent_id(rng, held.first().map(|h| &h.0))]) {
            if !held.iter().any(|(h, _)| h == id) {
                expect_absent(c, &fresh, id, &format!("fresh handle after [{log}]"));
            }
        }
        gone.extend(new.iter().map(|o| o.id()).filter(|id| !held.iter().any(|(h, _)| h == id)));
    }
    c.count("reads_tended", reads);
    c.eval(hash64(log.as_bytes()) ^ hash64(&tip.unwrap()), true);
    c.sample(|| log);
}

// ------------------------------------------------------------------------------------------ C06

#[derive(Clone, Debug)]
enum Step {
    Put(PathBuf, std::rc::Rc<Vec<u8>>),
    Del(PathBuf),
}

fn do_step(s: &Step, freeze: bool) {
    match s {
        Step::Put(p, b) => {
            let tmp = p.with_extension("tmp");
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(&tmp, &**b).unwrap();
            std::fs::rename(&tmp, p).unwrap();
        }
        Step::Del(p) => {
            let _ = std::fs::remove_file(p);
        }
    }
    let (Step::Put(p, _) | Step::Del(p)) = s;
    if freeze {
        freeze_time(p.parent().unwrap());
    }
}

struct Placed<'a> {
    freeze: bool,
    steps: &'a [Step],
    /// step i runs before the at[i]-th call
    at: &'a [usize],
    next: usize,
    n: usize,
    inside: u64,
    trace: Vec<String>,
}

impl Monitor for Placed<'_> {
    fn before(&mut self, ev: &Ev) -> Act {
        if !ev.in_root {
            return Act::Pass;
        }
        while self.next < self.steps.len() && self.at[self.next] <= self.n {
            do_step(&self.steps[self.next], self.freeze);
            self.trace.push(format!("<step {}>", self.next));
            self.next += 1;
            self.inside += 1;
        }
        self.n += 1;
        if self.trace.len() < 60 {
            self.trace.push(ev.show());
        }
        Act::Pass
    }
}

struct Files {
    put: Vec<(PathBuf, std::rc::Rc<Vec<u8>>)>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Warm {
    Cold,
    /// has the old packs loaded, and looked for something missing just now
    Recent,
    /// was opened and used before the old pack came
    Stale,
}

struct Scenario {
    name: String,
    files: Files,
    /// put in place after the handle was warmed (Stale)
    later: Files,
    steps: Vec<Step>,
    obj: Obj,
    others: Vec<Obj>,
    warm: Warm,
    /// the times of directories do not change
    freeze: bool,
}

/// Builds scenario `i`; paths are under `root`.
fn scenario(i: usize, root: &Path) -> Scenario {
    let mut rng = Rng::new(606, "c06-scenario", (i / 3) as u64);
    let warm = [Warm::Cold, Warm::Recent, Warm::Stale][i % 3];
    let repo = Repo { path: root.to_path_buf() };
    let kind = (i / 3) % 6;
    let base = Obj::blob(objgen::blob_body(&mut rng, 4000).into_iter().chain(*b"base text which is long enough").collect::<Vec<u8>>());
    let cmds = vec![Cmd::Copy { off: 0, len: base.body.len() - 3 }, Cmd::Insert(b"changed".to_vec())];
    let body = run_cmds(&base.body, &cmds);
    let delta = encode_delta(base.body.len(), body.len(), &cmds, None);
    let x = Obj::blob(body);
    let y = objgen::any_obj(&mut rng, 500);
    let whole = |o: &Obj| Entry { obj: o.clone(), store: Store::Whole, delta: vec![] };
    let rc = |b: Vec<u8>| std::rc::Rc::new(b);
    let mut first = vec![];
    let mut later = vec![];
    let mut del: Vec<Step> = vec![];
    let packfile = |p: &Pack, e: &str| repo.packs().join(format!("{}.{e}", p.name()));
    // where x is before
    let as_loose = |o: &Obj| (repo.loose_path(&o.id()), rc(zlib(&o.enc(), 6)));
    let in_loose = matches!(kind, 0 | 4);
    let both = kind == 5;
    if in_loose || both {
        let l = as_loose(&x);
        del.push(Step::Del(l.0.clone()));
        if warm == Warm::Stale { later.push(l) } else { first.push(l) }
    }
    if !in_loose || both {
        let es = match kind {
            1 => vec![whole(&x), whole(&y)],
            2 => vec![whole(&base), Entry { obj: x.clone(), store: Store::Ofs(0), delta: delta.clone() }],
            _ => vec![Entry { obj: x.clone(), store: Store::Ref(1), delta: delta.clone() }, whole(&base)],
        };
        let p = build_pack(&es, &PackOpts::default(), &mut rng);
        let put = vec![(packfile(&p, "pack"), rc(p.bytes().to_vec())), (packfile(&p, "idx"), rc(p.idx.clone()))];
        if warm == Warm::Stale { later.extend(put) } else { first.extend(put) }
        let (a, b) = (Step::Del(packfile(&p, "idx")), Step::Del(packfile(&p, "pack")));
        if kind % 2 == 1 {
            del.extend([a, b]);
        } else {
            del.extend([b, a]);
        }
    }
    if kind == 4 {
        // an unrelated pack that is repacked too
        let z = objgen::any_obj(&mut rng, 300);
        let p = build_pack(&[whole(&z)], &PackOpts::default(), &mut rng);
        first.push((packfile(&p, "pack"), rc(p.bytes().to_vec())));
        first.push((packfile(&p, "idx"), rc(p.idx.clone())));
        del.insert(0, Step::Del(packfile(&p, "idx")));
        del.push(Step::Del(packfile(&p, "pack")));
    }
    // the new pack
    let es = if i % 2 == 0 {
        vec![whole(&y), whole(&base), Entry { obj: x.clone(), store: Store::Ofs(1), delta }]
    } else {
        vec![whole(&base), whole(&x), whole(&y)]
    };
    let p = build_pack(&es, &PackOpts { idx_version: 2, ..Default::default() }, &mut rng);
    let mut steps = vec![Step::Put(packfile(&p, "pack"), rc(p.bytes().to_vec())), Step::Put(packfile(&p, "idx"), rc(p.idx.clone()))];
    steps.extend(del);
    Scenario {
        name: format!("{} {:?}", ["loose", "packed whole", "packed ofs-delta", "packed ref-delta", "loose beside a pack", "loose and packed"][kind], warm),
        files: Files { put: first },
        later: Files { put: later },
        steps,
        obj: x,
        others: vec![base],
        warm,
        freeze: false,
    }
}

const SCENARIOS: usize = 36;

fn put_all(f: &Files) {
    for (p, b) in &f.put {
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, &**b).unwrap();
    }
}

fn reset(root: &Path) -> Repo {
    let _ = std::fs::remove_dir_all(root);
    Repo::init(root)
}

fn one(c: &mut Ctx, s: &Scenario, root: &Path, at: &[usize], raw: bool) -> Option<usize> {
    let repo = reset(root);
    put_all(&s.files);
    if s.freeze {
        freeze_time(&repo.packs());
        c.count("frozen_placements", 1);
    }
    let db = ObjectDatabase::open(&repo.git());
    let missing = [0x5au8; 20];
    match s.warm {
        Warm::Cold => {}
        _ => {
            // a miss makes the handle look at the packs there are
            c.op(|| "read of an absent id".into(), || obs::parse(&db, &missing));
        }
    }
    put_all(&s.later);
    if s.freeze {
        freeze_time(&repo.packs());
    }
    let mut m = Placed { freeze: s.freeze, steps: &s.steps, at, next: 0, n: 0, inside: 0, trace: vec![] };
    let id = s.obj.id();
    let d = format!("read during a repack ({}), steps before calls {at:?}", s.name);
    let ok = if raw {
        let r = c.op(|| d.clone(), || sys::monitored(&mut m, || obs::read_raw(&db, &id)))?;
        match r {
            Ok(b) if b == s.obj.enc() => Ok(()),
            Ok(b) => Err(("wrong-content", format!("{} bytes that are not the object", b.len()))),
            Err(o) => Err((if matches!(o, obs::Obs::NotFound(_)) { "vanished" } else { "error" }, o.show())),
        }
    } else {
        let r = c.op(|| d.clone(), || sys::monitored(&mut m, || obs::parse(&db, &id)))?;
        match r {
            Parsed::Ok { data, .. } => obs::agrees(&data, &s.obj).map_err(|e| ("wrong-content", e)),
            Parsed::NotFound(e) => Err(("vanished", format!("not found ({e})"))),
            Parsed::Err(e) => Err(("error", e)),
        }
    };
    let n = m.n;
    let inside = m.inside;
    let left = m.next;
    let trace = std::mem::take(&mut m.trace);
    c.count("placements", 1);
    c.count("steps_inside_reads", inside);
    c.eval(hash64(format!("{}{at:?}{raw}", s.name).as_bytes()), inside > 0);
    if let Err((sig, e)) = ok {
        c.violate(sig, format!("{d}: {e}; calls: {}", trace.join(" ")));
        return None;
    }
    // the rest of the repack, then every object must still be there
    for st in &s.steps[left..] {
        do_step(st, s.freeze);
    }
    for o in std::iter::once(&s.obj).chain(&s.others) {
        if std::ptr::eq(o, &s.obj) || s.steps.len() > 2 {
            if !expect_present(c, &db, o, &format!("after the repack ({}, {at:?})", s.name)) {
                return None;
            }
        }
    }
    Some(n)
}

fn placements(nsteps: usize, ncalls: usize) -> Vec<Vec<usize>> {
    let mut v = vec![];
    // all steps at one point
    for k in 0..=ncalls {
        v.push(vec![k; nsteps]);
    }
    // a prefix at k1, the rest at k2
    for cut in 1..nsteps {
        for k1 in 0..=ncalls {
            for k2 in k1 + 1..=ncalls {
                v.push((0..nsteps).map(|i| if i < cut { k1 } else { k2 }).collect());
            }
        }
    }
    v
}

pub fn c06(c: &mut Ctx) {
    let mut rng = c.rng.fork();
    let root = c.dir.join("r");
    if c.case % 80 == 79 {
        return real_git(c, &mut rng);
    }
    let si = (c.case % SCENARIOS as u64) as usize;
    let round = (c.case / SCENARIOS as u64) as usize;
    let mut s = scenario(si, &root);
    s.freeze = (c.case / 5) % 3 == 1;
    let raw = round % 2 == 1;
    // how many calls a read makes with the repack before it / after it / half way
    let mut calls = 0;
    for at in [vec![0; s.steps.len()], vec![usize::MAX; s.steps.len()], (0..s.steps.len()).map(|i| if i < 2 { 0 } else { 6 }).collect()] {
        match one(c, &s, &root, &at, raw) {
            Some(n) => calls = calls.max(n),
            None => return,
        }
    }
    let all = placements(s.steps.len(), calls + 2);
    // every placement is met within the first rounds; later rounds are random
    let per = 220;
    let chunk = round / 2;
    let lo = chunk * per;
    if lo < all.len() {
        for at in &all[lo..(lo + per).min(all.len())] {
            if one(c, &s, &root, at, raw).is_none() {
                return;
            }
        }
    } else {
        for _ in 0..per {
            let mut at: Vec<usize> = (0..s.steps.len()).map(|_| rng.below(calls + 3)).collect();
            at.sort();
            if one(c, &s, &root, &at, raw).is_none() {
                return;
            }
        }
    }
    c.count("placements_possible_at_two_points", if chunk == 0 { all.len() as u64 } else { 0 });
    c.sample(|| format!("{}: {} steps, {calls} calls, {} placements", s.name, s.steps.len(), all.len()));
}

/// One real `git repack -a -d` beside a looping reader.
fn real_git(c: &mut Ctx, rng: &mut Rng) {
    let dir = c.fresh("g");
    let repo = Repo::init(&dir);
    let mut blobs: Vec<Obj> = vec![];
    let mut entries = vec![];
    for i in 0..rng.range(5, 40) {
        let o = Obj::blob(format!("file {i} of case {}\n{}", c.case, "line\n".repeat(i * 3)).into_bytes());
        entries.push(objgen::EntryT { mode: 0o100644, name: format!("f{i:03}").into_bytes(), id: o.id() });
        blobs.push(o);
    }
    let tree = Obj::new(Kind::Tree, objgen::tree_body(&entries));
    let mut t = objgen::commit(rng);
    t.tree = tree.id();
    t.parents.clear();
    t.before.clear();
    t.after.clear();
    t.more_authors.clear();
    t.author = objgen::Ident { name: b"A".to_vec(), email: b"a@x".to_vec(), time: Some(b"1600000000".to_vec()), zone: Some(b"+0000".to_vec()) };
    t.committer = t.author.clone();
    t.encoding = None;
    t.message = b"m\n".to_vec();
    let commit = t.obj();
    let mut all = blobs;
    all.push(tree);
    all.push(commit.clone());
    let old_pack = rng.chance(2, 3);
    if old_pack {
        let half = if rng.chance(1, 2) { all.len() } else { all.len() / 2 };
        let es: Vec<Entry> = all[..half].iter().map(|o| Entry { obj: o.clone(), store: Store::Whole, delta: vec![] }).collect();
        let p = build_pack(&es, &PackOpts::default(), rng);
        repo.add_pack(&p);
        for o in &all[half..] {
            repo.add_loose(o, rng);
        }
    } else {
        for o in &all {
            repo.add_loose(o, rng);
        }
    }
    repo.add_ref("refs/heads/master", format!("{}\n", commit.hex()).as_bytes());
    let warm = ObjectDatabase::open(&repo.git());
    if rng.chance(1, 2) {
        expect_present(c, &warm, &all[0], "before git repack");
    }
    let mut child = match git::cmd(&dir).args(["repack", "-a", "-d", "-q"]).spawn() {
        Ok(ch) => ch,
        Err(e) => return c.trouble(format!("git repack: {e}")),
    };
    let mut reads = 0u64;
    loop {
        let over = matches!(child.try_wait(), Ok(Some(_)));
        let fresh = ObjectDatabase::open(&repo.git());
        for _ in 0..4 {
            let o = all[rng.below(all.len())].clone();
            if !expect_present(c, &warm, &o, "warm handle beside git repack") || !expect_present(c, &fresh, &o, "fresh handle beside git repack") {
                let _ = child.wait();
                return;
            }
            reads += 2;
        }
        if over {
            break;
        }
    }
    for o in &all {
        if !expect_present(c, &warm, o, "warm handle after git repack") {
            return;
        }
    }
    c.count("git_repacks", 1);
    c.count("reads_beside_git", reads);
    c.eval(hash64(&commit.id()), reads > 8);
}
