//! C01: written objects round-trip under their SHA-1 id.
use super::common::*;
use crate::ctx::{Ctx, Tier};
use crate::git;
use crate::model::*;
use crate::objgen;
use crate::obs;
use crate::rng::{hash64, Rng};
use crate::sha1;
use rusty_git::object::Id;
use rusty_git::repository::Repository;

fn body(rng: &mut Rng, big: bool) -> Vec<u8> {
    if big {
        let n = match rng.below(4) {
            0 => rng.range(60_000, 70_000),
            1 => rng.range(1 << 20, 5 << 20),
            2 => (1 << 20) + rng.below(3),
            _ => rng.range(100_000, 900_000),
        };
        if rng.chance(1, 2) {
            rng.bytes(n)
        } else {
            let w = { let k = rng.range(1, 5000); rng.bytes(k) };
            w.iter().copied().cycle().take(n).collect()
        }
    } else {
        objgen::blob_body(rng, 80_000)
    }
}

/// What git does to a repository beside a process that writes to it. `have` is left with the objects that are still
/// stored.
fn housekeeping(c: &mut Ctx, rng: &mut Rng, repo: &Repo, have: &mut Vec<Obj>, o: &Obj) {
    let objects = repo.git().join("objects");
    let rmdir = rng.chance(2, 3);
    let loose = |o: &Obj| repo.loose_path(&o.id());
    let drop_loose = |o: &Obj| {
        let p = loose(o);
        let _ = std::fs::remove_file(&p);
        if rmdir {
            let _ = std::fs::remove_dir(p.parent().unwrap());
        }
    };
    let packed = |repo: &Repo| -> Vec<std::path::PathBuf> {
        let mut v: Vec<_> = std::fs::read_dir(repo.packs()).map(|d| d.flatten().map(|e| e.path()).filter(|p| p.extension() == Some("idx".as_ref())).collect()).unwrap_or_default();
        v.sort();
        v
    };
    match rng.below(5) {
        // repack: everything, or some objects, into a pack; their loose files are pruned
        0 | 1 => {
            let all = rng.chance(1, 3);
            let es: Vec<Entry> = have
                .iter()
                .filter(|x| x.body.len() < 100_000)
                .filter(|x| all || **x == *o || rng.chance(1, 3))
                .map(|x| Entry { obj: x.clone(), store: Store::Whole, delta: vec![] })
                .collect();
            if es.is_empty() {
                return;
            }
            let p = build_pack(&es, &PackOpts::default(), rng);
            let old = packed(repo);
            repo.add_pack(&p);
            c.count("packed_between", es.len() as u64);
            if rng.chance(3, 4) {
                for e in &es {
                    drop_loose(&e.obj);
                }
            }
            // old packs whose objects are all in the new one
            let name = p.name();
            for i in old {
                let Ok(d) = std::fs::read(&i) else { continue };
                let gone = have.iter().all(|x| idx_offsets(&d, &x.id()).is_empty() || es.iter().any(|e| e.obj == *x) || loose(x).exists());
                if gone && i.file_stem() != Some(name.as_ref()) && rng.chance(1, 2) {
                    let _ = std::fs::remove_file(&i);
                    let _ = std::fs::remove_file(i.with_extension("pack"));
                }
            }
        }
        // gc --prune: objects nobody refers to
        2 => {
            for i in packed(repo) {
                if rng.chance(2, 3) {
                    let _ = std::fs::remove_file(&i);
                    let _ = std::fs::remove_file(i.with_extension("pack"));
                    c.count("packs_pruned", 1);
                }
            }
            let left: Vec<Vec<u8>> = packed(repo).iter().filter_map(|i| std::fs::read(i).ok()).collect();
            have.retain(|x| loose(x).exists() || left.iter().any(|d| !idx_offsets(d, &x.id()).is_empty()));
        }
        3 => {
            drop_loose(o);
            c.count("loose_pruned", 1);
            let left: Vec<Vec<u8>> = packed(repo).iter().filter_map(|i| std::fs::read(i).ok()).collect();
            have.retain(|x| x != o || left.iter().any(|d| !idx_offsets(d, &x.id()).is_empty()));
        }
        // everything
        _ => {
            if rng.chance(1, 3) {
                let _ = std::fs::remove_dir_all(&objects);
                std::fs::create_dir_all(objects.join("pack")).unwrap();
                have.clear();
                c.count("objects_directory_replaced", 1);
            } else {
                // empty fan-out directories go
                for e in std::fs::read_dir(&objects).unwrap().flatten() {
                    if e.file_name().len() == 2 {
                        let _ = std::fs::remove_dir(e.path());
                    }
                }
            }
        }
    }
}

pub fn c01(c: &mut Ctx) {
    let mut rng = c.rng.fork();
    let dir = c.fresh("r");
    let repo = Repo::init(&dir);
    if rng.chance(1, 4) {
        // an existing loose object that some other tool wrote, and a pack next to it
        let o = objgen::any_obj(&mut rng, 2000);
        repo.add_loose(&o, &mut rng);
    }
    // the objects may lie elsewhere
    if c.case % 9 == 4 {
        let how = repo.scatter(hash64(&c.case.to_be_bytes()));
        c.count("scattered", !how.is_empty() as u64);
    }
    let handles: Vec<Repository> = (0..rng.range(1, 3)).map(|_| Repository::open(&dir).unwrap()).collect();
    let mut have: Vec<Obj> = vec![];
    let steps = rng.range(4, 14);
    let big_at = if rng.chance(1, 12) { rng.below(steps) } else { usize::MAX };
    let first_byte = rng.byte();
    let keeping = rng.chance(1, 2);
    let mut key = 0u64;
    for s in 0..steps {
        let h = &handles[rng.below(handles.len())];
        let db = h.object_database();
        let again = !have.is_empty() && rng.chance(1, 4);
        let o = if again {
            have[rng.below(have.len())].clone()
        } else if s == big_at {
            Obj::blob(body(&mut rng, true))
        } else if rng.chance(1, 6) {
            blob_with_first_byte(&mut rng, first_byte, objgen::blob_body(&mut Rng::new(c.seed, "c01b", c.case), 40))
        } else {
            match rng.below(6) {
                0 => objgen::commit(&mut rng).obj(),
                1 => objgen::tag(&mut rng).obj(),
                2 => Obj::new(Kind::Tree, objgen::tree_body(&objgen::tree(&mut rng))),
                _ => Obj::blob(body(&mut rng, false)),
            }
        };
        // housekeeping by other processes between the writes
        if keeping && rng.chance(1, 2) && !have.is_empty() {
            let o = if rng.chance(1, 2) { have[rng.below(have.len())].clone() } else { o.clone() };
            housekeeping(c, &mut rng, &repo, &mut have, &o);
        }
        let already = have.contains(&o);
        let enc = o.enc();
        let id = o.id();
        key = key.wrapping_mul(31).wrapping_add(hash64(&id));
        let d = format!("write_object {} of {} bytes, id {}", o.kind.name(), o.body.len(), sha1::hex(&id));
        let Some(r) = c.op(|| d.clone(), || db.write_object(&enc)) else { return };
        match r {
            Ok(got) => {
                if obs::oid(got) != id {
                    c.violate("wrong-id", format!("{d}: returned {got}"));
                    return;
                }
                if got != Id::from_bytes(&id) {
                    c.violate("wrong-id", format!("{d}: returned id does not compare equal"));
                }
            }
            Err(e) => {
                c.violate("write-failed", format!("{d}: {}", obs::chain(&e)));
                return;
            }
        }
        c.count(if already { "rewrites" } else { "writes" }, 1);
        c.count("bytes_written", enc.len() as u64);
        // what is on disk, through the harness' own decoder
        match std::fs::read(repo.loose_path(&id)) {
            Ok(f) => {
                let v = decode_loose(&f);
                if v != Verdict::Is(o.clone()) {
                    c.violate("bad-file", format!("{d}: the stored file of {} bytes does not decode to the object ({})", f.len(),
                        match v { Verdict::Bad(w) => w, _ => "other content" }));
                    return;
                }
            }
            // it may be stored in another way, see below
            Err(_) if keeping => c.count("not_loose", 1),
            Err(e) => {
                c.violate("no-file", format!("{d}: reported success, but there is no file: {e}"));
                return;
            }
        }
        if !already {
            have.push(o.clone());
        }
        if !expect_present(c, db, &o, "after write, same handle") {
            return;
        }
        if keeping {
            let fresh = rusty_git::object::ObjectDatabase::open(&repo.git());
            if !expect_present(c, &fresh, &o, "after write, fresh handle") {
                return;
            }
        }
        if rng.chance(1, 2) {
            let other = &handles[rng.below(handles.len())];
            if !expect_present(c, other.object_database(), &o, "after write, another handle") {
                return;
            }
        }
        if rng.chance(1, 3) {
            let p = have[rng.below(have.len())].clone();
            if !expect_present(c, db, &p, "earlier object after later writes") {
                return;
            }
        }
        c.eval(hash64(&id), true);
    }
    let fresh = match Repository::open(&dir) {
        Ok(r) => r,
        Err(e) => {
            c.violate("open-failed", format!("{e}"));
            return;
        }
    };
    for o in &have {
        if !expect_present(c, fresh.object_database(), o, "fresh handle") {
            return;
        }
        c.count("reads_fresh_handle", 1);
    }
    let share = if c.tier == Tier::Thorough { 40 } else { 16 };
    if c.case % share == 0 {
        let ids: Vec<Oid> = have.iter().map(|o| o.id()).collect();
        match git::cat(&dir, &ids) {
            Ok(got) => {
                for (g, o) in got.iter().zip(&have) {
                    c.count("git_objects_checked", 1);
                    if g.as_ref() != Some(o) {
                        c.violate("git-disagrees", format!("git reads {} as {}", o.hex(), match g {
                            None => "missing".to_string(),
                            Some(g) => format!("{} of {} bytes", g.kind.name(), g.body.len()),
                        }));
                    }
                }
            }
            Err(e) => c.violate("git-cannot-read", format!("git cat-file: {e}")),
        }
    }
    let n = have.len();
    c.sample(|| format!("{n} objects over {} handles, {} bytes in all, history key {key:x}", handles.len(), have.iter().map(|o| o.body.len()).sum::<usize>()));
}
