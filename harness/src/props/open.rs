//! C23: opening a path yields the repository that is there, and only that one.
use super::common::*;
use crate::ctx::Ctx;
use crate::git;
use crate::model::*;
use crate::objgen;
use crate::obs::{self, Obs};
use crate::rng::{hash64, Rng};
use crate::sha1;
use crate::sys::{self, Act, Ev, Monitor, K};
use rusty_git::reference::Error as RefError;
use rusty_git::repository::{OpenError, Repository};
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};

/// A repository with something of its own, and something under a name all of them use.
struct Own {
    repo: Repo,
    objs: Vec<Obj>,
    absent: Vec<Oid>,
    main: Obj,
}

fn own(rng: &mut Rng, dir: &Path) -> Own {
    let repo = Repo::init(dir);
    let mut objs = vec![Obj::blob(rng.bytes(30)), objgen::any_obj(rng, 500)];
    for o in &objs {
        repo.add_loose(o, rng);
    }
    if rng.chance(1, 2) {
        let (es, p) = small_pack(rng, 4);
        repo.add_pack(&p);
        objs.extend(es.into_iter().map(|e| e.obj));
    }
    let main = objs[0].clone();
    repo.add_ref("refs/heads/main", format!("{}\n", main.hex()).as_bytes());
    repo.add_ref("HEAD", b"ref: refs/heads/main\n");
    Own { repo, objs, absent: vec![], main }
}

#[derive(Debug, PartialEq)]
enum Opened {
    Ok,
    NotFound(PathBuf),
    Io(String),
}

fn show(r: &Result<Repository, OpenError>) -> Opened {
    match r {
        Ok(_) => Opened::Ok,
        Err(OpenError::NotFound(p)) => Opened::NotFound(p.clone()),
        Err(e) => Opened::Io(obs::chain(e)),
    }
}

/// What stat says about `<path>/.git`.
fn truth(p: &Path) -> Result<bool, i32> {
    let mut b = p.join(".git").as_os_str().as_bytes().to_vec();
    if b.contains(&0) {
        return Err(libc::EINVAL);
    }
    b.push(0);
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    let r = unsafe { libc::stat(b.as_ptr().cast(), &mut st) };
    if r == 0 {
        Ok(st.st_mode & libc::S_IFMT == libc::S_IFDIR)
    } else {
        Err(unsafe { *libc::__errno_location() })
    }
}

struct FailStat(i32, u64);
impl Monitor for FailStat {
    fn before(&mut self, ev: &Ev) -> Act {
        match ev.kind {
            K::Stat | K::Open | K::Opendir if ev.in_root => {
                self.1 += 1;
                Act::Fail(self.0)
            }
            _ => Act::Pass,
        }
    }
}

/// The handle answers from the repository it was opened on.
fn is_this(c: &mut Ctx, rng: &mut Rng, r: &Repository, w: &Own, others: &[&Own], label: &str) -> bool {
    let o = rng.pick(&w.objs).clone();
    if !expect_present(c, r.object_database(), &o, label) {
        return false;
    }
    for x in others {
        let p = rng.pick(&x.objs);
        if w.objs.iter().all(|o| o.id() != p.id()) {
            expect_absent(c, r.object_database(), &p.id(), &format!("{label}, asked for an object of another repository"));
            if c.failed() {
                return false;
            }
            c.count("foreign_reads", 1);
        }
    }
    if let Some(a) = w.absent.first() {
        expect_absent(c, r.object_database(), a, label);
    }
    let d = format!("{label}: refs/heads/main");
    let Some(x) = c.op(|| d.clone(), || {
        let x = if rng.chance(1, 2) { r.reference_database().head() } else { r.reference_database().reference(b"refs/heads/main") };
        x.and_then(|x| x.peel(r)).map(|x| obs::oid(*x.id())).map_err(|e| obs::chain(&e))
    }) else { return false };
    if x != Ok(w.main.id()) {
        c.violate("other-repository", format!("{d} is {:?} instead of {}", x.map(|i| sha1::hex(&i)), w.main.hex()));
    }
    let Some(l) = c.op(|| format!("{label}: list"), || r.reference_database().reference_names().map_err(|e| obs::chain(&e))) else { return false };
    if l != Ok(vec![b"refs/heads/main".to_vec()]) {
        c.violate("other-repository", format!("{label}: lists {l:?}"));
    }
    c.count("answers_checked", 1);
    !c.failed()
}

struct Place {
    path: PathBuf,
    /// index of the repository it is, if it is one
    is: Option<usize>,
    why: &'static str,
}

pub fn c23(c: &mut Ctx) {
    let mut rng = c.rng.fork();
    if c.case % 4 == 3 {
        return independent(c, &mut rng);
    }
    let top = c.fresh("top");
    let pick_name = |rng: &mut Rng, i: usize| -> OsString {
        let mut v: Vec<u8> = match rng.below(9) {
            0 => b"with space".to_vec(),
            1 => vec![0xff, 0xfe, b'x'],
            2 => "ünï".as_bytes().to_vec(),
            3 => b"-dash".to_vec(),
            4 => b"name.git".to_vec(),
            5 => b"new\nline".to_vec(),
            6 => vec![b'l'; 200],
            7 => b"back\\slash".to_vec(),
            _ => b"plain".to_vec(),
        };
        v.extend(format!("{i}").into_bytes());
        OsString::from_vec(v)
    };
    // an outer repository around everything else, in two cases out of three
    let mut owns: Vec<Own> = vec![];
    let outer = c.case % 3 != 0;
    if outer {
        owns.push(own(&mut rng, &top));
    }
    let inner = top.join(pick_name(&mut rng, 0));
    owns.push(own(&mut rng, &inner));
    let k = owns.len() - 1;
    let second = top.join(pick_name(&mut rng, 1)).join(pick_name(&mut rng, 2));
    owns.push(own(&mut rng, &second));

    let mut places: Vec<Place> = vec![
        Place { path: inner.clone(), is: Some(k), why: "a repository" },
        Place { path: second.clone(), is: Some(k + 1), why: "a repository" },
        Place { path: inner.join(""), is: Some(k), why: "a trailing slash" },
        Place { path: inner.join("."), is: Some(k), why: "a dot" },
        Place { path: second.join("..").join(second.file_name().unwrap()), is: Some(k + 1), why: "dot-dot" },
        Place { path: top.clone(), is: outer.then_some(0), why: "the outer directory" },
        Place { path: inner.join(".git"), is: None, why: "the .git directory itself" },
        Place { path: inner.join("nothing"), is: None, why: "a missing directory" },
        Place { path: inner.join("nothing/at/all"), is: None, why: "a missing directory" },
    ];
    // .git in several shapes
    let mk = |n: &str| {
        let d = top.join(n);
        std::fs::create_dir_all(&d).unwrap();
        d
    };
    let sub = inner.join("src/deep");
    std::fs::create_dir_all(&sub).unwrap();
    places.push(Place { path: sub, is: None, why: "a subdirectory of a repository" });
    places.push(Place { path: mk("empty"), is: None, why: "an empty directory" });
    let d = mk("gitfile");
    std::fs::write(d.join(".git"), format!("gitdir: {}\n", inner.join(".git").display())).unwrap();
    places.push(Place { path: d.clone(), is: None, why: "a .git file" });
    places.push(Place { path: d.join(".git"), is: None, why: "below a file" });
    let d = mk("linked-git");
    symlink(inner.join(".git"), d.join(".git")).unwrap();
    places.push(Place { path: d, is: Some(k), why: "a symbolic link as .git" });
    let d = mk("dangling-git");
    symlink(top.join("none"), d.join(".git")).unwrap();
    places.push(Place { path: d, is: None, why: "a dangling .git link" });
    let d = mk("loop-git");
    symlink(d.join(".git"), d.join(".git")).unwrap();
    places.push(Place { path: d, is: None, why: "a .git link to itself" });
    let d = mk("bare");
    for x in ["objects/pack", "refs/heads"] {
        std::fs::create_dir_all(d.join(x)).unwrap();
    }
    std::fs::write(d.join("HEAD"), b"ref: refs/heads/main\n").unwrap();
    places.push(Place { path: d, is: None, why: "a bare repository" });
    for n in ["_git", ".GIT", ".git ", ".gitx", "git", "dot.git"] {
        let d = mk(&format!("other-{}", n.trim()));
        Repo::init(&d.join("x"));
        std::fs::rename(d.join("x/.git"), d.join(n)).unwrap();
        std::fs::remove_dir(d.join("x")).unwrap();
        places.push(Place { path: d, is: None, why: "a directory with another name than .git" });
    }
    symlink(&inner, top.join("link")).unwrap();
    places.push(Place { path: top.join("link"), is: Some(k), why: "a symbolic link to a repository" });
    places.push(Place { path: top.join("link/src/.."), is: Some(k), why: "dot-dot behind a link" });
    places.push(Place { path: inner.join("l".repeat(300)), is: None, why: "a name too long" });
    places.push(Place { path: PathBuf::from(OsString::from_vec([inner.as_os_str().as_bytes(), b"\0"].concat())), is: None, why: "a NUL byte" });
    rng.shuffle(&mut places);

    let cwd = std::env::current_dir().ok();
    // the working directory is a repository, or inside of one; so is what the environment names
    let here = if rng.chance(1, 2) { second.clone() } else { inner.join("src") };
    if std::env::set_current_dir(&here).is_err() {
        return c.trouble("chdir");
    }
    if rng.chance(1, 2) {
        for (k, v) in [("GIT_DIR", second.join(".git")), ("GIT_WORK_TREE", second.clone()), ("GIT_OBJECT_DIRECTORY", second.join(".git/objects")), ("GIT_CEILING_DIRECTORIES", top.clone())] {
            std::env::set_var(k, v);
        }
    }
    places_checked(c, &mut rng, &places, &owns, &here, &top);
    for k in ["GIT_DIR", "GIT_WORK_TREE", "GIT_OBJECT_DIRECTORY", "GIT_CEILING_DIRECTORIES"] {
        std::env::remove_var(k);
    }
    if let Some(d) = cwd {
        let _ = std::env::set_current_dir(d);
    }
}

/// A relative path from one directory to another, both below `top`.
fn relative(from: &Path, to: &Path, top: &Path) -> Option<PathBuf> {
    let ups = from.strip_prefix(top).ok()?.components().count();
    let mut p = PathBuf::new();
    for _ in 0..ups {
        p.push("..");
    }
    // joined byte by byte, so that trailing dots and slashes stay
    let rest = to.as_os_str().as_bytes().strip_prefix(top.as_os_str().as_bytes())?;
    let mut v = p.into_os_string().into_vec();
    let rest = rest.strip_prefix(b"/").unwrap_or(rest);
    if v.is_empty() {
        v.push(b'.');
    }
    if !rest.is_empty() {
        v.push(b'/');
        v.extend_from_slice(rest);
    }
    Some(PathBuf::from(OsString::from_vec(v)))
}

fn places_checked(c: &mut Ctx, rng: &mut Rng, places: &[Place], owns: &[Own], here: &Path, top: &Path) {
    let mut tried = vec![];
    for pl in places {
        let mut path = pl.path.clone();
        let mut how = "absolute";
        if rng.chance(1, 3) {
            if let Some(p) = relative(here, &pl.path, top) {
                path = p;
                how = "relative";
            }
        }
        let d = format!("Repository::open({path:?}) ({}, {how})", pl.why);
        let want = truth(&path);
        // the generator and the system agree on what is there
        if matches!(want, Ok(true)) != pl.is.is_some() {
            return c.trouble(format!("{d}: stat says {want:?}"));
        }
        let Some(r) = c.op(|| d.clone(), || match path.to_str() {
            Some(s) if rng.chance(1, 2) => Repository::open(s),
            _ => Repository::open(&path),
        }) else { return };
        c.count("opens", 1);
        c.count(if pl.is.is_some() { "found" } else { "refused" }, 1);
        if how == "relative" {
            c.count("relative_paths", 1);
        }
        let got = show(&r);
        c.eval(hash64(format!("{} {d}", c.case).as_bytes()), true);
        match (&want, &got) {
            (Ok(true), Opened::Ok) => {}
            (Ok(true), g) => return c.violate("repository-refused", format!("{d}: {g:?}")),
            (_, Opened::Ok) => return c.violate("opened-nothing", format!("{d} succeeds, though stat of its .git says {want:?}")),
            (Ok(false) | Err(libc::ENOENT), Opened::NotFound(p)) if p.as_os_str() == path.as_os_str() => {}
            (Ok(false) | Err(libc::ENOENT), g) => return c.violate("not-found-other", format!("{d}: {g:?} instead of NotFound of that path")),
            // a path through a file: either
            (Err(libc::ENOTDIR), _) => {}
            (Err(_), Opened::Io(_)) => {}
            (Err(e), Opened::NotFound(_)) => return c.violate("error-as-not-found", format!("{d}: reported as not found, though stat fails with {}", std::io::Error::from_raw_os_error(*e))),
        }
        if let (Ok(r), Some(i)) = (&r, pl.is) {
            let others: Vec<&Own> = owns.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, o)| o).collect();
            if !is_this(c, rng, r, &owns[i], &others, &d) {
                return;
            }
        }
        drop(r);
        if how == "absolute" && rng.chance(1, 3) {
            // an error from the system is neither a repository nor the lack of one
            let e = *rng.pick(&[libc::EIO, libc::EACCES, libc::ENOMEM, libc::ELOOP, libc::ENAMETOOLONG, libc::EOVERFLOW]);
            let mut m = FailStat(e, 0);
            let Some(r) = c.op(|| format!("{d} with errno {e}"), || sys::monitored(&mut m, || Repository::open(&path))) else { return };
            if m.1 > 0 {
                c.count("faulted_opens", 1);
                match show(&r) {
                    Opened::Io(_) => {}
                    g => return c.violate("error-hidden", format!("{d} while its system calls fail with {}: {g:?}", std::io::Error::from_raw_os_error(e))),
                }
            }
        }
        tried.push(format!("{} {how}: {got:?}", pl.why));
    }
    // no more than a .git directory: everything is missing, nothing is an error
    let d = top.join("hollow");
    std::fs::create_dir_all(d.join(".git")).unwrap();
    let parts: Vec<&&str> = ["refs", "refs/heads", "objects", "objects/pack", "objects/00"].iter().filter(|_| rng.chance(1, 3)).collect();
    for p in &parts {
        std::fs::create_dir_all(d.join(".git").join(p)).unwrap();
    }
    let label = format!("a .git directory with only {parts:?}");
    let Some(r) = c.op(|| format!("open {label}"), || Repository::open(&d)) else { return };
    let r = match r {
        Ok(r) => r,
        Err(e) => return c.violate("repository-refused", format!("{label}: {}", obs::chain(&e))),
    };
    let id = rng.pick(&rng.clone().pick(owns).objs).id();
    expect_absent(c, r.object_database(), &id, &label);
    let Some(x) = c.op(|| label.clone(), || {
        let rd = r.reference_database();
        let missing = |x: Result<rusty_git::reference::Reference, RefError>| match x {
            Err(RefError::ReferenceNotFound) => Ok(()),
            Err(e) => Err(obs::chain(&e)),
            Ok(_) => Err("found".into()),
        };
        missing(rd.head())?;
        missing(rd.reference(b"refs/heads/main"))?;
        match rd.reference_names() {
            Ok(l) if l.is_empty() => Ok(()),
            Ok(l) => Err(format!("lists {l:?}")),
            Err(e) => Err(obs::chain(&e)),
        }
    }) else { return };
    if let Err(e) = x {
        return c.violate("hollow-repository", format!("{label}: {e}"));
    }
    c.count("hollow_repositories", 1);
    c.sample(|| tried.join("; "));
}

/// Several repositories at once that share names and ids, but not contents.
fn independent(c: &mut Ctx, rng: &mut Rng) {
    let n = rng.range(2, 5);
    let shared: Vec<Obj> = (0..3).map(|_| objgen::any_obj(rng, 800)).collect();
    let (ses, spack) = small_pack(rng, 3);
    let mut owns = vec![];
    let mut damaged: Vec<Option<Oid>> = vec![];
    for i in 0..n {
        let dir = c.fresh(&format!("i{i}"));
        let mut w = own(rng, &dir);
        for (k, o) in shared.iter().enumerate() {
            if shared[..k].contains(o) {
                continue;
            }
            // here, or not here
            if rng.chance(1, 2) {
                if w.objs.iter().all(|x| x.id() != o.id()) {
                    w.repo.add_loose(o, rng);
                    w.objs.push(o.clone());
                }
            } else if w.objs.iter().all(|x| x.id() != o.id()) {
                w.absent.insert(0, o.id());
            }
        }
        // the same pack in some of them
        if rng.chance(1, 2) {
            w.repo.add_pack(&spack);
            for e in &ses {
                if w.objs.iter().all(|x| x.id() != e.obj.id()) {
                    w.objs.push(e.obj.clone());
                }
                w.absent.retain(|a| *a != e.obj.id());
            }
        }
        // an object that is damaged here only
        let d = w.absent.first().copied().filter(|_| rng.chance(1, 3));
        if let Some(d) = d {
            w.repo.add_loose_raw(&d, b"\x78\x9cnot an object");
            w.absent.retain(|a| *a != d);
        }
        damaged.push(d);
        owns.push(w);
    }
    let mut handles = vec![];
    for w in &owns {
        match c.op(|| "open".into(), || Repository::open(&w.repo.path)) {
            Some(Ok(r)) => handles.push(r),
            Some(Err(e)) => return c.violate("repository-refused", obs::chain(&e)),
            None => return,
        }
    }
    let mut key = vec![];
    for step in 0..rng.range(15, 40) {
        let i = rng.below(n);
        let label = format!("step {step}, repository {i} of {n}");
        if rng.chance(1, 10) {
            // reopen
            match c.op(|| label.clone(), || Repository::open(&owns[i].repo.path)) {
                Some(Ok(r)) => handles[i] = r,
                Some(Err(e)) => return c.violate("repository-refused", obs::chain(&e)),
                None => return,
            }
        }
        let others: Vec<&Own> = owns.iter().enumerate().filter(|(j, w)| *j != i && damaged[i].map_or(true, |d| w.objs.iter().all(|o| o.id() != d))).map(|(_, o)| o).collect();
        if !is_this(c, rng, &handles[i], &owns[i], &others, &label) {
            return;
        }
        if let Some(d) = damaged[i] {
            let Some(x) = c.op(|| label.clone(), || obs::raw(handles[i].object_database(), &d)) else { return };
            if let Obs::Ok(_) | Obs::NotFound(_) = x {
                return c.violate("other-repository", format!("{label}: {} is damaged in this repository, but: {}", sha1::hex(&d), x.show()));
            }
        }
        if rng.chance(1, 6) {
            // written here, so here from now on, and nowhere else
            let o = if rng.chance(1, 2) { Obj::blob(rng.bytes(20)) } else { rng.pick(&shared).clone() };
            if damaged[i] != Some(o.id()) {
                let Some(x) = c.op(|| format!("{label}: write"), || handles[i].object_database().write_object(&o.enc()).map(obs::oid).map_err(|e| obs::chain(&e))) else { return };
                if x != Ok(o.id()) {
                    return c.violate("write-failed", format!("{label}: {x:?}"));
                }
                owns[i].absent.retain(|a| *a != o.id());
                if owns[i].objs.iter().all(|x| x.id() != o.id()) {
                    owns[i].objs.push(o.clone());
                }
                if !expect_present(c, handles[i].object_database(), &o, &label) {
                    return;
                }
                c.count("writes", 1);
            }
        }
        if rng.chance(1, 4) {
            // another process adds objects to one of them
            let j = rng.below(n);
            let mut add: Vec<Obj> = (0..rng.range(1, 3)).map(|_| objgen::any_obj(rng, 300)).collect();
            if let Some(a) = shared.iter().find(|o| owns[j].absent.contains(&o.id())) {
                if rng.chance(1, 2) {
                    add.push(a.clone());
                }
            }
            let mut seen = std::collections::HashSet::new();
            add.retain(|o| seen.insert(o.id()) && damaged[j] != Some(o.id()) && owns[j].objs.iter().all(|x| x.id() != o.id()));
            if add.is_empty() {
                continue;
            }
            // asked for before, in any of them
            for o in &add {
                for k in 0..n {
                    if rng.chance(1, 3) && owns[k].absent.contains(&o.id()) | (damaged[k] != Some(o.id()) && owns[k].objs.iter().all(|x| x.id() != o.id())) {
                        expect_absent(c, handles[k].object_database(), &o.id(), &format!("{label}: before it is added to repository {j}, in repository {k}"));
                    }
                }
            }
            if rng.chance(1, 2) {
                let es: Vec<Entry> = add.iter().map(|o| Entry { obj: o.clone(), store: Store::Whole, delta: vec![] }).collect();
                owns[j].repo.add_pack(&build_pack(&es, &PackOpts::default(), rng));
            } else {
                for o in &add {
                    owns[j].repo.add_loose(o, rng);
                }
            }
            // not in the others, and here
            for o in &add {
                let mut order: Vec<usize> = (0..n).collect();
                rng.shuffle(&mut order);
                for k in order {
                    let has = k == j || owns[k].objs.iter().any(|x| x.id() == o.id());
                    let l = format!("{label}: added to repository {j} by another process, read in repository {k}");
                    if damaged[k] == Some(o.id()) {
                        continue;
                    }
                    if has {
                        if !expect_present(c, handles[k].object_database(), o, &l) {
                            return;
                        }
                    } else {
                        expect_absent(c, handles[k].object_database(), &o.id(), &l);
                    }
                }
                owns[j].absent.retain(|a| *a != o.id());
                owns[j].objs.push(o.clone());
            }
            c.count("added_by_others", add.len() as u64);
        }
        key.push(i as u8);
    }
    c.count("side_by_side", 1);
    if c.case % 24 == 3 {
        let i = rng.below(n);
        let ids: Vec<Oid> = owns[i].objs.iter().map(|o| o.id()).collect();
        match git::cat(&owns[i].repo.path, &ids) {
            Ok(v) => {
                for (g, w) in v.iter().zip(&owns[i].objs) {
                    if g.as_ref() != Some(w) {
                        return c.violate("git-disagrees", format!("git does not read {} in repository {i}", w.hex()));
                    }
                }
                c.count("git_checked", 1);
            }
            Err(e) => c.trouble(format!("git: {e}")),
        }
    }
    c.eval(hash64(&[&key[..], &c.case.to_le_bytes()].concat()), n > 1);
}
