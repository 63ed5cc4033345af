//! C14: references resolve as git resolves them. C15: enumeration. C16: lookups stay inside.
use crate::ctx::Ctx;
use crate::git;
use crate::model::*;
use crate::objgen;
use crate::obs;
use crate::rng::{hash64, Rng};
use crate::sha1;
use crate::sys::{self, Act, Ev, Monitor, K};
use rusty_git::reference::{Error as RefError, Reference, ReferenceTarget};
use rusty_git::repository::Repository;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

#[derive(Clone, Debug, PartialEq)]
enum Val {
    Direct(Oid),
    Sym(Vec<u8>),
    /// a file whose content is no value
    Broken(Vec<u8>),
}

#[derive(Default)]
struct Store {
    loose: BTreeMap<Vec<u8>, Val>,
    packed: BTreeMap<Vec<u8>, Oid>,
}

impl Store {
    fn get(&self, n: &[u8]) -> Option<Val> {
        self.loose.get(n).cloned().or_else(|| self.packed.get(n).map(|o| Val::Direct(*o)))
    }
    /// a longer or shorter path than a reference that is there
    fn clashes(&self, n: &[u8]) -> bool {
        let under = |a: &[u8], b: &[u8]| a.len() > b.len() && a.starts_with(b) && a[b.len()] == b'/';
        self.loose.keys().chain(self.packed.keys()).any(|k| k == n || under(k, n) || under(n, k))
    }
    fn resolve(&self, n: &[u8]) -> Res {
        let mut n = n.to_vec();
        let mut hops = 0;
        loop {
            match self.get(&n) {
                None => return Res::Dangling,
                Some(Val::Broken(_)) => return Res::Broken,
                Some(Val::Direct(o)) => return if hops > 4 { Res::TooDeep } else { Res::Id(o, hops) },
                Some(Val::Sym(t)) => {
                    hops += 1;
                    if hops > 60 {
                        return Res::Cycle;
                    }
                    n = t;
                }
            }
        }
    }
}

#[derive(Debug, PartialEq)]
enum Res {
    Id(Oid, usize),
    Dangling,
    Cycle,
    Broken,
    /// longer than git follows
    TooDeep,
}

fn component(rng: &mut Rng) -> Vec<u8> {
    match rng.below(12) {
        0 => b"a".to_vec(),
        1 => b"b".to_vec(),
        2 => b"HEAD".to_vec(),
        3 => "\u{fc}ber-\u{4e2d}".as_bytes().to_vec(),
        4 => vec![0xff, 0xfe, b'x'],
        5 => b"v1.2.3-rc.1".to_vec(),
        6 => b"lock".to_vec(),
        7 => b"x.lockx".to_vec(),
        8 => b"refs".to_vec(),
        9 => b"feature+%40#!$&'()=,;{}|\"<>".to_vec(),
        10 => {
            let n = rng.range(20, 120);
            (0..n).map(|_| b'a' + (rng.byte() % 26)).collect()
        }
        _ => {
            let n = rng.range(1, 6);
            (0..n).map(|_| *rng.pick(b"abcdefXYZ019_-")).collect()
        }
    }
}

fn refname(rng: &mut Rng, ns: Option<&str>) -> Vec<u8> {
    let ns = ns.map(|s| s.to_string()).unwrap_or_else(|| rng.pick(&["heads", "heads", "tags", "remotes/origin", "remotes/up", "notes", "stash2", "heads/feature"]).to_string());
    let mut v = b"refs/".to_vec();
    v.extend_from_slice(ns.as_bytes());
    let deep = if rng.chance(1, 40) { rng.range(9, 60) } else { 0 };
    for _ in 0..deep {
        v.push(b'/');
        let n = rng.range(1, 4);
        v.extend((0..n).map(|_| *rng.pick(b"abcxyz09_-")));
    }
    for _ in 0..*rng.pick(&[1usize, 1, 1, 2, 2, 3, 5]) {
        v.push(b'/');
        let mut c = component(rng);
        // "-" at the start is legal for a ref, but ".lock" at the end and a dot first are not
        if c.ends_with(b".lock") || c.starts_with(b".") || c.ends_with(b".") {
            c = b"c".to_vec();
        }
        v.extend(c);
    }
    v
}

/// git-check-ref-format(1), names without a slash allowed.
fn valid_name(n: &[u8]) -> bool {
    let has = |c: &[u8], x: &[u8]| c.windows(x.len()).any(|w| w == x);
    n != b"@"
        && !n.ends_with(b".")
        && n.split(|&b| b == b'/').all(|c| {
            !c.is_empty()
                && !c.starts_with(b".")
                && !c.ends_with(b".lock")
                && !has(c, b"..")
                && !has(c, b"@{")
                && !c.iter().any(|&b| b < 0x20 || b == 0x7f || b" ~^:?*[\\".contains(&b))
        })
}

/// The same path, spelled as no reference is.
fn respelled(rng: &mut Rng, n: &[u8]) -> Vec<u8> {
    let at: Vec<usize> = (0..n.len()).filter(|&i| n[i] == b'/').collect();
    if at.is_empty() {
        return match rng.below(3) {
            0 => [b"./", n].concat(),
            1 => [n, b"/"].concat(),
            _ => [n, b"/."].concat(),
        };
    }
    let i = *rng.pick(&at);
    match rng.below(6) {
        0 => [&n[..i], b"/", &n[i..]].concat(),
        1 => [&n[..i], b"/.", &n[i..]].concat(),
        2 => [b"./", n].concat(),
        3 => [n, b"/"].concat(),
        4 => [n, b"/."].concat(),
        _ => [&n[..i], b"/././", &n[i + 1..]].concat(),
    }
}

/// A name that git refuses, though a file can have it.
fn bad_name(rng: &mut Rng, ns: Option<&str>) -> Vec<u8> {
    let ns = ns.map(|s| s.to_string()).unwrap_or_else(|| rng.pick(&["heads", "heads/bad-names", "tags", "remotes/origin"]).to_string());
    let c: Vec<u8> = match rng.below(14) {
        0 => b"a..b".to_vec(),
        1 => b"x.lock".to_vec(),
        2 => b".x".to_vec(),
        3 => b"x.".to_vec(),
        4 => b"a@{b".to_vec(),
        5 => b"d.lock/x".to_vec(),
        6 => b".d/x".to_vec(),
        7 => b"d../x".to_vec(),
        8 => b"e@{0}/x".to_vec(),
        9 => vec![b'k', rng.below(9) as u8 + 1, b'l'],
        10 => vec![b'k', rng.below(18) as u8 + 14, b'l'],
        11 => vec![b'k', 0x7f],
        12 => b"back\\slash".to_vec(),
        _ => vec![b'k', *rng.pick(b" ~^:?*["), b'l'],
    };
    let n = [b"refs/", ns.as_bytes(), b"/", &c[..]].concat();
    assert!(!valid_name(&n));
    n
}

fn write_ref(repo: &Repo, name: &[u8], content: &[u8]) -> std::io::Result<()> {
    use std::os::unix::ffi::OsStrExt;
    let p = repo.git().join(std::ffi::OsStr::from_bytes(name));
    std::fs::create_dir_all(p.parent().unwrap())?;
    std::fs::write(p, content)
}

fn shown(n: &[u8]) -> String {
    String::from_utf8_lossy(n).escape_debug().to_string()
}

/// A value as git itself, or a tool git understands, writes it.
fn direct_bytes(rng: &mut Rng, o: &Oid) -> Vec<u8> {
    let h = sha1::hex(o);
    match rng.below(10) {
        0 => h.into_bytes(),
        1 => h.to_uppercase().into_bytes(),
        2 => format!("{h}\r\n").into_bytes(),
        3 => format!("{h} \n").into_bytes(),
        4 => format!("{h}\n\n").into_bytes(),
        5 => format!("{h}\t\tnot-for-merge\tbranch 'x' of /y\n").into_bytes(),
        6 => format!("{h} some words\nand lines\n").into_bytes(),
        _ => format!("{h}\n").into_bytes(),
    }
}
fn sym_bytes(rng: &mut Rng, t: &[u8]) -> Vec<u8> {
    let (a, b): (&[u8], &[u8]) = match rng.below(9) {
        0 => (b"ref: ", b""),
        1 => (b"ref:", b"\n"),
        2 => (b"ref:\t", b"\n"),
        3 => (b"ref:   ", b"\n"),
        4 => (b"ref: ", b" \n"),
        5 => (b"ref: ", b"\r\n"),
        6 => (b"ref: ", b"\n\n"),
        _ => (b"ref: ", b"\n"),
    };
    [a, t, b].concat()
}

/// What git takes for a broken reference. (Lines that are empty or comments, before the value,
/// are skipped by design here and not in git: not claimed.)
fn broken_bytes(rng: &mut Rng, o: &Oid) -> Vec<u8> {
    let h = sha1::hex(o);
    match rng.below(14) {
        0 | 1 | 2 => vec![],
        3 => b"\n".to_vec(),
        4 => h[..39].as_bytes().to_vec(),
        5 => format!("{}\n", &h[..rng.range(1, 39)]).into_bytes(),
        6 => format!("{h}0\n").into_bytes(),
        7 => format!("{h}x\n").into_bytes(),
        8 => format!(" {h}\n").into_bytes(),
        9 => format!("{}", &h[..38]).into_bytes(),
        10 => format!("g{}\n", &h[1..]).into_bytes(),
        11 => rng.pick(&[&b"refs/heads/master\n"[..], b"refs/heads/a", b"HEAD\n", b"./x\n", b"/", b"heads/a b/c\n", b"REF: refs/heads/a\n", b"ref refs/heads/a\n", b"ref:\n", b"ref: \n"]).to_vec(),
        _ => format!("{}-{}\n", &h[..20], &h[20..39]).into_bytes(),
    }
}

/// The same name but for the case of one letter.
fn other_case(rng: &mut Rng, n: &[u8]) -> Vec<u8> {
    let mut v = n.to_vec();
    let at: Vec<usize> = (10.min(n.len())..n.len()).filter(|&i| n[i].is_ascii_alphabetic()).collect();
    if !at.is_empty() {
        v[*rng.pick(&at)] ^= 0x20;
    }
    v
}

/// Another name that a sloppy comparison takes for this one.
fn kin(rng: &mut Rng, n: &[u8]) -> Vec<u8> {
    let last = n.iter().rposition(|&b| b == b'/').map_or(0, |i| i + 1);
    let v = match rng.below(10) {
        0 | 1 | 2 => other_case(rng, n),
        3 => [n, *rng.pick(&[&b"-"[..], b"0", b"!", b"x", b".1", b"~"])].concat(),
        4 => n[..n.len() - 1].to_vec(),
        // the same last part elsewhere
        5 => [&n[..last], b"in/", &n[last..]].concat(),
        6 => [&b"refs/"[..], *rng.pick(&[&b"heads/"[..], b"tags/", b"remotes/origin/", b"remotes/"]), &n[last..]].concat(),
        7 => {
            // below a directory with the other name
            let at = 5 + n[5.min(n.len())..].iter().position(|&b| b == b'/').map_or(0, |i| i + 1);
            [&b"refs/"[..], *rng.pick(&[&b"heads/"[..], b"tags/", b"remotes/"]), &n[at.min(n.len())..]].concat()
        }
        8 => [&n[..last], "e\u{301}\u{e9}".as_bytes(), &n[last..]].concat(),
        _ => [&n[..last], "\u{e9}e\u{301}".as_bytes(), &n[last..]].concat(),
    };
    if valid_name(&v) && v.starts_with(b"refs/") && v.iter().filter(|&&b| b == b'/').count() > 1 {
        v
    } else {
        n.to_vec()
    }
}

fn pool(c: &mut Ctx, rng: &mut Rng, repo: &Repo) -> Vec<Obj> {
    let mut v = vec![];
    let tree = Obj::new(Kind::Tree, vec![]);
    repo.add_loose(&tree, rng);
    for _ in 0..2 {
        let mut t = objgen::commit(rng);
        t.tree = tree.id();
        t.parents.clear();
        let o = t.obj();
        repo.add_loose(&o, rng);
        v.push(o);
    }
    let mut tag = objgen::tag(rng);
    tag.object = v[0].id();
    tag.kind = Kind::Commit;
    let tag = tag.obj();
    let blob = Obj::blob(format!("blob of case {}", c.case).into_bytes());
    let es: Vec<Entry> = [&tag, &blob].iter().map(|o| Entry { obj: (*o).clone(), store: Store0::Whole, delta: vec![] }).collect();
    let p = build_pack(&es, &PackOpts::default(), rng);
    repo.add_pack(&p);
    v.push(tag);
    v.push(blob);
    v.push(tree);
    v
}
use crate::model::Store as Store0;

fn packed_refs(rng: &mut Rng, s: &Store, objs: &[Obj]) -> Vec<u8> {
    let peeled = rng.chance(2, 3);
    // only files that say so are sorted (older versions of git, other tools)
    let sorted = rng.chance(1, 2);
    let mut v: Vec<u8> = match (peeled, sorted) {
        (true, true) => b"# pack-refs with: peeled fully-peeled sorted \n".to_vec(),
        (true, false) => rng.pick(&[&b"# pack-refs with: peeled fully-peeled \n"[..], b"# pack-refs with: peeled \n"]).to_vec(),
        (false, true) => b"# pack-refs with: sorted \n".to_vec(),
        (false, false) => vec![],
    };
    let mut all: Vec<(Vec<u8>, Oid)> = s.packed.iter().map(|(n, o)| (n.clone(), *o)).collect();
    // names that are none
    if rng.chance(1, 5) {
        for _ in 0..rng.range(1, 3) {
            let n = bad_name(rng, None);
            if !all.iter().any(|x| x.0 == n) {
                all.push((n, objs[0].id()));
            }
        }
        all.sort();
    }
    if rng.chance(1, 30) {
        // a long file
        let o = objs[0].id();
        let n = if rng.chance(1, 60) { rng.range(66_000, 70_000) } else { rng.range(100, 3000) };
        all.extend((0..n).map(|i| (format!("refs/changes/{:02}/{i}/1", i % 100).into_bytes(), o)));
        all.sort();
    }
    if !sorted {
        rng.shuffle(&mut all);
    }
    for (n, o) in &all {
        v.extend_from_slice(sha1::hex(o).as_bytes());
        v.push(b' ');
        v.extend_from_slice(n);
        v.push(b'\n');
        if peeled && objs[2].id() == *o {
            v.extend_from_slice(format!("^{}\n", objs[0].hex()).as_bytes());
        }
    }
    v
}

fn remove_empty(d: &Path) {
    if let Ok(es) = std::fs::read_dir(d) {
        for e in es.flatten() {
            if e.file_type().map_or(false, |t| t.is_dir()) {
                remove_empty(&e.path());
            }
        }
    }
    let _ = std::fs::remove_dir(d);
}

/// Replaces the file of a reference, as git does or in place; false if something is in the way.
fn put(rng: &mut Rng, repo: &Repo, name: &[u8], content: &[u8]) -> bool {
    use std::os::unix::ffi::OsStrExt;
    let path = repo.git().join(std::ffi::OsStr::from_bytes(name));
    if path.is_dir() {
        remove_empty(&path);
    }
    if rng.chance(1, 4) || name.len() > 200 {
        return write_ref(repo, name, content).is_ok();
    }
    let tmp = [name, b".lock"].concat();
    write_ref(repo, &tmp, content).is_ok() && std::fs::rename(repo.git().join(std::ffi::OsStr::from_bytes(&tmp)), path).is_ok()
}

/// Changes the references while a handle is open; names that were asked for are preferred.
fn shift(c: &mut Ctx, rng: &mut Rng, repo: &Repo, s: &mut Store, objs: &[Obj], asked: &[Vec<u8>], avoid: &BTreeSet<Vec<u8>>) {
    use std::os::unix::ffi::OsStrExt;
    let file = |n: &[u8]| repo.git().join(std::ffi::OsStr::from_bytes(n));
    let in_the_way = |n: &[u8]| avoid.iter().any(|a| a == n || a.starts_with(&[n, b"/"].concat()) || n.starts_with(&[&a[..], b"/"].concat()));
    let id_for = |rng: &mut Rng, n: &[u8]| if n.starts_with(b"refs/heads/") { objs[rng.below(2)].id() } else { rng.pick(objs).id() };
    let mut packed = false;
    for _ in 0..rng.range(1, 6) {
        let refs: Vec<Vec<u8>> = s.loose.keys().filter(|k| k.starts_with(b"refs/")).cloned().collect();
        match rng.below(8) {
            // another value
            0 | 1 if !refs.is_empty() => {
                let n = rng.pick(&refs).clone();
                let v = if rng.chance(1, 4) && s.loose.len() > 1 {
                    Val::Sym(rng.pick(&refs).clone())
                } else {
                    Val::Direct(id_for(rng, &n))
                };
                let b = match &v {
                    Val::Direct(o) => direct_bytes(rng, o),
                    Val::Sym(t) => sym_bytes(rng, t),
                    Val::Broken(b) => b.clone(),
                };
                if put(rng, repo, &n, &b) {
                    s.loose.insert(n, v);
                }
            }
            // another value of a packed one, of the same length
            2 | 3 if !s.packed.is_empty() => {
                let ks: Vec<Vec<u8>> = s.packed.keys().cloned().collect();
                let n = rng.pick(&ks).clone();
                let id = id_for(rng, &n);
                s.packed.insert(n, id);
                packed = true;
            }
            // packed, and the files removed
            4 => {
                for n in &refs {
                    if let Some(Val::Direct(o)) = s.loose.get(n).cloned() {
                        s.packed.insert(n.clone(), o);
                        s.loose.remove(n);
                        let _ = std::fs::remove_file(file(n));
                        packed = true;
                    }
                }
                if rng.chance(1, 2) {
                    for d in ["heads", "tags", "remotes"] {
                        remove_empty(&repo.git().join("refs").join(d));
                    }
                }
            }
            // deleted
            5 => {
                let ks: Vec<Vec<u8>> = s.loose.keys().chain(s.packed.keys()).filter(|k| k.starts_with(b"refs/")).cloned().collect();
                if !ks.is_empty() {
                    let n = rng.pick(&ks).clone();
                    packed |= s.packed.remove(&n).is_some();
                    if s.loose.remove(&n).is_some() {
                        let _ = std::fs::remove_file(file(&n));
                    }
                }
            }
            // new
            _ => {
                let n = if rng.chance(1, 2) && !asked.is_empty() { rng.pick(asked).clone() } else { refname(rng, None) };
                if !n.starts_with(b"refs/") || n.iter().filter(|&&b| b == b'/').count() < 2 || !valid_name(&n) || n.len() > 1000 || s.clashes(&n) || in_the_way(&n) {
                    continue;
                }
                let id = id_for(rng, &n);
                if rng.chance(1, 2) {
                    s.packed.insert(n, id);
                    packed = true;
                } else {
                    let b = direct_bytes(rng, &id);
                    if put(rng, repo, &n, &b) {
                        s.loose.insert(n, Val::Direct(id));
                    }
                }
            }
        }
        c.count("changes", 1);
    }
    if packed {
        let b = packed_refs(rng, s, objs);
        let p = repo.git().join("packed-refs");
        if b.is_empty() && rng.chance(1, 2) {
            let _ = std::fs::remove_file(p);
        } else {
            std::fs::write(repo.git().join("packed-refs.new"), b).unwrap();
            std::fs::rename(repo.git().join("packed-refs.new"), p).unwrap();
        }
    }
}

fn not_found(e: &RefError) -> bool {
    matches!(e, RefError::ReferenceNotFound)
}

/// Looks a name up and peels it; compares with the model.
fn check_ref(c: &mut Ctx, repo: &Repository, s: &Store, objs: &[Obj], name: &[u8], how: usize) -> bool {
    let label = format!("{} {}", ["reference", "parse_reference", "head"][how], shown(name));
    let rd = repo.reference_database();
    let look = || -> Result<Reference, RefError> {
        match how {
            0 => rd.reference(name),
            1 => rd.parse_reference(name),
            _ => rd.head(),
        }
    };
    c.count("lookups", 1);
    let Some(r) = c.op(|| label.clone(), look) else { return false };
    let want = s.get(name);
    let r = match (r, &want) {
        (Err(e), None) if not_found(&e) => {
            c.count("missing_names", 1);
            return true;
        }
        (Err(e), None) => {
            c.violate("missing-not-reported", format!("{label}: the reference does not exist, but the error is: {}", obs::chain(&e)));
            return false;
        }
        (Ok(r), None) => {
            c.violate("missing-found", format!("{label}: the reference does not exist, but the lookup gives {:?}", r.target()));
            return false;
        }
        // git resolves it to nothing; whether that is seen by the lookup or by peeling is open
        (Err(_), Some(Val::Broken(_))) => {
            c.count("broken_refs", 1);
            return true;
        }
        (Ok(r), Some(Val::Broken(_))) => r,
        (Err(e), Some(v)) => {
            let sig = if not_found(&e) { "existing-not-found" } else { "existing-error" };
            c.violate(sig, format!("{label}: stored as {v:?}, but the lookup fails: {}", obs::chain(&e)));
            return false;
        }
        (Ok(r), Some(v)) => {
            let ok = match (r.target(), v) {
                (ReferenceTarget::Direct(_), Val::Direct(_)) => r.name().is_none(),
                (ReferenceTarget::Symbolic(y), Val::Sym(t)) => y.data().to_vec() == *t && r.name().map(|s| s.as_bytes().to_vec()) == std::str::from_utf8(t).ok().map(|s| s.as_bytes().to_vec()),
                _ => false,
            };
            if !ok {
                c.violate("wrong-target", format!("{label}: stored as {v:?}, reported as {:?} (name {:?})", r.target(), r.name()));
                return false;
            }
            r
        }
    };
    c.count("peels", 1);
    let Some(p) = c.op(|| format!("peel of {label}"), || r.peel(repo)) else { return false };
    let res = s.resolve(name);
    match (&res, p) {
        (Res::Id(id, hops), Ok(o)) => {
            if *hops > 0 {
                c.count("symbolic_peels", 1);
            }
            let got = obs::oid(*o.id());
            match objs.iter().find(|x| x.id() == *id) {
                Some(x) if got == *id => {
                    if let Err(e) = obs::agrees(o.data(), x) {
                        c.violate("wrong-object", format!("peel of {label}: {e}"));
                        return false;
                    }
                }
                Some(_) => {
                    c.violate("wrong-object", format!("peel of {label} gives {}, git resolves it to {}", sha1::hex(&got), sha1::hex(id)));
                    return false;
                }
                None => {
                    c.violate("missing-object-peeled", format!("peel of {label} gives {} although {} is not in the repository", sha1::hex(&got), sha1::hex(id)));
                    return false;
                }
            }
        }
        (Res::Id(id, hops), Err(e)) => {
            if objs.iter().any(|x| x.id() == *id) {
                c.violate("peel-failed", format!("peel of {label} ({hops} symbolic steps to {}): {}", sha1::hex(id), obs::chain(&e)));
                return false;
            }
            c.count("bad_chains", 1);
        }
        (Res::TooDeep, _) => {}
        (_, Err(_)) => c.count("bad_chains", 1),
        (bad, Ok(o)) => {
            c.violate("bad-chain-peeled", format!("peel of {label} gives {} although the chain ends in {bad:?}", o.id()));
            return false;
        }
    }
    true
}

/// Hands out its bytes in pieces, sometimes interrupted, and fails in the end if told so.
struct Pieces<'a> {
    b: &'a [u8],
    rng: Rng,
    fail: bool,
}
impl std::io::Read for Pieces<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        if self.rng.chance(1, 6) {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if self.b.is_empty() && self.fail {
            return Err(std::io::Error::from_raw_os_error(libc::EIO));
        }
        let n = self.rng.range(1, 30).min(out.len()).min(self.b.len());
        out[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        Ok(n)
    }
}

/// The content of a reference gives the same, whether it is looked up, read first and parsed
/// then, or parsed from memory or from any reader.
fn parses_alike(c: &mut Ctx, rng: &mut Rng, repo: &Repository, name: &[u8], content: Option<&[u8]>) -> bool {
    use std::io::Read;
    let rd = repo.reference_database();
    let show = |r: Result<Reference, RefError>| match r {
        Ok(r) => format!("{:?} {:?}", r.target(), r.name()),
        Err(e) => format!("error: {}", obs::chain(&e)),
    };
    let head = name == b"HEAD" && rng.chance(1, 2);
    let Some(read) = c.op(|| format!("read_reference_file {}", shown(name)), || -> Result<Vec<u8>, String> {
        let mut v = vec![];
        if head {
            rd.read_head().map_err(|e| obs::chain(&e))?.read_to_end(&mut v).map_err(|e| e.to_string())?;
        } else {
            rd.read_reference_file(name).map_err(|e| obs::chain(&e))?.read_to_end(&mut v).map_err(|e| e.to_string())?;
        }
        Ok(v)
    }) else { return false };
    let v = match read {
        Ok(v) => v,
        Err(e) => {
            c.violate("existing-not-read", format!("read_reference_file {}: {e}", shown(name)));
            return false;
        }
    };
    if content.map_or(false, |x| x != v) {
        c.violate("wrong-file-content", format!("read_reference_file {} gives {:?}, stored are {:?}", shown(name), shown(&v), shown(content.unwrap_or_default())));
        return false;
    }
    let (r1, r2) = (rng.fork(), rng.fork());
    let Some((looked, bytes, pieces, broken)) = c.op(|| format!("parse {:?}", shown(&v)), || {
        let broken = Reference::from_reader(Pieces { b: &v, rng: r2, fail: true });
        (show(rd.reference(name)), show(Reference::from_bytes(&v)), show(Reference::from_reader(Pieces { b: &v, rng: r1, fail: false })), broken)
    }) else { return false };
    c.count("parsed_directly", 1);
    if looked != bytes || looked != pieces {
        c.violate("parses-differently", format!("{}: looked up it is {looked}, from its bytes {bytes}, from a reader {pieces}", shown(name)));
        return false;
    }
    if let Ok(r) = broken {
        c.violate("reader-error-lost", format!("{}: a reader that fails at the end gives {:?}", shown(name), r.target()));
        return false;
    }
    true
}

pub fn c14(c: &mut Ctx) {
    let mut rng = c.rng.fork();
    if c.case % 240 == 17 {
        return tended(c, &mut rng, false);
    }
    let dir = c.fresh("r");
    let repo = Repo::init(&dir);
    if c.case % 9 == 5 {
        let how = repo.scatter(hash64(&c.case.to_be_bytes()));
        c.count("scattered", !how.is_empty() as u64);
    }
    let objs = pool(c, &mut rng, &repo);
    let mut s = Store::default();
    let absent = objgen::oid(&mut rng);
    let nrefs = rng.range(3, 12);
    let git_ok = c.case % 12 == 0;
    let pick_id = |rng: &mut Rng| if rng.chance(1, 10) { absent } else { rng.pick(&objs).id() };
    // some packed ones
    if rng.chance(1, 2) {
        for _ in 0..rng.range(1, 6) {
            let n = refname(&mut rng, None);
            if !s.clashes(&n) {
                let id = pick_id(&mut rng);
                s.packed.insert(n.clone(), id);
            }
            // names that are easily confused
            let m = kin(&mut rng, &n);
            if rng.chance(1, 2) && !s.clashes(&m) {
                let id = pick_id(&mut rng);
                s.packed.insert(m, id);
            }
        }
    }
    let mut files: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for _ in 0..nrefs {
        // sometimes over a packed one
        let n = if !s.packed.is_empty() && rng.chance(1, 5) {
            let ks: Vec<Vec<u8>> = s.packed.keys().cloned().collect();
            rng.pick(&ks).clone()
        } else {
            let ks: Vec<Vec<u8>> = s.loose.keys().chain(s.packed.keys()).cloned().collect();
            match rng.below(4) {
                0 if !ks.is_empty() => {
                    let near = rng.pick(&ks).clone();
                    kin(&mut rng, &near)
                }
                _ => refname(&mut rng, None),
            }
        };
        if s.loose.contains_key(&n) || (!s.packed.contains_key(&n) && s.clashes(&n)) {
            continue;
        }
        let v = match rng.below(5) {
            0 | 1 => Val::Direct(pick_id(&mut rng)),
            2 => {
                let ks: Vec<Vec<u8>> = s.loose.keys().chain(s.packed.keys()).cloned().collect();
                if rng.chance(1, 2) && !ks.is_empty() {
                    let near = rng.pick(&ks).clone();
                    Val::Sym(kin(&mut rng, &near))
                } else {
                    Val::Sym(refname(&mut rng, None))
                }
            }
            _ => {
                let ks: Vec<Vec<u8>> = s.loose.keys().chain(s.packed.keys()).cloned().collect();
                if ks.is_empty() { Val::Direct(pick_id(&mut rng)) } else { Val::Sym(rng.pick(&ks).clone()) }
            }
        };
        files.push((n.clone(), match &v {
            Val::Direct(o) => direct_bytes(&mut rng, o),
            Val::Sym(t) => sym_bytes(&mut rng, t),
            Val::Broken(b) => b.clone(),
        }));
        s.loose.insert(n, v);
    }
    // a file without a value, often over a packed one
    if rng.chance(1, 3) {
        let n = if !s.packed.is_empty() && rng.chance(2, 3) {
            let ks: Vec<Vec<u8>> = s.packed.keys().cloned().collect();
            rng.pick(&ks).clone()
        } else {
            refname(&mut rng, None)
        };
        if !s.loose.contains_key(&n) && (s.packed.contains_key(&n) || !s.clashes(&n)) {
            let b = broken_bytes(&mut rng, &objs[0].id());
            files.push((n.clone(), b.clone()));
            s.loose.insert(n, Val::Broken(b));
        }
    }
    // a chain of known length, sometimes a cycle
    if rng.chance(1, 2) {
        let n = rng.range(1, 7);
        let cyc = rng.chance(1, 3);
        let end = pick_id(&mut rng);
        for i in 0..n {
            let name = format!("refs/heads/chain{i}").into_bytes();
            if s.clashes(&name) {
                continue;
            }
            let v = if i + 1 < n {
                Val::Sym(format!("refs/heads/chain{}", i + 1).into_bytes())
            } else if cyc {
                Val::Sym(b"refs/heads/chain0".to_vec())
            } else {
                Val::Direct(end)
            };
            files.push((name.clone(), match &v {
                Val::Direct(o) => direct_bytes(&mut rng, o),
                Val::Sym(t) => sym_bytes(&mut rng, t),
            Val::Broken(b) => b.clone(),
            }));
            s.loose.insert(name, v);
        }
    }
    // HEAD, and other names beside it
    let names: Vec<Vec<u8>> = s.loose.keys().chain(s.packed.keys()).cloned().collect();
    let head = match rng.below(6) {
        0 => Val::Direct(pick_id(&mut rng)),
        1 => Val::Sym(refname(&mut rng, Some("heads"))),
        2 if !git_ok => Val::Sym(b"FETCH_HEAD".to_vec()),
        _ => Val::Sym(rng.pick(&names).clone()),
    };
    s.loose.insert(b"HEAD".to_vec(), head.clone());
    files.push((b"HEAD".to_vec(), match &head {
        Val::Direct(o) => direct_bytes(&mut rng, o),
        Val::Sym(t) => sym_bytes(&mut rng, t),
            Val::Broken(b) => b.clone(),
    }));
    for n in [&b"ORIG_HEAD"[..], b"FETCH_HEAD", b"MERGE_HEAD"] {
        if rng.chance(1, 4) {
            let id = pick_id(&mut rng);
            files.push((n.to_vec(), direct_bytes(&mut rng, &id)));
            s.loose.insert(n.to_vec(), Val::Direct(id));
        }
    }
    // a symbolic reference to a name without a slash
    if rng.chance(1, 3) && !s.clashes(b"refs/heads/toplevel") {
        let t = rng.pick(&[&b"HEAD"[..], b"ORIG_HEAD", b"FETCH_HEAD"]).to_vec();
        files.push((b"refs/heads/toplevel".to_vec(), sym_bytes(&mut rng, &t)));
        s.loose.insert(b"refs/heads/toplevel".to_vec(), Val::Sym(t));
    }
    // files whose names no reference can have, and references to them
    let mut strange: Vec<Vec<u8>> = vec![];
    if rng.chance(1, 2) {
        for _ in 0..rng.range(1, 5) {
            let t = if rng.chance(1, 3) && !names.is_empty() { let n = rng.pick(&names).clone(); respelled(&mut rng, &n) } else { bad_name(&mut rng, None) };
            assert!(!valid_name(&t), "{}", shown(&t));
            let there = t.split(|&b| b == b'/').any(|c| c == b"." || c.is_empty());
            if !there {
                let id = objs[0].id();
                let b = direct_bytes(&mut rng, &id);
                if !strange.contains(&t) {
                    files.push((t.clone(), b));
                }
            }
            let n = refname(&mut rng, Some("heads/to-strange"));
            if rng.chance(2, 3) && !s.clashes(&n) {
                let b = [b"ref: ", &t[..], b"\n"].concat();
                files.push((n.clone(), b.clone()));
                s.loose.insert(n, Val::Broken(b));
            }
            strange.push(t);
        }
    }
    for (n, b) in &files {
        if let Err(e) = write_ref(&repo, n, b) {
            return c.trouble(format!("writing {}: {e}", shown(n)));
        }
    }
    if !s.packed.is_empty() {
        let b = packed_refs(&mut rng, &s, &objs);
        std::fs::write(repo.git().join("packed-refs"), b).unwrap();
        // an empty directory left where a packed reference lives
        if rng.chance(1, 3) {
            use std::os::unix::ffi::OsStrExt;
            for n in s.packed.keys() {
                if !s.loose.contains_key(n) {
                    let _ = std::fs::create_dir_all(repo.git().join(std::ffi::OsStr::from_bytes(n)));
                    break;
                }
            }
        }
    }
    let opened = c.op(|| "open".into(), || Repository::open(&dir));
    let Some(Ok(r)) = opened else { return c.violate("open-failed", "Repository::open failed on a valid repository") };

    let mut ask: Vec<Vec<u8>> = s.loose.keys().chain(s.packed.keys()).cloned().collect();
    // names that are not there
    for _ in 0..4 {
        let n = refname(&mut rng, None);
        if s.get(&n).is_none() {
            ask.push(n);
        }
    }
    let present: Vec<Vec<u8>> = ask.iter().filter(|n| n.starts_with(b"refs/")).cloned().collect();
    for _ in 0..4 {
        let p = rng.pick(&present).clone();
        // below one that is there, and a directory above one
        let mut below = p.clone();
        below.extend_from_slice(b"/x");
        if s.get(&below).is_none() {
            ask.push(below);
        }
        let cut = p.iter().rposition(|&b| b == b'/').unwrap();
        if cut > 10 && s.get(&p[..cut]).is_none() {
            ask.push(p[..cut].to_vec());
        }
        let mut longer = p.clone();
        longer.push(b'x');
        if s.get(&longer).is_none() {
            ask.push(longer);
        }
        let shorter = p[..p.len() - 1].to_vec();
        if !shorter.ends_with(b"/") && !shorter.ends_with(b".") && !shorter.ends_with(b".lock") && s.get(&shorter).is_none() {
            ask.push(shorter);
        }
    }
    for _ in 0..3 {
        let p = rng.pick(&present).clone();
        let m = kin(&mut rng, &p);
        if s.get(&m).is_none() && !s.clashes(&m) {
            ask.push(m);
        }
    }
    ask.extend([b"refs/heads".to_vec(), b"refs/tags".to_vec(), b"refs/remotes".to_vec()]);
    for _ in 0..2 {
        let n = if rng.chance(1, 4) { b"HEAD".to_vec() } else { rng.pick(&present).clone() };
        ask.push(respelled(&mut rng, &n));
    }
    ask.push(b"@".to_vec());
    ask.push(bad_name(&mut rng, None));
    c.count("strange_names", strange.len() as u64);
    let avoid: BTreeSet<Vec<u8>> = strange.iter().cloned().collect();
    ask.extend(strange);
    ask.retain(|n| n.len() < 3000);
    if rng.chance(1, 3) {
        // no file can have these names
        let mut n = format!("refs/heads/{}", "a".repeat(*rng.pick(&[256usize, 257, 300, 1000, 4080, 5000]))).into_bytes();
        if rng.chance(1, 2) {
            n = [&b"refs/tags"[..], &b"/abcdefg".repeat(rng.range(520, 900))].concat();
        }
        c.count("too_long_names", 1);
        ask.push(n);
    }
    rng.shuffle(&mut ask);
    for n in &ask {
        let how = rng.below(2);
        if !check_ref(c, &r, &s, &objs, n, how) {
            return;
        }
        if rng.chance(1, 3) && s.get(n).is_some() {
            let content = files.iter().rev().find(|f| f.0 == *n).map(|f| f.1.clone());
            if !parses_alike(c, &mut rng, &r, n, content.as_deref()) {
                return;
            }
        }
    }
    if !check_ref(c, &r, &s, &objs, b"HEAD", 2) {
        return;
    }
    // the same handle after the references were changed
    for _ in 0..*rng.pick(&[0usize, 1, 1, 3]) {
        shift(c, &mut rng, &repo, &mut s, &objs, &ask, &avoid);
        ask.extend(s.loose.keys().chain(s.packed.keys()).cloned());
        ask.sort();
        ask.dedup();
        rng.shuffle(&mut ask);
        for n in &ask {
            let how = rng.below(2);
            if !check_ref(c, &r, &s, &objs, n, how) {
                return;
            }
        }
        if !check_ref(c, &r, &s, &objs, b"HEAD", 2) {
            return;
        }
    }
    let desc = || format!("{:?} packed {:?}", s.loose.iter().map(|(k, v)| (shown(k), v)).collect::<Vec<_>>(), s.packed.keys().map(|k| shown(k)).collect::<Vec<_>>());
    let chained = s.loose.keys().any(|k| matches!(s.resolve(k), Res::Id(_, h) if h > 0));
    c.eval(hash64(desc().as_bytes()), chained);
    c.sample(desc);
    if git_ok {
        git_agrees(c, &dir, &s, &objs, &ask);
    }
}

/// The model against git itself.
fn git_agrees(c: &mut Ctx, dir: &Path, s: &Store, objs: &[Obj], ask: &[Vec<u8>]) {
    let ask: Vec<&Vec<u8>> = ask.iter().filter(|n| n.starts_with(b"refs/") && !n.iter().any(|b| b"~^:@{\n".contains(b))).collect();
    let mut inp = vec![];
    for n in &ask {
        inp.extend_from_slice(n);
        inp.push(b'\n');
    }
    let out = match git::run_in(git::cmd(dir).args(["cat-file", "--batch-check=%(objectname)"]), &inp) {
        Ok(o) => o,
        Err(e) => return c.trouble(format!("git cat-file: {e}")),
    };
    let lines: Vec<&[u8]> = out.split(|&b| b == b'\n').collect();
    for (n, l) in ask.iter().zip(lines) {
        let got = if l.len() == 40 && !l.ends_with(b" missing") { Some(sha1::unhex(std::str::from_utf8(l).unwrap_or(""))) } else { None };
        let want = match s.resolve(n) {
            Res::Id(id, _) if objs.iter().any(|o| o.id() == id) => Some(id.to_vec()),
            Res::TooDeep => continue,
            _ => None,
        };
        if got != want {
            c.trouble(format!("the model and git disagree about {}: {:?} / {} ", shown(n), s.resolve(n), shown(l)));
        }
        c.count("git_checked", 1);
    }
}

// ------------------------------------------------------------------------------------------ C15

const NSS: [&[u8]; 3] = [b"refs/heads/", b"refs/tags/", b"refs/remotes/"];

fn describe(s: &Store) -> String {
    format!("loose {:?} packed {:?}", s.loose.keys().map(|k| shown(k)).collect::<Vec<_>>(), s.packed.keys().map(|k| shown(k)).collect::<Vec<_>>())
}

/// All four listings against the model.
fn listings(c: &mut Ctx, rng: &mut Rng, r: &Repository, s: &Store, optional: &BTreeSet<Vec<u8>>, round: usize) -> bool {
    let rd = r.reference_database();
    let want = |ns: &str| -> BTreeSet<Vec<u8>> {
        let p = format!("refs/{ns}/").into_bytes();
        s.loose.keys().chain(s.packed.keys()).filter(|k| k.starts_with(&p) && !optional.contains(*k)).cloned().collect()
    };
    let desc = || if round == 0 { describe(s) } else { format!("{} (after {round} rounds of changes)", describe(s)) };
    let mut union: BTreeSet<Vec<u8>> = BTreeSet::new();
    let order: Vec<usize> = {
        let mut o = vec![0, 1, 2, 3];
        rng.shuffle(&mut o);
        o
    };
    for ns in ["heads", "tags", "remotes"] {
        union.extend(want(ns));
    }
    for w in order {
        let (label, want) = match w {
            0 => ("head_reference_names", want("heads")),
            1 => ("tag_reference_names", want("tags")),
            2 => ("remote_reference_names", want("remotes")),
            _ => ("reference_names", union.clone()),
        };
        let got = c.op(|| label.to_string(), || match w {
            0 => rd.head_reference_names(),
            1 => rd.tag_reference_names(),
            2 => rd.remote_reference_names(),
            _ => rd.reference_names(),
        });
        c.count("listings", 1);
        match got {
            Some(Ok(v)) => {
                c.count("names", v.len() as u64);
                let set: BTreeSet<Vec<u8>> = v.iter().cloned().collect();
                if set.len() != v.len() {
                    let twice: Vec<String> = set.iter().filter(|n| v.iter().filter(|m| m == n).count() > 1).map(|n| shown(n)).collect();
                    return alarm(c, "listed-twice", format!("{label}: {twice:?}; {}", desc()));
                }
                let set: BTreeSet<Vec<u8>> = set.difference(optional).cloned().collect();
                if set != want {
                    let missing: Vec<String> = want.difference(&set).map(|n| shown(n)).collect();
                    let extra: Vec<String> = set.difference(&want).map(|n| shown(n)).collect();
                    let sig = if missing.is_empty() { "listed-extra" } else { "not-listed" };
                    return alarm(c, sig, format!("{label}: missing {missing:?}, extra {extra:?}; {}", desc()));
                }
            }
            Some(Err(e)) => return alarm(c, "list-error", format!("{label}: {}; {}", obs::chain(&e), desc())),
            None => return false,
        }
    }
    true
}

fn alarm(c: &mut Ctx, sig: &str, what: String) -> bool {
    c.violate(sig, what);
    false
}

/// A repository in which git's own commands change the references, with a remote and a second work
/// tree; one handle is kept for all of it. The answers are to be git's.
fn tended(c: &mut Ctx, rng: &mut Rng, lists: bool) {
    use std::os::unix::ffi::OsStrExt;
    let (dir, far, wt) = (c.fresh("g"), c.fresh("far"), c.dir.join("wt"));
    let _ = std::fs::remove_dir_all(&wt);
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::create_dir_all(&far).unwrap();
    for d in [&dir, &far] {
        for args in [&["init", "-q", "-b", "main", "."][..], &["commit", "-q", "--allow-empty", "-m", "first"]] {
            if let Err(e) = git::run(d, args) {
                return c.trouble(e);
            }
        }
    }
    let Ok(r) = Repository::open(&dir) else { return c.violate("open-failed", "Repository::open failed") };
    let mut asked: BTreeSet<Vec<u8>> = [&b"HEAD"[..], b"refs/heads/main", b"refs/remotes/up/HEAD", b"refs/stash", b"refs/notes/commits"].iter().map(|n| n.to_vec()).collect();
    let mut log = String::new();
    let mut done = 0;
    let names = ["a", "b", "a/b", "main", "topic/x", "topic/y", "B", "rel-1.0", "x.y", "\u{fc}"];
    for round in 0..rng.range(3, 8) {
        for _ in 0..rng.range(1, 5) {
            let (n, m) = (*rng.pick(&names), *rng.pick(&names));
            let (hn, hm) = (format!("refs/heads/{n}"), format!("refs/heads/{m}"));
            let far_s = far.to_string_lossy().into_owned();
            let msg = format!("m{round}");
            let mut input = String::new();
            let (at, args): (&Path, Vec<&str>) = match rng.below(28) {
                0 => (&dir, vec!["commit", "-q", "--allow-empty", "-m", &msg]),
                1 | 2 => (&dir, vec!["branch", n]),
                3 => (&dir, vec!["branch", "-f", n, "HEAD"]),
                4 => (&dir, vec!["branch", "-m", n, m]),
                5 => (&dir, vec!["branch", "-D", n]),
                6 => (&dir, vec!["tag", "-f", n]),
                7 => (&dir, vec!["tag", "-f", "-a", "-m", &msg, n]),
                8 => (&dir, vec!["tag", "-d", n]),
                9 | 10 => (&dir, vec!["pack-refs", "--all"]),
                11 => (&dir, vec!["pack-refs", "--all", "--no-prune"]),
                12 => (&dir, vec!["checkout", "-q", "--detach"]),
                13 => (&dir, vec!["checkout", "-q", n]),
                14 => (&dir, vec!["checkout", "-q", "-B", n]),
                15 => (&dir, vec!["symbolic-ref", &hn, &hm]),
                16 => (&dir, vec!["symbolic-ref", "HEAD", &hn]),
                17 => {
                    input = format!("start\ncreate {hn} HEAD\ndelete {hm}\nupdate refs/tags/{m} HEAD\ncommit\n");
                    (&dir, vec!["update-ref", "--stdin"])
                }
                18 => (&far, vec!["branch", n]),
                19 => (&far, vec!["branch", "-D", n]),
                20 => (&far, vec!["commit", "-q", "--allow-empty", "-m", &msg]),
                21 => (&dir, vec!["remote", "add", "up", &far_s]),
                22 => (&dir, vec!["fetch", "-q", "--prune", "up"]),
                23 => (&dir, vec!["remote", "set-head", "up", "-a"]),
                24 => (&dir, vec!["remote", "rename", "up", n]),
                25 => (&dir, vec!["notes", "add", "-f", "-m", &msg]),
                26 => (&dir, vec!["worktree", "add", "-q", "-B", n, wt.to_str().unwrap_or("wt")]),
                _ => (&dir, vec!["gc", "-q", "--prune=now"]),
            };
            log += &format!("{}{}; ", if at == far { "far: " } else { "" }, args.join(" "));
            asked.insert(hn.clone().into_bytes());
            asked.insert(format!("refs/tags/{n}").into_bytes());
            asked.insert(format!("refs/remotes/up/{n}").into_bytes());
            // many of these cannot be done as things are: nothing happens then
            match git::run_in(git::cmd(at).args(&args), input.as_bytes()) {
                Ok(_) => done += 1,
                Err(_) => c.count("tending_refused", 1),
            }
        }
        // as git sees it now
        let mut s = Store::default();
        let out = match git::run(&dir, &["for-each-ref", "--format=%(refname) %(objectname) %(symref)"]) {
            Ok(o) => o,
            Err(e) => return c.trouble(e),
        };
        for l in out.split(|b| *b == b'\n').filter(|l| !l.is_empty()) {
            let f: Vec<&[u8]> = l.splitn(3, |b| *b == b' ').collect();
            let (name, id) = (f[0].to_vec(), sha1::unhex(&String::from_utf8_lossy(f[1])).try_into());
            let Ok(id) = id else { return c.trouble(format!("for-each-ref: {}", shown(l))) };
            let v = if f.get(2).map_or(true, |s| s.is_empty()) {
                Val::Direct(id)
            } else {
                match git::run(&dir, &["symbolic-ref", "--no-recurse", &String::from_utf8_lossy(f[0])]) {
                    Ok(o) => Val::Sym(o.strip_suffix(b"\n").unwrap_or(&o).to_vec()),
                    Err(e) => return c.trouble(e),
                }
            };
            asked.insert(name.clone());
            s.loose.insert(name, v);
        }
        let head = match git::run(&dir, &["symbolic-ref", "-q", "--no-recurse", "HEAD"]) {
            Ok(o) => Val::Sym(o.strip_suffix(b"\n").unwrap_or(&o).to_vec()),
            Err(_) => match git::run(&dir, &["rev-parse", "-q", "--verify", "HEAD"]).map(|o| sha1::unhex(String::from_utf8_lossy(&o).trim()).try_into()) {
                Ok(Ok(id)) => Val::Direct(id),
                e => return c.trouble(format!("HEAD: {e:?}")),
            },
        };
        s.loose.insert(b"HEAD".to_vec(), head);
        // symbolic ones that lead to nothing: git leaves them out of its list
        let mut lost: BTreeSet<Vec<u8>> = BTreeSet::new();
        for n in asked.iter().filter(|n| !s.loose.contains_key(*n)) {
            let p = dir.join(".git").join(std::ffi::OsStr::from_bytes(n));
            if std::fs::read(p).map_or(false, |b| b.starts_with(b"ref:")) {
                lost.insert(n.clone());
            }
        }
        let objs: Vec<Obj> = match git::all(&dir) {
            Ok(v) => v.into_iter().map(|(_, o)| o).collect(),
            Err(e) => return c.trouble(e),
        };
        let fresh = Repository::open(&dir);
        for r in std::iter::once(&r).chain(&fresh) {
            if lists {
                s.loose.remove(&b"HEAD"[..]);
                // all symbolic ones that lead nowhere are below these
                let mut optional = lost.clone();
                for rm in ["up"].iter().chain(&names) {
                    let n = format!("refs/remotes/{rm}/HEAD").into_bytes();
                    if !s.loose.contains_key(&n) {
                        optional.insert(n);
                    }
                }
                if !listings(c, rng, r, &s, &optional, round + 1) {
                    return;
                }
            } else {
                for n in asked.iter().filter(|n| !lost.contains(*n)) {
                    let how = if n == b"HEAD" { rng.below(3) } else { rng.below(2) };
                    if !check_ref(c, r, &s, &objs, n, how) {
                        return;
                    }
                }
            }
            if c.failed() {
                return;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&wt);
    c.count("git_commands", done);
    c.eval(hash64(log.as_bytes()), done > 3);
    c.sample(|| log);
}

pub fn c15(c: &mut Ctx) {
    let mut rng = c.rng.fork();
    if c.case % 240 == 19 {
        return tended(c, &mut rng, true);
    }
    let dir = c.fresh("r");
    let repo = Repo::init(&dir);
    if c.case % 9 == 4 {
        let how = repo.scatter(hash64(&c.case.to_be_bytes()));
        c.count("scattered", !how.is_empty() as u64);
    }
    let objs = pool(c, &mut rng, &repo);
    let git_share = c.case % 10 == 0;
    let mut s = Store::default();
    let style = rng.below(8);
    let nss: Vec<&str> = match style {
        0 => vec![],
        1 => vec!["heads"],
        2 => vec!["tags"],
        3 => vec!["remotes/origin"],
        _ => vec!["heads", "heads", "heads/a/b", "tags", "remotes/origin", "remotes/up/stream", "notes", "bisect", "replace", "heads2", "tag"],
    };
    let n = if c.case % 400 == 11 { 1500 } else { *rng.pick(&[1usize, 3, 8, 20, 60]) };
    let commit = objs[0].id();
    for _ in 0..n {
        if nss.is_empty() {
            break;
        }
        let ns = *rng.pick(&nss);
        let mut name = refname(&mut rng, Some(ns));
        if style > 3 && rng.chance(1, 4) {
            let ks: Vec<Vec<u8>> = s.loose.keys().chain(s.packed.keys()).cloned().collect();
            if !ks.is_empty() {
                let near = rng.pick(&ks).clone();
                name = kin(&mut rng, &near);
            }
        }
        // "replace" names must be ids for git; "bisect" is per work tree
        if name.starts_with(b"refs/replace") || name.starts_with(b"refs/bisect") {
            continue;
        }
        if s.clashes(&name) {
            continue;
        }
        if rng.chance(1, 4) {
            s.packed.insert(name, rng.pick(&objs).id());
        } else {
            let v = if rng.chance(1, 5) && !s.loose.is_empty() {
                let ks: Vec<Vec<u8>> = s.loose.keys().cloned().collect();
                Val::Sym(rng.pick(&ks).clone())
            } else {
                Val::Direct(if name.starts_with(b"refs/heads") { commit } else { rng.pick(&objs).id() })
            };
            // symbolic chains as long as git follows them
            s.loose.insert(name.clone(), v);
            if !matches!(s.resolve(&name), Res::Id(_, h) if h <= 4) {
                s.loose.insert(name, Val::Direct(commit));
            }
        }
    }
    let no_packed = rng.chance(1, 2);
    if no_packed {
        for (n, o) in std::mem::take(&mut s.packed) {
            s.loose.insert(n, Val::Direct(o));
        }
    } else {
        // some that are both
        let ks: Vec<Vec<u8>> = s.loose.keys().cloned().collect();
        for k in ks {
            if rng.chance(1, 6) {
                s.packed.insert(k, commit);
            }
        }
    }
    for (n, v) in &s.loose {
        let b = match v {
            Val::Direct(o) => format!("{}\n", sha1::hex(o)).into_bytes(),
            Val::Sym(t) => [b"ref: ", &t[..], b"\n"].concat(),
            Val::Broken(b) => b.clone(),
        };
        if let Err(e) = write_ref(&repo, n, &b) {
            return c.trouble(format!("writing {}: {e}", shown(n)));
        }
    }
    if !s.packed.is_empty() || rng.chance(1, 6) {
        std::fs::write(repo.git().join("packed-refs"), packed_refs(&mut rng, &s, &objs)).unwrap();
    }
    // leftovers that are no references
    let refs = repo.git().join("refs");
    for _ in 0..rng.below(4) {
        let ns = *rng.pick(&["heads", "tags", "remotes", "remotes/origin", "heads/a"]);
        let d = refs.join(ns);
        if d.is_file() || d.parent().map_or(false, |p| p.is_file()) {
            continue;
        }
        match rng.below(4) {
            0 => {
                let _ = std::fs::create_dir_all(d.join(*rng.pick(&["empty", "empty/er/still", "zz/yy"])));
            }
            1 => {
                let _ = std::fs::create_dir_all(&d);
                std::fs::write(d.join(*rng.pick(&["master.lock", "a.lock", "x.y.lock"])), *rng.pick(&[&b""[..], b"3855cf58b4cd342575372a215b79386a704b0f98\n"])).unwrap();
            }
            2 => {
                let _ = std::fs::create_dir_all(&d);
                std::fs::write(d.join(*rng.pick(&[".hidden", ".tmp-3", ".DS_Store", ".nfs0001"])), b"x").unwrap();
            }
            _ => {
                // leave the directory itself
                let _ = std::fs::create_dir_all(&d);
            }
        }
    }
    for ns in ["heads", "tags", "remotes"] {
        let d = refs.join(ns);
        if !s.loose.keys().any(|k| k.starts_with(format!("refs/{ns}/").as_bytes())) && rng.chance(1, 2) {
            let _ = std::fs::remove_dir_all(&d);
        }
        if !d.exists() {
            c.count("missing_namespaces", 1);
        }
    }
    if style == 0 && rng.chance(1, 3) && !git_share {
        let _ = std::fs::remove_dir_all(&refs);
    }
    // files with names that are none, and references that lead to nothing: git leaves those out,
    // with a warning; whether they are listed is open
    let mut optional: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut strange: Vec<Vec<u8>> = vec![];
    if rng.chance(1, 2) && style != 0 && refs.exists() {
        for _ in 0..rng.range(1, 4) {
            let ns = *rng.pick(&nss);
            let b = format!("{}\n", sha1::hex(&commit)).into_bytes();
            match rng.below(4) {
                0 | 1 => {
                    let n = bad_name(&mut rng, Some(ns));
                    if write_ref(&repo, &n, &b).is_ok() {
                        c.count("strange_names", 1);
                        strange.push(n);
                    }
                }
                k => {
                    let n = refname(&mut rng, Some(ns));
                    if s.clashes(&n) || n.starts_with(b"refs/replace") || n.starts_with(b"refs/bisect") {
                        continue;
                    }
                    let b = match (k, rng.below(3)) {
                        (2, _) => broken_bytes(&mut rng, &commit),
                        (_, 0) => b"ref: refs/heads/to-no-where\n".to_vec(),
                        (_, 1) => [b"ref: ", &n[..], b"\n"].concat(),
                        _ => b"ref: refs/heads/a..b\n".to_vec(),
                    };
                    if write_ref(&repo, &n, &b).is_ok() {
                        c.count("leading_nowhere", 1);
                        optional.insert(n);
                    }
                }
            }
        }
    }
    let opened = c.op(|| "open".into(), || Repository::open(&dir));
    let Some(Ok(r)) = opened else { return c.violate("open-failed", "Repository::open failed on a valid repository") };
    let mut avoid = optional.clone();
    avoid.extend(strange);
    let rounds = *rng.pick(&[1usize, 2, 2, 4]);
    for round in 0..rounds {
        if round > 0 {
            shift(c, &mut rng, &repo, &mut s, &objs, &[], &avoid);
            for n in s.loose.keys() {
                if !matches!(s.resolve(n), Res::Id(_, h) if h <= 4) {
                    optional.insert(n.clone());
                } else if !avoid.contains(n) {
                    optional.remove(n);
                }
            }
        }
        if !listings(c, &mut rng, &r, &s, &optional, round) {
            return;
        }
    }
    let union: BTreeSet<Vec<u8>> = s.loose.keys().chain(s.packed.keys()).filter(|k| !optional.contains(*k) && NSS.iter().any(|p| k.starts_with(p))).cloned().collect();
    let desc = || describe(&s);
    c.eval(hash64(desc().as_bytes()) ^ hash64(format!("{style}").as_bytes()), !union.is_empty());
    c.sample(desc);
    if git_share && refs.exists() {
        match git::run(&dir, &["for-each-ref", "--format=%(refname)", "refs/heads", "refs/tags", "refs/remotes"]) {
            Ok(o) => {
                let got: BTreeSet<Vec<u8>> = o.split(|&b| b == b'\n').filter(|l| !l.is_empty()).map(|l| l.to_vec()).collect();
                c.count("git_checked", got.len() as u64 + 1);
                let got: BTreeSet<Vec<u8>> = got.difference(&optional).cloned().collect();
                if got != union {
                    c.trouble(format!("the model and git disagree: git lists {:?}; {}", got.iter().map(|n| shown(n)).collect::<Vec<_>>(), desc()));
                }
            }
            Err(e) => c.trouble(format!("git for-each-ref: {e}")),
        }
    }
}

// ------------------------------------------------------------------------------------------ C16

#[derive(Default)]
struct Opens {
    paths: Vec<(K, Vec<u8>)>,
}

impl Monitor for Opens {
    fn before(&mut self, ev: &Ev) -> Act {
        if matches!(ev.kind, K::Open | K::Opendir) {
            self.paths.push((ev.kind, ev.path.clone()));
        }
        Act::Pass
    }
}

/// `.`, `..` and doubled slashes resolved, as without symbolic links.
fn normal(p: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for c in p.split(|&b| b == b'/') {
        match c {
            b"" | b"." => {}
            b".." => {
                v.pop();
            }
            c => v.push(c.to_vec()),
        }
    }
    v
}

/// Lexically: does the name leave the directory it is relative to, at any point?
fn climbs(name: &[u8]) -> bool {
    if name.starts_with(b"/") {
        return true;
    }
    let mut depth = 0i64;
    for c in name.split(|&b| b == b'/') {
        match c {
            b"" | b"." => {}
            b".." => {
                depth -= 1;
                if depth < 0 {
                    return true;
                }
            }
            _ => depth += 1,
        }
    }
    false
}

fn hostile_name(rng: &mut Rng, root: &Path, baits: &[Vec<u8>]) -> Vec<u8> {
    use std::os::unix::ffi::OsStrExt;
    let r = root.as_os_str().as_bytes();
    let bait = rng.pick(baits).clone();
    let ups = |n: usize| b"../".repeat(n);
    let mut v = match rng.below(14) {
        0 => [r, b"/", &bait].concat(),
        1 => [&ups(2)[..], &bait].concat(),
        2 => [b"refs/heads/", &ups(4)[..], &bait].concat(),
        3 => [b"refs/", &ups(3)[..], &bait].concat(),
        4 => [b"./", &ups(2)[..], &bait].concat(),
        5 => [b"refs/heads/none/", &ups(5)[..], &bait].concat(),
        6 => [b"/", r, b"//./", &bait].concat(),
        7 => [b"..//", &ups(1)[..], b"./", &bait].concat(),
        8 => [&ups(1)[..], b".git/refs/heads/a"].concat(),
        9 => [r, b"/w/.git/refs/heads/a"].concat(),
        10 => b"/dev/null".to_vec(),
        11 => [&ups(40)[..], &r[1..], b"/", &bait].concat(),
        12 => {
            let mut v = vec![];
            for _ in 0..rng.range(1, 9) {
                v.extend_from_slice(*rng.pick(&[&b"../"[..], b"../", b"../", b"refs/", b"heads/", b"./", b"/", b"a/", b".git/", b"w/"]));
            }
            v.extend_from_slice(&bait);
            v
        }
        _ => [&ups(1)[..], b"inner"].concat(),
    };
    if rng.chance(1, 12) {
        v.push(b'/');
    }
    v
}

fn inside(git: &[Vec<u8>], p: &[u8]) -> bool {
    let n = normal(p);
    n.len() >= git.len() && n[..git.len()] == *git
}

fn judge_opens(c: &mut Ctx, git: &[Vec<u8>], o: &Opens, what: &str) -> bool {
    for (k, p) in &o.paths {
        c.count("opens_recorded", 1);
        if p.starts_with(b"/proc/") || p.starts_with(b"/sys/") {
            continue;
        }
        if !p.starts_with(b"/") || !inside(git, p) {
            c.violate("opened-outside", format!("{what}: {k:?} of {}", shown(p)));
            return false;
        }
    }
    true
}

pub fn c16(c: &mut Ctx) {
    use std::os::unix::ffi::OsStrExt;
    let mut rng = c.rng.fork();
    let root = c.fresh("root");
    let work = root.join("w");
    let repo = Repo::init(&work);
    let objs = pool(c, &mut rng, &repo);
    let hex = objs[0].hex();
    write_ref(&repo, b"refs/heads/a", format!("{hex}\n").as_bytes()).unwrap();
    // valid references that must not be reached
    let baits: Vec<Vec<u8>> = vec![b"bait".to_vec(), b"refs/heads/bait".to_vec(), b"w2/.git/refs/heads/a".to_vec(), b"link".to_vec()];
    for b in &baits {
        let p = root.join(std::ffi::OsStr::from_bytes(b));
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(&p, if b == b"link" { "ref: refs/heads/a\n".into() } else { format!("{hex}\n") }).unwrap();
    }
    std::fs::write(work.join("inner"), format!("{hex}\n")).unwrap();
    std::fs::write(root.join("packed-refs"), format!("{hex} refs/heads/zz\n")).unwrap();
    if rng.chance(1, 2) {
        std::fs::write(repo.git().join("packed-refs"), format!("# pack-refs with: peeled fully-peeled sorted \n{hex} refs/heads/p\n{hex} ../../bait\n")).unwrap();
    }
    let git = normal(repo.git().as_os_str().as_bytes());
    let opened = c.op(|| "open".into(), || Repository::open(&work));
    let Some(Ok(r)) = opened else { return c.violate("open-failed", "Repository::open failed on a valid repository") };
    let rd = r.reference_database();
    for i in 0..24 {
        let name = if i < 3 {
            [&b"refs/heads/a"[..], b"refs/heads/../heads/a", b"refs/heads/none"][i].to_vec()
        } else {
            hostile_name(&mut rng, &root, &baits)
        };
        let bad = climbs(&name);
        if bad {
            c.count("escape_attempts", 1);
        }
        let what = format!("reference {}", shown(&name));
        let via = rng.below(4);
        let mut m = Opens::default();
        c.count("lookups", 1);
        c.eval(hash64(&name).wrapping_add(via as u64), bad);
        match via {
            // asked for directly
            0 | 1 => {
                let Some(got) = c.op(|| what.clone(), || {
                    sys::monitored(&mut m, || match via {
                        0 => rd.reference(&name),
                        _ => rd.parse_reference(&name),
                    })
                }) else { return };
                if !judge_opens(c, &git, &m, &what) {
                    return;
                }
                if let Ok(g) = got {
                    if bad {
                        return c.violate("escape-succeeds", format!("{what} gives {:?}", g.target()));
                    }
                    let mut m = Opens::default();
                    c.op(|| format!("peel of {what}"), || sys::monitored(&mut m, || g.peel(&r).is_ok()));
                    if !judge_opens(c, &git, &m, &format!("peel of {what}")) {
                        return;
                    }
                }
            }
            // the raw reader
            2 => {
                let Some(got) = c.op(|| what.clone(), || sys::monitored(&mut m, || rd.read_reference_file(&name).map(|_| ()))) else { return };
                if !judge_opens(c, &git, &m, &format!("read_reference_file {}", shown(&name))) {
                    return;
                }
                if bad && got.is_ok() {
                    return c.violate("escape-succeeds", format!("read_reference_file {}", shown(&name)));
                }
            }
            // stored in the repository
            _ => {
                let in_head = rng.chance(1, 3);
                let at: &[u8] = if in_head { b"HEAD" } else { b"refs/heads/evil" };
                let depth = rng.below(3);
                let mut content = [b"ref: ", &name[..], b"\n"].concat();
                for d in 0..depth {
                    let n = format!("refs/heads/evil{d}");
                    write_ref(&repo, n.as_bytes(), &content).unwrap();
                    content = format!("ref: {n}\n").into_bytes();
                }
                write_ref(&repo, at, &content).unwrap();
                let what = format!("{} -> {depth} steps -> {}", shown(at), shown(&name));
                let got = c.op(|| what.clone(), || {
                    sys::monitored(&mut m, || {
                        let x = if in_head { rd.head() } else { rd.reference(at) };
                        x.ok().map(|x| x.peel(&r).map(|o| o.id().to_hex()))
                    })
                });
                let Some(got) = got else { return };
                if !judge_opens(c, &git, &m, &what) {
                    return;
                }
                // a trailing line feed or blank ends the name; what is left must still climb
                if let Some(Ok(id)) = got {
                    if bad {
                        return c.violate("escape-succeeds", format!("peel of {what} gives {id}"));
                    }
                }
            }
        }
        if i == 5 {
            c.sample(|| what);
        }
    }
    // lists stay inside too
    let mut m = Opens::default();
    c.op(|| "reference_names".into(), || sys::monitored(&mut m, || rd.reference_names().is_ok()));
    judge_opens(c, &git, &m, "reference_names");
}
