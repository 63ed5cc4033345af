//! C21: what readers see while another process changes references the way git does.
use crate::ctx::Ctx;
use crate::git;
use crate::model::*;
use crate::objgen;
use crate::obs;
use crate::rng::{hash64, Rng};
use crate::sha1;
use crate::sys::{self, Act, Ev, Monitor};
use rusty_git::reference::{Error as RefError, ReferenceTarget};
use rusty_git::repository::Repository;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, PartialEq)]
enum Val {
    Direct(usize),
    Sym(String),
}

/// One file-system change of the other process.
#[derive(Clone, Debug)]
enum Prim {
    /// create a file
    Put(String, Vec<u8>),
    Rename(String, String),
    Unlink(String),
    /// remove empty directories upwards, as long as they are below refs/<namespace>
    Prune(String),
    Mkdirs(String),
    /// an empty directory in the way of a new reference
    Rmdir(String),
    /// store an object: temporary file, then rename
    Loose(usize),
    PackFile(usize),
    IdxFile(usize),
}

#[derive(Clone, Default, Debug)]
struct State {
    loose: BTreeMap<String, Val>,
    packed: BTreeMap<String, usize>,
}

impl State {
    fn get(&self, n: &str) -> Option<Val> {
        self.loose.get(n).cloned().or_else(|| self.packed.get(n).map(|i| Val::Direct(*i)))
    }
    fn names(&self) -> BTreeSet<String> {
        self.loose.keys().chain(self.packed.keys()).cloned().collect()
    }
    fn clashes(&self, n: &str) -> bool {
        let under = |a: &str, b: &str| a.len() > b.len() && a.starts_with(b) && a.as_bytes()[b.len()] == b'/';
        self.names().iter().any(|k| under(k, n) || under(n, k))
    }
}

struct World {
    root: PathBuf,
    objs: Vec<Obj>,
    packs: Vec<Pack>,
    /// objects of each pack
    in_pack: BTreeMap<usize, usize>,
    prims: Vec<Prim>,
    /// state after each primitive: states[0] is the start
    states: Vec<State>,
    /// loose files created, replaced or removed by each primitive
    touched: Vec<Option<String>>,
    stored: BTreeSet<usize>,
    plan: String,
}

impl World {
    fn push(&mut self, p: Prim, f: impl FnOnce(&mut State), touched: Option<String>) {
        let mut s = self.states.last().unwrap().clone();
        f(&mut s);
        self.prims.push(p);
        self.states.push(s);
        self.touched.push(touched);
    }
    fn quiet(&mut self, p: Prim) {
        self.push(p, |_| {}, None);
    }
    fn now(&self) -> &State {
        self.states.last().unwrap()
    }
    fn packed_bytes(&self, p: &BTreeMap<String, usize>) -> Vec<u8> {
        let mut v = b"# pack-refs with: peeled fully-peeled sorted \n".to_vec();
        for (n, i) in p {
            v.extend(format!("{} {n}\n", self.objs[*i].hex()).into_bytes());
            if self.objs[*i].kind == Kind::Tag {
                v.extend(format!("^{}\n", self.objs[0].hex()).into_bytes());
            }
        }
        v
    }
    fn store(&mut self, i: usize) {
        if !self.stored.insert(i) {
            return;
        }
        match self.in_pack.get(&i).copied() {
            Some(p) => {
                self.quiet(Prim::PackFile(p));
                self.quiet(Prim::IdxFile(p));
                let all: Vec<usize> = self.in_pack.iter().filter(|(_, q)| **q == p).map(|(i, _)| *i).collect();
                self.stored.extend(all);
            }
            None => self.quiet(Prim::Loose(i)),
        }
    }
    /// `git update-ref`, `git symbolic-ref`: lock file, then rename
    fn set(&mut self, n: &str, v: Val) {
        if let Val::Direct(i) = v {
            self.store(i);
        }
        let b = match &v {
            Val::Direct(i) => format!("{}\n", self.objs[*i].hex()),
            Val::Sym(t) => format!("ref: {t}\n"),
        };
        if n.contains('/') {
            self.quiet(Prim::Mkdirs(n.into()));
        }
        self.quiet(Prim::Put(format!("{n}.lock"), b.into_bytes()));
        self.quiet(Prim::Rmdir(n.into()));
        let name = n.to_string();
        self.push(Prim::Rename(format!("{n}.lock"), n.into()), |s| { s.loose.insert(name, v); }, Some(n.into()));
        self.plan += &format!("set {n}; ");
    }
    fn rewrite_packed(&mut self, p: BTreeMap<String, usize>) {
        let b = self.packed_bytes(&p);
        self.quiet(Prim::Put("packed-refs.lock".into(), vec![]));
        self.quiet(Prim::Put("packed-refs.new".into(), b));
        self.push(Prim::Rename("packed-refs.new".into(), "packed-refs".into()), |s| s.packed = p, None);
        self.quiet(Prim::Unlink("packed-refs.lock".into()));
    }
    /// `git pack-refs --all`
    fn pack_refs(&mut self, only: Option<&str>) {
        let s = self.now().clone();
        let mut p = s.packed.clone();
        let mut gone = vec![];
        for (n, v) in &s.loose {
            if let (true, Val::Direct(i)) = (n.starts_with("refs/") && only.map_or(true, |o| n.starts_with(o)), v) {
                p.insert(n.clone(), *i);
                gone.push(n.clone());
            }
        }
        self.rewrite_packed(p);
        for n in gone {
            self.quiet(Prim::Put(format!("{n}.lock"), vec![]));
            let m = n.clone();
            self.push(Prim::Unlink(n.clone()), |s| { s.loose.remove(&m); }, Some(n.clone()));
            self.quiet(Prim::Unlink(format!("{n}.lock")));
            self.quiet(Prim::Prune(n));
        }
        self.plan += "pack-refs; ";
    }
    /// `git update-ref -d`: packed first, then loose
    fn delete(&mut self, n: &str) {
        self.quiet(Prim::Mkdirs(n.into()));
        self.quiet(Prim::Put(format!("{n}.lock"), vec![]));
        if self.now().packed.contains_key(n) {
            let mut p = self.now().packed.clone();
            p.remove(n);
            self.rewrite_packed(p);
        }
        if self.now().loose.contains_key(n) {
            let m = n.to_string();
            self.push(Prim::Unlink(n.into()), |s| { s.loose.remove(&m); }, Some(n.into()));
        }
        self.quiet(Prim::Unlink(format!("{n}.lock")));
        self.quiet(Prim::Prune(n.into()));
        self.plan += &format!("delete {n}; ");
    }
    fn apply(&self, i: usize) {
        let g = self.root.join(".git");
        let ok = match &self.prims[i] {
            Prim::Put(n, b) => std::fs::write(g.join(n), b),
            Prim::Rename(a, b) => std::fs::rename(g.join(a), g.join(b)),
            Prim::Unlink(n) => std::fs::remove_file(g.join(n)),
            Prim::Mkdirs(n) => std::fs::create_dir_all(g.join(n).parent().unwrap()),
            Prim::Rmdir(n) => {
                rmdirs(&g.join(n));
                Ok(())
            }
            Prim::Prune(n) => {
                let mut d = Path::new(n).parent().unwrap();
                while d.components().count() > 2 && std::fs::remove_dir(g.join(d)).is_ok() {
                    d = d.parent().unwrap();
                }
                Ok(())
            }
            Prim::Loose(o) => {
                let o = &self.objs[*o];
                let p = Repo { path: self.root.clone() }.loose_path(&o.id());
                std::fs::create_dir_all(p.parent().unwrap()).and_then(|_| std::fs::write(p.with_extension("t"), zlib(&o.enc(), 1))).and_then(|_| std::fs::rename(p.with_extension("t"), p))
            }
            Prim::PackFile(p) => {
                let p = &self.packs[*p];
                let d = g.join("objects/pack");
                std::fs::create_dir_all(&d).and_then(|_| std::fs::write(d.join(p.name() + ".pack"), p.bytes()))
            }
            Prim::IdxFile(p) => {
                let p = &self.packs[*p];
                let d = g.join("objects/pack");
                std::fs::write(d.join("tmp_idx"), &p.idx).and_then(|_| std::fs::rename(d.join("tmp_idx"), d.join(p.name() + ".idx")))
            }
        };
        if let Err(e) = ok {
            panic!("{:?}: {e}", self.prims[i]);
        }
    }
    /// What a lookup that starts no earlier than `lo` and ends no later than `hi` may find.
    fn may(&self, n: &str, lo: usize, hi: usize, depth: usize, out: &mut BTreeSet<Option<usize>>) {
        let mut last = None;
        for t in lo..=hi {
            let v = self.states[t].get(n);
            if last == Some(v.clone()) {
                continue;
            }
            last = Some(v.clone());
            match v {
                None => {
                    out.insert(None);
                }
                Some(Val::Direct(i)) => {
                    out.insert(Some(i));
                }
                Some(Val::Sym(s)) => {
                    if depth < 5 {
                        self.may(&s, t, hi, depth + 1, out)
                    }
                }
            }
        }
    }
}

/// an empty directory, or one that holds only empty directories
fn rmdirs(p: &Path) {
    if !p.is_dir() {
        return;
    }
    if let Ok(d) = std::fs::read_dir(p) {
        for e in d.flatten() {
            if e.path().is_dir() {
                rmdirs(&e.path());
            }
        }
    }
    let _ = std::fs::remove_dir(p);
}

struct Placed<'a> {
    w: &'a World,
    at: &'a [usize],
    next: usize,
    end: usize,
    n: usize,
    inside: u64,
    trace: Vec<String>,
}

impl Monitor for Placed<'_> {
    fn before(&mut self, ev: &Ev) -> Act {
        if !ev.in_root {
            return Act::Pass;
        }
        while self.next < self.end && self.at[self.next] <= self.n {
            self.w.apply(self.next);
            self.trace.push(format!("<{:?}>", self.w.prims[self.next]));
            self.next += 1;
            self.inside += 1;
        }
        self.n += 1;
        if self.trace.len() < 60 {
            self.trace.push(ev.show());
        }
        Act::Pass
    }
}

#[derive(Clone, Debug)]
enum Ask {
    /// look up and peel
    Peel(String),
    Head,
    /// 0: all, else one namespace
    List(usize),
}

enum Found {
    Peeled(Oid, Result<(), String>),
    Missing(String),
    Error(String),
    Names(Vec<Vec<u8>>),
}

fn run(ask: &Ask, r: &Repository, objs: &[Obj]) -> Found {
    let rd = r.reference_database();
    let peel = |x: Result<rusty_git::reference::Reference, RefError>| match x {
        Err(RefError::ReferenceNotFound) => Found::Missing("lookup".into()),
        Err(e) => Found::Error(obs::chain(&e)),
        Ok(x) => {
            let sym = matches!(x.target(), ReferenceTarget::Symbolic(_));
            match x.peel(r) {
                Ok(o) => {
                    let id = obs::oid(*o.id());
                    let fit = match objs.iter().find(|x| x.id() == id) {
                        Some(x) => obs::agrees(o.data(), x),
                        None => Err("an object that is not there".into()),
                    };
                    Found::Peeled(id, fit)
                }
                Err(RefError::ReferenceNotFound) if sym => Found::Missing("peel".into()),
                Err(e) => Found::Error(format!("peel: {}", obs::chain(&e))),
            }
        }
    };
    match ask {
        Ask::Peel(n) => peel(rd.reference(n.as_bytes())),
        Ask::Head => peel(rd.head()),
        Ask::List(k) => {
            let l = match k {
                0 => rd.reference_names(),
                1 => rd.head_reference_names(),
                2 => rd.tag_reference_names(),
                _ => rd.remote_reference_names(),
            };
            match l {
                Ok(l) => Found::Names(l),
                Err(e) => Found::Error(obs::chain(&e)),
            }
        }
    }
}

/// Compares what was found with what was there between two points in time.
fn judge(w: &World, ask: &Ask, got: &Found, lo: usize, hi: usize) -> Result<(), (&'static str, String)> {
    match (ask, got) {
        (_, Found::Error(e)) => Err(("error", format!("{ask:?} fails: {e}"))),
        (Ask::Peel(_) | Ask::Head, f) => {
            let n = match ask {
                Ask::Peel(n) => n.as_str(),
                _ => "HEAD",
            };
            let mut may = BTreeSet::new();
            w.may(n, lo, hi, 0, &mut may);
            match f {
                Found::Missing(_) if may.contains(&None) => Ok(()),
                Found::Missing(at) => Err(("vanished", format!("{n} is reported as not found by its {at}, but exists throughout"))),
                Found::Peeled(id, fit) => {
                    if !may.iter().flatten().any(|i| w.objs[*i].id() == *id) {
                        return Err(("stale-or-foreign", format!("{n} peels to {}, which it does not point to at any moment of the call (but to {:?})", sha1::hex(id),
                            may.iter().flatten().map(|i| w.objs[*i].hex()).collect::<Vec<_>>())));
                    }
                    fit.clone().map_err(|e| ("wrong-content", format!("{n}: {e}")))
                }
                _ => unreachable!(),
            }
        }
        (Ask::List(k), Found::Names(l)) => {
            let pre: &[&str] = match k {
                0 => &["refs/heads/", "refs/tags/", "refs/remotes/"],
                1 => &["refs/heads/"],
                2 => &["refs/tags/"],
                _ => &["refs/remotes/"],
            };
            let mut seen = BTreeSet::new();
            for n in l {
                if !seen.insert(n.clone()) {
                    return Err(("listed-twice", format!("{ask:?} lists {} twice", String::from_utf8_lossy(n))));
                }
            }
            let mut always: Option<BTreeSet<String>> = None;
            let mut ever = BTreeSet::new();
            for s in &w.states[lo..=hi] {
                let n: BTreeSet<String> = s.names().into_iter().filter(|n| pre.iter().any(|p| n.starts_with(p))).collect();
                ever.extend(n.iter().cloned());
                always = Some(match always {
                    None => n,
                    Some(a) => a.intersection(&n).cloned().collect(),
                });
            }
            for n in l {
                match std::str::from_utf8(n) {
                    Ok(s) if ever.contains(s) => {}
                    _ => return Err(("listed-never-there", format!("{ask:?} lists {}, which did not exist", String::from_utf8_lossy(n)))),
                }
            }
            for n in always.unwrap() {
                if seen.contains(n.as_bytes()) {
                    continue;
                }
                // a directory being read need not show a file that is replaced meanwhile; but what is
                // packed before its file goes is found there
                let replaced = (lo..hi).any(|t| w.touched[t].as_deref() == Some(&n) && matches!(w.prims[t], Prim::Rename(..)));
                let packed_at_end = w.states[hi].packed.contains_key(&n);
                let packed_all = w.states[lo..=hi].iter().all(|s| s.packed.contains_key(&n));
                if !replaced || packed_all || (packed_at_end && !replaced) {
                    return Err(("vanished", format!("{ask:?} does not list {n}, which exists throughout")));
                }
            }
            Ok(())
        }
        _ => unreachable!(),
    }
}

const NAMES: &[&str] = &[
    "refs/heads/main", "refs/heads/a", "refs/heads/a/b", "refs/heads/x/y/z", "refs/heads/x/w", "refs/tags/v1", "refs/tags/rel/v2",
    "refs/remotes/origin/main", "refs/remotes/origin/dev/one", "refs/remotes/up/x",
];

fn world(rng: &mut Rng, root: &Path) -> World {
    let tree = Obj::new(Kind::Tree, vec![]);
    let mut objs = vec![tree];
    for i in 0..7 {
        let o = match rng.below(4) {
            0 => Obj::blob(format!("blob {i} {}", rng.below(1 << 30)).into_bytes()),
            1 => {
                let mut t = objgen::tag(rng);
                t.object = objs[0].id();
                t.kind = objs[0].kind;
                t.obj()
            }
            _ => {
                let mut t = objgen::commit(rng);
                t.tree = objs[0].id();
                t.obj()
            }
        };
        if objs.iter().all(|x| x.id() != o.id()) {
            objs.push(o);
        }
    }
    let mut packs = vec![];
    let mut in_pack = BTreeMap::new();
    let n = objs.len();
    // two packs of the last objects
    for k in 0..2 {
        if rng.chance(1, 2) {
            let mine: Vec<usize> = (n - 4 + 2 * k..n - 2 + 2 * k).collect();
            let es: Vec<Entry> = mine.iter().map(|&i| Entry { obj: objs[i].clone(), store: Store::Whole, delta: vec![] }).collect();
            for &i in &mine {
                in_pack.insert(i, packs.len());
            }
            packs.push(build_pack(&es, &PackOpts::default(), rng));
        }
    }
    let mut w = World {
        root: root.to_path_buf(), objs, packs, in_pack, prims: vec![], states: vec![State::default()], touched: vec![], stored: BTreeSet::new(), plan: String::new(),
    };
    w.store(0);
    w
}

fn random_op(rng: &mut Rng, w: &mut World) {
    let n = *rng.pick(NAMES);
    let i = rng.below(w.objs.len());
    let s = w.now().clone();
    match rng.below(12) {
        10 | 11 => {
            // `git branch -m a/b a` and the other way round: a name takes the place of a directory
            let other = match n {
                "refs/heads/a" => "refs/heads/a/b",
                "refs/heads/x/w" => "refs/heads/x",
                "refs/remotes/up/x" => "refs/remotes/up",
                _ => "refs/heads/a",
            };
            let (from, to) = if s.get(other).is_some() { (other, if other == "refs/heads/a" { "refs/heads/a/b" } else { n }) } else { (n, other) };
            if let Some(Val::Direct(j)) = s.get(from) {
                w.delete(from);
                if !w.now().clashes(to) {
                    w.set(to, Val::Direct(j));
                }
            }
        }
        0..=3 => {
            if s.get(n).is_some() || !s.clashes(n) {
                w.set(n, Val::Direct(i));
            }
        }
        4 | 5 => w.pack_refs(None),
        6 => w.pack_refs(Some("refs/tags/")),
        7 => {
            if s.get(n).is_some() {
                w.delete(n);
            }
        }
        8 => w.set("HEAD", Val::Sym(rng.pick(NAMES).to_string())),
        _ => match rng.below(3) {
            0 => w.set("HEAD", Val::Direct(i)),
            1 => {
                if !s.clashes("refs/remotes/origin/HEAD") {
                    w.set("refs/remotes/origin/HEAD", Val::Sym("refs/remotes/origin/main".into()));
                }
            }
            _ => {
                // a rename: the new one, then the old one goes (git deletes first; both are fine)
                if let Some(Val::Direct(j)) = s.get(n) {
                    let m = *rng.pick(NAMES);
                    if m != n && (s.get(m).is_some() || !s.clashes(m)) {
                        w.set(m, Val::Direct(j));
                        w.delete(n);
                    }
                }
            }
        },
    }
}

pub fn c21(c: &mut Ctx) {
    let mut rng = c.rng.fork();
    if c.case % 40 == 39 {
        return real_git(c, &mut rng);
    }
    let root = c.fresh("r");
    Repo::init(&root);
    let mut w = world(&mut rng, &root);
    w.set("HEAD", Val::Sym("refs/heads/main".into()));
    for _ in 0..rng.range(2, 7) {
        let n = *rng.pick(NAMES);
        if !w.now().clashes(n) {
            let i = rng.below(w.objs.len());
            w.set(n, Val::Direct(i));
        }
    }
    if rng.chance(2, 3) {
        w.pack_refs(None);
    }
    for _ in 0..rng.below(3) {
        random_op(&mut rng, &mut w);
    }
    let mut done = w.prims.len();
    for i in 0..done {
        w.apply(i);
    }
    let warm = Repository::open(&root);
    let Ok(warm) = warm else { return c.violate("open-failed", "Repository::open failed") };
    let mut plans = String::new();
    for _ in 0..rng.range(6, 14) {
        w.plan.clear();
        let start = w.prims.len();
        let nops = *rng.pick(&[1usize, 1, 1, 2, 3]);
        while w.prims.len() == start {
            for _ in 0..nops {
                random_op(&mut rng, &mut w);
            }
        }
        let end = w.prims.len();
        // one that changes now, or any
        let touched: Vec<String> = w.touched[start..end].iter().flatten().cloned().collect();
        let ask = match rng.below(10) {
            0..=3 if !touched.is_empty() => {
                let n = rng.pick(&touched).clone();
                if n == "HEAD" { Ask::Head } else { Ask::Peel(n) }
            }
            4 => Ask::Head,
            5 => Ask::Peel(rng.pick(NAMES).to_string()),
            6 | 7 => Ask::List(0),
            _ => Ask::List(rng.range(1, 4)),
        };
        let fresh;
        let cold = rng.chance(1, 3);
        let r = if cold {
            fresh = match Repository::open(&root) {
                Ok(r) => r,
                Err(e) => return c.violate("open-failed", obs::chain(&e)),
            };
            &fresh
        } else {
            &warm
        };
        // how the steps fall into the call
        let k = end - start;
        let calls = match &ask {
            Ask::List(_) => 30,
            _ => 12,
        };
        let mut at: Vec<usize> = match rng.below(4) {
            0 => vec![rng.below(calls); k],
            1 => {
                let (cut, a) = (rng.below(k + 1), rng.below(calls));
                let b = a + rng.below(calls);
                (0..k).map(|i| if i < cut { a } else { b }).collect()
            }
            2 => {
                let a = rng.below(calls / 2);
                let d = rng.range(1, 4);
                (0..k).map(|i| a + i / d).collect()
            }
            _ => (0..k).map(|_| rng.below(calls)).collect(),
        };
        at.sort();
        let mut full = vec![0; start];
        full.extend(at);
        let mut m = Placed { w: &w, at: &full, next: done, end, n: 0, inside: 0, trace: vec![] };
        let d = format!("{ask:?} while [{}] ({} handle)", w.plan, if cold { "fresh" } else { "long-lived" });
        let Some(got) = c.op(|| d.clone(), || sys::monitored(&mut m, || run(&ask, r, &w.objs))) else { return };
        let (hi, inside, trace) = (m.next, m.inside, std::mem::take(&mut m.trace));
        c.count("placements", 1);
        c.count("steps_inside_calls", inside);
        match ask {
            Ask::List(_) => c.count("listings", 1),
            _ => c.count("peels", 1),
        }
        c.eval(hash64(format!("{} {d} {:?}", c.case, &full[start..]).as_bytes()), inside > 0);
        if let Err((sig, e)) = judge(&w, &ask, &got, done, hi) {
            return c.violate(sig, format!("{e}; {d}; calls and steps: {}", trace.join(" ")));
        }
        for i in hi..end {
            w.apply(i);
        }
        done = end;
        // afterwards, exactly the new state
        for ask in [Ask::Head, Ask::List(0), Ask::Peel(rng.pick(NAMES).to_string())] {
            let d = format!("{ask:?} after [{}]", w.plan);
            let Some(got) = c.op(|| d.clone(), || run(&ask, &warm, &w.objs)) else { return };
            c.count("settled_reads", 1);
            if let Err((sig, e)) = judge(&w, &ask, &got, done, done) {
                return c.violate(sig, format!("{e}; {d}"));
            }
        }
        plans += &w.plan;
        // keep the history short
        let s = w.now().clone();
        w.states = vec![State::default(); w.prims.len()];
        w.states.push(s);
    }
    c.sample(|| plans);
}

/// Real git processes change references beside looping readers.
fn real_git(c: &mut Ctx, rng: &mut Rng) {
    let dir = c.fresh("g");
    let repo = Repo::init(&dir);
    let tree = Obj::new(Kind::Tree, vec![]);
    repo.add_loose(&tree, rng);
    let commits: Vec<Obj> = (0..10)
        .map(|i| Obj::new(Kind::Commit, format!("tree {}\nauthor A <a@b> {i} +0000\ncommitter A <a@b> {i} +0000\n\ncommit {i} of {}\n", tree.hex(), c.case).into_bytes()))
        .collect();
    for o in &commits {
        repo.add_loose(o, rng);
    }
    let stable = ["refs/heads/stable", "refs/tags/s/one", "refs/remotes/origin/keep"];
    for n in stable {
        repo.add_ref(n, format!("{}\n", commits[0].hex()).as_bytes());
    }
    repo.add_ref("refs/heads/main", format!("{}\n", commits[0].hex()).as_bytes());
    repo.add_ref("HEAD", b"ref: refs/heads/main\n");
    let Ok(r) = Repository::open(&dir) else { return c.violate("open-failed", "open") };
    let mut reads = 0u64;
    let mut reached = 0;
    for round in 1..commits.len() {
        // main moves on, everything is packed, others come and go
        let script = match rng.below(3) {
            0 => format!("git update-ref refs/heads/main {new} && git pack-refs --all && git branch -f a/b && git branch -m a/b a && git branch -m a a/b && git pack-refs --all && git branch -m a/b a && git branch -D a", new = commits[round].hex()),
            1 => format!("git pack-refs --all && git update-ref refs/heads/main {new} && git update-ref refs/tags/s/two {new} && git pack-refs --all && git update-ref -d refs/tags/s/two", new = commits[round].hex()),
            _ => format!("git update-ref refs/heads/main {new} && git branch -f other {new} && git pack-refs --all && git branch -m other third && git branch -D third", new = commits[round].hex()),
        };
        let mut ch = match {
            let mut k = git::cmd(&dir);
            let envs: Vec<(std::ffi::OsString, Option<std::ffi::OsString>)> = k.get_envs().map(|(a, b)| (a.to_owned(), b.map(|b| b.to_owned()))).collect();
            k = std::process::Command::new("sh");
            k.current_dir(&dir).env_clear().arg("-c").arg(&script).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
            for (a, b) in envs {
                if let Some(b) = b {
                    k.env(a, b);
                }
            }
            k.spawn()
        } {
            Ok(ch) => ch,
            Err(e) => return c.trouble(format!("git: {e}")),
        };
        loop {
            let over = matches!(ch.try_wait(), Ok(Some(_)));
            let ok = c.op(|| "reads beside git".into(), || -> Result<usize, (String, String)> {
                for n in stable {
                    match run(&Ask::Peel(n.into()), &r, &commits) {
                        Found::Peeled(id, Ok(())) if id == commits[0].id() => {}
                        Found::Peeled(id, e) => return Err(("wrong".into(), format!("{n} peels to {} {e:?}", sha1::hex(&id)))),
                        Found::Missing(_) => return Err(("vanished".into(), format!("{n} not found beside git"))),
                        Found::Error(e) => return Err(("error".into(), format!("{n}: {e}"))),
                        _ => unreachable!(),
                    }
                }
                let seen = match run(&Ask::Head, &r, &commits) {
                    Found::Peeled(id, Ok(())) => commits.iter().position(|o| o.id() == id).unwrap(),
                    Found::Peeled(id, Err(e)) => return Err(("wrong".into(), format!("HEAD peels to {}: {e}", sha1::hex(&id)))),
                    Found::Missing(_) => return Err(("vanished".into(), "HEAD not found beside git".into())),
                    Found::Error(e) => return Err(("error".into(), format!("HEAD: {e}"))),
                    _ => unreachable!(),
                };
                match run(&Ask::List(0), &r, &commits) {
                    Found::Names(l) => {
                        for n in stable {
                            let k = l.iter().filter(|x| *x == n.as_bytes()).count();
                            if k != 1 {
                                return Err(("vanished".into(), format!("{n} is listed {k} times beside git")));
                            }
                        }
                        let main = l.iter().filter(|x| *x == b"refs/heads/main").count();
                        if main > 1 {
                            return Err(("listed-twice".into(), "refs/heads/main is listed twice beside git".into()));
                        }
                    }
                    Found::Error(e) => return Err(("error".into(), format!("list: {e}"))),
                    _ => unreachable!(),
                }
                Ok(seen)
            });
            match ok {
                None => {
                    let _ = ch.wait();
                    return;
                }
                Some(Err((sig, e))) => {
                    let _ = ch.wait();
                    return c.violate(sig, e);
                }
                Some(Ok(seen)) => {
                    if seen < reached || seen > round || (over && seen != round) {
                        let _ = ch.wait();
                        return c.violate("stale", format!("HEAD peels to commit {seen} after {reached} was seen (git {} setting {round}; {script})", if over { "is done" } else { "is" }));
                    }
                    reached = seen;
                    reads += 1;
                }
            }
            if over {
                break;
            }
        }
        if git::run(&dir, &["rev-parse", "HEAD"]).ok().map(|o| String::from_utf8_lossy(&o).trim().to_string()) != Some(commits[round].hex()) {
            return c.trouble(format!("git did not set the reference: {script}"));
        }
    }
    c.count("git_runs", commits.len() as u64 - 1);
    c.count("reads_beside_git", reads);
    c.eval(hash64(&commits[1].id()), reads > 8);
}
