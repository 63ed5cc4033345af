//! C19: faults, short transfers and interruptions on the read side.
use super::common::*;
use super::conc;
use crate::ctx::Ctx;
use crate::model::*;
use crate::obs::{self, Obs, Parsed};
use crate::rng::{hash64, Rng};
use crate::sha1;
use crate::sys::{self, Act, Ev, Monitor, K};
use rusty_git::object::ObjectDatabase;
use rusty_git::reference::Error as RefError;
use rusty_git::repository::{OpenError, Repository};
use std::path::Path;

#[derive(Clone)]
pub(super) enum Call {
    Open,
    Parse(Obj),
    Raw(Obj),
    Absent(Oid),
    Reference(Vec<u8>, Obj),
    Head(Obj),
    Lists(Vec<Vec<u8>>),
    NoRef(Vec<u8>),
}

#[derive(Debug)]
pub(super) enum Out {
    Right,
    Wrong(String),
    NotFound(String),
    Err(String),
}

fn ref_err(e: RefError) -> Out {
    let s = obs::chain(&e);
    match e {
        RefError::ReferenceNotFound => Out::NotFound(s),
        RefError::DereferencingFailed(e) if e.is_not_found() => Out::NotFound(s),
        _ => Out::Err(s),
    }
}

impl Call {
    pub(super) fn name(&self) -> String {
        match self {
            Call::Open => "Repository::open".into(),
            Call::Parse(o) => format!("parse_object {}", o.hex()),
            Call::Raw(o) => format!("read_object {}", o.hex()),
            Call::Absent(i) => format!("parse_object of absent {}", sha1::hex(i)),
            Call::Reference(n, _) => format!("reference {} and peel", String::from_utf8_lossy(n)),
            Call::Head(_) => "head and peel".into(),
            Call::Lists(_) => "reference lists".into(),
            Call::NoRef(n) => format!("missing reference {}", String::from_utf8_lossy(n)),
        }
    }
    pub(super) fn run(&self, dir: &Path, repo: &Repository) -> Out {
        let db: &ObjectDatabase = repo.object_database();
        let rd = repo.reference_database();
        match self {
            Call::Open => match Repository::open(dir) {
                Ok(_) => Out::Right,
                Err(OpenError::NotFound(p)) => Out::NotFound(p.display().to_string()),
                Err(e) => Out::Err(obs::chain(&e)),
            },
            Call::Parse(o) => match obs::parse(db, &o.id()) {
                Parsed::Ok { id, .. } if id != o.id() => Out::Wrong(format!("reports id {}", sha1::hex(&id))),
                Parsed::Ok { data, .. } => match obs::agrees(&data, o) {
                    Ok(()) => Out::Right,
                    Err(e) => Out::Wrong(e),
                },
                Parsed::NotFound(s) => Out::NotFound(s),
                Parsed::Err(s) => Out::Err(s),
            },
            Call::Raw(o) => match obs::read_raw(db, &o.id()) {
                Ok(b) if b == o.enc() => Out::Right,
                Ok(b) => Out::Wrong(format!("delivers {} bytes instead of {}", b.len(), o.enc().len())),
                Err(Obs::NotFound(s)) => Out::NotFound(s),
                Err(e) => Out::Err(e.show()),
            },
            Call::Absent(id) => match obs::parse(db, id) {
                Parsed::Ok { .. } => Out::Wrong("an absent object was found".into()),
                Parsed::NotFound(_) => Out::Right,
                Parsed::Err(s) => Out::Err(s),
            },
            Call::Reference(n, o) => peel(repo, rd.reference(n), o),
            Call::Head(o) => peel(repo, rd.head(), o),
            Call::Lists(want) => {
                let one = |l: Result<Vec<Vec<u8>>, RefError>, pre: &[&str]| match l {
                    Err(e) => Some(ref_err(e)),
                    Ok(mut l) => {
                        l.sort();
                        let w: Vec<Vec<u8>> = want.iter().filter(|n| pre.iter().any(|p| n.starts_with(p.as_bytes()))).cloned().collect();
                        (l != w).then(|| Out::Wrong(format!("{pre:?}: lists {} names instead of {}", l.len(), w.len())))
                    }
                };
                // each list is complete or an error; the first trouble is the outcome, wrong ones before errors
                let all = [
                    one(rd.reference_names(), &["refs/heads/", "refs/tags/", "refs/remotes/"]),
                    one(rd.head_reference_names(), &["refs/heads/"]),
                    one(rd.tag_reference_names(), &["refs/tags/"]),
                    one(rd.remote_reference_names(), &["refs/remotes/"]),
                ];
                let mut out = Out::Right;
                for o in all.into_iter().flatten() {
                    match (&out, &o) {
                        (Out::Right, _) | (Out::Err(_), Out::Wrong(_)) | (Out::Err(_), Out::NotFound(_)) => out = o,
                        _ => {}
                    }
                }
                out
            }
            Call::NoRef(n) => match rd.reference(n) {
                Ok(_) => Out::Wrong("a missing reference was found".into()),
                Err(e) => match ref_err(e) {
                    Out::NotFound(_) => Out::Right,
                    o => o,
                },
            },
        }
    }
}

fn peel(repo: &Repository, r: Result<rusty_git::reference::Reference, RefError>, o: &Obj) -> Out {
    match r.and_then(|r| r.peel(repo)) {
        Ok(x) if obs::oid(*x.id()) != o.id() => Out::Wrong(format!("peels to {}", x.id())),
        Ok(x) => match obs::agrees(x.data(), o) {
            Ok(()) => Out::Right,
            Err(e) => Out::Wrong(e),
        },
        Err(e) => ref_err(e),
    }
}

#[derive(Clone, Copy, Debug)]
pub(super) enum Pattern {
    None,
    /// this call fails
    Once(usize, i32),
    /// this call and all later ones of its kind fail
    Kind(usize, i32),
    /// this call and all later ones fail
    All(usize, i32),
    /// reads deliver at most so many bytes
    Short(usize),
    /// reads deliver between 1 and so many bytes
    Ragged(usize),
    /// this read is interrupted so many times
    Eintr(usize, usize),
    /// reads deliver at most so many bytes, and those from the given one on fail
    Cut(usize, usize, i32),
    /// about every second read is interrupted, the others are short
    Storm(usize),
}

pub(super) struct Inject {
    p: Pattern,
    rng: Rng,
    pub(super) n: usize,
    kind: Option<K>,
    left: usize,
    pub(super) hits: u64,
    pub(super) kinds: Vec<K>,
    trace: Vec<String>,
}

impl Inject {
    pub(super) fn new(p: Pattern, rng: &mut Rng) -> Inject {
        Inject { p, rng: rng.fork(), n: 0, kind: None, left: 0, hits: 0, kinds: vec![], trace: vec![] }
    }
    fn decide(&mut self, ev: &Ev, i: usize) -> Act {
        match self.p {
            Pattern::None => Act::Pass,
            Pattern::Once(at, e) if i == at => Act::Fail(e),
            Pattern::Kind(at, e) if i >= at => {
                if i == at {
                    self.kind = Some(ev.kind);
                }
                if self.kind == Some(ev.kind) { Act::Fail(e) } else { Act::Pass }
            }
            Pattern::All(at, e) if i >= at => Act::Fail(e),
            Pattern::Short(n) if ev.kind == K::Read && ev.len > n => Act::Short(n),
            Pattern::Ragged(n) if ev.kind == K::Read && ev.len > 1 => Act::Short(self.rng.range(1, n)),
            Pattern::Cut(n, at, e) if ev.kind == K::Read => {
                self.left += 1;
                if self.left > at { Act::Fail(e) } else if ev.len > n { Act::Short(n) } else { Act::Pass }
            }
            Pattern::Eintr(at, times) => {
                if i == at {
                    self.left = times;
                }
                if ev.kind == K::Read && self.left > 0 {
                    self.left -= 1;
                    Act::Fail(libc::EINTR)
                } else {
                    Act::Pass
                }
            }
            Pattern::Storm(n) if ev.kind == K::Read => {
                if self.left < 5 && self.rng.chance(1, 2) {
                    self.left += 1;
                    Act::Fail(libc::EINTR)
                } else {
                    self.left = 0;
                    Act::Short(self.rng.range(1, n))
                }
            }
            _ => Act::Pass,
        }
    }
}

impl Monitor for Inject {
    fn before(&mut self, ev: &Ev) -> Act {
        if !ev.in_root {
            return Act::Pass;
        }
        let i = self.n;
        self.n += 1;
        self.kinds.push(ev.kind);
        let mut act = self.decide(ev, i);
        // a failing close leaves nothing to observe
        if ev.kind == K::Close && matches!(act, Act::Fail(_)) {
            act = Act::Pass;
        }
        if act != Act::Pass {
            self.hits += 1;
        }
        if self.trace.len() < 24 {
            self.trace.push(if act == Act::Pass { ev.show() } else { format!("{}<{act:?}>", ev.show()) });
        }
        act
    }
}

pub(super) struct Scene {
    pub(super) f: conc::Fixture,
    pub(super) calls: Vec<Call>,
}

pub(super) fn scene(rng: &mut Rng, dir: &Path) -> Scene {
    let np = rng.below(3);
    let late = rng.chance(1, 2) as usize;
    let f = conc::fixture(rng, dir, np, late);
    // more references: a second namespace, nesting, a chain
    let mut refs = f.refs.clone();
    for n in ["refs/tags/v1", "refs/heads/x/y/z", "refs/remotes/origin/main"] {
        if rng.chance(2, 3) {
            let o = rng.pick(&f.objs).clone();
            f.repo.add_ref(n, format!("{}\n", o.hex()).as_bytes());
            refs.push((n.as_bytes().to_vec(), o));
        }
    }
    if rng.chance(1, 2) {
        f.repo.add_ref("refs/heads/sym", b"ref: refs/heads/b1\n");
        refs.push((b"refs/heads/sym".to_vec(), f.refs[1].1.clone()));
    }
    let mut calls = vec![Call::Open];
    for (n, o) in &refs {
        calls.push(if n == b"HEAD" { Call::Head(o.clone()) } else { Call::Reference(n.clone(), o.clone()) });
    }
    let mut names: Vec<Vec<u8>> = refs.iter().map(|r| r.0.clone()).filter(|n| n != b"HEAD").collect();
    names.sort();
    calls.push(Call::Lists(names));
    calls.push(Call::NoRef(b"refs/heads/none".to_vec()));
    for o in &f.objs {
        calls.push(Call::Parse(o.clone()));
        calls.push(Call::Raw(o.clone()));
    }
    for o in f.late.iter().flat_map(|l| &l.1) {
        calls.push(Call::Parse(o.clone()));
        calls.push(Call::Raw(o.clone()));
    }
    for i in &f.absent {
        calls.push(Call::Absent(*i));
    }
    Scene { f, calls }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Warm {
    Cold,
    /// the handle has read something before
    Warm,
    /// the handle has read everything before
    Hot,
}

fn handle(c: &mut Ctx, s: &Scene, warm: Warm, rng: &mut Rng) -> Option<Repository> {
    let r = match Repository::open(&s.f.repo.path) {
        Ok(r) => r,
        Err(e) => {
            c.violate("open-failed", obs::chain(&e));
            return None;
        }
    };
    let n = match warm {
        Warm::Cold => 0,
        Warm::Warm => 1,
        Warm::Hot => s.calls.len(),
    };
    for i in 0..n {
        let call = if n == 1 { rng.pick(&s.calls) } else { &s.calls[i] };
        match c.op(|| call.name(), || call.run(&s.f.repo.path, &r))? {
            Out::Right => {}
            o => {
                c.violate("wrong-without-fault", format!("{}: {o:?}", call.name()));
                return None;
            }
        }
    }
    Some(r)
}

/// Everything the handle is asked for must be right.
fn recovered(c: &mut Ctx, s: &Scene, r: &Repository, first: &Call, full: bool, what: &str) -> bool {
    let rest: &[Call] = if full { &s.calls } else { &[] };
    for call in std::iter::once(first).chain(rest) {
        let Some(o) = c.op(|| format!("{} after {what}", call.name()), || call.run(&s.f.repo.path, r)) else { return false };
        if !matches!(o, Out::Right) {
            c.violate("not-recovered", format!("{} on the same handle after {what}: {o:?}", call.name()));
            return false;
        }
    }
    c.count("recoveries", 1);
    true
}

pub fn c19(c: &mut Ctx) {
    let mut rng = c.rng.fork();
    let dir = c.fresh("r");
    let mut s = scene(&mut rng, &dir);
    // a pack that arrives after the handle looked
    let add_late = !s.f.late.is_empty();
    let warm = match c.case % 3 {
        0 => Warm::Cold,
        1 => Warm::Warm,
        _ => Warm::Hot,
    };
    let late_calls = if add_late { s.f.late[0].1.len() * 2 } else { 0 };
    let mut late_ids: Vec<Call> = vec![];
    if add_late {
        let at = s.calls.len() - s.f.absent.len();
        late_ids = s.calls.drain(at - late_calls..at).collect();
    }
    // what the fault hits
    let kinds = s.calls.len();
    let picked: Vec<Call> = (0..2)
        .map(|i| {
            if add_late && (c.case + i) % 3 == 0 {
                rng.pick(&late_ids).clone()
            } else if rng.chance(1, 3) {
                s.calls[rng.below(7.min(kinds))].clone()
            } else {
                rng.pick(&s.calls).clone()
            }
        })
        .collect();
    let full_calls: Vec<Call> = s.calls.iter().chain(&late_ids).cloned().collect();
    let late_pack = s.f.late.first().map(|l| l.0.clone());
    for call in picked {
        let is_late = match &call {
            Call::Parse(o) | Call::Raw(o) => s.f.late.iter().any(|l| l.1.contains(o)) && !s.f.objs.contains(o),
            _ => false,
        };
        // the late pack is there from the first faulted call on, but the handle is made before it
        let setup = |c: &mut Ctx, rng: &mut Rng, s: &Scene| -> Option<Repository> {
            if let (true, Some(p)) = (is_late, &late_pack) {
                let stem = s.f.repo.packs().join(p.name());
                let _ = std::fs::remove_file(stem.with_extension("idx"));
                let _ = std::fs::remove_file(stem.with_extension("pack"));
            }
            let r = handle(c, s, warm, rng)?;
            if let (true, Some(p)) = (is_late, &late_pack) {
                s.f.repo.add_pack(p);
            }
            Some(r)
        };
        let Some(r) = setup(c, &mut rng, &s) else { return };
        let mut m = Inject::new(Pattern::None, &mut rng);
        let name = call.name();
        let Some(o) = c.op(|| format!("{name} ({warm:?})"), || sys::monitored(&mut m, || call.run(&dir, &r))) else { return };
        if !matches!(o, Out::Right) {
            return c.violate("wrong-without-fault", format!("{name} ({warm:?} handle): {o:?}"));
        }
        let (n, kinds) = (m.n, m.kinds.clone());
        drop(r);
        let mut patterns = vec![];
        // cap for calls that read a lot in small pieces
        let stride = n.div_ceil(60).max(1);
        for i in (0..n).step_by(stride) {
            if kinds[i] == K::Close {
                continue;
            }
            let errs: &[i32] = match kinds[i] {
                K::Open | K::Opendir => &[libc::EIO, libc::EMFILE, libc::EACCES, libc::ENOMEM, libc::ENFILE],
                K::Stat => &[libc::EIO, libc::EACCES, libc::ENOMEM],
                K::Read => &[libc::EIO, libc::ENOMEM, libc::ESTALE],
                _ => &[libc::EIO, libc::ENOMEM],
            };
            for &e in errs {
                patterns.push(Pattern::Once(i, e));
            }
            patterns.push(Pattern::Kind(i, *rng.pick(errs)));
            patterns.push(Pattern::All(i, *rng.pick(errs)));
            if kinds[i] == K::Read {
                patterns.push(Pattern::Eintr(i, rng.range(1, 4)));
            }
        }
        for _ in 0..10 {
            let n = *rng.pick(&[1usize, 2, 3, 5, 11, 20, 41, 100, 700]);
            patterns.push(Pattern::Cut(n, rng.range(1, 40), *rng.pick(&[libc::EIO, libc::ENOMEM, libc::ESTALE])));
        }
        if matches!(call, Call::Reference(..) | Call::Head(_)) {
            // every prefix of the files of a reference
            for at in 1..70 {
                patterns.push(Pattern::Cut(1, at, libc::EIO));
            }
        }
        patterns.extend([Pattern::Short(1), Pattern::Short(2), Pattern::Short(7), Pattern::Ragged(5), Pattern::Ragged(400), Pattern::Storm(3), Pattern::Storm(3000)]);
        let all = Scene { f: std::mem::replace(&mut s.f, dummy()), calls: if is_late { full_calls.clone() } else { s.calls.clone() } };
        let base = Scene { f: dummy(), calls: s.calls.clone() };
        for p in patterns {
            // `handle` warms with the calls that are right without the late pack
            let cold = Scene { f: dummy_at(&dir), calls: base.calls.clone() };
            let Some(r) = setup(c, &mut rng, &cold) else { return };
            let mut m = Inject::new(p, &mut rng);
            let what = format!("{p:?} during {name} ({warm:?} handle{})", if is_late { ", pack added later" } else { "" });
            let Some(o) = c.op(|| what.clone(), || sys::monitored(&mut m, || call.run(&dir, &r))) else { return };
            let what = format!("{what} [{}]", m.trace.join(" "));
            let transparent = matches!(p, Pattern::Short(_) | Pattern::Ragged(_) | Pattern::Eintr(..) | Pattern::Storm(_));
            match p {
                Pattern::Short(_) | Pattern::Ragged(_) => c.count("short_read_runs", (m.hits > 0) as u64),
                Pattern::Eintr(..) | Pattern::Storm(_) => c.count("eintr_runs", (m.hits > 0) as u64),
                _ => c.count("error_points", (m.hits > 0) as u64),
            }
            c.count("faults_delivered", m.hits);
            c.eval(hash64(format!("{} {p:?} {warm:?} {}", c.case, name).as_bytes()), m.hits > 0);
            match o {
                Out::Right => c.count("right_under_fault", 1),
                Out::Wrong(w) => return c.violate("wrong-under-fault", format!("{w}: {what}")),
                o if transparent => return c.violate("short-read-visible", format!("{o:?}: {what}")),
                Out::NotFound(w) => return c.violate("not-found-under-fault", format!("{w}: {what}")),
                Out::Err(_) => c.count("errors_under_fault", 1),
            }
            let full = rng.chance(1, 4);
            if !recovered(c, &all, &r, &call, full, &what) {
                return;
            }
        }
        s.f = all.f;
        c.sample(|| format!("{name}, {warm:?} handle: {n} calls {kinds:?}"));
    }
}

fn dummy() -> conc::Fixture {
    dummy_at(Path::new("/nonexistent"))
}
fn dummy_at(p: &Path) -> conc::Fixture {
    conc::Fixture { repo: Repo { path: p.to_path_buf() }, objs: vec![], absent: vec![], refs: vec![], late: vec![] }
}
#[allow(unused_imports)]
use absent_id as _;
