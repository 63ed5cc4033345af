//! C10-C13: commits, identities, tags and trees are reported exactly.
use crate::ctx::Ctx;
use crate::git;
use crate::model::*;
use crate::objgen::{self, CommitT, Ident, TagT};
use crate::obs::{self, Parsed};
use crate::rng::{hash64, Rng};
use crate::sha1;
use rusty_git::object::{ObjectData, ObjectDatabase};

/// Stores objects loose or packed (seeded) and hands each back parsed.
fn stored(c: &mut Ctx, rng: &mut Rng, objs: &[Obj]) -> Option<Vec<Option<ObjectData>>> {
    let dir = c.fresh("r");
    let repo = Repo::init(&dir);
    let mut uniq = std::collections::HashSet::new();
    let mut packed: Vec<Entry> = vec![];
    for o in objs {
        if !uniq.insert(o.id()) {
            continue;
        }
        if rng.chance(1, 3) {
            packed.push(Entry { obj: o.clone(), store: Store::Whole, delta: vec![] });
        } else {
            repo.add_loose(o, rng);
        }
    }
    if !packed.is_empty() {
        let o = super::common::rand_opts(rng, packed.len());
        let p = build_pack(&packed, &o, rng);
        repo.add_pack(&p);
    }
    let db = ObjectDatabase::open(&repo.git());
    let mut out = vec![];
    for o in objs {
        let id = o.id();
        let d = format!("parse {} {}: {}", o.kind.name(), sha1::hex(&id), String::from_utf8_lossy(&o.body[..o.body.len().min(500)]).escape_debug());
        match c.op(|| d.clone(), || obs::parse(&db, &id)) {
            Some(Parsed::Ok { data, id: got }) => {
                if got != id {
                    c.violate("wrong-id", d);
                    return None;
                }
                out.push(Some(data));
            }
            Some(p) => {
                c.violate(format!("{}-refused", o.kind.name()), format!("{d}: {}", p.show()));
                return None;
            }
            None => return None,
        }
    }
    Some(out)
}

fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(&b[..b.len().min(300)]).escape_debug().to_string();
    format!("\"{s}\"{}", if b.len() > 300 { "..." } else { "" })
}
fn show_ident(i: &Ident) -> String {
    format!("name {} email {} time {:?} zone {:?}", show(&i.name), show(&i.email), i.time.as_ref().map(|t| show(t)), i.zone.as_ref().map(|t| show(t)))
}

fn ident_differs(c: &mut Ctx, what: &str, got: &Ident, want: &Ident, line: &[u8]) -> bool {
    if got == want {
        return false;
    }
    let field = if got.name != want.name {
        "name"
    } else if got.email != want.email {
        "email"
    } else if got.time != want.time {
        "timestamp"
    } else {
        "timezone"
    };
    c.violate(format!("identity-{field}"), format!("{what} line {}: reported {}, expected {}", show(line), show_ident(got), show_ident(want)));
    true
}

fn check_commit(c: &mut Ctx, d: &ObjectData, t: &CommitT) -> bool {
    let ObjectData::Commit(cm) = d else {
        c.violate("kind", "a commit was parsed as something else");
        return false;
    };
    let Some((got, dbg)) = c.op(|| "commit accessors and Debug".into(), || (obs::commit(cm), format!("{cm:?}").len())) else { return false };
    let n = cm.parents().len();
    let body = t.body();
    let what = show(&body[..body.len().min(600)]);
    if got.tree != t.tree {
        c.violate("tree", format!("{what}: tree {}", sha1::hex(&got.tree)));
    } else if got.parents != t.parents || n != t.parents.len() {
        c.violate("parents", format!("{what}: {} parents (len {n}): {:?}", got.parents.len(), got.parents.iter().map(|p| sha1::hex(p)).collect::<Vec<_>>()));
    } else if ident_differs(c, "author", &got.author, &t.author, &t.author.line()) || ident_differs(c, "committer", &got.committer, &t.committer, &t.committer.line()) {
    } else if got.encoding != t.encoding {
        c.violate("encoding", format!("{what}: encoding {:?} instead of {:?}", got.encoding.map(|e| show(&e)), t.encoding.as_ref().map(|e| show(e))));
    } else if got.message != t.message {
        c.violate("message", format!("{what}: message {} instead of {}", show(&got.message), show(&t.message)));
    } else {
        return dbg > 0;
    }
    false
}

/// As git cat-file prints it, `git hash-object -t commit --stdin` accepts it and gives the same id.
fn git_accepts(c: &mut Ctx, rng: &mut Rng, objs: &[Obj]) {
    let dir = c.fresh("g");
    let repo = Repo::init(&dir);
    for o in objs {
        repo.add_loose(o, rng);
    }
    let ids: Vec<Oid> = objs.iter().map(|o| o.id()).collect();
    match git::cat(&dir, &ids) {
        Ok(got) => {
            for (g, o) in got.iter().zip(objs) {
                if g.as_ref() != Some(o) {
                    c.trouble(format!("git reads {} differently", o.hex()));
                }
                c.count("git_checked", 1);
            }
        }
        Err(e) => c.trouble(format!("git cat-file: {e}")),
    }
}

fn git_commit_fields(c: &mut Ctx, rng: &mut Rng, ts: &[CommitT]) {
    // git's own parser as a second opinion on the generator's ground truth
    let dir = c.fresh("g");
    let repo = Repo::init(&dir);
    let mut input = String::new();
    // one id may not be used as two kinds
    let ts: Vec<CommitT> = ts
        .iter()
        .map(|t| {
            let mut t = t.clone();
            t.tree = rng.bytes(20).try_into().unwrap();
            for p in &mut t.parents {
                *p = rng.bytes(20).try_into().unwrap();
            }
            t
        })
        .collect();
    for t in &ts {
        repo.add_loose(&t.obj(), rng);
        input += &format!("{}\n", t.obj().hex());
    }
    let r = git::run_in(
        git::cmd(&dir).args(["log", "--no-walk=unsorted", "--stdin", "--encoding=none", "-z", "--format=%H%x01%T%x01%P%x01%an%x01%ae%x01%cn%x01%ce%x01%e%x01%at"]),
        input.as_bytes(),
    );
    let out = match r {
        Ok(o) => o,
        Err(e) => {
            c.trouble(format!("git log: {e}"));
            return;
        }
    };
    let mut seen = 0;
    for rec in out.split(|&b| b == 0) {
        let f: Vec<&[u8]> = rec.split(|&b| b == 1).collect();
        if f.len() < 9 {
            continue;
        }
        let Some(t) = ts.iter().find(|t| t.obj().hex().as_bytes() == f[0]) else { continue };
        seen += 1;
        let parents: Vec<String> = t.parents.iter().map(|p| sha1::hex(p)).collect();
        if t.encoding.as_ref().map_or(false, |e| e.starts_with(b"UTF-16") || !t.author.line().is_ascii() || !t.committer.line().is_ascii()) {
            // git re-encodes what it prints
            continue;
        }
        let ok = f[1] == sha1::hex(&t.tree).as_bytes()
            && f[2] == parents.join(" ").as_bytes()
            && f[3] == &t.author.name[..]
            && f[4] == &t.author.email[..]
            && f[5] == &t.committer.name[..]
            && f[6] == &t.committer.email[..]
            && f[7] == t.encoding.clone().unwrap_or_default();
        if !ok {
            c.trouble(format!("generator and git disagree about {}: git has {:?}", show(&t.body()), f.iter().map(|x| show(x)).collect::<Vec<_>>()));
        }
        c.count("git_checked", 1);
    }
    if seen == 0 {
        c.count("git_log_empty", 1);
    }
}

fn made_by_git(c: &mut Ctx, rng: &mut Rng) {
    let dir = c.fresh("m");
    let repo = Repo::init(&dir);
    let mut body: Vec<u8> = objgen::ident_text(rng, false);
    body.retain(|b| *b != 0);
    let name = if body.is_empty() { b"x".to_vec() } else { body };
    let email = {
        let e = objgen::ident_text(rng, true);
        if e.is_empty() { b"e@x".to_vec() } else { e }
    };
    use std::os::unix::ffi::OsStrExt;
    let os = |b: &[u8]| std::ffi::OsStr::from_bytes(b).to_os_string();
    let tree = match git::run_in(git::cmd(&dir).args(["hash-object", "-t", "tree", "-w", "--stdin"]), b"") {
        Ok(t) => String::from_utf8_lossy(&t).trim().to_string(),
        Err(e) => {
            c.trouble(format!("git hash-object: {e}"));
            return;
        }
    };
    let when = rng.below(2_000_000_000);
    let zone = *rng.pick(&["+0000", "-0330", "+1400", "+0545"]);
    let mut args: Vec<String> = vec!["-c".into()];
    let enc = if rng.chance(1, 3) { Some("ISO-8859-1") } else { None };
    args.push(format!("i18n.commitEncoding={}", enc.unwrap_or("UTF-8")));
    args.extend(["commit-tree".to_string(), tree.clone()]);
    let mut msg = objgen::message(rng);
    msg.retain(|b| *b != 0);
    let mut cmd = git::cmd(&dir);
    cmd.args(&args)
        .env("GIT_AUTHOR_NAME", os(&name))
        .env("GIT_AUTHOR_EMAIL", os(&email))
        .env("GIT_AUTHOR_DATE", format!("{when} {zone}"));
    let out = match git::run_in(&mut cmd, &msg) {
        Ok(o) => o,
        Err(_) => {
            // names git refuses (all crud), or an encoding that does not fit
            c.count("git_refused", 1);
            return;
        }
    };
    let hex = String::from_utf8_lossy(&out).trim().to_string();
    let id: Oid = sha1::unhex(&hex).try_into().unwrap();
    let db = ObjectDatabase::open(&repo.git());
    let got = match c.op(|| format!("parse commit {hex} made by git commit-tree, author {}", show(&name)), || obs::parse(&db, &id)) {
        Some(Parsed::Ok { data, .. }) => data,
        Some(p) => {
            c.violate("commit-refused", format!("commit {hex} made by git: {}", p.show()));
            return;
        }
        None => return,
    };
    let ObjectData::Commit(cm) = &got else { return c.violate("kind", "not a commit") };
    let g = obs::commit(cm);
    c.count("git_made", 1);
    // what git stored: it re-encodes what is not the UTF-8 it claims to be
    let body = match git::cat(&dir, &[id]) {
        Ok(v) => match v.into_iter().next().flatten() {
            Some(o) => o.body,
            None => return c.trouble(format!("git cat-file does not know {hex}")),
        },
        Err(e) => return c.trouble(format!("git cat-file: {e}")),
    };
    let Some(want) = objgen::parse_commit(&body) else { return c.trouble(format!("own parser refuses {}", show(&body))) };
    if std::str::from_utf8(&name).is_ok() && want.author.name != objgen::strip_crud(&name) {
        return c.trouble(format!("git stores name {} where the generator expects {}", show(&want.author.name), show(&name)));
    }
    if want.author.time != Some(when.to_string().into_bytes()) || want.author.zone.as_deref() != Some(zone.as_bytes()) {
        return c.trouble(format!("own parser misreads the date of {}", show(&body)));
    }
    if ident_differs(c, "author of a commit git made,", &g.author, &want.author, &want.author.line()) {
        return;
    }
    if ident_differs(c, "committer of a commit git made,", &g.committer, &want.committer, &want.committer.line()) {
        return;
    }
    if g.encoding != enc.map(|e| e.as_bytes().to_vec()) || g.encoding != want.encoding {
        c.violate("encoding", format!("commit {hex} made by git with encoding {enc:?}: {:?}", g.encoding.map(|e| show(&e))));
    }
    if g.message != want.message {
        c.violate("message", format!("commit {hex} made by git: message {} instead of {}", show(&g.message), show(&want.message)));
    }
}

pub fn c10(c: &mut Ctx) {
    let mut rng = c.rng.fork();
    let mut ts: Vec<CommitT> = (0..6).map(|_| objgen::commit(&mut rng)).collect();
    if c.case % 6000 == 17 {
        ts[0].parents = (0..65_530 + rng.below(3000)).map(|_| objgen::oid(&mut rng)).collect();
    }
    if c.case % 3000 == 19 {
        let n = rng.range(65_000, 3 << 20);
        ts[0].message = rng.bytes(n);
    }
    let objs: Vec<Obj> = ts.iter().map(|t| t.obj()).collect();
    let Some(ds) = stored(c, &mut rng, &objs) else { return };
    for ((d, t), o) in ds.iter().zip(&ts).zip(&objs) {
        let Some(d) = d else { return };
        c.eval(hash64(&o.body), !t.parents.is_empty() || t.encoding.is_some() || !t.before.is_empty() || !t.after.is_empty());
        c.count("commits", 1);
        if t.encoding.is_some() {
            c.count("with_encoding", 1);
        }
        if !t.more_authors.is_empty() {
            c.count("commits_with_several_authors", 1);
        }
        if t.bare {
            c.count("without_message", 1);
        }
        if t.before.iter().chain(&t.after).any(|h| h.starts_with(b"gpgsig")) {
            c.count("with_signature", 1);
        }
        if !check_commit(c, d, t) {
            return;
        }
    }
    if c.case % 64 == 0 {
        // what git shows never contains the separator bytes; parents must exist for log
        let plain: Vec<CommitT> = ts
            .iter()
            .filter(|t| {
                let i = |i: &Ident| !i.name.contains(&1) && !i.email.contains(&1) && i.time.is_some();
                i(&t.author) && i(&t.committer) && t.more_authors.is_empty()
            })
            .cloned()
            .collect();
        if !plain.is_empty() {
            git_commit_fields(c, &mut rng, &plain);
        }
        git_accepts(c, &mut rng, &objs);
    }
    if c.case % 48 == 0 {
        made_by_git(c, &mut rng);
    }
    c.sample(|| show(&objs[0].body));
}

pub fn c11(c: &mut Ctx) {
    let mut rng = c.rng.fork();
    let mut objs = vec![];
    let mut truth: Vec<(u8, Ident)> = vec![];
    for i in 0..9u8 {
        let mut id = objgen::ident(&mut rng);
        if i == 2 && c.case % 2000 == 19 {
            // longer than 16 bits count
            let n = 65_530 + rng.below(100) * rng.below(1000);
            let long: Vec<u8> = (0..n).map(|_| *rng.pick(b"abc XYZ.-0\xe9")).collect();
            *(if rng.chance(1, 2) { &mut id.name } else { &mut id.email }) = objgen::strip_crud(&long);
        }
        if i == 0 {
            // every leading byte in turn
            let b = (c.case % 256) as u8;
            if !objgen::is_crud(b) {
                id.name.insert(0, b);
            }
        }
        if i == 1 {
            let b = (c.case % 256) as u8;
            if !objgen::is_crud(b) {
                id.name.push(b);
                id.email.push(b);
            }
        }
        let o = match i % 3 {
            0 => {
                let mut t = objgen::commit(&mut rng);
                t.author = id.clone();
                t.message.truncate(200);
                t.obj()
            }
            1 => {
                let mut t = objgen::commit(&mut rng);
                t.committer = id.clone();
                t.message.truncate(200);
                t.obj()
            }
            _ => {
                let mut t = objgen::tag(&mut rng);
                t.tagger = Some(id.clone());
                t.message.truncate(200);
                t.obj()
            }
        };
        objs.push(o);
        truth.push((i % 3, id));
    }
    let Some(ds) = stored(c, &mut rng, &objs) else { return };
    for (d, (place, id)) in ds.iter().zip(&truth) {
        let Some(d) = d else { return };
        let line = id.line();
        c.eval(hash64(&line), true);
        c.count("identities", 1);
        if std::str::from_utf8(&line).is_err() {
            c.count("non_utf8", 1);
        }
        if id.name.first().map_or(false, |b| b.is_ascii_digit()) {
            c.count("digit_start", 1);
        }
        if id.time.is_none() {
            c.count("without_time", 1);
        } else if id.zone.is_none() {
            c.count("without_zone", 1);
        }
        let got = c.op(|| format!("identity accessors on {}", show(&line)), || match (d, place) {
            (ObjectData::Commit(cm), 0) => Some((obs::ident(&cm.author()), format!("{:?}", cm.author()).len())),
            (ObjectData::Commit(cm), 1) => Some((obs::ident(&cm.committer()), format!("{:?}", cm.committer()).len())),
            (ObjectData::Tag(t), _) => t.tagger().map(|s| (obs::ident(&s), format!("{s:?}").len())),
            _ => None,
        });
        match got {
            Some(Some((got, _))) => {
                if ident_differs(c, ["author", "committer", "tagger"][*place as usize], &got, id, &line) {
                    return;
                }
            }
            Some(None) => return c.violate("identity-missing", format!("no identity for line {}", show(&line))),
            None => return,
        }
    }
    if c.case % 64 == 0 {
        // the generator's idea of what git strips, against git itself
        let dir = c.fresh("g");
        Repo::init(&dir);
        let raw: Vec<u8> = (0..rng.range(1, 30)).map(|_| rng.byte().max(1)).collect();
        use std::os::unix::ffi::OsStrExt;
        let mut cmd = git::cmd(&dir);
        cmd.args(["var", "GIT_AUTHOR_IDENT"])
            .env("GIT_AUTHOR_NAME", std::ffi::OsStr::from_bytes(&raw))
            .env("GIT_AUTHOR_EMAIL", std::ffi::OsStr::from_bytes(&raw))
            .env("GIT_AUTHOR_DATE", "@12 +0100");
        if let Ok(out) = git::run_in(&mut cmd, b"") {
            let s = objgen::strip_crud(&raw);
            let w = Ident { name: s.clone(), email: s, time: Some(b"12".to_vec()), zone: Some(b"+0100".to_vec()) };
            let mut line = w.line();
            line.push(b'\n');
            if out != line {
                c.trouble(format!("git writes {} where the generator expects {}", show(&out), show(&line)));
            }
            c.count("git_checked", 1);
        } else {
            c.count("git_refused", 1);
        }
    }
    c.sample(|| show(&truth[0].1.line()));
}

pub fn c12(c: &mut Ctx) {
    let mut rng = c.rng.fork();
    let ts: Vec<TagT> = (0..6).map(|_| objgen::tag(&mut rng)).collect();
    let objs: Vec<Obj> = ts.iter().map(|t| t.obj()).collect();
    let Some(ds) = stored(c, &mut rng, &objs) else { return };
    for ((d, t), o) in ds.iter().zip(&ts).zip(&objs) {
        let Some(d) = d else { return };
        c.eval(hash64(&o.body), true);
        c.count("tags", 1);
        if t.tagger.is_none() {
            c.count("without_tagger", 1);
        }
        if !t.after.is_empty() {
            c.count("with_other_headers", 1);
        }
        if t.bare {
            c.count("without_message", 1);
        }
        let ObjectData::Tag(tag) = d else { return c.violate("kind", "a tag was parsed as something else") };
        let Some((got, _)) = c.op(|| "tag accessors and Debug".into(), || (obs::tag(tag), format!("{tag:?}").len())) else { return };
        let want = obs::tag_truth(t);
        let mut got = got;
        if want.4.is_none() && got.4.as_deref() == Some(&b""[..]) {
            // as right as none
            got.4 = None;
        }
        if got != want {
            let f = if got.0 != want.0 { "object" } else if got.1 != want.1 { "type" } else if got.2 != want.2 { "name" } else if got.3 != want.3 { "tagger" } else { "message" };
            return c.violate(format!("tag-{f}"), format!("{}: {f}: reported object {} kind {:?} name {} tagger {:?} message {:?}", show(&o.body),
                sha1::hex(&got.0), got.1, show(&got.2), got.3.map(|i| show_ident(&i)), got.4.map(|m| show(&m))));
        }
    }
    if c.case % 64 == 0 {
        git_accepts(c, &mut rng, &objs);
        // and one that git mktag itself makes
        let dir = c.fresh("m");
        let repo = Repo::init(&dir);
        let blob = Obj::blob(&b"tagged"[..]);
        repo.add_loose(&blob, &mut rng);
        let mut t = objgen::tag(&mut rng);
        t.after.clear();
        t.object = blob.id();
        t.kind = Kind::Blob;
        t.name = format!("v{}", rng.below(1000)).into_bytes();
        t.tagger = Some(Ident { name: b"T A".to_vec(), email: b"t@x".to_vec(), time: Some(b"1600000000".to_vec()), zone: Some(b"+0100".to_vec()) });
        t.message.retain(|b| *b != 0);
        match git::run_in(git::cmd(&dir).args(["mktag"]), &t.body()) {
            Ok(out) => {
                if String::from_utf8_lossy(&out).trim() != t.obj().hex() {
                    c.trouble("git mktag gives another id");
                }
                c.count("git_checked", 1);
                let db = ObjectDatabase::open(&repo.git());
                let id = t.obj().id();
                match c.op(|| "parse a tag made by git mktag".into(), || obs::parse(&db, &id)) {
                    Some(Parsed::Ok { data: ObjectData::Tag(tag), .. }) => {
                        if obs::tag(&tag) != obs::tag_truth(&t) {
                            c.violate("tag-made-by-git", show(&t.body()));
                        }
                    }
                    Some(p) => c.violate("tag-refused", format!("{}: {}", show(&t.body()), p.show())),
                    None => {}
                }
            }
            Err(e) => {
                let _ = e;
                c.count("git_refused", 1)
            }
        }
    }
    c.sample(|| show(&objs[0].body));
}

pub fn c13(c: &mut Ctx) {
    let mut rng = c.rng.fork();
    let mut es: Vec<Vec<objgen::EntryT>> = (0..4).map(|_| objgen::tree(&mut rng)).collect();
    if c.case % 3000 == 17 {
        // more entries than 16 bits count
        let n = 65_530 + rng.below(20) * rng.below(500);
        es.push((0..n).map(|i| objgen::EntryT { mode: 0o100644, name: format!("f{i:06}").into_bytes(), id: objgen::oid(&mut rng) }).collect());
        c.count("very_wide_trees", 1);
    }
    let objs: Vec<Obj> = es.iter().map(|e| Obj::new(Kind::Tree, objgen::tree_body(e))).collect();
    let Some(ds) = stored(c, &mut rng, &objs) else { return };
    for ((d, t), o) in ds.iter().zip(&es).zip(&objs) {
        let Some(d) = d else { return };
        c.eval(hash64(&o.body), !t.is_empty());
        c.count("trees", 1);
        c.count("entries", t.len() as u64);
        let ObjectData::Tree(tree) = d else { return c.violate("kind", "a tree was parsed as something else") };
        let Some((n, got)) = c.op(|| "tree entries and Debug".into(), || {
            let _ = format!("{tree:?}");
            obs::tree(tree)
        }) else { return };
        if n != t.len() || got.len() != t.len() {
            return c.violate("tree-count", format!("tree {} with {} entries: len {n}, iterated {}", o.hex(), t.len(), got.len()));
        }
        if let Some(i) = (0..n).find(|&i| got[i] != t[i]) {
            return c.violate("tree-entry", format!("tree {} entry {i}: mode {:o} name {} id {} instead of mode {:o} name {} id {}", o.hex(),
                got[i].mode, show(&got[i].name), sha1::hex(&got[i].id), t[i].mode, show(&t[i].name), sha1::hex(&t[i].id)));
        }
    }
    // cut inside an entry: an error, never a shorter list
    let cuts: Vec<(Obj, bool, usize)> = es
        .iter()
        .filter(|t| !t.is_empty())
        .flat_map(|t| {
            let full = objgen::tree_body(t);
            let mut bounds = vec![0usize];
            for i in 0..t.len() {
                bounds.push(objgen::tree_body(&t[..=i]).len().min(full.len()));
                if i > 30 {
                    break;
                }
            }
            let mut picks: Vec<usize> = (0..4).map(|_| rng.below(full.len())).collect();
            let b = bounds[rng.below(bounds.len())];
            picks.push(b);
            picks.push(b.saturating_sub(1));
            picks.push((b + 1).min(full.len()));
            picks.push(b.saturating_sub(20));
            picks.push(b.saturating_sub(19));
            let all: std::collections::HashSet<usize> = {
                let mut at = 0;
                let mut s = std::collections::HashSet::from([0]);
                for e in t {
                    at += objgen::tree_body(std::slice::from_ref(e)).len();
                    s.insert(at);
                }
                s
            };
            picks.into_iter().map(move |p| (Obj::new(Kind::Tree, &full[..p]), all.contains(&p), p)).collect::<Vec<_>>()
        })
        .collect();
    let dir = c.fresh("cut");
    let repo = Repo::init(&dir);
    for (o, _, _) in &cuts {
        repo.add_loose(o, &mut rng);
    }
    let db = ObjectDatabase::open(&repo.git());
    for (o, whole, p) in &cuts {
        let id = o.id();
        c.count("cut_trees", 1);
        match c.op(|| format!("parse a tree cut to {p} bytes"), || obs::parse(&db, &id)) {
            Some(Parsed::Ok { data, .. }) => {
                if !whole {
                    return c.violate("cut-tree-accepted", format!("a tree cut inside an entry (at {p} bytes: {}) was accepted: {data:?}", show(&o.body)));
                }
                if let Err(e) = obs::agrees(&data, o) {
                    return c.violate("tree-entry", e);
                }
            }
            Some(q) => {
                if *whole {
                    return c.violate("tree-refused", format!("a tree of whole entries ({p} bytes): {}", q.show()));
                }
            }
            None => return,
        }
    }
    if c.case % 64 == 0 {
        git_accepts(c, &mut rng, &objs);
        // git mktree as the writer
        let dir = c.fresh("m");
        let repo = Repo::init(&dir);
        let t: Vec<objgen::EntryT> = es[3].iter().filter(|e| e.mode != 0o100664 && e.name != b".git" && e.name != b"." && e.name != b"..").cloned().collect();
        let mut input = vec![];
        for e in &t {
            let k = match e.mode {
                0o40000 => "tree",
                0o160000 => "commit",
                _ => "blob",
            };
            input.extend(format!("{:06o} {k} {}\t", e.mode, sha1::hex(&e.id)).into_bytes());
            input.extend_from_slice(&e.name);
            input.push(0);
        }
        match git::run_in(git::cmd(&dir).args(["mktree", "--missing", "-z"]), &input) {
            Ok(out) => {
                c.count("git_checked", 1);
                let want = Obj::new(Kind::Tree, objgen::tree_body(&t));
                if String::from_utf8_lossy(&out).trim() != want.hex() {
                    c.trouble("git mktree makes another tree");
                    return;
                }
                let db = ObjectDatabase::open(&repo.git());
                super::common::expect_present(c, &db, &want, "tree made by git mktree");
            }
            Err(_) => c.count("git_refused", 1),
        }
    }
    c.sample(|| format!("{} entries: {}", es[0].len(), show(&objs[0].body)));
}
