//! C25: what is shown of objects, references and errors, and the example programs that show it.
use super::common::absent_id;
use crate::ctx::Ctx;
use crate::model::*;
use crate::objgen;
use crate::obs;
use crate::rng::{hash64, Rng};
use crate::sha1;
use rusty_git::object::{ObjectData, Signature};
use rusty_git::reference::{Reference, ReferenceTarget};
use rusty_git::repository::Repository;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn signature(s: &Signature, out: &mut Vec<String>) {
    out.push(format!("{:?}", s.name()));
    out.push(format!("{:?}", s.email()));
    out.extend(s.timestamp().map(|t| format!("{t:?}")));
    out.extend(s.timezone().map(|t| format!("{t:?}")));
}

/// The fields of an object, in the order of their headers, each as the shown text must hold it.
fn leaves(d: &ObjectData) -> Vec<String> {
    let mut v = vec![];
    match d {
        ObjectData::Blob(b) => v.push(format!("{:?}", b.data())),
        ObjectData::Tree(t) => {
            for e in t.entries() {
                v.push(e.mode().to_string());
                v.push(e.id().to_hex());
                v.push(format!("{:?}", e.filename()));
            }
        }
        ObjectData::Commit(c) => {
            v.push(c.tree().to_hex());
            v.extend(c.parents().map(|p| p.to_hex()));
            signature(&c.author(), &mut v);
            signature(&c.committer(), &mut v);
            v.extend(c.encoding().map(|e| format!("{e:?}")));
            v.push(format!("{:?}", c.message()));
        }
        ObjectData::Tag(t) => {
            v.push(format!("{:?}", t.tag()));
            v.push(t.object().to_hex());
            v.push(format!("{:?}", t.kind()));
            if let Some(s) = t.tagger() {
                signature(&s, &mut v);
            }
            v.extend(t.message().map(|m| format!("{m:?}")));
        }
    }
    v
}

/// Each of `leaves` as often as it is one of them, at places of their own.
fn lacks(text: &str, leaves: &[String]) -> Option<String> {
    let mut need: BTreeMap<&str, usize> = BTreeMap::new();
    for l in leaves {
        *need.entry(l).or_default() += 1;
    }
    need.into_iter().find(|(l, n)| text.matches(*l).count() < *n).map(|(l, n)| {
        let l: String = l.chars().take(200).collect();
        format!("{l} is not there {n} times")
    })
}

/// Where each label is in the text once, the part after it, up to the next one, holds its values.
fn misplaced(text: &str, fields: &[(&str, Vec<String>)]) -> Result<usize, String> {
    let mut at = vec![];
    for (l, _) in fields {
        let found: Vec<usize> = text.match_indices(&format!("{l}: ")).map(|m| m.0).filter(|&i| !text[..i].ends_with(|c: char| c.is_alphanumeric() || c == '_')).collect();
        match found[..] {
            [i] => at.push(i),
            _ => return Ok(0),
        }
    }
    for ((l, v), &i) in fields.iter().zip(&at) {
        let end = at.iter().copied().filter(|&j| j > i).min().unwrap_or(text.len());
        if let Some(w) = lacks(&text[i..end], v) {
            return Err(format!("as its {l}, {w}"));
        }
    }
    Ok(1)
}

fn labelled(d: &ObjectData, text: &str) -> Result<usize, String> {
    let sig = |s: &Signature| -> Result<(usize, Vec<String>), String> {
        let opt = |x: Option<&bstr::BStr>| x.map(|t| format!("{t:?}")).into_iter().collect::<Vec<_>>();
        let n = misplaced(&format!("{s:?}"), &[("name", vec![format!("{:?}", s.name())]), ("email", vec![format!("{:?}", s.email())]), ("timestamp", opt(s.timestamp())), ("timezone", opt(s.timezone()))])?;
        let mut v = vec![];
        signature(s, &mut v);
        Ok((n, v))
    };
    match d {
        ObjectData::Commit(c) => {
            let ((a, author), (b, committer)) = (sig(&c.author())?, sig(&c.committer())?);
            let f = vec![
                ("tree", vec![c.tree().to_hex()]),
                ("parents", c.parents().map(|p| p.to_hex()).collect()),
                ("author", author),
                ("committer", committer),
                ("encoding", c.encoding().map(|e| format!("{e:?}")).into_iter().collect()),
                ("message", vec![format!("{:?}", c.message())]),
            ];
            Ok(a + b + misplaced(text, &f)?)
        }
        ObjectData::Tag(t) => {
            let (a, tagger) = t.tagger().map_or(Ok((0, vec![])), |s| sig(&s))?;
            let f = vec![
                ("tag", vec![format!("{:?}", t.tag())]),
                ("object", vec![t.object().to_hex()]),
                ("kind", vec![format!("{:?}", t.kind())]),
                ("tagger", tagger),
                ("message", t.message().map(|m| format!("{m:?}")).into_iter().collect()),
            ];
            Ok(a + misplaced(text, &f)?)
        }
        ObjectData::Tree(t) => {
            let mut n = 0;
            for e in t.entries() {
                n += misplaced(&format!("{e:?}"), &[("mode", vec![e.mode().to_string()]), ("id", vec![e.id().to_hex()]), ("filename", vec![format!("{:?}", e.filename())])])?;
            }
            Ok(n)
        }
        ObjectData::Blob(_) => Ok(0),
    }
}

fn cut(s: &str) -> String {
    s.chars().take(600).collect()
}

struct Ran {
    ok: bool,
    code: Option<i32>,
    out: String,
    err: String,
}

fn run(bin: &Path, dir: &Path, args: &[&str]) -> Result<Ran, String> {
    let o = Command::new(bin)
        .args(args)
        .current_dir(dir)
        .env_clear()
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("cannot run {}: {e}", bin.display()))?;
    Ok(Ran { ok: o.status.success(), code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned() })
}

/// Ends with a failure that it explains, and does not crash.
fn refused(r: &Ran) -> Result<(), String> {
    if r.ok {
        return Err(format!("ends successfully, having printed {:?}", cut(&r.out)));
    }
    if r.code.is_none() || r.code == Some(101) || r.err.contains("panicked at") {
        return Err(format!("crashes (status {:?}): {}", r.code, cut(&r.err)));
    }
    if r.err.trim().is_empty() {
        return Err("fails without a message".into());
    }
    Ok(())
}

fn objects(rng: &mut Rng, repo: &Repo) -> Vec<Obj> {
    let tree = objgen::tree(rng);
    let mut v = vec![
        objgen::commit(rng).obj(),
        objgen::commit(rng).obj(),
        objgen::tag(rng).obj(),
        Obj::new(Kind::Tree, objgen::tree_body(&tree)),
        Obj::blob(objgen::blob_body(rng, 3000)),
        Obj::blob(rng.pick(&[&b""[..], b"\"quoted\"", b"\0", b"\xff\xfe", b"{:?}", b"line\nline\n"]).to_vec()),
        objgen::any_obj(rng, 1000),
    ];
    v.sort_by_key(|o| o.id());
    v.dedup_by_key(|o| o.id());
    for o in &v {
        repo.add_loose(o, rng);
    }
    v
}

pub fn c25(c: &mut Ctx) {
    let mut rng = c.rng.fork();
    let dir = c.fresh("r");
    let repo = Repo::init(&dir);
    let objs = objects(&mut rng, &repo);
    // references: direct, symbolic, leading nowhere
    let mut refs: BTreeMap<String, Result<Oid, String>> = BTreeMap::new();
    for n in ["refs/heads/main", "refs/heads/b/\u{fc}ber", "refs/tags/v1", "refs/remotes/origin/main", "refs/heads/HEAD2", "refs/tags/a\"b"] {
        if rng.chance(3, 4) {
            refs.insert(n.into(), Ok(rng.pick(&objs).id()));
        }
    }
    let have: Vec<String> = refs.keys().cloned().collect();
    let head_to = if have.is_empty() || rng.chance(1, 8) { "refs/heads/unborn".to_string() } else { rng.pick(&have).clone() };
    if !have.is_empty() && rng.chance(1, 2) {
        refs.insert("refs/heads/sym".into(), Err(rng.pick(&have).clone()));
    }
    for (n, v) in &refs {
        match v {
            Ok(o) => repo.add_ref(n, format!("{}\n", sha1::hex(o)).as_bytes()),
            Err(t) => repo.add_ref(n, format!("ref: {t}\n").as_bytes()),
        }
    }
    let names: Vec<String> = refs.keys().cloned().collect();
    let head: Result<Oid, String> = if rng.chance(1, 4) { Ok(rng.pick(&objs).id()) } else { Err(head_to) };
    match &head {
        Ok(o) => repo.add_ref("HEAD", format!("{}\n", sha1::hex(o)).as_bytes()),
        Err(t) => repo.add_ref("HEAD", format!("ref: {t}\n").as_bytes()),
    }
    refs.insert("HEAD".into(), head);
    let resolve = |n: &str| -> Option<Oid> {
        let mut n = n.to_string();
        loop {
            match refs.get(&n)? {
                Ok(o) => return Some(*o),
                Err(t) => n = t.clone(),
            }
        }
    };
    let ref_leaf = |v: &Result<Oid, String>| match v {
        Ok(o) => sha1::hex(o),
        Err(t) => format!("{t:?}"),
    };
    let Some(Ok(r)) = c.op(|| "open".into(), || Repository::open(&dir)) else { return c.violate("open-failed", "Repository::open failed on a valid repository") };
    let db = r.object_database();

    let mut shown: Vec<(Oid, Vec<String>)> = vec![];
    for o in &objs {
        let label = format!("{} {}", o.kind.name(), o.hex());
        let got = c.op(|| format!("parse {label}"), || {
            db.parse_object(obs::id(&o.id())).map(|x| {
                let copy = x.clone();
                (leaves(x.data()), labelled(x.data(), &format!("{x:?}")), [format!("{x:?}"), format!("{x:#?}"), format!("{copy:?}"), format!("{copy:#?}")], format!("{:?}", x.data()))
            }).map_err(|e| obs::chain(&e))
        });
        let (ls, placed, texts, data) = match got {
            Some(Ok(x)) => x,
            Some(Err(e)) => return c.violate("parse-failed", format!("{label}: {e}")),
            None => return,
        };
        c.count("objects_shown", 1);
        c.count("fields_shown", ls.len() as u64);
        c.eval(hash64(&o.body), !ls.is_empty());
        let mut with_id = ls.clone();
        with_id.push(o.hex());
        for t in &texts {
            if let Some(w) = lacks(t, &with_id) {
                return c.violate("object-shown-wrong", format!("{label}: {w} in the debug text {:?}", cut(t)));
            }
        }
        if texts[0] != texts[2] || texts[1] != texts[3] {
            return c.violate("copy-shown-differently", format!("{label}: its copy shows {:?}, not {:?}", cut(&texts[2]), cut(&texts[0])));
        }
        if let Some(w) = lacks(&data, &ls) {
            return c.violate("object-shown-wrong", format!("{label}: {w} in the debug text of its data {:?}", cut(&data)));
        }
        match placed {
            Ok(n) => c.count("labels_matched", n as u64),
            Err(w) => return c.violate("object-shown-wrong", format!("{label}: {w}: {:?}", cut(&texts[0]))),
        }
        shown.push((o.id(), with_id));
    }

    let mut parsed: Vec<(String, Reference)> = vec![];
    for (n, v) in &refs {
        let rd = r.reference_database();
        match c.op(|| format!("reference {n}"), || if n == "HEAD" { rd.head() } else { rd.reference(n.as_bytes()) }) {
            Some(Ok(x)) => {
                for t in [format!("{x:?}"), format!("{x:#?}"), format!("{:?}", x.target())] {
                    if let Some(w) = lacks(&t, &[ref_leaf(v)]) {
                        return c.violate("reference-shown-wrong", format!("{n}: {w} in the debug text {:?}", cut(&t)));
                    }
                }
                c.count("references_shown", 1);
                parsed.push((n.clone(), x));
            }
            Some(Err(e)) => return c.violate("reference-failed", format!("{n}: {}", obs::chain(&e))),
            None => return,
        }
    }
    for (n, a) in &parsed {
        for (m, b) in &parsed {
            let same = refs[n] == refs[m];
            if (a.target() == b.target()) != same || (a.target() != b.target()) == same {
                return c.violate("targets-compare-wrong", format!("{n} {:?} and {m} {:?}: equal is {}", a.target(), b.target(), !same));
            }
            if matches!((a.target(), b.target()), (ReferenceTarget::Direct(_), ReferenceTarget::Symbolic(_))) && a.target() == b.target() {
                return c.violate("targets-compare-wrong", format!("{n} and {m} are of different kinds and equal"));
            }
        }
    }

    // errors: of something missing, and of something damaged
    let near = rng.pick(&objs).id();
    let missing = absent_id(&mut rng, Some(&near));
    let torn = Obj::blob(rng.bytes(200));
    let file = zlib(&torn.enc(), 6);
    repo.add_loose_raw(&torn.id(), &file[..rng.range(1, file.len() - 8)]);
    for (id, lost) in [(missing, true), (torn.id(), false)] {
        for how in 0..3 {
            let got = c.op(|| format!("error for {}", sha1::hex(&id)), || {
                let e = match how {
                    0 => db.parse_object(obs::id(&id)).map(|_| ()),
                    1 => db.read_object(obs::id(&id)).and_then(|mut r| {
                        // a torn file may only be noticed on the way
                        let mut v = vec![];
                        let _ = std::io::Read::read_to_end(r.reader(), &mut v);
                        db.parse_object(obs::id(&id)).map(|_| ())
                    }),
                    _ => {
                        let x = Reference::from_bytes(sha1::hex(&id).as_bytes()).unwrap();
                        return match x.peel(&r) {
                            Err(rusty_git::reference::Error::DereferencingFailed(e)) => Ok((e.id().to_hex(), e.is_not_found(), e.is_ambiguous(), obs::chain(&e), format!("{e:?}{e:#?}"))),
                            Err(e) => Err(format!("peel fails as if it were the reference: {}", obs::chain(&e))),
                            Ok(o) => Err(format!("peel gives {}", o.id())),
                        };
                    }
                };
                match e {
                    Ok(()) => Err("no error".to_string()),
                    Err(e) => Ok((e.id().to_hex(), e.is_not_found(), e.is_ambiguous(), obs::chain(&e), format!("{e:?}{e:#?}"))),
                }
            });
            let (eid, nf, amb, text, _) = match got {
                Some(Ok(x)) => x,
                Some(Err(e)) => return c.violate("no-error", format!("{} ({}): {e}", sha1::hex(&id), if lost { "missing" } else { "damaged" })),
                None => return,
            };
            c.count("errors_shown", 1);
            let what = format!("the error for the {} object {}: id {eid}, is_not_found {nf}, is_ambiguous {amb}, {text:?}", if lost { "missing" } else { "damaged" }, sha1::hex(&id));
            if eid != sha1::hex(&id) || !text.contains(&sha1::hex(&id)) {
                return c.violate("error-names-other-object", what);
            }
            if nf != lost || amb {
                return c.violate("error-of-wrong-kind", what);
            }
        }
    }

    if c.case % 6 == 0 {
        programs(c, &mut rng, &dir, &shown, &refs, &names, &resolve, &ref_leaf, &missing, &torn.id());
    }
    c.sample(|| format!("{} objects, {} references: {:?}", objs.len(), refs.len(), names));
}

#[allow(clippy::too_many_arguments)]
fn programs(
    c: &mut Ctx,
    rng: &mut Rng,
    dir: &Path,
    shown: &[(Oid, Vec<String>)],
    refs: &BTreeMap<String, Result<Oid, String>>,
    names: &[String],
    resolve: &dyn Fn(&str) -> Option<Oid>,
    ref_leaf: &dyn Fn(&Result<Oid, String>) -> String,
    missing: &Oid,
    torn: &Oid,
) {
    let Some(bins) = std::env::var_os("VMON_EXAMPLES").map(PathBuf::from) else { return c.trouble("VMON_EXAMPLES is not set") };
    let (cat, list) = (bins.join("cat-file"), bins.join("refs"));
    macro_rules! go {
        ($bin:expr, $args:expr) => {{
            let args: &[&str] = $args;
            match run($bin, dir, args) {
                Ok(r) => {
                    c.count("programs_run", 1);
                    (r, format!("{} {:?}", $bin.file_name().unwrap().to_string_lossy(), args))
                }
                Err(e) => return c.trouble(e),
            }
        }};
    }
    for (id, ls) in shown {
        let h = sha1::hex(id);
        let (r, what) = go!(&cat, &[h.as_str()]);
        if !r.ok {
            return c.violate("program-failed", format!("{what}: status {:?}: {}", r.code, cut(&r.err)));
        }
        if let Some(w) = lacks(&r.out, ls) {
            return c.violate("program-shows-wrong", format!("{what}: {w} in {:?}", cut(&r.out)));
        }
    }
    let (m, t) = (sha1::hex(missing), sha1::hex(torn));
    for a in [m.as_str(), t.as_str(), "xyz", &m[..39], ""] {
        let (r, what) = go!(&cat, &[a]);
        if let Err(e) = refused(&r) {
            return c.violate("program-not-refusing", format!("{what}: {e}"));
        }
    }
    // the list
    let (r, what) = go!(&list, &[]);
    if !r.ok {
        return c.violate("program-failed", format!("{what}: status {:?}: {}", r.code, cut(&r.err)));
    }
    for n in names {
        let k = r.out.lines().filter(|l| l.contains(&format!("{n:?}"))).count();
        if k != 1 {
            return c.violate("program-shows-wrong", format!("{what}: {n:?} is there {k} times: {:?}", cut(&r.out)));
        }
    }
    if r.out.matches("refs/").count() != names.iter().map(|n| n.matches("refs/").count()).sum::<usize>() {
        return c.violate("program-shows-wrong", format!("{what}: more than {names:?}: {:?}", cut(&r.out)));
    }
    // one, and what it points to
    let mut asked: Vec<(String, String)> = refs.keys().filter(|n| *n != "HEAD").map(|n| (n.clone(), n.clone())).collect();
    rng.shuffle(&mut asked);
    asked.truncate(3);
    asked.push((rng.pick(&["head", "HEAD", "Head"]).to_string(), "HEAD".into()));
    for (arg, n) in &asked {
        let (r, what) = go!(&list, &["--name", arg.as_str()]);
        if !r.ok {
            return c.violate("program-failed", format!("{what}: status {:?}: {}", r.code, cut(&r.err)));
        }
        if let Some(w) = lacks(&r.out, &[ref_leaf(&refs[n])]) {
            return c.violate("program-shows-wrong", format!("{what}: {w} in {:?}", cut(&r.out)));
        }
        let (r, what) = go!(&list, &["--name", arg.as_str(), "--peel"]);
        match resolve(n) {
            Some(id) => {
                let ls = &shown.iter().find(|s| s.0 == id).unwrap().1;
                if !r.ok {
                    return c.violate("program-failed", format!("{what}: status {:?}: {}", r.code, cut(&r.err)));
                }
                if let Some(w) = lacks(&r.out, ls) {
                    return c.violate("program-shows-wrong", format!("{what}: {w} in {:?}", cut(&r.out)));
                }
            }
            None => {
                c.count("peels_to_nothing", 1);
                if r.code == Some(101) || r.code.is_none() || r.out.contains("Ok(") {
                    return c.violate("program-shows-wrong", format!("{what}: it leads nowhere, but the program prints {:?} {:?}", cut(&r.out), cut(&r.err)));
                }
            }
        }
    }
    for a in ["refs/heads/none", "none", "../HEAD", "/etc/passwd"] {
        let (r, what) = go!(&list, &["--name", a]);
        if let Err(e) = refused(&r) {
            return c.violate("program-not-refusing", format!("{what}: {e}"));
        }
    }
    // outside of any repository
    let empty = c.fresh("empty");
    match run(&list, &empty, &[]) {
        Ok(r) => {
            if let Err(e) = refused(&r) {
                return c.violate("program-not-refusing", format!("refs in an empty directory: {e}"));
            }
        }
        Err(e) => c.trouble(e),
    }
}
