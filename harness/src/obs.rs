//! What the library reports, as plain values.
use crate::model::{self, Kind, Obj, Oid};
use crate::objgen::{CommitT, EntryT, Ident, TagT};
use crate::sha1;
use rusty_git::object::{Commit, Id, ObjectData, ObjectDatabase, ObjectKind, Signature, Tag, Tree};
use std::error::Error;
use std::io::Read;

pub fn id(o: &Oid) -> Id {
    Id::from_bytes(o)
}

pub fn chain(e: &dyn Error) -> String {
    let mut s = e.to_string();
    let mut c = e.source();
    while let Some(e) = c {
        s += &format!(": {e}");
        c = e.source();
    }
    s
}

#[derive(Clone, Debug, PartialEq)]
pub enum Obs {
    Ok(Obj),
    NotFound(String),
    Err(String),
}

impl Obs {
    pub fn show(&self) -> String {
        match self {
            Obs::Ok(o) => format!("{} of {} bytes (sha {})", o.kind.name(), o.body.len(), &o.hex()[..10]),
            Obs::NotFound(s) => format!("not found ({s})"),
            Obs::Err(s) => format!("error: {}", s.chars().take(200).collect::<String>()),
        }
    }
    pub fn is_err(&self) -> bool {
        !matches!(self, Obs::Ok(_))
    }
}

/// The object through `read_object(..).reader()`: `<kind> <size>\0<body>`
pub fn read_raw(db: &ObjectDatabase, o: &Oid) -> Result<Vec<u8>, Obs> {
    let mut r = db.read_object(id(o)).map_err(|e| {
        if e.is_ambiguous() {
            // nothing is ambiguous about a full id
            Obs::Err(format!("ambiguous: {}", chain(&e)))
        } else if e.is_not_found() {
            Obs::NotFound(e.id().to_hex())
        } else {
            Obs::Err(chain(&e))
        }
    })?;
    let mut v = Vec::new();
    r.reader().read_to_end(&mut v).map_err(|e| Obs::Err(format!("reader: {e}")))?;
    Ok(v)
}

pub fn raw(db: &ObjectDatabase, o: &Oid) -> Obs {
    match read_raw(db, o) {
        Err(o) => o,
        Ok(v) => match model::decode_enc(&v) {
            model::Verdict::Is(o) | model::Verdict::May(o) => Obs::Ok(o),
            model::Verdict::Bad(why) => Obs::Err(format!("the reader delivered {} bytes that are no object ({why})", v.len())),
        },
    }
}

pub fn kind_of(d: &ObjectData) -> Kind {
    match d {
        ObjectData::Commit(_) => Kind::Commit,
        ObjectData::Tree(_) => Kind::Tree,
        ObjectData::Blob(_) => Kind::Blob,
        ObjectData::Tag(_) => Kind::Tag,
    }
}

pub fn kind_name(k: ObjectKind) -> Option<Kind> {
    Some(match k {
        ObjectKind::Commit => Kind::Commit,
        ObjectKind::Tree => Kind::Tree,
        ObjectKind::Blob => Kind::Blob,
        ObjectKind::Tag => Kind::Tag,
        _ => return None,
    })
}

pub fn oid(i: Id) -> Oid {
    sha1::unhex(&i.to_hex()).try_into().unwrap()
}

pub fn ident(s: &Signature) -> Ident {
    Ident {
        name: s.name().to_vec(),
        email: s.email().to_vec(),
        time: s.timestamp().map(|t| t.to_vec()),
        zone: s.timezone().map(|t| t.to_vec()),
    }
}

/// All items, having seen that the iterator knows how many are left at each step.
fn counted<T>(mut it: impl ExactSizeIterator<Item = T>) -> (Vec<T>, bool) {
    let mut v = vec![];
    let mut left = it.len();
    let mut right = true;
    loop {
        // (`len` itself panics where the bounds differ)
        right &= it.size_hint() == (left, Some(left));
        match it.next() {
            Some(x) => v.push(x),
            None => break,
        }
        left = left.wrapping_sub(1);
    }
    (v, right)
}

pub fn commit(c: &Commit) -> CommitT {
    let (parents, counts) = counted(c.parents());
    CommitT {
        tree: oid(c.tree()),
        parents: parents.into_iter().map(oid).collect(),
        author: ident(&c.author()),
        more_authors: vec![],
        committer: ident(&c.committer()),
        encoding: if counts { c.encoding().map(|e| e.to_vec()) } else { Some(b"(the parents iterator has a wrong size_hint)".to_vec()) },
        before: vec![],
        after: vec![],
        message: c.message().to_vec(),
        bare: false,
    }
}

pub fn tag(t: &Tag) -> (Oid, Option<Kind>, Vec<u8>, Option<Ident>, Option<Vec<u8>>) {
    (oid(t.object()), kind_name(t.kind()), t.tag().to_vec(), t.tagger().map(|s| ident(&s)), t.message().map(|m| m.to_vec()))
}

pub fn tag_truth(t: &TagT) -> (Oid, Option<Kind>, Vec<u8>, Option<Ident>, Option<Vec<u8>>) {
    // no message is reported where not even the blank line before it is there
    let message = if t.bare && t.message.is_empty() { None } else { Some(t.message.clone()) };
    (t.object, Some(t.kind), t.name.clone(), t.tagger.clone(), message)
}

pub fn tree(t: &Tree) -> (usize, Vec<EntryT>) {
    let n = t.entries().len();
    let (es, right) = counted(t.entries());
    (if right { n } else { usize::MAX }, es.into_iter().map(|e| EntryT { mode: e.mode() as u32, name: e.filename().to_vec(), id: oid(e.id()) }).collect())
}

/// Runs every accessor and Debug, as a caller may.
pub fn exercise(d: &ObjectData) -> usize {
    let n = match d {
        ObjectData::Commit(c) => commit(c).message.len(),
        ObjectData::Tag(t) => tag(t).2.len(),
        ObjectData::Tree(t) => tree(t).0,
        ObjectData::Blob(b) => b.data().len(),
    };
    let c = d.clone();
    n + format!("{:?}", c).len()
}

#[derive(Debug)]
pub enum Parsed {
    Ok { id: Oid, data: ObjectData },
    NotFound(String),
    Err(String),
}

impl Parsed {
    pub fn show(&self) -> String {
        match self {
            Parsed::Ok { id, data } => format!("{:?} under id {}", kind_of(data), sha1::hex(id)),
            Parsed::NotFound(s) => format!("not found ({s})"),
            Parsed::Err(s) => format!("error: {s}"),
        }
    }
}

pub fn parse(db: &ObjectDatabase, o: &Oid) -> Parsed {
    match db.parse_object(id(o)) {
        Ok(obj) => Parsed::Ok { id: oid(*obj.id()), data: obj.data().clone() },
        Err(e) if e.is_ambiguous() => Parsed::Err(format!("ambiguous: {}", chain(&e))),
        Err(e) if e.is_not_found() => Parsed::NotFound(e.id().to_hex()),
        Err(e) => Parsed::Err(chain(&e)),
    }
}

/// Does a parsed object agree with the body it must have come from? Exact for blobs and trees;
/// for commits and tags the parts that need no parsing rules of their own.
pub fn agrees(d: &ObjectData, o: &Obj) -> Result<(), String> {
    if kind_of(d) != o.kind {
        return Err(format!("kind {:?} instead of {:?}", kind_of(d), o.kind));
    }
    match d {
        ObjectData::Blob(b) => {
            if b.data().to_vec() != o.body {
                return Err(format!("blob of {} bytes instead of {} (first difference at {:?})", b.data().len(), o.body.len(),
                    b.data().iter().zip(&o.body).position(|(a, b)| a != b)));
            }
        }
        ObjectData::Tree(t) => {
            let (n, es) = tree(t);
            if n != es.len() || crate::objgen::tree_body(&es) != o.body && tree_bytes_odd(&o.body).is_none() {
                return Err(format!("tree of {n} entries does not re-encode to its {} bytes", o.body.len()));
            }
        }
        ObjectData::Commit(c) => {
            let m = c.message().to_vec();
            if !o.body.ends_with(&m) || !starts_with_hex(&o.body, &format!("tree {}", c.tree())) {
                return Err("commit fields are not those of its bytes".into());
            }
            let stored: std::collections::HashSet<String> = o.body.split(|&b| b == b'\n').filter_map(|l| l.strip_prefix(b"parent ")).map(|h| String::from_utf8_lossy(h).to_lowercase()).collect();
            for p in c.parents() {
                if !stored.contains(&p.to_string()) {
                    return Err("commit parent is not in its bytes".into());
                }
            }
        }
        ObjectData::Tag(t) => {
            let m = t.message().map(|m| m.to_vec()).unwrap_or_default();
            if !o.body.ends_with(&m) || !starts_with_hex(&o.body, &format!("object {}", t.object())) {
                return Err("tag fields are not those of its bytes".into());
            }
        }
    }
    Ok(())
}

/// ids may be written in upper case
fn starts_with_hex(b: &[u8], head: &str) -> bool {
    b.len() >= head.len() && b[..head.len()].eq_ignore_ascii_case(head.as_bytes())
}
/// modes written with leading zeros (or a plus sign) do not re-encode to the same bytes
fn tree_bytes_odd(b: &[u8]) -> Option<()> {
    let mut at = 0;
    while at < b.len() {
        let sp = at + b[at..].iter().position(|&c| c == b' ')?;
        if b[at] == b'0' || b[at] == b'+' || sp == at {
            return Some(());
        }
        let nul = sp + b[sp..].iter().position(|&c| c == 0)?;
        at = nul + 21;
    }
    None
}
