//! C07: hostile data never crashes. C08: damaged data is never another object. C09: a damaged pack
//! harms nothing else.
use super::common::*;
use crate::ctx::Ctx;
use crate::model::*;
use crate::objgen::{self, EntryT, Ident};
use crate::obs::{self, Obs, Parsed};
use crate::rng::{hash64, Rng};
use crate::sha1;
use rusty_git::object::ObjectDatabase;
use rusty_git::repository::Repository;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

/// One altered repository: these files replace (or remove) those of the base.
pub struct Var {
    pub files: Vec<(PathBuf, Option<Vec<u8>>)>,
    pub ids: Vec<Oid>,
    pub refs: bool,
    pub what: String,
}

pub struct Base {
    pub repo: Repo,
    pub loose: Vec<Obj>,
    pub pack: Pack,
    pub es: Vec<Entry>,
    pub orig: BTreeMap<PathBuf, Vec<u8>>,
}

fn plain_ident(rng: &mut Rng) -> Ident {
    Ident {
        name: b"A U Thor".to_vec(),
        email: b"a@b.c".to_vec(),
        time: Some(format!("{}", rng.below(2_000_000_000)).into_bytes()),
        zone: Some(b"+0100".to_vec()),
    }
}

fn small_commit(rng: &mut Rng, tree: Oid) -> Obj {
    let mut t = objgen::commit(rng);
    t.tree = tree;
    t.parents.truncate(2);
    t.author = plain_ident(rng);
    t.committer = plain_ident(rng);
    t.before.truncate(1);
    t.after.truncate(1);
    t.message.truncate(30);
    let o = t.obj();
    if o.body.len() < 900 { o } else { t.before.clear(); t.after.clear(); t.obj() }
}

fn small_tree(rng: &mut Rng) -> Obj {
    let es: Vec<EntryT> = (0..3)
        .map(|i| EntryT { mode: *rng.pick(&[0o100644, 0o40000, 0o120000]), name: format!("n{i}").into_bytes(), id: objgen::oid(rng) })
        .collect();
    Obj::new(Kind::Tree, objgen::tree_body(&es))
}

fn small_tag(rng: &mut Rng, on: &Obj) -> Obj {
    let mut t = objgen::tag(rng);
    t.object = on.id();
    t.kind = on.kind;
    t.message.truncate(20);
    t.obj()
}

pub fn base(rng: &mut Rng, dir: &Path) -> Base {
    let repo = Repo::init(dir);
    let tree = small_tree(rng);
    let commit = small_commit(rng, tree.id());
    let tag = small_tag(rng, &commit);
    let n = rng.range(10, 40);
    let blob = Obj::blob(rng.bytes(n));
    let text = Obj::blob(b"a few lines\nof text\nthat deltas can use\n".to_vec());
    let loose = vec![commit, tree, tag, blob];
    for o in &loose {
        repo.add_loose_raw(&o.id(), &zlib(&o.enc(), 6));
    }
    let mut es: Vec<Entry> = vec![Entry { obj: text, store: Store::Whole, delta: vec![] }];
    for i in 0..3 {
        let b = i;
        let base = es[b].obj.body.clone();
        let cmds = random_cmds(rng, &base);
        let mut cmds = cmds;
        cmds.truncate(4);
        cmds.push(Cmd::Insert(format!("v{i}").into_bytes()));
        cmds.push(Cmd::Copy { off: 1, len: base.len().min(20) - 1 });
        let body = run_cmds(&base, &cmds);
        let delta = encode_delta(base.len(), body.len(), &cmds, None);
        let obj = Obj::blob(body);
        if es.iter().any(|e| e.obj == obj) {
            continue;
        }
        es.push(Entry { obj, store: if i % 2 == 0 { Store::Ofs(b) } else { Store::Ref(b) }, delta });
        if es.len() <= i + 1 {
            break;
        }
    }
    let pt = small_tree(rng);
    let pc = small_commit(rng, pt.id());
    let pg = small_tag(rng, &pc);
    for o in [pt, pc, pg] {
        es.push(Entry { obj: o, store: Store::Whole, delta: vec![] });
    }
    let idx_version = if rng.chance(1, 2) { 1 } else { 2 };
    let large = if idx_version == 2 && rng.chance(1, 2) { vec![false, true, false, true] } else { vec![] };
    let pack = build_pack(&es, &PackOpts { pack_version: 2, idx_version, large, gap: vec![], level: Some(6) }, rng);
    repo.add_pack(&pack);
    let ch = loose[0].hex();
    repo.add_ref("refs/heads/a", format!("{ch}\n").as_bytes());
    repo.add_ref("refs/heads/b", b"ref: refs/heads/a\n");
    repo.add_ref("refs/tags/t", format!("{}\n", loose[2].hex()).as_bytes());
    repo.add_ref("refs/remotes/o/m", format!("{}\n", es.last().unwrap().obj.hex()).as_bytes());
    repo.add_ref("HEAD", b"ref: refs/heads/b\n");
    repo.add_ref("packed-refs", format!("# pack-refs with: peeled fully-peeled sorted \n{ch} refs/heads/p\n{} refs/tags/t2\n^{ch}\n", loose[2].hex()).as_bytes());
    let mut b = Base { repo, loose, pack, es, orig: BTreeMap::new() };
    snapshot(&b.repo.git(), &mut b.orig);
    b
}

fn snapshot(dir: &Path, out: &mut BTreeMap<PathBuf, Vec<u8>>) {
    for e in std::fs::read_dir(dir).unwrap().flatten() {
        let p = e.path();
        if p.is_dir() {
            snapshot(&p, out);
        } else {
            out.insert(p.clone(), std::fs::read(&p).unwrap());
        }
    }
}

impl Base {
    pub fn pack_path(&self) -> PathBuf {
        self.repo.packs().join(self.pack.name() + ".pack")
    }
    pub fn idx_path(&self) -> PathBuf {
        self.repo.packs().join(self.pack.name() + ".idx")
    }
    pub fn pack_ids(&self) -> Vec<Oid> {
        self.pack.objs.iter().map(|o| o.id()).collect()
    }
    pub fn all_ids(&self) -> Vec<Oid> {
        self.loose.iter().chain(&self.pack.objs).map(|o| o.id()).collect()
    }
    pub fn put(&self, v: &Var) {
        for (p, b) in &v.files {
            match b {
                Some(b) => {
                    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                    std::fs::write(p, b).unwrap();
                }
                None => {
                    let _ = std::fs::remove_file(p);
                }
            }
        }
    }
    pub fn restore(&self, v: &Var) {
        for (p, _) in &v.files {
            match self.orig.get(p) {
                Some(b) => std::fs::write(p, b).unwrap(),
                None => {
                    let _ = std::fs::remove_file(p);
                }
            }
        }
    }
    fn file<'a>(&'a self, v: &'a Var, p: &Path) -> Option<&'a [u8]> {
        for (q, b) in &v.files {
            if q == p {
                return b.as_deref();
            }
        }
        self.orig.get(p).map(|b| &b[..])
    }
    /// Everything the files can mean for this id; None when an index is ambiguous.
    pub fn candidates(&self, v: &Var, id: &Oid, pairs: bool) -> Option<Vec<Verdict>> {
        let mut out = vec![];
        if let Some(f) = self.file(v, &self.repo.loose_path(id)) {
            out.push(decode_loose(f));
        }
        let mut idxs: Vec<PathBuf> = self.orig.keys().chain(v.files.iter().map(|f| &f.0)).filter(|p| p.extension() == Some("idx".as_ref())).cloned().collect();
        idxs.sort();
        idxs.dedup();
        let mut odd = false;
        for ip in idxs {
            let (Some(idx), Some(pack)) = (self.file(v, &ip), self.file(v, &ip.with_extension("pack"))) else { continue };
            if pairs && !belong(idx, pack) {
                continue;
            }
            let offs = idx_offsets(idx, id);
            for off in offs {
                let dup = std::cell::Cell::new(false);
                out.push(decode_packed(pack, off, &|b| {
                    let o = idx_offsets(idx, b);
                    if o.len() > 1 {
                        dup.set(true);
                    }
                    o.first().copied()
                }));
                odd |= dup.get();
            }
        }
        if odd { None } else { Some(out) }
    }
}

/// An index names the pack it was made for; with any other pack it says nothing.
fn belong(idx: &[u8], pack: &[u8]) -> bool {
    idx.len() >= 40 && pack.len() >= 20 && idx[idx.len() - 40..idx.len() - 20] == pack[pack.len() - 20..]
}

// ---------------------------------------------------------------- what gets damaged

/// Byte-level variations of a file: cuts, single bytes, extensions. `part` of `parts` of them all.
fn byte_vars(orig: &[u8], part: usize, parts: usize, out: &mut dyn FnMut(Vec<u8>, String)) {
    let n = orig.len();
    let mut i = 0usize;
    let mut take = || {
        i += 1;
        (i - 1) % parts == part
    };
    for k in 0..n {
        if take() {
            out(orig[..k].to_vec(), format!("cut to {k} of {n}"));
        }
    }
    for k in 0..n {
        let b = orig[k];
        let mut seen = vec![b];
        for m in [b ^ 1, b ^ 0x80, 0, 0xff, b.wrapping_add(1), b.wrapping_sub(1), b ^ 0x20, b ^ 0x10] {
            if seen.contains(&m) {
                continue;
            }
            seen.push(m);
            if take() {
                let mut v = orig.to_vec();
                v[k] = m;
                out(v, format!("byte {k} of {n}: {b:#x} -> {m:#x}"));
            }
        }
    }
    for ext in [&b"\0"[..], b"x", b"\xff\xff\xff\xff\xff\xff\xff\xff", b"\n", orig] {
        if take() {
            let mut v = orig.to_vec();
            v.extend_from_slice(ext);
            out(v, format!("{} bytes appended", ext.len()));
        }
    }
}

const SIZES: &[u64] = &[
    0, 1, 0x7f, 0x80, 0xff, 0xffff, 1 << 16, 1 << 20, 1 << 24, (1 << 26) + 1, (1 << 28) - 1, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, 1 << 36, 1 << 40, 1 << 47,
    1 << 53, 1 << 56, 1 << 60, (1 << 62) + 3, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX,
];

/// Encoded objects (before compression) that are wrong in one way.
fn enc_vars(rng: &mut Rng, o: &Obj, out: &mut dyn FnMut(Vec<u8>, String)) {
    let k = o.kind.name();
    let n = o.body.len();
    let mut heads: Vec<String> = vec![];
    for s in SIZES {
        heads.push(format!("{k} {s}\0"));
    }
    for d in [-1i64, 1, 2, -2, 10, -10] {
        if n as i64 + d >= 0 {
            heads.push(format!("{k} {}\0", n as i64 + d));
        }
    }
    for l in [format!("0{n}"), format!("+{n}"), format!("-{n}"), "".into(), format!(" {n}"), format!("{n} "), format!("{n}\n"), format!("{n}x"), format!("0x{n:x}"), format!("{n}.0"), "-0".into(), "+".into(), "-".into(), "18446744073709551616".into(), "99999999999999999999999999".into(), format!("{}{n}", "0".repeat(40)), "\u{661}".into()] {
        heads.push(format!("{k} {l}\0"));
    }
    for kk in ["", "x", "bloB", "blobb", "blo", "Blob", "commit", "tree", "tag", "blob", "ofs-delta", "ref-delta", " blob", "tre", "tagg"] {
        if kk != k {
            heads.push(format!("{kk} {n}\0"));
        }
    }
    heads.push(format!("{k}{n}\0"));
    heads.push(format!("{k}  {n}\0"));
    heads.push(format!("{k}\t{n}\0"));
    heads.push(format!("{k}\0{n}\0"));
    heads.push(format!("{k} {n}"));
    heads.push(format!("{k} {n} \0"));
    heads.push(String::new());
    heads.push("\0".into());
    heads.push("x".repeat(5000));
    heads.push(format!("{k} {}\0", "1".repeat(5000)));
    for h in heads {
        let mut e = h.clone().into_bytes();
        e.extend_from_slice(&o.body);
        let shown: String = h.chars().take(40).collect();
        out(e, format!("header {shown:?} on a {k} of {n} bytes"));
    }
    let enc = o.enc();
    let at = rng.below(3);
    for cut in (0..enc.len()).skip(at).step_by(3) {
        out(enc[..cut].to_vec(), format!("encoded object cut to {cut} of {}", enc.len()));
    }
    for ext in 1..5usize {
        let mut e = enc.clone();
        e.extend(rng.bytes(ext * ext));
        out(e, format!("encoded object with {} bytes more", ext * ext));
    }
}

/// Bodies of the right declared length that are wrong inside.
fn body_vars(rng: &mut Rng, o: &Obj, part: usize, parts: usize, out: &mut dyn FnMut(Vec<u8>, String)) {
    let b = &o.body;
    let mut i = 0usize;
    let mut take = || {
        i += 1;
        (i - 1) % parts == part
    };
    for k in 0..b.len() {
        for m in [0u8, 0xff, b'\n', b' ', b'<', b'>', b[k] ^ 1, b[k] ^ 0x80] {
            if m != b[k] && take() {
                let mut v = b.clone();
                v[k] = m;
                out(v, format!("{} body byte {k} -> {m:#x}", o.kind.name()));
            }
        }
        if take() {
            out(b[..k].to_vec(), format!("{} body of {k} bytes", o.kind.name()));
        }
        if take() {
            let mut v = b.clone();
            v.remove(k);
            out(v, format!("{} body without byte {k}", o.kind.name()));
        }
    }
    let lines: Vec<&[u8]> = b.split_inclusive(|&c| c == b'\n').collect();
    for k in 0..lines.len() {
        if take() {
            let mut l = lines.clone();
            l.remove(k);
            out(l.concat(), format!("{} body without line {k}", o.kind.name()));
        }
        if take() {
            let mut l = lines.clone();
            let x = l[k];
            l.insert(k, x);
            out(l.concat(), format!("{} body with line {k} twice", o.kind.name()));
        }
        if take() {
            let j = rng.below(lines.len());
            let mut l = lines.clone();
            l.swap(k, j);
            out(l.concat(), format!("{} body with lines {k} and {j} exchanged", o.kind.name()));
        }
    }
    // identities of every shape
    if matches!(o.kind, Kind::Commit | Kind::Tag) {
        for id in [
            &b""[..], b" ", b"<", b">", b"<>", b"><", b" <> ", b"x", b"x <", b"x >", b"x <y", b"x <y>", b"x <y> ", b"x <y> 1", b"x <y> 1 ", b"x <y> 1 +", b"x <y> a b", b"x <y> 99999999999999999999999 +99999",
            b"x <y> -1 -0000", b"x y <<z>> 1 +0000", b"x <y>z> 1 +0000", b"\xff\xfe <\xff> 1 +0000", b"x <y>1 +0000", b"x<y>1+0000", b"<y> 1 +0000", b" <y> 1 +0000", b"x <y> 1 +0000 extra", b"x\0y <z\0> 1 +0000",
            b"x <y> 1\t+0000", b"x <y>  1  +0000", b">< 1 +0000",
        ] {
            if take() {
                let l: Vec<Vec<u8>> = lines
                    .iter()
                    .map(|l| {
                        for h in [&b"author "[..], b"committer ", b"tagger "] {
                            if l.starts_with(h) {
                                return [h, id, b"\n"].concat();
                            }
                        }
                        l.to_vec()
                    })
                    .collect();
                out(l.concat(), format!("{} with identity {:?}", o.kind.name(), String::from_utf8_lossy(id)));
            }
        }
    }
}

/// A pack of raw entries, with a matching index.
pub fn raw_pack(items: &[(Oid, Vec<u8>)], o: &PackOpts) -> (Vec<u8>, Vec<u8>, Oid, Vec<u64>) {
    let mut v = b"PACK\0\0\0\x02".to_vec();
    v.extend_from_slice(&(items.len() as u32).to_be_bytes());
    let mut offs = vec![];
    for (_, b) in items {
        offs.push(v.len() as u64);
        v.extend_from_slice(b);
    }
    let id = sha1::sha1(&v);
    v.extend_from_slice(&id);
    let ids: Vec<Oid> = items.iter().map(|i| i.0).collect();
    let idx = build_idx(&ids, &offs, &vec![0; ids.len()], &id, o);
    (v, idx, id, offs)
}

fn padded(mut v: Vec<u8>, n: usize) -> Vec<u8> {
    // the same number with redundant continuation bytes
    for _ in 0..n {
        *v.last_mut().unwrap() |= 0x80;
        v.push(0);
    }
    v
}

fn ofs_entry(len: u64, ofs: &[u8], delta: &[u8]) -> Vec<u8> {
    [entry_header(6, len), ofs.to_vec(), zlib(delta, 6)].concat()
}
fn ref_entry(len: u64, base: &Oid, delta: &[u8]) -> Vec<u8> {
    [entry_header(7, len), base.to_vec(), zlib(delta, 6)].concat()
}
fn whole_entry(o: &Obj) -> Vec<u8> {
    [entry_header(o.kind as u8, o.body.len() as u64), zlib(&o.body, 6)].concat()
}

/// Two or three entries, the middle one damaged: its bytes are `x`, its offset is known.
fn pack_of(b: &Base, base: &Obj, x_id: Oid, x: Vec<u8>, tail: &Obj, o: &PackOpts, what: String) -> Var {
    let (pack, idx, id, _) = raw_pack(&[(base.id(), whole_entry(base)), (x_id, x), (tail.id(), whole_entry(tail))], o);
    let name = format!("pack-{}", sha1::hex(&id));
    Var {
        files: vec![
            (b.pack_path(), None),
            (b.idx_path(), None),
            (b.repo.packs().join(name.clone() + ".pack"), Some(pack)),
            (b.repo.packs().join(name + ".idx"), Some(idx)),
        ],
        ids: vec![x_id, base.id(), tail.id()],
        refs: false,
        what,
    }
}

fn entry_vars(rng: &mut Rng, b: &Base, part: usize, parts: usize, out: &mut dyn FnMut(Var)) {
    let o = PackOpts { pack_version: 2, idx_version: if rng.chance(1, 2) { 1 } else { 2 }, large: vec![], gap: vec![], level: Some(6) };
    let base = b.es[0].obj.clone();
    let tail = Obj::blob(b"the entry after it".to_vec());
    let cmds = vec![Cmd::Copy { off: 2, len: 9 }, Cmd::Insert(b"new".to_vec()), Cmd::Copy { off: 0, len: base.body.len() }];
    let x = Obj::blob(run_cmds(&base.body, &cmds));
    let delta = encode_delta(base.body.len(), x.body.len(), &cmds, None);
    let id = x.id();
    let dist = whole_entry(&base).len() as u64;
    let zdist = ofs_encode(dist);
    let dl = delta.len() as u64;
    let mut i = 0usize;
    let mut add = |bytes: Vec<u8>, what: String| {
        i += 1;
        if (i - 1) % parts == part {
            out(pack_of(b, &base, id, bytes, &tail, &o, what));
        }
    };
    // types
    for ty in 0..8u8 {
        add([entry_header(ty, x.body.len() as u64), zlib(&x.body, 6)].concat(), format!("whole data under type {ty}"));
        add([entry_header(ty, dl), zdist.clone(), zlib(&delta, 6)].concat(), format!("offset delta under type {ty}"));
        add([entry_header(ty, dl), base.id().to_vec(), zlib(&delta, 6)].concat(), format!("reference delta under type {ty}"));
        add(vec![(ty << 4) | 0x80; 1], format!("cut header of type {ty}"));
        add([vec![(ty << 4) | 0x8f], vec![0xff; 12], vec![1], zlib(&x.body, 6)].concat(), format!("overlong size, type {ty}"));
    }
    // declared sizes
    let mut sizes: Vec<u64> = SIZES.to_vec();
    for d in [1u64, 2, 15, 16, 17] {
        sizes.extend([x.body.len() as u64 + d, (x.body.len() as u64).wrapping_sub(d), dl + d, dl.wrapping_sub(d)]);
    }
    for s in sizes {
        add([entry_header(3, s), zlib(&x.body, 6)].concat(), format!("whole entry of {} bytes declares {s}", x.body.len()));
        add(ofs_entry(s, &zdist, &delta), format!("offset delta of {dl} bytes declares {s}"));
        add(ref_entry(s, &base.id(), &delta), format!("reference delta of {dl} bytes declares {s}"));
    }
    for pad in [1usize, 3, 8, 9, 10, 11, 20] {
        add([padded(entry_header(3, x.body.len() as u64), pad), zlib(&x.body, 6)].concat(), format!("size with {pad} redundant bytes"));
        add([entry_header(6, dl), padded(zdist.clone(), pad), zlib(&delta, 6)].concat(), format!("base offset with {pad} more bytes"));
    }
    // bases
    for s in SIZES.iter().copied().chain([dist - 1, dist + 1, dist + 12, dist + 13, dist + 11, 12]) {
        if s < u64::MAX >> 7 {
            add(ofs_entry(dl, &ofs_encode(s), &delta), format!("base {s} bytes before (entry at {})", dist + 12));
        }
    }
    add(ofs_entry(dl, &[0xff; 11], &delta), "endless base offset".into());
    add([entry_header(6, dl), vec![0xff; 9], vec![0x7f], zlib(&delta, 6)].concat(), "base offset over 2^64".into());
    for bid in [id, tail.id(), [0; 20], [0xff; 20], b.loose[3].id(), objgen::oid(rng)] {
        add(ref_entry(dl, &bid, &delta), format!("reference to {}", sha1::hex(&bid)));
    }
    // delta programs
    let progs = delta_programs(&base.body, &delta, x.body.len());
    for (d, what) in &progs {
        add(ofs_entry(d.len() as u64, &zdist, d), format!("offset delta: {what}"));
        add(ref_entry(d.len() as u64, &base.id(), d), format!("reference delta: {what}"));
    }
    // every value of every byte of the program
    let all: Vec<(usize, u8)> = (0..delta.len()).flat_map(|k| (0..=255u8).map(move |m| (k, m))).collect();
    for (k, m) in all {
        if delta[k] != m {
            let mut d = delta.clone();
            d[k] = m;
            add(ofs_entry(dl, &zdist, &d), format!("delta byte {k} -> {m:#x}"));
        }
    }
    for k in 0..delta.len() {
        add(ofs_entry(k as u64, &zdist, &delta[..k]), format!("delta cut to {k} of {dl}"));
        add(ofs_entry(dl, &zdist, &delta[..k]), format!("delta cut to {k}, declared {dl}"));
    }
    // the compressed stream
    let z = zlib(&x.body, 6);
    let zd = zlib(&delta, 6);
    let mut streams: Vec<(Vec<u8>, Vec<u8>, String)> = vec![];
    byte_vars(&z, 0, 1, &mut |v, w| streams.push((entry_header(3, x.body.len() as u64), v, format!("whole entry's stream: {w}"))));
    byte_vars(&zd, 0, 1, &mut |v, w| streams.push(([entry_header(6, dl), zdist.clone()].concat(), v, format!("delta's stream: {w}"))));
    for (h, s, w) in streams {
        add([h, s].concat(), w);
    }
    for lv in [0, 1, 9] {
        add([entry_header(3, x.body.len() as u64), zlib(&x.body, lv)].concat(), format!("level {lv}"));
    }
    let mut more = x.body.clone();
    more.extend_from_slice(b"more");
    add([entry_header(3, x.body.len() as u64), zlib(&more, 6)].concat(), "stream longer than declared".into());
    add([entry_header(3, more.len() as u64), zlib(&x.body, 6)].concat(), "stream shorter than declared".into());
    let mut longd = delta.clone();
    longd.extend_from_slice(&[2, b'a', b'b']);
    add(ofs_entry(dl, &zdist, &longd), "delta stream longer than declared".into());
    add(ofs_entry(longd.len() as u64, &zdist, &delta), "delta stream shorter than declared".into());
    let mut big = x.body.clone();
    big.resize(60_000, b'z');
    add([entry_header(3, x.body.len() as u64), zlib(&big, 6)].concat(), "stream much longer than declared".into());
    add([entry_header(3, 60_001), zlib(&big, 6)].concat(), "one byte missing after 60000".into());
    add([entry_header(3, 59_999), zlib(&big, 6)].concat(), "one byte too many after 60000".into());
}

pub fn delta_programs(base: &[u8], good: &[u8], result: usize) -> Vec<(Vec<u8>, String)> {
    let mut v: Vec<(Vec<u8>, String)> = vec![];
    let bl = base.len() as u64;
    let n = varint(bl).len();
    let m = varint(result as u64).len();
    let prog = &good[n + m..];
    for s in SIZES.iter().copied().chain([bl - 1, bl + 1, bl + 128]) {
        if s != bl {
            v.push(([varint(s), varint(result as u64), prog.to_vec()].concat(), format!("base size {s} for {bl}")));
        }
    }
    for s in SIZES.iter().copied().chain([result as u64 - 1, result as u64 + 1, result as u64 + 128]) {
        if s != result as u64 {
            v.push(([varint(bl), varint(s), prog.to_vec()].concat(), format!("result size {s} for {result}")));
        }
    }
    for pad in [1, 5, 8, 9, 10, 12] {
        v.push(([padded(varint(bl), pad), varint(result as u64), prog.to_vec()].concat(), format!("base size with {pad} redundant bytes")));
        v.push(([varint(bl), padded(varint(result as u64), pad), prog.to_vec()].concat(), format!("result size with {pad} redundant bytes")));
    }
    v.push(([vec![0xff; 20], prog.to_vec()].concat(), "endless base size".into()));
    // lost high bits: 2^64 + n in ten bytes, 2^63 * 2 and so on
    for hi in [2u8, 4, 0x7e, 0x7f] {
        let mut s = vec![];
        let mut x = bl;
        for _ in 0..9 {
            s.push((x & 0x7f) as u8 | 0x80);
            x >>= 7;
        }
        s.push(hi);
        v.push(([s.clone(), varint(result as u64), prog.to_vec()].concat(), format!("base size overflowing with {hi:#x}")));
        let mut s = vec![];
        let mut x = result as u64;
        for _ in 0..9 {
            s.push((x & 0x7f) as u8 | 0x80);
            x >>= 7;
        }
        s.push(hi);
        v.push(([varint(bl), s, prog.to_vec()].concat(), format!("result size overflowing with {hi:#x}")));
    }
    v.push((vec![], "empty delta".into()));
    v.push((varint(bl), "no result size".into()));
    v.push(([varint(bl), varint(0)].concat(), "empty result".into()));
    v.push(([varint(bl), varint(5)].concat(), "no commands".into()));
    v.push(([varint(bl), varint(1), vec![0]].concat(), "reserved command".into()));
    v.push(([varint(bl), varint(result as u64), prog.to_vec(), vec![0]].concat(), "reserved command at the end".into()));
    // single commands
    let one = |cmd: Vec<u8>, r: u64| [varint(bl), varint(r), cmd].concat();
    for k in 1..=0x7fu8 {
        let mut c = vec![k];
        c.extend(std::iter::repeat(b'i').take(k as usize));
        v.push((one(c.clone(), k as u64), format!("insert {k}")));
        if k % 16 == 3 {
            v.push((one(c[..c.len() - 1].to_vec(), k as u64), format!("insert {k}, one byte missing")));
            v.push((one(c[..1].to_vec(), k as u64), format!("insert {k} of nothing")));
            v.push((one([c.clone(), vec![b'x']].concat(), k as u64), format!("insert {k} and half a command")));
        }
    }
    for bits in 0..0x80u8 {
        // copy with this set of argument bytes: small values
        let mut c = vec![0x80 | bits];
        for i in 0..7 {
            if bits & (1 << i) != 0 {
                c.push(if i == 0 || i == 4 { 1 } else { 0 });
            }
        }
        let off = if bits & 1 != 0 { 1usize } else { 0 };
        let len = if bits & 0x70 == 0 { 0x10000 } else if bits & 0x10 != 0 { 1 } else { 0x10000 };
        let r = if off + len <= base.len() { len as u64 } else { 5 };
        v.push((one(c.clone(), r), format!("copy with argument set {bits:#x}")));
        // and cut short
        if c.len() > 1 {
            v.push((one(c[..c.len() - 1].to_vec(), r), format!("copy with argument set {bits:#x}, cut")));
        }
        // and with high values
        let mut c = vec![0x80 | bits];
        for i in 0..7 {
            if bits & (1 << i) != 0 {
                c.push(if i % 2 == 0 { 0xff } else { 0x80 });
            }
        }
        v.push((one(c, 5), format!("copy with argument set {bits:#x}, high values")));
    }
    for (off, len) in [(bl, 1), (bl - 1, 1), (bl - 1, 2), (0, bl), (0, bl + 1), (1, bl), (bl, 0x10000), (bl + 1, 1), (0xffff_ffff, 1), (0xffff_ffff, 0xff_ffff), (0, 0xff_ffff), (0x8000_0000, 0x10000)] {
        let mut c = vec![];
        encode_cmd(&Cmd::Copy { off: off as usize, len: len as usize }, 0, &mut c);
        let r = if off + len <= bl { len } else { 3 };
        v.push((one(c.clone(), r), format!("copy {off}+{len} of {bl}")));
        v.push((one(c, len), format!("copy {off}+{len} of {bl}, result {len}")));
    }
    // more output than declared, many times over
    let mut c = vec![];
    for _ in 0..200 {
        encode_cmd(&Cmd::Copy { off: 0, len: base.len() }, 0, &mut c);
    }
    v.push((one(c, bl), "copies 200 times what it declares".into()));
    v
}

/// Structures that do not end.
fn loop_vars(rng: &mut Rng, b: &Base, out: &mut dyn FnMut(Var)) {
    let o = PackOpts { pack_version: 2, idx_version: 2, large: vec![], gap: vec![], level: Some(6) };
    let d = b"\x05\x05\x90\x05".to_vec();
    let mut pack = |items: &[(Oid, Vec<u8>)], what: String| {
        let (p, idx, id, _) = raw_pack(items, &o);
        let name = format!("pack-{}", sha1::hex(&id));
        out(Var {
            files: vec![(b.repo.packs().join(name.clone() + ".pack"), Some(p)), (b.repo.packs().join(name + ".idx"), Some(idx))],
            ids: items.iter().take(6).map(|i| i.0).chain(items.last().map(|i| i.0)).collect(),
            refs: false,
            what,
        });
    };
    for n in [1usize, 2, 3, 7, 40] {
        let ids: Vec<Oid> = (0..n).map(|_| objgen::oid(rng)).collect();
        let items: Vec<(Oid, Vec<u8>)> = (0..n).map(|i| (ids[i], ref_entry(d.len() as u64, &ids[(i + 1) % n], &d))).collect();
        pack(&items, format!("cycle of {n} reference deltas"));
        // a tail that leads into the cycle
        let mut items2 = items.clone();
        items2.push((objgen::oid(rng), ref_entry(d.len() as u64, &ids[0], &d)));
        pack(&items2, format!("tail into a cycle of {n} reference deltas"));
        // mixed: offset deltas back, one reference forward
        let mut mixed: Vec<(Oid, Vec<u8>)> = vec![(ids[0], ref_entry(d.len() as u64, &ids[n - 1], &d))];
        let mut dist = mixed[0].1.len() as u64;
        for id in ids.iter().skip(1) {
            let e = ofs_entry(d.len() as u64, &ofs_encode(dist), &d);
            dist = e.len() as u64;
            mixed.push((*id, e));
        }
        pack(&mixed, format!("cycle of {n} mixed deltas"));
    }
    for n in [50usize, 3000, 12_000] {
        let base = Obj::blob(b"12345".to_vec());
        let mut items = vec![(base.id(), whole_entry(&base))];
        let mut dist = items[0].1.len() as u64;
        for _ in 0..n {
            let e = ofs_entry(d.len() as u64, &ofs_encode(dist), &d);
            dist = e.len() as u64;
            items.push((objgen::oid(rng), e));
        }
        pack(&items, format!("chain of {n} offset deltas"));
        let mut items = vec![(base.id(), whole_entry(&base))];
        for i in 0..n {
            let bid = items[i].0;
            items.push((objgen::oid(rng), ref_entry(d.len() as u64, &bid, &d)));
        }
        pack(&items, format!("chain of {n} reference deltas"));
        // without an end
        let mut items: Vec<(Oid, Vec<u8>)> = vec![(objgen::oid(rng), ref_entry(d.len() as u64, &objgen::oid(rng), &d))];
        for i in 0..n {
            let bid = items[i].0;
            items.push((objgen::oid(rng), ref_entry(d.len() as u64, &bid, &d)));
        }
        pack(&items, format!("chain of {n} reference deltas from nowhere"));
    }
    // gigabytes where a few bytes are declared: only noticed in time if it is not all read first
    let base = Obj::blob(vec![b'z'; 60_000]);
    for (n, res) in [(20_000usize, 5u64), (20_000, 60_000), (20_000, 0), (20_000, 700_000)] {
        let cmds: Vec<u8> = std::iter::repeat([0xb0u8, 0x60, 0xea]).take(n).flatten().collect();
        let d = [varint(60_000), varint(res), cmds].concat();
        if res < 1 << 20 {
            pack(&[(base.id(), whole_entry(&base)), (objgen::oid(rng), ref_entry(d.len() as u64, &base.id(), &d))], format!("delta of {n} copies of 60000 bytes that declares {res}"));
        }
    }
    for declared in [0u64, 5, 70_000, 1 << 20] {
        let z = zlib_repeated(b"", &vec![0u8; 1 << 20], 200, b"");
        pack(&[(objgen::oid(rng), [entry_header(3, declared), z.clone()].concat())], format!("entry of 200 MB that declares {declared} bytes"));
        pack(&[(base.id(), whole_entry(&base)), (objgen::oid(rng), [entry_header(7, declared), base.id().to_vec(), z].concat())], format!("delta of 200 MB that declares {declared} bytes"));
    }
    for declared in [0u64, 5, 70_000] {
        let id = objgen::oid(rng);
        let hex = sha1::hex(&id);
        let z = zlib_repeated(format!("blob {declared}\0").as_bytes(), &vec![0u8; 1 << 20], 200, b"");
        out(Var { files: vec![(b.repo.git().join("objects").join(&hex[..2]).join(&hex[2..]), Some(z))], ids: vec![id], refs: false, what: format!("loose object of 200 MB that declares {declared} bytes") });
    }
    // references
    let g = b.repo.git();
    let mut refs = |files: Vec<(String, Vec<u8>)>, what: String| {
        out(Var { files: files.into_iter().map(|(n, c)| (g.join(n), Some(c))).collect(), ids: vec![], refs: true, what });
    };
    for n in [1usize, 2, 3, 5, 6, 60] {
        let f: Vec<(String, Vec<u8>)> = (0..n).map(|i| (format!("refs/heads/c{i}"), format!("ref: refs/heads/c{}\n", (i + 1) % n).into_bytes())).collect();
        let mut f2 = f.clone();
        f2.push(("HEAD".into(), b"ref: refs/heads/c0\n".to_vec()));
        refs(f, format!("cycle of {n} symbolic references"));
        refs(f2, format!("HEAD into a cycle of {n} symbolic references"));
    }
    refs(vec![("HEAD".into(), b"ref: HEAD\n".to_vec())], "HEAD to itself".into());
    let f: Vec<(String, Vec<u8>)> = (0..800).map(|i| (format!("refs/heads/c{i}"), format!("ref: refs/heads/c{}\n", i + 1).into_bytes())).collect();
    refs(f, "chain of 800 symbolic references".into());
    for deep in [200usize, 900] {
        let n = format!("refs/heads/{}leaf", "d/".repeat(deep));
        refs(vec![(n, b"ref: refs/heads/a\n".to_vec())], format!("reference {deep} directories deep"));
    }
}

fn idx_vars(rng: &mut Rng, b: &Base, part: usize, parts: usize, out: &mut dyn FnMut(Var)) {
    let p = b.idx_path();
    let orig = b.orig[&p].clone();
    let ids = b.pack_ids();
    let mut send = |v: Vec<u8>, what: String| out(Var { files: vec![(p.clone(), Some(v))], ids: ids.clone(), refs: false, what: format!("index: {what}") });
    byte_vars(&orig, part, parts, &mut send);
    if part != 0 {
        return;
    }
    // lengths around every multiple, tables too big or small
    for extra in 0..40usize {
        let mut v = orig.clone();
        let at = v.len() - 40;
        v.splice(at..at, rng.bytes(extra));
        send(v, format!("{extra} bytes before the trailer"));
    }
    let v2 = orig.starts_with(b"\xfftOc");
    let f = if v2 { 8 } else { 0 };
    for n in SIZES.iter().filter(|s| **s <= u32::MAX as u64).map(|s| *s as u32).chain(0..12) {
        for from in [0usize, 100, 255] {
            let mut v = orig.clone();
            for i in from..256 {
                v[f + i * 4..f + i * 4 + 4].copy_from_slice(&n.to_be_bytes());
            }
            send(v, format!("fan-out from {from} on is {n}"));
        }
    }
    // other versions and small tables with every count
    for ver in [0u32, 1, 3, 4, u32::MAX] {
        let mut v = b"\xfftOc".to_vec();
        v.extend_from_slice(&ver.to_be_bytes());
        v.extend_from_slice(&orig[f..]);
        send(v, format!("version {ver}"));
    }
    for count in 0..4u32 {
        for len in 0..140usize {
            for v2 in [false, true] {
                let mut v = if v2 { b"\xfftOc\0\0\0\x02".to_vec() } else { vec![] };
                for _ in 0..256 {
                    v.extend_from_slice(&count.to_be_bytes());
                }
                let k = rng.below(3);
                v.extend(match k {
                    0 => vec![0; len],
                    1 => vec![0xff; len],
                    _ => rng.bytes(len),
                });
                send(v, format!("version {} of {count} entries and {len} bytes of tables", 1 + v2 as u32));
            }
        }
    }
    if v2 {
        // offsets: pointing into tables that are not there, far out of the pack
        let n = ids.len();
        let tab = 8 + 1024 + n * 24;
        for i in 0..n {
            for val in [0u32, 1, 11, 12, 13, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0x8000_0002, 0x8000_0003, 0x8000_ffff, 0xffff_ffff, b.pack.bytes().len() as u32, b.pack.bytes().len() as u32 - 20] {
                let mut v = orig.clone();
                v[tab + i * 4..tab + i * 4 + 4].copy_from_slice(&val.to_be_bytes());
                send(v, format!("offset of entry {i} is {val:#x}"));
            }
        }
        if orig.len() > tab + n * 4 + 40 {
            for val in SIZES {
                let mut v = orig.clone();
                let at = tab + n * 4;
                v[at..at + 8].copy_from_slice(&val.to_be_bytes());
                send(v, format!("large offset is {val:#x}"));
            }
        }
    }
}

fn ref_vars(rng: &mut Rng, b: &Base, out: &mut dyn FnMut(Var)) {
    let g = b.repo.git();
    let ch = b.loose[0].hex();
    let mut lines: Vec<Vec<u8>> = vec![
        b"".to_vec(), b"\n".to_vec(), b" ".to_vec(), b"#".to_vec(), b"\0".to_vec(), b"ref:".to_vec(), b"ref: ".to_vec(), b"ref: \n".to_vec(), b"ref:\n".to_vec(), b"ref".to_vec(), b"re".to_vec(),
        b"ref: /".to_vec(), b"ref: a".to_vec(), b"ref: refs/heads/a b\n".to_vec(), b"ref: refs/heads/a\nref: refs/heads/b\n".to_vec(), b"ref:refs/heads/a\n".to_vec(), b"ref:\trefs/heads/a\n".to_vec(),
        b"ref: refs/heads/\0a\n".to_vec(), b"ref: \xff\xfe/\x80\n".to_vec(), b"ref: refs/heads\n".to_vec(), b"ref: refs/heads/a/b\n".to_vec(), b"ref: refs/heads/a\r\n".to_vec(), b"\r\n".to_vec(),
        format!(" {ch}\n").into_bytes(), format!("{ch} \n").into_bytes(), format!("{ch} x/y\n").into_bytes(), format!("{ch} x\n").into_bytes(), format!("{ch}{ch}\n").into_bytes(), ch[..39].as_bytes().to_vec(),
        format!("{}\n", ch.to_uppercase()).into_bytes(), format!("{}g\n", &ch[..39]).into_bytes(), format!("{ch}0\n").into_bytes(), format!("x {ch}/\n").into_bytes(), format!("{} /\n", &ch[..10]).into_bytes(),
        b"x x/x".to_vec(), b" /".to_vec(), b"/ /".to_vec(), b"/".to_vec(), b"a /".to_vec(), b"\xc3\x28 a/b".to_vec(), "\u{2003}ref: refs/heads/a".as_bytes().to_vec(), "ref: \u{2003}/".as_bytes().to_vec(),
        "ref: refs/\u{2003}\n".as_bytes().to_vec(), b"ref: ref: refs/heads/a\n".to_vec(), b"# c\n# d\n\n\n".to_vec(), b"#\n \n\nref: refs/heads/a".to_vec(),
    ];
    let n = rng.range(100_000, 400_000);
    lines.push([b"ref: refs/heads/".to_vec(), vec![b'a'; n], b"\n".to_vec()].concat());
    lines.push(vec![b'a'; n]);
    lines.push(vec![b'\n'; n]);
    lines.push(vec![0; n]);
    lines.push(b"# x\n".repeat(n / 4));
    lines.push([b"ref: ".to_vec(), b"a/".repeat(3000)].concat());
    for f in ["HEAD", "refs/heads/a", "refs/heads/b", "packed-refs"] {
        for l in &lines {
            out(Var { files: vec![(g.join(f), Some(l.clone()))], ids: vec![], refs: true, what: format!("{f} is {:?}", String::from_utf8_lossy(&l[..l.len().min(60)])) });
        }
        let orig = b.orig[&g.join(f)].clone();
        byte_vars(&orig, 0, 1, &mut |v, w| out(Var { files: vec![(g.join(f), Some(v))], ids: vec![], refs: true, what: format!("{f}: {w}") }));
        for _ in 0..40 {
            let k = rng.below(120);
            let v = rng.bytes(k);
            out(Var { files: vec![(g.join(f), Some(v))], ids: vec![], refs: true, what: format!("{f}: random bytes") });
        }
    }
}

fn garbage(rng: &mut Rng) -> Vec<u8> {
    let n = *rng.pick(&[0usize, 1, 7, 8, 12, 20, 31, 32, 33, 64, 1031, 1032, 1071, 1072, 1073, 1100, 4000, 70_000]);
    let mut v = match rng.below(4) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        _ => rng.bytes(n),
    };
    let magic: &[u8] = match rng.below(7) {
        0 => b"PACK\0\0\0\x02\0\0\0\x07",
        1 => b"\xfftOc\0\0\0\x02",
        2 => b"PACK\0\0\0\x09",
        3 => b"\x78\x9c",
        4 => b"\x78\x01\x01\xff\xff\0\0",
        _ => b"",
    };
    for (d, s) in v.iter_mut().zip(magic) {
        *d = *s;
    }
    v
}

fn havoc(rng: &mut Rng, v: &mut Vec<u8>) {
    for _ in 0..rng.range(1, 8) {
        if v.is_empty() {
            v.extend(rng.bytes(5));
            continue;
        }
        let n = v.len();
        let at = rng.below(n);
        match rng.below(9) {
            0 => v[at] ^= 1 << rng.below(8),
            1 => v[at] = rng.byte(),
            2 => v.truncate(at),
            3 => {
                let k = rng.range(1, 20).min(n - at);
                v.drain(at..at + k);
            }
            4 => {
                let k = rng.below(20);
                v.splice(at..at, rng.bytes(k));
            }
            5 => {
                let k = rng.range(1, 40).min(n - at);
                let c = v[at..at + k].to_vec();
                let to = rng.below(n);
                v.splice(to..to, c);
            }
            6 => {
                let val = *rng.pick(SIZES) as u32;
                if at + 4 <= n {
                    v[at..at + 4].copy_from_slice(&val.to_be_bytes());
                }
            }
            7 => {
                let k = rng.range(1, 60).min(n - at);
                for x in &mut v[at..at + k] {
                    *x = 0xff;
                }
            }
            _ => {
                let j = rng.below(n);
                v.swap(at, j);
            }
        }
    }
}

/// The variations of one case. `data_only`: only what alters object data (C08).
pub fn variations(rng: &mut Rng, case: u64, b: &Base, data_only: bool, out: &mut dyn FnMut(Var)) {
    let cat = if data_only { [0u64, 1, 2, 3, 3, 4, 8][case as usize % 7] } else { [0u64, 1, 2, 3, 4, 5, 6, 7, 8, 9][case as usize % 10] };
    let round = if data_only { case / 7 } else { case / 10 } as usize;
    match cat {
        // loose files, byte by byte
        0 => {
            let o = &b.loose[round % 4];
            let lv = [6, 0, 1][round / 4 % 3];
            let file = zlib(&o.enc(), lv);
            let p = b.repo.loose_path(&o.id());
            let parts = 1 + file.len() / 120;
            byte_vars(&file, round / 12 % parts, parts, &mut |v, w| {
                out(Var { files: vec![(p.clone(), Some(v))], ids: vec![o.id()], refs: true, what: format!("loose {}: {w}", o.kind.name()) })
            });
        }
        // loose objects, under the compression
        1 => {
            for o in &b.loose {
                let p = b.repo.loose_path(&o.id());
                let lv = *rng.pick(&[0, 6, 9]);
                let mut r2 = rng.fork();
                enc_vars(&mut r2, o, &mut |v, w| {
                    out(Var { files: vec![(p.clone(), Some(zlib(&v, lv)))], ids: vec![o.id()], refs: false, what: format!("loose: {w}") })
                });
            }
        }
        // bodies
        2 => {
            let o = if round % 2 == 0 { b.loose[round / 2 % 3].clone() } else { b.es[b.es.len() - 1 - round / 2 % 3].obj.clone() };
            let parts = 1 + o.body.len() * 10 / 900;
            let mut r2 = rng.fork();
            let in_pack = rng.chance(1, 3);
            let base = b.es[0].obj.clone();
            let tail = Obj::blob(b"tail".to_vec());
            let po = PackOpts { pack_version: 2, idx_version: 2, large: vec![], gap: vec![], level: Some(6) };
            body_vars(&mut r2, &o, round / 6 % parts, parts, &mut |body, w| {
                let x = Obj::new(o.kind, body);
                let id = o.id();
                if in_pack {
                    let mut v = pack_of(b, &base, id, whole_entry(&x), &tail, &po, w);
                    // not the loose copy
                    v.files.push((b.repo.loose_path(&id), None));
                    v.ids.truncate(1);
                    out(v);
                } else {
                    out(Var { files: vec![(b.repo.loose_path(&id), Some(zlib(&x.enc(), 1))), (b.pack_path(), None), (b.idx_path(), None)], ids: vec![id], refs: false, what: w });
                }
            });
        }
        // pack entries
        3 => {
            let parts = 40;
            let mut r2 = rng.fork();
            entry_vars(&mut r2, b, round % parts, parts, out);
        }
        // the pack file, byte by byte
        4 => {
            let p = b.pack_path();
            let file = b.orig[&p].clone();
            let parts = 1 + file.len() * 8 / 400;
            let ids = b.pack_ids();
            byte_vars(&file, round % parts, parts, &mut |v, w| out(Var { files: vec![(p.clone(), Some(v))], ids: ids.clone(), refs: false, what: format!("pack: {w}") }));
        }
        5 => {
            let parts = 16;
            idx_vars(rng, b, round % parts, parts, out);
        }
        6 => loop_vars(rng, b, out),
        7 => ref_vars(rng, b, out),
        // several things at once
        8 => {
            for _ in 0..400 {
                let files: Vec<PathBuf> = b.orig.keys().filter(|p| !p.ends_with("config") && (!data_only || p.to_string_lossy().contains("objects"))).cloned().collect();
                let mut fs = vec![];
                for _ in 0..rng.range(1, 3) {
                    let p = rng.pick(&files).clone();
                    if fs.iter().any(|f: &(PathBuf, Option<Vec<u8>>)| f.0 == p) {
                        continue;
                    }
                    let mut v = b.orig[&p].clone();
                    // havoc under the compression, for loose objects
                    let loose = p.to_string_lossy().contains("objects") && p.extension().is_none();
                    if loose && rng.chance(2, 3) {
                        if let Inflate::Complete(mut o, _) = inflate(&v, 1 << 20) {
                            havoc(rng, &mut o);
                            v = zlib(&o, 6);
                        }
                    } else {
                        havoc(rng, &mut v);
                    }
                    fs.push((p, Some(v)));
                }
                let names: Vec<String> = fs.iter().map(|f| f.0.file_name().unwrap().to_string_lossy().into_owned()).collect();
                out(Var { files: fs, ids: b.all_ids(), refs: !data_only, what: format!("several changes to {names:?}") });
            }
        }
        _ => {
            for _ in 0..150 {
                let files: Vec<PathBuf> = b.orig.keys().cloned().collect();
                let p = rng.pick(&files).clone();
                let g = garbage(rng);
                out(Var { files: vec![(p.clone(), Some(g))], ids: b.all_ids(), refs: true, what: format!("garbage in {}", p.file_name().unwrap().to_string_lossy()) });
            }
        }
    }
}

// ------------------------------------------------------------------------------------------ C07

fn content_key(v: &Var) -> u64 {
    v.files.iter().fold(7, |a, (p, b)| {
        let n = p.file_name().map(|n| n.to_string_lossy().len()).unwrap_or(0) as u64;
        a.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ b.as_ref().map_or(n, |b| hash64(b) ^ n)
    })
}

fn tally(c: &mut Ctx, ok: bool) {
    c.count("ops", 1);
    c.count(if ok { "calls_ok" } else { "calls_err" }, 1);
}

/// Every call there is, on a damaged repository.
pub fn every_call(c: &mut Ctx, b: &Base, v: &Var) {
    let w = &v.what;
    let Some(Ok(repo)) = c.op(|| format!("open ({w})"), || Repository::open(&b.repo.path)) else { return };
    let db = repo.object_database();
    for id in &v.ids {
        let h = sha1::hex(id);
        match c.op(|| format!("parse_object {h} ({w})"), || obs::parse(db, id)) {
            Some(Parsed::Ok { data, .. }) => {
                tally(c, true);
                c.op(|| format!("accessors of {h} ({w})"), || obs::exercise(&data));
            }
            Some(_) => tally(c, false),
            None => return,
        }
        match c.op(|| format!("read_object {h} ({w})"), || obs::read_raw(db, id)) {
            Some(r) => tally(c, r.is_ok()),
            None => return,
        }
    }
    let absent = [0x77u8; 20];
    match c.op(|| format!("parse_object of an absent id ({w})"), || obs::parse(db, &absent)) {
        Some(p) => tally(c, matches!(p, Parsed::Ok { .. })),
        None => return,
    }
    if !v.refs {
        return;
    }
    let rd = repo.reference_database();
    let mut names: Vec<Vec<u8>> = vec![b"HEAD".to_vec(), b"refs/heads/a".to_vec(), b"refs/heads/b".to_vec(), b"refs/tags/t".to_vec(), b"refs/heads/p".to_vec(), b"packed-refs".to_vec(), b"refs/heads/none".to_vec()];
    let lists = c.op(|| format!("reference lists ({w})"), || {
        (rd.reference_names(), rd.head_reference_names(), rd.tag_reference_names(), rd.remote_reference_names())
    });
    match lists {
        Some((a, h, t, r)) => {
            for l in [a, h, t, r] {
                tally(c, l.is_ok());
                if let Ok(l) = l {
                    names.extend(l.into_iter().take(12));
                }
            }
        }
        None => return,
    }
    names.sort();
    names.dedup();
    for n in names {
        let shown = String::from_utf8_lossy(&n[..n.len().min(60)]).into_owned();
        let r = c.op(|| format!("reference {shown} ({w})"), || {
            let r = rd.reference(&n);
            let _ = rd.parse_reference(&n);
            if let Ok(r) = &r {
                let _ = format!("{r:?}{:?}{:?}", r.name(), r.target());
            }
            r
        });
        match r {
            Some(Ok(r)) => {
                tally(c, true);
                match c.op(|| format!("peel {shown} ({w})"), || r.peel(&repo).map(|o| obs::exercise(o.data()))) {
                    Some(p) => tally(c, p.is_ok()),
                    None => return,
                }
            }
            Some(Err(e)) => {
                tally(c, false);
                let _ = format!("{e:?}{e}");
            }
            None => return,
        }
    }
    match c.op(|| format!("head ({w})"), || rd.head().and_then(|h| h.peel(&repo)).map(|o| obs::exercise(o.data()))) {
        Some(p) => tally(c, p.is_ok()),
        None => (),
    }
}

pub fn c07(c: &mut Ctx) {
    let mut rng = c.rng.fork();
    let dir = c.fresh("r");
    let b = base(&mut rng, &dir);
    c.mem = 64 << 20;
    let case = c.case;
    let mut n = 0u64;
    let mut r2 = rng.fork();
    variations(&mut r2, case, &b, false, &mut |v| {
        if c.st.violations.len() >= 4 {
            return;
        }
        b.put(&v);
        every_call(c, &b, &v);
        b.restore(&v);
        c.count("damaged_files", 1);
        c.eval(content_key(&v), true);
        n += 1;
        if n == 3 {
            let w = v.what.clone();
            c.sample(|| w);
        }
    });
}

// ------------------------------------------------------------------------------------------ C08

fn judge(c: &mut Ctx, b: &Base, v: &Var, db: &ObjectDatabase, id: &Oid, label: &str) -> bool {
    let h = sha1::hex(id);
    let w = format!("{} ({label})", v.what);
    let Some(cands) = b.candidates(v, id, false) else {
        c.count("ambiguous_index", 1);
        return true;
    };
    let good: Vec<&Obj> = cands.iter().filter_map(|v| v.obj()).collect();
    let why = || cands.iter().map(|v| match v {
        Verdict::Is(o) => format!("{} of {} bytes", o.kind.name(), o.body.len()),
        Verdict::May(o) => format!("perhaps {} of {} bytes", o.kind.name(), o.body.len()),
        Verdict::Bad(e) => format!("undecodable: {e}"),
    }).collect::<Vec<_>>().join(", ");
    let Some(p) = c.op(|| format!("parse_object {h}, {w}"), || obs::parse(db, id)) else { return false };
    let Some(r) = c.op(|| format!("read_object {h}, {w}"), || obs::read_raw(db, id)) else { return false };
    c.count("damaged_reads", 2);
    if good.is_empty() {
        c.count("must_fail", 1);
    } else {
        c.count("still_decodes", 1);
    }
    match p {
        Parsed::Ok { id: got, data } => {
            c.count("parsed_ok", 1);
            if got != *id {
                c.violate("wrong-id", format!("{w}: {h}: parse_object reports id {}", sha1::hex(&got)));
                return false;
            }
            let mut e = String::from("nothing");
            if !good.iter().any(|o| match obs::agrees(&data, o) {
                Ok(()) => true,
                Err(x) => {
                    e = x;
                    false
                }
            }) {
                c.violate(
                    if good.is_empty() { "damage-accepted" } else { "other-content" },
                    format!("{w}: parse_object {h} succeeds with a {:?} ({e}), but the stored data is {}", obs::kind_of(&data), why()),
                );
                return false;
            }
        }
        Parsed::NotFound(_) | Parsed::Err(_) => c.count("parse_errors", 1),
    }
    match r {
        Ok(bytes) => {
            c.count("raw_ok", 1);
            let loose_raw = b.file(v, &b.repo.loose_path(id)).map(|f| inflate(f, MAXOUT));
            let as_stream = matches!(&loose_raw, Some(Inflate::Complete(o, _)) if *o == bytes);
            if !as_stream && !good.iter().any(|o| o.enc() == bytes) {
                c.violate(
                    if good.is_empty() { "damage-accepted-raw" } else { "other-content-raw" },
                    format!("{w}: read_object {h} delivers {} bytes without an error, but the stored data is {}", bytes.len(), why()),
                );
                return false;
            }
        }
        Err(_) => c.count("raw_errors", 1),
    }
    true
}

pub fn c08(c: &mut Ctx) {
    let mut rng = c.rng.fork();
    let dir = c.fresh("r");
    let b = base(&mut rng, &dir);
    let case = c.case;
    let mut r2 = rng.fork();
    let mut n = 0u64;
    let seq = rng.chance(1, 2);
    variations(&mut r2, case, &b, true, &mut |v| {
        if c.failed() {
            return;
        }
        b.put(&v);
        let db = ObjectDatabase::open(&b.repo.git());
        let ids = if seq { v.ids.clone() } else { v.ids.iter().rev().copied().collect() };
        for id in &ids {
            if !judge(c, &b, &v, &db, id, "fresh handle") {
                break;
            }
        }
        // again: what the handle remembers
        if n % 5 == 0 && !c.failed() {
            for id in &ids {
                if !judge(c, &b, &v, &db, id, "second read") {
                    break;
                }
            }
        }
        b.restore(&v);
        c.count(if v.what.contains("delta") { "delta_damage" } else if v.what.starts_with("loose") { "loose_damage" } else { "other_damage" }, 1);
        let nontrivial = v.ids.iter().any(|id| {
            let Some(cs) = b.candidates(&v, id, false) else { return false };
            !cs.iter().any(|x| matches!(x, Verdict::Is(o) if o.id() == *id))
        });
        c.eval(content_key(&v), nontrivial);
        n += 1;
        if n == 2 {
            let w = v.what.clone();
            c.sample(|| w);
        }
    });
}

// ------------------------------------------------------------------------------------------ C09

pub fn c09(c: &mut Ctx) {
    let mut rng = c.rng.fork();
    let dir = c.fresh("r");
    let repo = Repo::init(&dir);
    let mut intact: Vec<Obj> = vec![];
    for _ in 0..rng.range(1, 3) {
        let (es, p) = small_pack(&mut rng, 5);
        repo.add_pack(&p);
        intact.extend(es.into_iter().map(|e| e.obj));
    }
    for _ in 0..3 {
        let o = objgen::any_obj(&mut rng, 800);
        repo.add_loose(&o, &mut rng);
        intact.push(o);
    }
    let es = gen_entries(&mut rng, &GenOpts { n: 6, delta_percent: 60, deep: true, max_body: 300, max_result: 900 });
    let es: Vec<Entry> = es.into_iter().collect();
    let o = rand_opts(&mut rng, es.len());
    let bad = build_pack(&es, &o, &mut rng);
    let good_pack = {
        let (_, p) = small_pack(&mut rng, 6);
        p
    };
    // another pack with as many objects, whose index fits but for the pack's id
    let twin = {
        let mut o2 = o.clone();
        o2.large.clear();
        let mut es2 = gen_entries(&mut rng, &GenOpts { n: es.len(), delta_percent: 0, deep: false, max_body: 300, max_result: 900 });
        es2.truncate(es.len());
        while es2.len() < es.len() {
            let k = es2.len() as u8;
            let body = [rng.bytes(20), vec![k]].concat();
            es2.push(Entry { obj: Obj::blob(body), store: Store::Whole, delta: vec![] });
        }
        build_pack(&es2, &o2, &mut rng)
    };
    repo.add_pack(&bad);
    // some of its objects are stored elsewhere too
    let mut both: Vec<Obj> = bad.objs.iter().filter(|_| rng.chance(1, 3)).cloned().collect();
    let (copied, copied_loose): (Vec<&Obj>, Vec<&Obj>) = both.iter().partition(|_| rng.chance(1, 2));
    for o in copied_loose {
        repo.add_loose(o, &mut rng);
    }
    if !copied.is_empty() {
        let es: Vec<Entry> = copied.iter().map(|o| Entry { obj: (*o).clone(), store: Store::Whole, delta: vec![] }).chain([Entry { obj: Obj::blob(rng.bytes(30)), store: Store::Whole, delta: vec![] }]).collect();
        let o = rand_opts(&mut rng, es.len());
        repo.add_pack(&build_pack(&es, &o, &mut rng));
    }
    both.retain(|o| !good_pack.objs.contains(o) && !twin.objs.contains(o));
    let only: Vec<Obj> = bad.objs.iter().filter(|o| !intact.contains(o) && !both.contains(o)).cloned().collect();
    // an object that is stored twice may be read from the damaged pack
    intact.retain(|o| !bad.objs.contains(o) && !good_pack.objs.contains(o) && !twin.objs.contains(o));
    if intact.is_empty() {
        let o = Obj { kind: crate::model::Kind::Blob, body: rng.bytes(40) };
        repo.add_loose(&o, &mut rng);
        intact.push(o);
    }
    let (pp, ip) = (repo.packs().join(bad.name() + ".pack"), repo.packs().join(bad.name() + ".idx"));
    let mut b = Base { repo, loose: vec![], pack: bad, es: vec![], orig: BTreeMap::new() };
    snapshot(&b.repo.git(), &mut b.orig);
    let rounds = 6;
    for round in 0..rounds {
        let (pack, idx) = (b.orig[&pp].clone(), b.orig[&ip].clone());
        let which = (c.case * rounds + round) % 20;
        let cut = |rng: &mut Rng, v: &[u8]| {
            let n = match rng.below(5) {
                0 => 0,
                1 => v.len() - 1,
                2 => v.len().saturating_sub(rng.range(2, 60)),
                3 => rng.below(40).min(v.len() - 1),
                _ => rng.below(v.len()),
            };
            v[..n].to_vec()
        };
        let flip = |rng: &mut Rng, v: &[u8]| {
            let mut v = v.to_vec();
            let at = rng.below(v.len());
            v[at] ^= 1 << rng.below(8);
            v
        };
        let (files, what): (Vec<(PathBuf, Option<Vec<u8>>)>, &str) = match which {
            0 => (vec![(pp.clone(), None)], "pack missing"),
            1 => (vec![(ip.clone(), None)], "index missing"),
            2 => (vec![(pp.clone(), Some(cut(&mut rng, &pack)))], "pack truncated"),
            3 => (vec![(ip.clone(), Some(cut(&mut rng, &idx)))], "index truncated"),
            4 | 5 => (vec![(pp.clone(), Some(flip(&mut rng, &pack)))], "one bit of the pack"),
            6 | 7 => (vec![(ip.clone(), Some(flip(&mut rng, &idx)))], "one bit of the index"),
            8 => {
                let mut v = pack.clone();
                havoc(&mut rng, &mut v);
                (vec![(pp.clone(), Some(v))], "pack mangled")
            }
            9 => {
                // the id tables stay, so that no id of another pack is claimed by chance
                let mut v = idx.clone();
                let k = rng.below(v.len());
                v.truncate(k);
                let k = rng.below(60);
                v.extend(rng.bytes(k));
                (vec![(ip.clone(), Some(v))], "index mangled")
            }
            10 => (vec![(pp.clone(), Some(garbage(&mut rng)))], "garbage for the pack"),
            11 => (vec![(ip.clone(), Some(garbage(&mut rng)))], "garbage for the index"),
            12 => (vec![(pp.clone(), Some(good_pack.bytes().to_vec()))], "another pack in its place"),
            13 => (vec![(ip.clone(), Some(good_pack.idx.clone()))], "another index in its place"),
            18 => (vec![(pp.clone(), Some(twin.bytes().to_vec()))], "another pack of the same size in its place"),
            19 => (vec![(ip.clone(), Some(twin.idx.clone()))], "another index of the same size in its place"),
            14 => (vec![(pp.clone(), Some(vec![]))], "empty pack"),
            15 => (vec![(ip.clone(), Some(vec![]))], "empty index"),
            16 => {
                let mut v = pack.clone();
                let n = rng.range(1, 30);
                let at = 12 + rng.below(v.len() - 12);
                let end = (at + n).min(v.len());
                for x in &mut v[at..end] {
                    *x = rng.byte();
                }
                (vec![(pp.clone(), Some(v))], "bytes of the pack overwritten")
            }
            _ => {
                // an index that is alone, with the name of a pack that never was
                (vec![(pp.clone(), None), (ip.clone(), None), (b.repo.packs().join(format!("pack-{}.idx", "0".repeat(40))), Some(if rng.chance(1, 2) { idx.clone() } else { garbage(&mut rng) }))], "stray index")
            }
        };
        let v = Var { files, ids: vec![], refs: false, what: what.to_string() };
        // a handle that knew the packs before the damage
        let warm = ObjectDatabase::open(&b.repo.git());
        let use_warm = rng.chance(1, 2);
        if use_warm {
            for _ in 0..rng.range(1, 3) {
                let o = rng.pick(&intact).clone();
                expect_present(c, &warm, &o, "before the damage");
            }
            if rng.chance(1, 2) {
                expect_absent(c, &warm, &[0x66; 20], "before the damage");
            }
        }
        b.put(&v);
        c.count("damages", 1);
        let fresh = ObjectDatabase::open(&b.repo.git());
        let mut plan: Vec<(u8, usize)> = (0..intact.len()).map(|i| (0, i)).chain((0..only.len()).map(|i| (1, i))).chain((0..both.len()).map(|i| (2, i))).collect();
        rng.shuffle(&mut plan);
        let handles: Vec<(&ObjectDatabase, &str)> = if use_warm { vec![(&fresh, "fresh"), (&warm, "warm")] } else { vec![(&fresh, "fresh")] };
        let key = content_key(&v);
        for (db, hn) in handles {
            for &(place, i) in &plan {
                if place == 0 {
                    if !expect_present(c, db, &intact[i], &format!("{what}, {hn} handle, intact object")) {
                        b.restore(&v);
                        return;
                    }
                    c.count("intact_reads", 2);
                } else {
                    // either an error or exactly what its data still decodes to
                    let o = if place == 1 { &only[i] } else { &both[i] };
                    let id = o.id();
                    let Some(mut cands) = b.candidates(&v, &id, true) else { continue };
                    if hn == "warm" {
                        // it may still use the index, or content, it read before
                        cands.push(Verdict::Is(o.clone()));
                        let pk = match &v.files.iter().find(|f| f.0 == pp) {
                            Some(f) => f.1.clone(),
                            None => Some(pack.clone()),
                        };
                        if let Some(pk) = pk {
                            for off in idx_offsets(&idx, &id) {
                                cands.push(decode_packed(&pk, off, &|x| idx_offsets(&idx, x).first().copied()));
                            }
                        }
                    }
                    let Some(p) = c.op(|| format!("parse_object {} ({what})", sha1::hex(&id)), || obs::parse(db, &id)) else {
                        b.restore(&v);
                        return;
                    };
                    let Some(r) = c.op(|| format!("read_object {} ({what})", sha1::hex(&id)), || obs::raw(db, &id)) else {
                        b.restore(&v);
                        return;
                    };
                    if place == 2 {
                        // the damaged copy counts only where something can be read from it
                        c.count("two_copies_reads", 2);
                        if cands.iter().all(|x| x.obj().map_or(true, |x| x == o)) {
                            c.count("two_copies_certain", 2);
                            match &p {
                                Parsed::Ok { data, .. } if obs::agrees(data, o).is_ok() => {}
                                p => c.violate("intact-copy-hidden", format!("{what}, {hn} handle: parse_object {} which has an intact copy elsewhere: {}", o.hex(), p.show())),
                            }
                            if r != Obs::Ok(o.clone()) {
                                c.violate("intact-copy-hidden", format!("{what}, {hn} handle: read_object {} which has an intact copy elsewhere: {}", o.hex(), r.show()));
                            }
                        }
                        if c.failed() {
                            b.restore(&v);
                            return;
                        }
                        continue;
                    }
                    c.count("damaged_only_reads", 2);
                    // an intact index says that it is there
                    let listed = !v.files.iter().any(|f| f.0 == ip) && v.files.iter().find(|f| f.0 == pp).map_or(true, |f| f.1.is_some());
                    if listed {
                        c.count("listed_reads", 2);
                        if matches!(p, Parsed::NotFound(_)) || matches!(r, Obs::NotFound(_)) {
                            c.violate("damaged-is-not-found", format!("{what}, {hn} handle: {} is listed by the index, but reported as not found", sha1::hex(&id)));
                        }
                    }
                    let good: Vec<&Obj> = cands.iter().filter_map(|x| x.obj()).collect();
                    // a base that was read before the damage still serves its deltas
                    let cached = hn == "warm";
                    if let Parsed::Ok { data, .. } = &p {
                        c.count("damaged_only_ok", 1);
                        if !cached && !good.iter().any(|o| obs::agrees(data, o).is_ok()) {
                            c.violate("wrong-content", format!("{what}, {hn} handle: parse_object {} gives a {:?} the pack does not hold", sha1::hex(&id), obs::kind_of(data)));
                        }
                    }
                    if let Obs::Ok(o) = &r {
                        if !cached && !good.iter().any(|g| *g == o) {
                            c.violate("wrong-content", format!("{what}, {hn} handle: read_object {} gives a {} of {} bytes the pack does not hold", sha1::hex(&id), o.kind.name(), o.body.len()));
                        }
                    }
                }
                if c.failed() {
                    b.restore(&v);
                    return;
                }
            }
        }
        c.eval(key, true);
        b.restore(&v);
        if round == 0 {
            c.sample(|| format!("{what}: {} intact objects, {} only in the damaged pack", intact.len(), only.len()));
        }
    }
    if c.case % 4 == 0 {
        no_packs(c, &mut rng, &b.repo);
    }
}

/// The place of the packs is no directory: loose objects are stored elsewhere.
fn no_packs(c: &mut Ctx, rng: &mut Rng, repo: &Repo) {
    use std::os::unix::fs::symlink;
    let warm = ObjectDatabase::open(&repo.git());
    let use_warm = rng.chance(1, 2);
    let mut loose: Vec<Obj> = (0..3).map(|_| objgen::any_obj(rng, 300)).collect();
    loose.retain(|o| !repo.loose_path(&o.id()).exists());
    for o in &loose {
        repo.add_loose(o, rng);
    }
    if use_warm {
        expect_absent(c, &warm, &[0x67; 20], "before the damage");
    }
    let p = repo.packs();
    std::fs::rename(&p, p.with_extension("away")).unwrap();
    let what = match rng.below(6) {
        0 => {
            std::fs::write(&p, b"").unwrap();
            "an empty file"
        }
        1 => {
            std::fs::write(&p, rng.bytes(100)).unwrap();
            "a file"
        }
        2 => {
            symlink("nowhere", &p).unwrap();
            "a dangling link"
        }
        3 => {
            symlink("pack", &p).unwrap();
            "a link to itself"
        }
        4 => {
            symlink("info/../../HEAD", &p).unwrap();
            "a link to a file"
        }
        _ => "missing",
    };
    let fresh = ObjectDatabase::open(&repo.git());
    for (db, hn) in [(&fresh, "fresh"), (&warm, "warm")] {
        for o in &loose {
            if !expect_present(c, db, o, &format!("objects/pack is {what}, {hn} handle, loose object")) {
                return;
            }
            c.count("intact_reads", 2);
        }
    }
    c.count("unusable_pack_directories", 1);
    c.eval(hash64(format!("{what} {use_warm} {}", loose.len()).as_bytes()), true);
}
