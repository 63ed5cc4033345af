use crate::ctx::Ctx;
use crate::model::*;
use crate::obs::{self, Obs, Parsed};
use crate::objgen;
use crate::rng::Rng;
use crate::sha1;
use rusty_git::object::{ObjectData, ObjectDatabase};

/// Reads an object the repository holds, both ways, and compares with the truth.
pub fn expect_present(c: &mut Ctx, db: &ObjectDatabase, o: &Obj, label: &str) -> bool {
    let id = o.id();
    let what = format!("{label}: {} {} ({} bytes)", o.kind.name(), sha1::hex(&id), o.body.len());
    let Some(p) = c.op(|| format!("parse_object {what}"), || obs::parse(db, &id)) else { return false };
    c.count("calls", 2);
    match &p {
        Parsed::Ok { id: got, data } => {
            if *got != id {
                c.violate("wrong-id", format!("{what}: parse_object reports id {}", sha1::hex(got)));
                return false;
            }
            if let Err(e) = obs::agrees(data, o) {
                c.violate("wrong-content", format!("{what}: parse_object: {e}"));
                return false;
            }
        }
        other => {
            // bodies that are not well-formed for their kind may fail to parse, but not be missing
            let lenient = o.kind != Kind::Blob && !well_formed(o);
            if !lenient || matches!(other, Parsed::NotFound(_)) {
                c.violate(
                    if matches!(other, Parsed::NotFound(_)) { "present-not-found" } else { "present-error" },
                    format!("{what}: parse_object: {}", other.show()),
                );
                return false;
            }
        }
    }
    let Some(r) = c.op(|| format!("read_object {what}"), || obs::read_raw(db, &id)) else { return false };
    match r {
        Ok(bytes) => {
            let want = o.enc();
            if bytes != want {
                let at = bytes.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(bytes.len().min(want.len()));
                c.violate(
                    "wrong-raw-bytes",
                    format!("{what}: read_object().reader() delivers {} bytes instead of {} (`<kind> <size>\\0<body>`), first difference at {at}", bytes.len(), want.len()),
                );
                return false;
            }
        }
        Err(e) => {
            c.violate("raw-read-failed", format!("{what}: read_object().reader(): {}", e.show()));
            return false;
        }
    }
    true
}

pub fn well_formed(o: &Obj) -> bool {
    match o.kind {
        Kind::Blob => true,
        Kind::Commit => objgen::parse_commit(&o.body).is_some(),
        // the generators only make well-formed ones; anything else goes through damaged-data checks
        Kind::Tree | Kind::Tag => true,
    }
}

pub fn expect_absent(c: &mut Ctx, db: &ObjectDatabase, id: &Oid, label: &str) {
    let h = sha1::hex(id);
    let what = format!("{label}: absent id {h}");
    c.count("calls", 2);
    match c.op(|| format!("parse_object {what}"), || obs::parse(db, id)) {
        Some(Parsed::NotFound(got)) if got == h => {}
        Some(Parsed::NotFound(got)) => c.violate("not-found-other-id", format!("{what}: the error names {got}")),
        Some(p) => c.violate("absent-not-reported", format!("{what}: parse_object: {}", p.show())),
        None => {}
    }
    match c.op(|| format!("read_object {what}"), || obs::raw(db, id)) {
        Some(Obs::NotFound(got)) if got == h => {}
        Some(Obs::NotFound(got)) => c.violate("not-found-other-id", format!("{what}: the error names {got}")),
        Some(p) => c.violate("absent-not-reported", format!("{what}: read_object: {}", p.show())),
        None => {}
    }
}

pub fn data_of(o: &Obj) -> Vec<u8> {
    o.body.clone()
}

/// Chooses a blob whose id starts with the given byte (for full fan-out directories).
pub fn blob_with_first_byte(rng: &mut Rng, b: u8, mut body: Vec<u8>) -> Obj {
    let salt = rng.next();
    for i in 0u64..100_000 {
        body.extend_from_slice(&(salt.wrapping_add(i)).to_le_bytes());
        let o = Obj::blob(body.clone());
        if o.id()[0] == b {
            return o;
        }
        let n = body.len() - 8;
        body.truncate(n);
    }
    Obj::blob(body)
}

/// A variation of an object of the same kind, well-formed again.
fn variant(rng: &mut Rng, o: &Obj) -> Obj {
    match o.kind {
        Kind::Commit => match objgen::parse_commit(&o.body) {
            Some(mut t) => {
                t.message = objgen::message(rng);
                t.message.truncate(3000);
                if rng.chance(1, 2) {
                    t.tree = objgen::oid(rng);
                }
                t.obj()
            }
            None => objgen::commit(rng).obj(),
        },
        Kind::Tag => {
            let mut b = o.body.clone();
            b.extend(format!("more {}\n", rng.below(1 << 30)).into_bytes());
            Obj::new(Kind::Tag, b)
        }
        Kind::Tree => {
            // another entry at the end
            let mut b = o.body.clone();
            b.extend_from_slice(format!("100644 zz{}", rng.below(1 << 30)).as_bytes());
            b.push(0);
            b.extend_from_slice(&objgen::oid(rng));
            Obj::new(Kind::Tree, b)
        }
        Kind::Blob => unreachable!(),
    }
}

#[derive(Clone, Debug)]
pub struct GenOpts {
    pub n: usize,
    pub delta_percent: usize,
    /// prefer the latest entry as base: deep chains
    pub deep: bool,
    pub max_body: usize,
    pub max_result: usize,
}

/// Entries of a valid pack, in an order the format allows.
pub fn gen_entries(rng: &mut Rng, g: &GenOpts) -> Vec<Entry> {
    let mut es: Vec<Entry> = Vec::new();
    let mut seen = std::collections::HashSet::new();
    let mut tries = 0;
    while es.len() < g.n && tries < g.n * 4 + 10 {
        tries += 1;
        let e = if !es.is_empty() && rng.below(100) < g.delta_percent {
            let b = if g.deep && rng.chance(9, 10) { es.len() - 1 } else { rng.below(es.len()) };
            let base = es[b].obj.clone();
            let (obj, delta) = if base.kind == Kind::Blob {
                let mut cmds = random_cmds(rng, &base.body);
                let mut body = run_cmds(&base.body, &cmds);
                if body.len() > g.max_result {
                    cmds = vec![Cmd::Insert(rng.bytes(9))];
                    if !base.body.is_empty() {
                        cmds.push(Cmd::Copy { off: base.body.len() - 1, len: 1 });
                    }
                    body = run_cmds(&base.body, &cmds);
                }
                let d = encode_delta(base.body.len(), body.len(), &cmds, Some(rng));
                (Obj::blob(body), d)
            } else {
                let o = variant(rng, &base);
                let cmds = diff_cmds(&base.body, &o.body);
                let d = encode_delta(base.body.len(), o.body.len(), &cmds, Some(rng));
                (o, d)
            };
            let store = if rng.chance(1, 2) { Store::Ofs(b) } else { Store::Ref(b) };
            Entry { obj, store, delta }
        } else {
            Entry { obj: objgen::any_obj(rng, g.max_body), store: Store::Whole, delta: vec![] }
        };
        if e.obj.body.is_empty() && !matches!(e.store, Store::Whole) {
            continue;
        }
        if seen.insert(e.obj.id()) {
            es.push(e);
        }
    }
    reorder(rng, es)
}

/// Random order in which every offset delta follows its base.
pub fn reorder(rng: &mut Rng, es: Vec<Entry>) -> Vec<Entry> {
    let n = es.len();
    let mut pos = vec![usize::MAX; n];
    let mut order = Vec::new();
    let keep = rng.chance(1, 3);
    while order.len() < n {
        let ready: Vec<usize> = (0..n)
            .filter(|&i| pos[i] == usize::MAX && match es[i].store {
                Store::Ofs(b) => pos[b] != usize::MAX,
                _ => true,
            })
            .collect();
        let i = if keep { ready[0] } else { *rng.pick(&ready) };
        pos[i] = order.len();
        order.push(i);
    }
    order
        .into_iter()
        .map(|i| {
            let mut e = es[i].clone();
            e.store = match e.store {
                Store::Ofs(b) => Store::Ofs(pos[b]),
                Store::Ref(b) => Store::Ref(pos[b]),
                s => s,
            };
            e
        })
        .collect()
}

pub fn depth(es: &[Entry], i: usize) -> usize {
    let mut d = 0;
    let mut i = i;
    loop {
        match es[i].store {
            Store::Ofs(b) | Store::Ref(b) => {
                d += 1;
                i = b;
            }
            _ => return d,
        }
    }
}

pub fn rand_opts(rng: &mut Rng, n: usize) -> PackOpts {
    let idx_version = if rng.chance(1, 3) { 1 } else { 2 };
    let large = if idx_version == 2 && rng.chance(1, 3) {
        let all = rng.chance(1, 3);
        (0..n).map(|_| all || rng.chance(1, 3)).collect()
    } else {
        vec![]
    };
    // at most n-1 large offsets fit (the first entry starts at 12 in any real pack)
    let mut large: Vec<bool> = large;
    if !large.is_empty() {
        large[0] = false;
    }
    PackOpts { pack_version: if rng.chance(1, 8) { 3 } else { 2 }, idx_version, large, gap: vec![], level: None }
}

pub fn small_pack(rng: &mut Rng, n: usize) -> (Vec<Entry>, Pack) {
    let es = gen_entries(rng, &GenOpts { n, delta_percent: 55, deep: false, max_body: 3000, max_result: 20_000 });
    let o = rand_opts(rng, es.len());
    let p = build_pack(&es, &o, rng);
    (es, p)
}

pub fn absent_id(rng: &mut Rng, near: Option<&Oid>) -> Oid {
    match near {
        Some(n) if rng.chance(2, 3) => {
            let mut o = *n;
            match rng.below(4) {
                0 => o[19] ^= 1,
                1 => o[19] = o[19].wrapping_add(1),
                2 => o[1] ^= 0x80,
                _ => {
                    let i = rng.below(20);
                    o[i] ^= 1 << rng.below(8);
                }
            }
            o
        }
        _ => objgen::oid(rng),
    }
}

pub fn blob_data(d: &ObjectData) -> Option<Vec<u8>> {
    match d {
        ObjectData::Blob(b) => Some(b.data().to_vec()),
        _ => None,
    }
}

// ---------------------------------------------------------------- self test of the models against git

pub fn selftest() -> i32 {
    use crate::git;
    assert_eq!(sha1::hex(&sha1::sha1(b"abc")), "a9993e364706816aba3e25717850c26c9cd0d89d");
    let dir = std::env::temp_dir().join(format!("vmon-selftest-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    let repo = Repo::init(&dir);
    let mut bad = 0;
    for case in 0..30 {
        let mut rng = Rng::new(7, "selftest", case);
        let es = gen_entries(&mut rng, &GenOpts { n: 12, delta_percent: 60, deep: case % 3 == 0, max_body: 70_000, max_result: 200_000 });
        let o = rand_opts(&mut rng, es.len());
        let p = build_pack(&es, &o, &mut rng);
        repo.add_pack(&p);
        let ids: Vec<Oid> = p.objs.iter().map(|o| o.id()).collect();
        let got = git::cat(&dir, &ids).unwrap();
        for (i, (g, w)) in got.iter().zip(&p.objs).enumerate() {
            if g.as_ref() != Some(w) {
                println!("case {case} entry {i}: git disagrees");
                bad += 1;
            }
            let v = decode_packed(p.bytes(), p.offsets[i], &|id| idx_offsets(&p.idx, id).first().copied());
            if v != Verdict::Is(w.clone()) {
                println!("case {case} entry {i}: own decoder disagrees: {:?}", matches!(v, Verdict::Bad(_)));
                bad += 1;
            }
        }
        // strict verification by git: rebuild the index and compare
        let pk = repo.packs().join(p.name() + ".pack");
        let mine = p.idx.clone();
        let out = dir.join("check.idx");
        let v = format!("--index-version={}", o.idx_version);
        match git::run(&dir, &["index-pack", &v, "-o", out.to_str().unwrap(), pk.to_str().unwrap()]) {
            Ok(_) => {
                if o.large.iter().all(|l| !l) && std::fs::read(&out).unwrap() != mine {
                    println!("case {case}: git builds another index");
                    bad += 1;
                }
            }
            Err(e) => {
                println!("case {case}: index-pack: {e}");
                bad += 1;
            }
        }
        let _ = std::fs::remove_file(&out);
    }
    let _ = std::fs::remove_dir_all(&dir);
    println!("selftest: {bad} disagreements");
    (bad != 0) as i32
}
