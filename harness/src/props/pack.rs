//! C04: every object of a valid pack reads back exactly.
use super::common::*;
use crate::ctx::Ctx;
use crate::git;
use crate::model::*;
use crate::objgen;
use crate::rng::{hash64, Rng};
use crate::sha1;
use rusty_git::object::ObjectDatabase;

fn read_all(c: &mut Ctx, rng: &mut Rng, db: &ObjectDatabase, objs: &[&Obj], n: usize, label: &str) -> bool {
    let mut order: Vec<usize> = (0..objs.len()).collect();
    match rng.below(4) {
        0 => order.reverse(),
        1 => {}
        _ => rng.shuffle(&mut order),
    }
    order.truncate(n);
    if rng.chance(1, 2) && !order.is_empty() {
        // repeats
        for _ in 0..3 {
            let i = order[rng.below(order.len())];
            order.insert(rng.below(order.len() + 1), i);
        }
    }
    for i in order {
        if !expect_present(c, db, objs[i], label) {
            return false;
        }
    }
    true
}

fn deep_chain(rng: &mut Rng, depth: usize, refs: bool) -> Vec<Entry> {
    let n = if depth > 10_000 { rng.range(20, 60) } else { rng.range(200, 2000) };
    let body = rng.bytes(n);
    let mut es = vec![Entry { obj: Obj::blob(body), store: Store::Whole, delta: vec![] }];
    for i in 0..depth {
        let base = es.last().unwrap().obj.body.clone();
        // keep the length, change something at a moving place
        let at = rng.below(base.len() - 8);
        let mut cmds = vec![];
        if at > 0 {
            cmds.push(Cmd::Copy { off: 0, len: at });
        }
        cmds.push(Cmd::Insert((i as u64).to_le_bytes().to_vec()));
        if at + 8 < base.len() {
            cmds.push(Cmd::Copy { off: at + 8, len: base.len() - at - 8 });
        }
        let body = run_cmds(&base, &cmds);
        let delta = encode_delta(base.len(), body.len(), &cmds, None);
        let store = if refs || rng.chance(1, 4) { Store::Ref(es.len() - 1) } else { Store::Ofs(es.len() - 1) };
        es.push(Entry { obj: Obj::blob(body), store, delta });
    }
    es
}

fn git_family(rng: &mut Rng, n: usize) -> Vec<Obj> {
    let base: Vec<Vec<u8>> = (0..rng.range(20, 200)).map(|_| { let k = rng.range(3, 60); (0..k).map(|_| 32 + rng.byte() % 90).collect() }).collect();
    let mut lines = base;
    let mut v = vec![];
    for i in 0..n {
        let edits = rng.range(1, 4);
        for _ in 0..edits {
            let at = rng.below(lines.len());
            match rng.below(3) {
                0 => lines[at] = { let k = rng.range(0, 80); (0..k).map(|_| 32 + rng.byte() % 90).collect() },
                1 => {
                    let l = lines[at].clone();
                    lines.insert(rng.below(lines.len()), l)
                }
                _ => {
                    if lines.len() > 5 {
                        lines.remove(at);
                    }
                }
            }
        }
        let mut b = lines.join(&b'\n');
        b.extend(format!("\n{i}\n").into_bytes());
        v.push(Obj::blob(b));
    }
    for _ in 0..n / 4 {
        v.push(objgen::commit(rng).obj());
        v.push(Obj::new(Kind::Tree, objgen::tree_body(&objgen::tree(rng))));
        v.push(objgen::tag(rng).obj());
    }
    v
}

fn git_made(c: &mut Ctx, rng: &mut Rng) {
    let dir = c.fresh("g");
    let repo = Repo::init(&dir);
    let n = rng.range(8, 60);
    let objs = git_family(rng, n);
    let mut list = String::new();
    for (i, o) in objs.iter().enumerate() {
        repo.add_loose_raw(&o.id(), &zlib(&o.enc(), 1));
        list += &format!("{} {}\n", o.hex(), if o.kind == Kind::Blob { "file.txt".into() } else { format!("x{i}") });
    }
    let depth = *rng.pick(&[1usize, 5, 50, 200]);
    let window = *rng.pick(&[2usize, 10, 50]);
    let v = *rng.pick(&[1usize, 2]);
    let mut args = vec![
        "pack-objects".to_string(), "-q".into(), format!("--depth={depth}"), format!("--window={window}"),
        format!("--index-version={}", if v == 2 && rng.chance(1, 2) { "2,0x40".to_string() } else { v.to_string() }),
        "--no-reuse-delta".into(),
    ];
    if rng.chance(1, 2) {
        args.push("--delta-base-offset".into());
    }
    args.push(".git/objects/pack/pack".into());
    if let Err(e) = git::run_in(git::cmd(&dir).args(&args), list.as_bytes()) {
        c.trouble(format!("git pack-objects: {e}"));
        return;
    }
    for o in &objs {
        let _ = std::fs::remove_file(repo.loose_path(&o.id()));
    }
    let refs: Vec<&Obj> = objs.iter().collect();
    let db = ObjectDatabase::open(&repo.git());
    if read_all(c, rng, &db, &refs, usize::MAX, &format!("pack made by git (depth {depth}, window {window}, index {v})")) {
        c.count("git_made_objects", objs.len() as u64);
    }
    let k = hash64(&objs.iter().flat_map(|o| o.id()).collect::<Vec<u8>>());
    c.eval(k, true);
}

fn memory_free() -> u64 {
    let t = std::fs::read_to_string("/proc/meminfo").unwrap_or_default();
    t.lines().find_map(|l| l.strip_prefix("MemAvailable:")?.trim().strip_suffix(" kB")?.trim().parse::<u64>().ok()).unwrap_or(0) << 10
}

/// A blob of more bytes than 32 bits count: one byte pattern over and over.
pub struct Huge {
    pub block: Vec<u8>,
    pub times: u64,
    pub tail: Vec<u8>,
}

impl Huge {
    /// None where there is not the memory for it.
    pub fn make(c: &mut Ctx, rng: &mut Rng) -> Option<Huge> {
        if memory_free() < 20 << 30 {
            c.count("huge_skipped", 1);
            return None;
        }
        c.mem = 24 << 30;
        let word = { let n = rng.range(3000, 5000); rng.bytes(n) };
        let block: Vec<u8> = word.into_iter().cycle().take((1 << 20) + rng.below(3)).collect();
        let tail = { let n = rng.below(100); rng.bytes(n) };
        Some(Huge { times: (1 << 32) / block.len() as u64 + 2, block, tail })
    }
    pub fn len(&self) -> u64 {
        self.block.len() as u64 * self.times + self.tail.len() as u64
    }
    pub fn is(&self, d: &[u8]) -> bool {
        let n = self.block.len();
        d.len() as u64 == self.len() && d.chunks(n).enumerate().all(|(i, c)| if (i as u64) < self.times { c == &self.block[..] } else { c == &self.tail[..] })
    }
    /// Reads `id` and compares.
    pub fn read(&self, c: &mut Ctx, db: &ObjectDatabase, id: Oid, how: &str) {
        let what = format!("object of {} bytes, {how}", self.len());
        crate::flight::patience(5);
        let r = c.op(|| what.clone(), || db.parse_object(rusty_git::object::Id::from_bytes(&id)));
        crate::flight::patience(0);
        match r {
            None => {}
            Some(Ok(o)) => match o.data() {
                rusty_git::object::ObjectData::Blob(b) if self.is(b.data()) => c.count("huge_objects", 1),
                rusty_git::object::ObjectData::Blob(b) => c.violate("huge", format!("{what}: a blob of {} bytes, or other content", b.data().len())),
                _ => c.violate("huge", format!("{what}: another kind")),
            },
            Some(Err(e)) => c.violate("huge", format!("{what}: {}", crate::obs::chain(&e))),
        }
    }
}

/// An object whose size needs more than 32 bits, as an entry of its own or the result of a delta.
fn huge(c: &mut Ctx, rng: &mut Rng, delta: bool) {
    let Some(h) = Huge::make(c, rng) else { return };
    let dir = c.fresh("r");
    let repo = Repo::init(&dir);
    let small = Obj::blob(&b"after it"[..]);
    let id: Oid = rng.bytes(20).try_into().unwrap();
    let mut items: Vec<(Oid, Vec<u8>)> = vec![];
    if delta {
        let base = Obj::blob(h.block.iter().copied().cycle().take(h.block.len() * 15).collect::<Vec<u8>>());
        let per = h.block.len() * 15;
        let mut cmds = vec![];
        let mut left = h.block.len() as u64 * h.times;
        while left > 0 {
            let n = left.min(per as u64) as usize;
            cmds.push(Cmd::Copy { off: 0, len: n });
            left -= n as u64;
        }
        if !h.tail.is_empty() {
            cmds.push(Cmd::Insert(h.tail.clone()));
        }
        let d = encode_delta(base.body.len(), h.len() as usize, &cmds, None);
        items.push((base.id(), [entry_header(3, base.body.len() as u64), zlib(&base.body, 1)].concat()));
        items.push((id, [entry_header(7, d.len() as u64), base.id().to_vec(), zlib(&d, 6)].concat()));
    } else {
        items.push((id, [entry_header(3, h.len()), zlib_repeated(b"", &h.block, h.times, &h.tail)].concat()));
    }
    items.push((small.id(), [entry_header(3, small.body.len() as u64), zlib(&small.body, 6)].concat()));
    let (p, i, pid, _) = super::hostile::raw_pack(&items, &PackOpts::default());
    std::fs::create_dir_all(repo.packs()).unwrap();
    let path = repo.packs().join(format!("pack-{}.pack", sha1::hex(&pid)));
    std::fs::write(&path, p).unwrap();
    std::fs::write(path.with_extension("idx"), i).unwrap();
    let db = ObjectDatabase::open(&repo.git());
    h.read(c, &db, id, if delta { "the result of a delta" } else { "stored whole" });
    read_all(c, rng, &db, &[&small], 1, "after an object of more than 4 GB");
    c.eval(hash64(&id), true);
}

pub fn c04(c: &mut Ctx) {
    let mut rng = c.rng.fork();
    if c.case == 3 || c.case % 20_000 == 15_003 {
        let delta = rng.chance(1, 2);
        return huge(c, &mut rng, delta);
    }
    if c.case % 40 == 7 {
        return git_made(c, &mut rng);
    }
    let dir = c.fresh("r");
    let repo = Repo::init(&dir);
    let npacks = *rng.pick(&[1usize, 1, 1, 2, 3]);
    let special = c.case % 100;
    let mut packs: Vec<(Vec<Entry>, PackOpts, Pack)> = vec![];
    for i in 0..npacks {
        let (es, o) = match (special, i) {
            (11, 0) => {
                let d = *rng.pick(&[60usize, 250, 700, 1500, 4096, 9000]);
                let d = if c.case / 100 % 12 == 5 { rng.range(12_000, 36_000) } else { d };
                let refs = rng.chance(1, 2);
                let es = deep_chain(&mut rng, d, refs);
                let o = rand_opts(&mut rng, es.len());
                (reorder(&mut rng, es), o)
            }
            (23, 0) => {
                // offsets beyond 31 and 32 bits, in a sparse file
                let mut es = gen_entries(&mut rng, &GenOpts { n: 9, delta_percent: 50, deep: false, max_body: 2000, max_result: 9000 });
                let v1 = rng.chance(1, 3);
                let mut gap = vec![0u64; es.len()];
                let at = rng.range(1, es.len() - 1);
                gap[at] = if v1 { (1u64 << 31) + rng.below(1 << 30) as u64 } else { *rng.pick(&[(1u64 << 31) - 500, (1 << 32) - 700, (1 << 32) + 12, 5 << 30]) };
                if !v1 && rng.chance(2, 3) {
                    // offsets equal to others in their low bits
                    let mut bit = *rng.pick(&[31u64, 32, 32, 33]);
                    gap[at] = ALIAS | bit << 32 | rng.below(at) as u64;
                    for g in &mut gap[at + 1..] {
                        bit += rng.range(1, 3) as u64;
                        if bit > 40 {
                            break;
                        }
                        *g = ALIAS | bit << 32 | rng.below(at) as u64;
                    }
                }
                // offset deltas across the gap work too
                if rng.chance(1, 2) {
                    for e in &mut es {
                        e.store = match e.store {
                            Store::Ref(b) if rng.chance(1, 2) => Store::Ref(b),
                            ref s => s.clone(),
                        };
                    }
                }
                (es, PackOpts { gap, idx_version: if v1 { 1 } else { 2 }, ..Default::default() })
            }
            (79, 0) => {
                // copies with every combination of offset and size bytes that are not zero
                let n = 0x24_0000 + rng.below(5000);
                let w = rng.bytes(3001);
                let base: Vec<u8> = w.iter().copied().cycle().take(n).collect();
                let mut es = vec![Entry { obj: Obj::blob(base.clone()), store: Store::Whole, delta: vec![] }];
                for _ in 0..2 {
                    let mut cmds = vec![];
                    let mut total = 0;
                    while cmds.len() < 40 {
                        let part = |rng: &mut Rng, b: usize| match rng.below(3) {
                            0 => 0,
                            1 => rng.range(1, 256) << (8 * b),
                            _ => 1 << (8 * b),
                        };
                        let off = part(&mut rng, 0) | part(&mut rng, 1) | part(&mut rng, 2).min(0x20_0000);
                        let len = part(&mut rng, 0) | part(&mut rng, 1) | part(&mut rng, 2).min(0x4_0000);
                        let len = if len == 0 { 0x10000 } else { len };
                        if off + len > n || total + len > 3_000_000 {
                            if total + 400_000 > 3_000_000 {
                                break;
                            }
                            continue;
                        }
                        total += len;
                        cmds.push(Cmd::Copy { off, len });
                    }
                    cmds.push(Cmd::Insert(rng.bytes(9)));
                    let body = run_cmds(&base, &cmds);
                    let delta = encode_delta(base.len(), body.len(), &cmds, None);
                    es.push(Entry { obj: Obj::blob(body), store: if rng.chance(1, 2) { Store::Ofs(0) } else { Store::Ref(0) }, delta });
                }
                (es, PackOpts { level: Some(1), ..Default::default() })
            }
            (31, 0) if c.case % 400 == 31 => {
                // copies beyond 16 MB of the base
                let base = { let w = rng.bytes(4099); w.iter().copied().cycle().take((17 << 20) + rng.below(9999)).collect::<Vec<u8>>() };
                let cmds = vec![
                    Cmd::Copy { off: base.len() - 5000, len: 5000 },
                    Cmd::Copy { off: 0x100_0000 + rng.below(1000), len: 0x10000 },
                    Cmd::Copy { off: rng.below(1000), len: 0xff_ffff },
                    Cmd::Insert(rng.bytes(5)),
                    Cmd::Copy { off: 0x10000, len: 0x1_0100 },
                ];
                let body = run_cmds(&base, &cmds);
                let delta = encode_delta(base.len(), body.len(), &cmds, None);
                let es = vec![
                    Entry { obj: Obj::blob(base), store: Store::Whole, delta: vec![] },
                    Entry { obj: Obj::blob(body), store: Store::Ofs(0), delta },
                ];
                (es, PackOpts { level: Some(1), ..Default::default() })
            }
            (31, 0) if c.case % 1600 == 131 => {
                // copies beyond 128 and 256 MB of the base
                c.mem = c.mem.max(3 << 30);
                let n = if rng.chance(1, 2) { (128 << 20) + 70_000 } else { (256 << 20) + 70_000 };
                let base = { let w = rng.bytes(4099); w.iter().copied().cycle().take(n).collect::<Vec<u8>>() };
                let cmds = vec![
                    Cmd::Copy { off: n - 5000, len: 5000 },
                    Cmd::Copy { off: (128 << 20) + rng.below(1000), len: 0x2f00 },
                    Cmd::Insert(rng.bytes(5)),
                    Cmd::Copy { off: n - 68_000 - rng.below(100), len: 0x1_0100 },
                    Cmd::Copy { off: rng.below(1000), len: 0x10000 },
                ];
                let body = run_cmds(&base, &cmds);
                let delta = encode_delta(base.len(), body.len(), &cmds, None);
                let es = vec![
                    Entry { obj: Obj::blob(base), store: Store::Whole, delta: vec![] },
                    Entry { obj: Obj::blob(body), store: Store::Ofs(0), delta },
                ];
                (es, PackOpts { level: Some(1), ..Default::default() })
            }
            (47, 0) => {
                // many small objects: crowded fan-out, long index
                // at times more than 16 bits count
                let n = if c.case % 1300 == 947 { 65_530 + rng.below(5000) } else { rng.range(300, 1500) };
                let es: Vec<Entry> = (0..n).map(|i| Entry { obj: Obj::blob(format!("{} {i}", c.case).into_bytes()), store: Store::Whole, delta: vec![] }).collect();
                let o = rand_opts(&mut rng, es.len());
                (es, PackOpts { level: Some(1), ..o })
            }
            (63, 0) => {
                // ids sharing a first byte 00 or ff
                let b = *rng.pick(&[0u8, 0xff]);
                let es: Vec<Entry> = (0..6).map(|i| Entry { obj: blob_with_first_byte(&mut rng, b, vec![i]), store: Store::Whole, delta: vec![] }).collect();
                let o = rand_opts(&mut rng, es.len());
                (es, o)
            }
            _ => {
                let g = GenOpts {
                    n: *rng.pick(&[1usize, 2, 6, 12, 25]),
                    delta_percent: *rng.pick(&[30usize, 60, 85]),
                    deep: rng.chance(1, 2),
                    max_body: *rng.pick(&[200usize, 5000, 70_000, 200_000]),
                    max_result: 300_000,
                };
                let es = gen_entries(&mut rng, &g);
                let o = rand_opts(&mut rng, es.len());
                (es, o)
            }
        };
        let p = build_pack(&es, &o, &mut rng);
        repo.add_pack(&p);
        packs.push((es, o, p));
    }
    let mut key = 0u64;
    let mut deltas = 0;
    let mut chains = 0;
    for (es, o, p) in &packs {
        key ^= hash64(&p.id);
        for i in 0..es.len() {
            let base = |i: usize| match es[i].store {
                Store::Ofs(b) | Store::Ref(b) => Some(b),
                _ => None,
            };
            deltas += base(i).is_some() as u64;
            chains += base(i).and_then(base).is_some() as u64;
        }
        if o.idx_version == 1 {
            c.count("idx_v1_packs", 1);
        }
        if o.large.iter().any(|l| *l) || p.offsets.iter().any(|o| *o >= 1 << 31) {
            c.count("large_offset_packs", 1);
        }
        if o.pack_version == 3 {
            c.count("version3_packs", 1);
        }
    }
    c.eval(key, deltas > 0);
    let mut seen = std::collections::HashSet::new();
    let objs: Vec<&Obj> = packs.iter().flat_map(|(_, _, p)| p.objs.iter()).filter(|o| seen.insert(o.id())).collect();
    let shared = ObjectDatabase::open(&repo.git());
    let limit = match objs.len() { 0..=200 => usize::MAX, 201..=3000 => 120, 3001..=15_000 => 30, _ => 3 };
    // one object alone on a fresh handle: nothing was read before it
    let solo = match objs.len() { 0..=200 => 3, 201..=15_000 => 2, _ => 1 };
    for _ in 0..solo {
        let db = ObjectDatabase::open(&repo.git());
        let o = objs[rng.below(objs.len())];
        if !expect_present(c, &db, o, "packed, first read of a handle") {
            return;
        }
    }
    let last: Vec<&Obj> = packs.iter().map(|(es, _, _)| {
        let i = (0..es.len()).max_by_key(|&i| if es.len() > 300 { i } else { depth(es, i) }).unwrap();
        &es[i].obj
    }).collect();
    let db = ObjectDatabase::open(&repo.git());
    for o in last {
        if !expect_present(c, &db, o, "packed, deepest first") {
            return;
        }
    }
    for round in 0..2 {
        if !read_all(c, &mut rng, &shared, &objs, limit, ["packed, shared handle", "packed, shared handle, again"][round]) {
            return;
        }
    }
    c.count("delta_reads", deltas);
    c.count("chain_reads", chains);
    let git_ok = special != 23 && special != 31;
    if git_ok && c.case % 24 == 0 {
        for (_, o, p) in &packs {
            let pk = repo.packs().join(p.name() + ".pack");
            let out = dir.join("check.idx");
            match git::run(&dir, &["index-pack", &format!("--index-version={}", o.idx_version), "-o", out.to_str().unwrap(), pk.to_str().unwrap()]) {
                Ok(_) => c.count("git_verified_packs", 1),
                Err(e) => c.trouble(format!("git refuses a generated pack: {e}")),
            }
            let _ = std::fs::remove_file(out);
        }
        let ids: Vec<Oid> = objs.iter().map(|o| o.id()).collect();
        match git::cat(&dir, &ids) {
            Ok(got) => {
                if let Some(i) = (0..got.len()).find(|&i| got[i].as_ref() != Some(objs[i])) {
                    c.trouble(format!("git reads generated object {} differently", objs[i].hex()));
                }
            }
            Err(e) => c.trouble(e),
        }
    }
    let n = objs.len();
    c.sample(|| format!("{npacks} packs, {n} objects, {deltas} deltas, {chains} in chains, first pack {} index v{}", sha1::hex(&packs[0].2.id), packs[0].1.idx_version));
}
