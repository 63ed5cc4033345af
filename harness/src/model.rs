//! Independent reference models: objects, loose files, packs, indexes, deltas (encoders and a
//! strict decoder). Nothing here uses the library under test.
use crate::rng::Rng;
use crate::sha1;
use flate2::write::ZlibEncoder;
use flate2::{Compression, Decompress, FlushDecompress, Status};
use std::io::Write;
use std::path::{Path, PathBuf};

pub type Oid = [u8; 20];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Commit = 1,
    Tree = 2,
    Blob = 3,
    Tag = 4,
}

impl Kind {
    pub const ALL: [Kind; 4] = [Kind::Commit, Kind::Tree, Kind::Blob, Kind::Tag];
    pub fn name(self) -> &'static str {
        match self {
            Kind::Commit => "commit",
            Kind::Tree => "tree",
            Kind::Blob => "blob",
            Kind::Tag => "tag",
        }
    }
    pub fn from_name(n: &[u8]) -> Option<Kind> {
        Kind::ALL.iter().copied().find(|k| k.name().as_bytes() == n)
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Obj {
    pub kind: Kind,
    pub body: Vec<u8>,
}

impl Obj {
    pub fn new(kind: Kind, body: impl Into<Vec<u8>>) -> Obj {
        Obj { kind, body: body.into() }
    }
    pub fn blob(body: impl Into<Vec<u8>>) -> Obj {
        Obj::new(Kind::Blob, body)
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut v = format!("{} {}\0", self.kind.name(), self.body.len()).into_bytes();
        v.extend_from_slice(&self.body);
        v
    }
    pub fn id(&self) -> Oid {
        sha1::sha1(&self.enc())
    }
    pub fn hex(&self) -> String {
        sha1::hex(&self.id())
    }
}

pub fn zlib(data: &[u8], level: u32) -> Vec<u8> {
    let mut e = ZlibEncoder::new(Vec::new(), Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

/// The zlib stream of `head`, then `times` copies of `block`, then `tail`: without making the data.
pub fn zlib_repeated(head: &[u8], block: &[u8], times: u64, tail: &[u8]) -> Vec<u8> {
    use flate2::{Compress, FlushCompress};
    let mut z = Compress::new(Compression::new(1), false);
    // every part ends on a byte boundary and refers to nothing before it
    let mut part = |d: &[u8], flush| {
        let mut v = Vec::with_capacity(d.len() + d.len() / 100 + 4096);
        let before = z.total_in();
        z.compress_vec(d, &mut v, flush).unwrap();
        assert!((z.total_in() - before) as usize == d.len() && v.len() < v.capacity());
        v
    };
    let mut out = vec![0x78, 0x01];
    out.extend(part(head, FlushCompress::Full));
    let b = part(block, FlushCompress::Full);
    for _ in 0..times {
        out.extend_from_slice(&b);
    }
    out.extend(part(tail, FlushCompress::Finish));
    let mut sum = 1u32;
    let one = (adler32(1, block), block.len() as u64);
    sum = adler32(sum, head);
    for _ in 0..times {
        sum = adler32_join(sum, one.0, one.1);
    }
    sum = adler32(sum, tail);
    out.extend_from_slice(&sum.to_be_bytes());
    out
}

pub fn adler32(from: u32, d: &[u8]) -> u32 {
    let (mut a, mut b) = (from & 0xffff, from >> 16);
    for c in d.chunks(5000) {
        for &x in c {
            a += x as u32;
            b += a;
        }
        a %= 65521;
        b %= 65521;
    }
    b << 16 | a
}

/// The checksum of two strings one after the other; `n` is the length of the second.
fn adler32_join(x: u32, y: u32, n: u64) -> u32 {
    let m = 65521u64;
    let (a1, b1) = ((x & 0xffff) as u64, (x >> 16) as u64);
    let (a2, b2) = ((y & 0xffff) as u64, (y >> 16) as u64);
    let a = (a1 + a2 + m - 1) % m;
    let b = (b1 + b2 + n % m * (a1 + m - 1)) % m;
    (b << 16 | a) as u32
}

/// A zlib stream cut into several deflate blocks (as a streaming writer makes them).
pub fn zlib_blocks(data: &[u8], level: u32, rng: &mut Rng) -> Vec<u8> {
    let mut e = ZlibEncoder::new(Vec::new(), Compression::new(level));
    let mut at = 0;
    while at < data.len() {
        let n = (1 + rng.below(data.len().min(3000))).min(data.len() - at);
        e.write_all(&data[at..at + n]).unwrap();
        if rng.chance(1, 2) {
            e.flush().unwrap();
        }
        at += n;
    }
    e.finish().unwrap()
}

pub fn zlib_any(data: &[u8], rng: &mut Rng) -> Vec<u8> {
    let level = *rng.pick(&[0u32, 1, 1, 6, 6, 6, 9]);
    if rng.chance(1, 5) {
        zlib_blocks(data, level, rng)
    } else {
        zlib(data, level)
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Inflate {
    /// complete stream with a correct checksum; (output, bytes of input used)
    Complete(Vec<u8>, usize),
    /// all the input is used and the stream is not finished
    Truncated(Vec<u8>),
    Corrupt(Vec<u8>),
    /// more output than asked for
    TooLong,
}

pub fn inflate(data: &[u8], max: usize) -> Inflate {
    let mut d = Decompress::new(true);
    let mut out = Vec::new();
    let mut buf = vec![0u8; 16384];
    loop {
        let (i, o) = (d.total_in() as usize, d.total_out() as usize);
        let r = d.decompress(&data[i..], &mut buf, FlushDecompress::None);
        let made = d.total_out() as usize - o;
        out.extend_from_slice(&buf[..made]);
        if out.len() > max {
            return Inflate::TooLong;
        }
        match r {
            Err(_) => return Inflate::Corrupt(out),
            Ok(Status::StreamEnd) => return Inflate::Complete(out, d.total_in() as usize),
            Ok(_) => {
                if made == 0 && d.total_in() as usize == i {
                    return Inflate::Truncated(out);
                }
            }
        }
    }
}

// ---------------------------------------------------------------- verdicts of the reference decoder

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    /// decodes to exactly this
    Is(Obj),
    /// decodes to this, but a stricter reader may refuse it (an oddity that loses no data)
    May(Obj),
    /// does not decode to an object of its declared size and kind
    Bad(&'static str),
}

impl Verdict {
    pub fn obj(&self) -> Option<&Obj> {
        match self {
            Verdict::Is(o) | Verdict::May(o) => Some(o),
            _ => None,
        }
    }
}

/// `<kind> <decimal length>\0<body>`
pub fn decode_enc(enc: &[u8]) -> Verdict {
    let Some(nul) = enc.iter().position(|&b| b == 0) else { return Verdict::Bad("no header end") };
    let head = &enc[..nul];
    let Some(sp) = head.iter().position(|&b| b == b' ') else { return Verdict::Bad("no kind") };
    let Some(kind) = Kind::from_name(&head[..sp]) else { return Verdict::Bad("unknown kind") };
    let mut digits = &head[sp + 1..];
    let mut odd = false;
    if digits.first() == Some(&b'+') {
        odd = true;
        digits = &digits[1..];
    }
    if digits.is_empty() || !digits.iter().all(|b| b.is_ascii_digit()) {
        return Verdict::Bad("bad length");
    }
    if digits.len() > 1 && digits[0] == b'0' {
        odd = true;
    }
    let Ok(len) = std::str::from_utf8(digits).unwrap().parse::<u64>() else { return Verdict::Bad("length too big") };
    let body = &enc[nul + 1..];
    if len != body.len() as u64 {
        return Verdict::Bad("length mismatch");
    }
    let o = Obj::new(kind, body);
    if odd {
        Verdict::May(o)
    } else {
        Verdict::Is(o)
    }
}

pub const MAXOUT: usize = 64 << 20;

pub fn decode_loose(file: &[u8]) -> Verdict {
    match inflate(file, MAXOUT) {
        Inflate::Complete(out, used) => {
            let v = decode_enc(&out);
            match v {
                Verdict::Is(o) if used < file.len() => Verdict::May(o),
                v => v,
            }
        }
        Inflate::Truncated(_) => Verdict::Bad("truncated stream"),
        Inflate::Corrupt(_) => Verdict::Bad("corrupt stream"),
        Inflate::TooLong => Verdict::Bad("too long"),
    }
}

// ---------------------------------------------------------------- deltas

pub fn varint(mut n: u64) -> Vec<u8> {
    let mut v = Vec::new();
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            v.push(b);
            return v;
        }
        v.push(b | 0x80);
    }
}

#[derive(Clone, Debug)]
pub enum Cmd {
    Copy { off: usize, len: usize },
    Insert(Vec<u8>),
}

/// `loose_enc`: also emit zero offset/size bytes that could be left out (valid, git accepts them)
pub fn encode_cmd(c: &Cmd, pad: u8, out: &mut Vec<u8>) {
    match c {
        Cmd::Insert(b) => {
            assert!(!b.is_empty() && b.len() < 128);
            out.push(b.len() as u8);
            out.extend_from_slice(b);
        }
        Cmd::Copy { off, len } => {
            assert!(*len > 0 && *len <= 0xff_ffff && *off <= 0xffff_ffff);
            let len = if *len == 0x10000 && pad & 0x80 == 0 { 0 } else { *len };
            let at = out.len();
            out.push(0x80);
            for i in 0..4 {
                let b = (off >> (8 * i)) as u8;
                if b != 0 || pad & (1 << i) != 0 {
                    out[at] |= 1 << i;
                    out.push(b);
                }
            }
            for i in 0..3 {
                let b = (len >> (8 * i)) as u8;
                if b != 0 || pad & (0x10 << i) != 0 {
                    out[at] |= 0x10 << i;
                    out.push(b);
                }
            }
        }
    }
}

pub fn encode_delta(base_len: usize, result_len: usize, cmds: &[Cmd], rng: Option<&mut Rng>) -> Vec<u8> {
    let mut v = varint(base_len as u64);
    v.extend(varint(result_len as u64));
    let mut r = rng;
    for c in cmds {
        let pad = r.as_mut().map_or(0, |r| if r.chance(1, 6) { r.byte() } else { 0 });
        encode_cmd(c, pad, &mut v);
    }
    v
}

pub fn run_cmds(base: &[u8], cmds: &[Cmd]) -> Vec<u8> {
    let mut out = Vec::new();
    for c in cmds {
        match c {
            Cmd::Copy { off, len } => out.extend_from_slice(&base[*off..*off + *len]),
            Cmd::Insert(b) => out.extend_from_slice(b),
        }
    }
    out
}

/// Random edit script over `base`.
pub fn random_cmds(rng: &mut Rng, base: &[u8]) -> Vec<Cmd> {
    let mut cmds = Vec::new();
    let n = 1 + rng.below(8);
    for _ in 0..n {
        if !base.is_empty() && rng.chance(3, 5) {
            let mut len = match rng.below(10) {
                0 => 1,
                1 | 2 => 1 + rng.below(16),
                3 if base.len() >= 0x10000 => 0x10000,
                // sizes whose low bytes are all zero
                6 if base.len() >= 0x20000 => 0x10000 * (1 + rng.below(base.len() / 0x10000)),
                4 if base.len() >= 256 => 256 * (1 + rng.below(base.len() / 256)),
                5 => base.len(),
                _ => 1 + rng.below(base.len()),
            }
            .min(base.len())
            .min(0xff_ffff);
            let mut off = match rng.below(5) {
                0 => 0,
                1 => base.len() - len,
                2 if base.len() > 300 => 256.min(base.len() - len),
                3 if base.len() > 70000 => 65536.min(base.len() - len),
                _ => rng.below(base.len() - len + 1),
            };
            // keep results from exploding along chains
            if len > 200_000 && rng.chance(1, 2) {
                len = 200_000;
                off = off.min(base.len() - len);
            }
            cmds.push(Cmd::Copy { off, len });
        } else {
            let n = match rng.below(5) {
                0 => 1,
                1 => 127,
                2 => 64 + rng.below(63),
                _ => 1 + rng.below(30),
            };
            cmds.push(Cmd::Insert(rng.bytes(n)));
        }
    }
    cmds
}

/// Common prefix + inserted middle + common suffix, as a differ would find.
pub fn diff_cmds(base: &[u8], target: &[u8]) -> Vec<Cmd> {
    let p = base.iter().zip(target).take_while(|(a, b)| a == b).count();
    let max_s = base.len().min(target.len()) - p;
    let s = base.iter().rev().zip(target.iter().rev()).take(max_s).take_while(|(a, b)| a == b).count();
    let mut cmds = Vec::new();
    let copy = |cmds: &mut Vec<Cmd>, mut off: usize, mut len: usize| {
        while len > 0 {
            let n = len.min(0x10000);
            cmds.push(Cmd::Copy { off, len: n });
            off += n;
            len -= n;
        }
    };
    copy(&mut cmds, 0, p);
    for c in target[p..target.len() - s].chunks(127) {
        cmds.push(Cmd::Insert(c.to_vec()));
    }
    copy(&mut cmds, base.len() - s, s);
    cmds
}

/// What a delta stream does to `base`, strictly.
pub fn apply_delta(base: &[u8], d: &[u8]) -> Result<Vec<u8>, &'static str> {
    let mut at = 0;
    let mut num = |at: &mut usize| -> Result<u64, &'static str> {
        let (mut n, mut shift) = (0u64, 0u32);
        loop {
            let b = *d.get(*at).ok_or("delta header cut")?;
            *at += 1;
            let low = (b & 0x7f) as u64;
            if shift >= 64 || (low << shift) >> shift != low {
                return Err("delta size too big");
            }
            n |= low << shift;
            shift += 7;
            if b & 0x80 == 0 {
                return Ok(n);
            }
        }
    };
    let base_len = num(&mut at)?;
    let res_len = num(&mut at)?;
    if base_len != base.len() as u64 {
        return Err("base size mismatch");
    }
    let mut out = Vec::new();
    while at < d.len() {
        let c = d[at];
        at += 1;
        if c & 0x80 != 0 {
            let (mut off, mut len) = (0usize, 0usize);
            for i in 0..4 {
                if c & (1 << i) != 0 {
                    off |= (*d.get(at).ok_or("copy cut")? as usize) << (8 * i);
                    at += 1;
                }
            }
            for i in 0..3 {
                if c & (0x10 << i) != 0 {
                    len |= (*d.get(at).ok_or("copy cut")? as usize) << (8 * i);
                    at += 1;
                }
            }
            if len == 0 {
                len = 0x10000;
            }
            let src = base.get(off..).and_then(|b| b.get(..len)).ok_or("copy out of range")?;
            out.extend_from_slice(src);
        } else if c != 0 {
            let src = d.get(at..at + c as usize).ok_or("insert cut")?;
            out.extend_from_slice(src);
            at += c as usize;
        } else {
            return Err("reserved command");
        }
        if out.len() as u64 > res_len {
            return Err("result too long");
        }
    }
    if out.len() as u64 != res_len {
        return Err("result size mismatch");
    }
    Ok(out)
}

// ---------------------------------------------------------------- packs

#[derive(Clone, Debug)]
pub enum Store {
    Whole,
    Ofs(usize),
    Ref(usize),
    /// reference delta against an arbitrary id
    RefId(Oid),
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub obj: Obj,
    pub store: Store,
    /// delta stream, for deltas
    pub delta: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct PackOpts {
    pub pack_version: u32,
    pub idx_version: u32,
    /// entries listed with 64-bit offsets though they would fit in 31 bits (index v2)
    pub large: Vec<bool>,
    /// empty space before an entry (sparse files, offsets beyond 4 GB)
    pub gap: Vec<u64>,
    pub level: Option<u32>,
}

impl Default for PackOpts {
    fn default() -> Self {
        PackOpts { pack_version: 2, idx_version: 2, large: vec![], gap: vec![], level: None }
    }
}

#[derive(Clone, Debug)]
pub struct Pack {
    /// (offset, bytes) runs; one run unless there are gaps
    pub runs: Vec<(u64, Vec<u8>)>,
    pub idx: Vec<u8>,
    pub offsets: Vec<u64>,
    /// length of the header (type, size, base) of each entry
    pub head_len: Vec<usize>,
    pub ends: Vec<u64>,
    pub id: Oid,
    pub objs: Vec<Obj>,
}

impl Pack {
    pub fn bytes(&self) -> &[u8] {
        assert_eq!(self.runs.len(), 1);
        &self.runs[0].1
    }
    pub fn name(&self) -> String {
        format!("pack-{}", sha1::hex(&self.id))
    }
}

pub fn entry_header(ty: u8, mut len: u64) -> Vec<u8> {
    let mut v = Vec::new();
    let mut b = (ty << 4) | (len & 15) as u8;
    len >>= 4;
    while len > 0 {
        v.push(b | 0x80);
        b = (len & 0x7f) as u8;
        len >>= 7;
    }
    v.push(b);
    v
}

pub fn ofs_encode(mut n: u64) -> Vec<u8> {
    let mut v = vec![(n & 0x7f) as u8];
    n >>= 7;
    while n > 0 {
        n -= 1;
        v.insert(0, (n & 0x7f) as u8 | 0x80);
        n >>= 7;
    }
    v
}

pub fn entry_bytes(e: &Entry, at: u64, offsets: &[u64], ids: &[Oid], z: &mut dyn FnMut(&[u8]) -> Vec<u8>) -> (Vec<u8>, usize) {
    let (ty, raw): (u8, &[u8]) = match e.store {
        Store::Whole => (e.obj.kind as u8, &e.obj.body),
        Store::Ofs(_) => (6, &e.delta),
        Store::Ref(_) | Store::RefId(_) => (7, &e.delta),
    };
    let mut v = entry_header(ty, raw.len() as u64);
    match &e.store {
        Store::Whole => {}
        Store::Ofs(b) => v.extend(ofs_encode(at - offsets[*b])),
        Store::Ref(b) => v.extend_from_slice(&ids[*b]),
        Store::RefId(id) => v.extend_from_slice(id),
    }
    let h = v.len();
    v.extend(z(raw));
    (v, h)
}

/// In `PackOpts::gap`: `ALIAS | bit << 32 | j` places the entry 2^bit bytes after entry j.
pub const ALIAS: u64 = 1 << 63;

pub fn build_pack(entries: &[Entry], o: &PackOpts, rng: &mut Rng) -> Pack {
    let ids: Vec<Oid> = entries.iter().map(|e| e.obj.id()).collect();
    let mut runs: Vec<(u64, Vec<u8>)> = vec![(0, Vec::new())];
    let mut at = 12u64;
    let w = &mut runs[0].1;
    w.extend_from_slice(b"PACK");
    w.extend_from_slice(&o.pack_version.to_be_bytes());
    w.extend_from_slice(&(entries.len() as u32).to_be_bytes());
    let (mut offsets, mut head_len, mut crcs, mut ends) = (vec![], vec![], vec![], vec![]);
    for (i, e) in entries.iter().enumerate() {
        if let Some(&g) = o.gap.get(i) {
            if g & ALIAS != 0 {
                // an offset which differs from an earlier entry's only in one high bit
                let (bit, j) = ((g >> 32) & 63, (g & 0xffff_ffff) as usize);
                let to = (1u64 << bit) + offsets[j.min(i - 1)];
                assert!(to >= at);
                at = to;
                runs.push((at, Vec::new()));
            } else if g > 0 {
                at += g;
                runs.push((at, Vec::new()));
            }
        }
        let level = o.level;
        let mut z = |d: &[u8]| match level {
            Some(l) => zlib(d, l),
            None => zlib_any(d, rng),
        };
        let (b, h) = entry_bytes(e, at, &offsets, &ids, &mut z);
        let mut c = flate2::Crc::new();
        c.update(&b);
        crcs.push(c.sum());
        offsets.push(at);
        head_len.push(h);
        at += b.len() as u64;
        ends.push(at);
        runs.last_mut().unwrap().1.extend(b);
    }
    let all: Vec<u8> = runs.iter().flat_map(|r| r.1.iter().copied()).collect();
    let id = sha1::sha1(&all);
    runs.last_mut().unwrap().1.extend_from_slice(&id);
    let idx = build_idx(&ids, &offsets, &crcs, &id, o);
    Pack { runs, idx, offsets, head_len, ends, id, objs: entries.iter().map(|e| e.obj.clone()).collect() }
}

pub fn build_idx(ids: &[Oid], offsets: &[u64], crcs: &[u32], pack_id: &Oid, o: &PackOpts) -> Vec<u8> {
    let mut order: Vec<usize> = (0..ids.len()).collect();
    order.sort_by_key(|&i| ids[i]);
    let mut v = Vec::new();
    if o.idx_version == 2 {
        v.extend_from_slice(b"\xfftOc");
        v.extend_from_slice(&2u32.to_be_bytes());
    }
    for b in 0..256usize {
        let n = order.iter().filter(|&&i| ids[i][0] as usize <= b).count();
        v.extend_from_slice(&(n as u32).to_be_bytes());
    }
    if o.idx_version == 1 {
        for &i in &order {
            v.extend_from_slice(&(offsets[i] as u32).to_be_bytes());
            v.extend_from_slice(&ids[i]);
        }
    } else {
        for &i in &order {
            v.extend_from_slice(&ids[i]);
        }
        for &i in &order {
            v.extend_from_slice(&crcs[i].to_be_bytes());
        }
        let mut big = Vec::new();
        for &i in &order {
            let large = offsets[i] >= 0x8000_0000 || o.large.get(i).copied().unwrap_or(false);
            if large {
                v.extend_from_slice(&(0x8000_0000u32 | big.len() as u32).to_be_bytes());
                big.push(offsets[i]);
            } else {
                v.extend_from_slice(&(offsets[i] as u32).to_be_bytes());
            }
        }
        for b in big {
            v.extend_from_slice(&b.to_be_bytes());
        }
    }
    v.extend_from_slice(pack_id);
    let h = sha1::sha1(&v);
    v.extend_from_slice(&h);
    v
}

pub fn write_pack(dir: &Path, p: &Pack) -> PathBuf {
    write_pack_as(dir, p, p.name().as_bytes())
}

/// Under another name than git gives packs; git reads any.
pub fn write_pack_as(dir: &Path, p: &Pack, stem: &[u8]) -> PathBuf {
    use std::os::unix::ffi::OsStrExt;
    let named = |e: &[u8]| dir.join(std::ffi::OsStr::from_bytes(&[stem, e].concat()));
    use std::os::unix::fs::FileExt;
    std::fs::create_dir_all(dir).unwrap();
    // as git does: both are moved into place complete, the index last
    let tp = dir.join(format!("tmp_pack_{}", &p.name()[5..]));
    let f = std::fs::File::create(&tp).unwrap();
    for (at, b) in &p.runs {
        f.write_all_at(b, *at).unwrap();
    }
    std::fs::rename(&tp, named(b".pack")).unwrap();
    let ti = dir.join(format!("tmp_idx_{}", &p.name()[5..]));
    let idx = named(b".idx");
    std::fs::write(&ti, &p.idx).unwrap();
    std::fs::rename(&ti, &idx).unwrap();
    idx
}

/// Makes a directory look as it did before something was added: clocks are coarse, and copies
/// of repositories keep the times of the original.
pub fn freeze_time(dir: &Path) {
    if let Ok(f) = std::fs::File::open(dir) {
        let _ = f.set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_600_000_000));
    }
}

// ---------------------------------------------------------------- strict pack reader

/// Every offset a (possibly damaged) index lists for an id, by a linear scan of its tables.
pub fn idx_offsets(idx: &[u8], id: &Oid) -> Vec<u64> {
    let be32 = |at: usize| -> Option<u32> { idx.get(at..at + 4).map(|b| u32::from_be_bytes(b.try_into().unwrap())) };
    let v2 = idx.starts_with(b"\xfftOc");
    let base = if v2 { 8 } else { 0 };
    let mut found = vec![];
    let Some(n) = be32(base + 255 * 4) else { return found };
    let n = n as usize;
    let tab = base + 1024;
    let need = if v2 { tab.saturating_add(n.saturating_mul(28)) } else { tab.saturating_add(n.saturating_mul(24)) };
    if idx.len() < need.saturating_add(40) {
        return found;
    }
    for i in 0..n {
        if v2 {
            if &idx[tab + i * 20..][..20] == id {
                let o = be32(tab + n * 24 + i * 4).unwrap();
                if o & 0x8000_0000 == 0 {
                    found.push(o as u64);
                    continue;
                }
                let at = tab + n * 28 + (o & 0x7fff_ffff) as usize * 8;
                if at + 8 + 40 <= idx.len() {
                    found.push(u64::from_be_bytes(idx[at..at + 8].try_into().unwrap()));
                }
            }
        } else if &idx[tab + i * 24 + 4..][..20] == id {
            found.push(be32(tab + i * 24).unwrap() as u64);
        }
    }
    found
}

/// Decodes the object stored at `off`, strictly.
pub fn decode_packed(pack: &[u8], off: u64, lookup: &dyn Fn(&Oid) -> Option<u64>) -> Verdict {
    let mut deltas: Vec<Vec<u8>> = Vec::new();
    let mut off = off;
    let mut may = false;
    let mut hops = 0;
    let mut obj = loop {
        hops += 1;
        if hops > 10_000 {
            return Verdict::Bad("delta cycle");
        }
        let mut at = off as usize;
        if off > pack.len() as u64 {
            return Verdict::Bad("offset beyond the pack");
        }
        let mut byte = |at: &mut usize| -> Option<u8> {
            let b = pack.get(*at).copied();
            *at += 1;
            b
        };
        let Some(b) = byte(&mut at) else { return Verdict::Bad("entry cut") };
        let ty = (b >> 4) & 7;
        let mut len = (b & 15) as u64;
        let mut shift = 4u32;
        let mut more = b & 0x80 != 0;
        while more {
            let Some(b) = byte(&mut at) else { return Verdict::Bad("entry cut") };
            let low = (b & 0x7f) as u64;
            if shift >= 64 || (low << shift) >> shift != low {
                return Verdict::Bad("size too big");
            }
            len |= low << shift;
            shift += 7;
            more = b & 0x80 != 0;
        }
        if shift > 4 + 7 * 9 {
            return Verdict::Bad("size too big");
        }
        let next = match ty {
            1..=4 => None,
            6 => {
                let Some(mut b) = byte(&mut at) else { return Verdict::Bad("entry cut") };
                let mut n = (b & 0x7f) as u64;
                while b & 0x80 != 0 {
                    let Some(c) = byte(&mut at) else { return Verdict::Bad("entry cut") };
                    b = c;
                    if n + 1 > (u64::MAX >> 7) {
                        return Verdict::Bad("base offset too big");
                    }
                    n = ((n + 1) << 7) | (b & 0x7f) as u64;
                }
                if n == 0 || n > off {
                    return Verdict::Bad("base offset out of range");
                }
                Some(off - n)
            }
            7 => {
                let Some(id) = pack.get(at..at + 20) else { return Verdict::Bad("entry cut") };
                at += 20;
                let id: Oid = id.try_into().unwrap();
                match lookup(&id) {
                    Some(o) => Some(o),
                    None => return Verdict::Bad("base not in the pack"),
                }
            }
            _ => return Verdict::Bad("reserved type"),
        };
        let Some(rest) = pack.get(at..) else { return Verdict::Bad("entry cut") };
        let max = (len as u128).min(MAXOUT as u128) as usize;
        let raw = match inflate(rest, max) {
            Inflate::Complete(out, used) => {
                // data that runs into the trailer is not an entry of the pack
                if at + used > pack.len().saturating_sub(20) {
                    may = true;
                }
                out
            }
            Inflate::Truncated(_) => return Verdict::Bad("truncated stream"),
            Inflate::Corrupt(_) => return Verdict::Bad("corrupt stream"),
            Inflate::TooLong => return Verdict::Bad("longer than declared"),
        };
        if raw.len() as u64 != len {
            return Verdict::Bad("shorter than declared");
        }
        match next {
            None => {
                let kind = Kind::ALL[ty as usize - 1];
                break Obj::new(kind, raw);
            }
            Some(o) => {
                deltas.push(raw);
                off = o;
            }
        }
    };
    for d in deltas.iter().rev() {
        match apply_delta(&obj.body, d) {
            Ok(b) => obj.body = b,
            Err(e) => return Verdict::Bad(e),
        }
    }
    if may {
        Verdict::May(obj)
    } else {
        Verdict::Is(obj)
    }
}

/// Is this pair something a reader must be able to open? (header, counts and ids agree)
pub fn pair_ok(idx: &[u8], pack: &[u8]) -> bool {
    let v2 = idx.starts_with(b"\xfftOc");
    let base = if v2 { 8 } else { 0 };
    if idx.len() < base + 1024 + 40 || pack.len() < 32 {
        return false;
    }
    let fan: Vec<u32> = (0..256).map(|i| u32::from_be_bytes(idx[base + i * 4..][..4].try_into().unwrap())).collect();
    if fan.windows(2).any(|w| w[0] > w[1]) {
        return false;
    }
    let n = fan[255] as usize;
    let rest = idx.len() - base - 1024 - 40;
    if v2 {
        if u32::from_be_bytes(idx[4..8].try_into().unwrap()) != 2 || rest < n * 28 || (rest - n * 28) % 8 != 0 {
            return false;
        }
    } else if rest != n * 24 {
        return false;
    }
    &pack[..4] == b"PACK"
        && matches!(u32::from_be_bytes(pack[4..8].try_into().unwrap()), 2 | 3)
        && u32::from_be_bytes(pack[8..12].try_into().unwrap()) as usize == n
        && pack[pack.len() - 20..] == idx[idx.len() - 40..idx.len() - 20]
}

// ---------------------------------------------------------------- repositories on disk

pub struct Repo {
    /// the work tree; the git directory is `path/.git`
    pub path: PathBuf,
}

impl Repo {
    pub fn init(path: &Path) -> Repo {
        let g = path.join(".git");
        for d in ["objects/pack", "objects/info", "refs/heads", "refs/tags"] {
            std::fs::create_dir_all(g.join(d)).unwrap();
        }
        std::fs::write(g.join("HEAD"), "ref: refs/heads/master\n").unwrap();
        std::fs::write(g.join("config"), "[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n\tbare = false\n").unwrap();
        Repo { path: path.to_path_buf() }
    }
    pub fn git(&self) -> PathBuf {
        self.path.join(".git")
    }
    pub fn packs(&self) -> PathBuf {
        self.git().join("objects/pack")
    }
    pub fn loose_path(&self, id: &Oid) -> PathBuf {
        let h = sha1::hex(id);
        self.git().join("objects").join(&h[..2]).join(&h[2..])
    }
    pub fn add_loose_raw(&self, id: &Oid, file: &[u8]) {
        let p = self.loose_path(id);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, file).unwrap();
    }
    pub fn add_loose(&self, o: &Obj, rng: &mut Rng) {
        self.add_loose_raw(&o.id(), &zlib_any(&o.enc(), rng));
    }
    pub fn add_pack(&self, p: &Pack) {
        write_pack(&self.packs(), p);
    }
    /// Keep parts of the git directory elsewhere, with links to them, as `git new-workdir` and people short of
    /// space do: `which` is a set of bits over the parts.
    pub fn scatter(&self, which: u64) -> String {
        use std::os::unix::fs::symlink;
        let store = self.path.join("elsewhere");
        std::fs::create_dir_all(&store).unwrap();
        let mut done = vec![];
        let parts = ["objects/pack", "objects", "refs/heads", "refs/tags", "refs", "packed-refs"];
        for (_, part) in parts.iter().enumerate().filter(|(i, _)| which >> i & 1 == 1) {
            let (at, to) = (self.git().join(part), store.join(part.replace('/', "-")));
            match *part {
                "packed-refs" if at.exists() => continue,
                // a link to where there is no file yet
                "packed-refs" => (),
                _ => std::fs::rename(&at, &to).unwrap(),
            }
            // a directory below one that may itself be moved is linked by its full path
            let relative = !part.contains('/') && which >> 8 & 1 == 1;
            symlink(if relative { Path::new("../elsewhere").join(part) } else { to }, &at).unwrap();
            done.push(*part);
        }
        done.join(", ")
    }
    pub fn add_ref(&self, name: &str, content: &[u8]) {
        let p = self.git().join(name);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, content).unwrap();
    }
}
