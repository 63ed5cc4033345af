//! C17: ids and abbreviated ids against a byte-level model.
use crate::ctx::Ctx;
use crate::rng::{hash64, Rng};
use crate::sha1;
use rusty_git::object::{Id, ShortId};
use std::cmp::Ordering;
use std::str::FromStr;

fn model_hex(b: &[u8]) -> Option<Vec<u8>> {
    if b.len() % 2 != 0 {
        return None;
    }
    let d = |c: u8| match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    };
    b.chunks(2).map(|p| Some(d(p[0])? * 16 + d(p[1])?)).collect()
}

fn id20(rng: &mut Rng) -> [u8; 20] {
    let mut o: [u8; 20] = rng.bytes(20).try_into().unwrap();
    match rng.below(6) {
        0 => o = [0; 20],
        1 => o = [0xff; 20],
        2 => {
            for b in o.iter_mut() {
                *b = *rng.pick(&[0, 1, 0x7f, 0x80, 0xfe, 0xff]);
            }
        }
        _ => {}
    }
    o
}

fn malformed(rng: &mut Rng, base: &str) -> Vec<u8> {
    let mut v = base.as_bytes().to_vec();
    match rng.below(14) {
        0 => v.truncate(rng.below(40)),
        1 => v.extend_from_slice(b"0"),
        2 => v.extend_from_slice(b"00"),
        3 => {
            let i = rng.below(40);
            v[i] = rng.byte();
        }
        4 => {
            let i = rng.below(40);
            v[i] = *rng.pick(b"gGzZ/:@`\0 -+xX\n");
        }
        5 => v = vec![],
        6 => v.insert(0, b' '),
        7 => v.push(b'\n'),
        8 => v = (0..rng.below(60)).map(|_| rng.byte()).collect(),
        9 => v = (0..rng.below(50)).map(|_| *rng.pick(b"0123456789abcdefABCDEF")).collect(),
        10 => v.make_ascii_uppercase(),
        11 => {
            v[0] = b'0';
            v[1] = b'x';
        }
        12 => {
            let i = rng.below(39);
            v[i] = 0xc3;
            v[i + 1] = 0xa9;
        }
        _ => {
            let n = rng.range(1, 41);
            v = v.iter().cycle().take(n).copied().collect();
        }
    }
    v
}

pub fn c17(c: &mut Ctx) {
    let mut rng = c.rng.fork();
    let mut n = rng.range(1, 24);
    let mut set: Vec<[u8; 20]> = vec![];
    while n > 0 {
        n -= 1;
        let o = if !set.is_empty() && rng.chance(3, 5) {
            // a neighbour: same prefix, changed tail, or +-1
            let mut o = set[rng.below(set.len())];
            match rng.below(4) {
                0 => {
                    let i = rng.range(0, 19);
                    o[i] = o[i].wrapping_add(1);
                }
                1 => {
                    let i = rng.range(1, 19);
                    for b in &mut o[i..] {
                        *b = *rng.pick(&[0u8, 0xff]);
                    }
                }
                2 => {
                    let i = rng.range(2, 19);
                    let t = rng.bytes(20 - i);
                    o[i..].copy_from_slice(&t);
                }
                _ => o[19] ^= 1,
            }
            o
        } else {
            id20(&mut rng)
        };
        set.push(o);
    }
    let key = hash64(&set.concat());
    c.eval(key, set.len() > 1);
    let r = c.op(|| format!("id model on {} ids", set.len()), || check(&mut rng, &set));
    if let Some((counts, bad)) = r {
        for (k, v) in counts {
            c.count(k, v);
        }
        if let Some((sig, msg)) = bad {
            c.violate(sig, msg);
        }
    }
    c.sample(|| format!("{} ids from {}", set.len(), sha1::hex(&set[0])));
}

type Bad = Option<(String, String)>;

fn check(rng: &mut Rng, set: &[[u8; 20]]) -> (Vec<(&'static str, u64)>, Bad) {
    let (mut n_ids, mut n_mal, mut n_cmp, mut n_search) = (0, 0, 0, 0);
    let bad = (|| -> Result<(), (String, String)> {
        let fail = |s: &str, m: String| Err((s.to_string(), m));
        let ids: Vec<Id> = set.iter().map(|b| Id::from_bytes(b)).collect();
        for (b, i) in set.iter().zip(&ids) {
            n_ids += 1;
            let hex = sha1::hex(b);
            if i.to_hex() != hex || format!("{i}") != hex || format!("{i:?}") != hex {
                return fail("hex", format!("id {hex} shows as {} / {i} / {i:?}", i.to_hex()));
            }
            for text in [hex.clone(), hex.to_uppercase()] {
                match (Id::from_hex(text.as_bytes()), Id::from_str(&text)) {
                    (Ok(a), Ok(b)) if a == *i && b == *i && a.to_hex() == hex => {}
                    (a, b) => return fail("hex", format!("{text} parses to {a:?} / {b:?}")),
                }
            }
            let s = ShortId::from(*i);
            if s.to_hex() != hex || s.cmp_id(i) != Ordering::Equal || i.cmp_short(&s) != Ordering::Equal {
                return fail("short-full", format!("ShortId::from({hex}) is {} and compares {:?}/{:?}", s, s.cmp_id(i), i.cmp_short(&s)));
            }
            match ShortId::from_hex(hex.as_bytes()) {
                Ok(t) if t == s => {}
                t => return fail("short-full", format!("ShortId::from_hex({hex}) is {t:?}, not equal to the one made from the id")),
            }
            // malformed strings
            for _ in 0..4 {
                let m = malformed(rng, &hex);
                n_mal += 1;
                let want = if m.len() == 40 { model_hex(&m) } else { None };
                match (Id::from_hex(&m), want) {
                    (Ok(got), Some(w)) if got.to_hex() == sha1::hex(&w) => {}
                    (Err(e), None) => {
                        let _ = format!("{e} {e:?}");
                    }
                    (got, want) => return fail("from-hex", format!("Id::from_hex({:?}) gives {got:?}, expected {want:?}", String::from_utf8_lossy(&m))),
                }
                if let Ok(t) = std::str::from_utf8(&m) {
                    if Id::from_str(t).is_ok() != (m.len() == 40 && model_hex(&m).is_some()) {
                        return fail("from-str", format!("Id::from_str({t:?})"));
                    }
                }
                let want = if (4..=40).contains(&m.len()) { model_hex(&m) } else { None };
                match (ShortId::from_hex(&m), want) {
                    (Ok(got), Some(w)) => {
                        let h = sha1::hex(&w);
                        if got.to_hex() != h || format!("{got}") != h || format!("{got:?}") != h {
                            return fail("short-show", format!("ShortId::from_hex({:?}) shows {got}, expected {h}", String::from_utf8_lossy(&m)));
                        }
                    }
                    (Err(e), None) => {
                        let _ = format!("{e} {e:?}");
                    }
                    (got, want) => return fail("short-from-hex", format!("ShortId::from_hex({:?}) gives {got:?}, expected {want:?}", String::from_utf8_lossy(&m))),
                }
            }
        }
        // order, equality, hash
        use std::hash::{Hash, Hasher};
        let hash = |i: &Id| {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            i.hash(&mut h);
            h.finish()
        };
        for (x, a) in set.iter().zip(&ids) {
            for (y, b) in set.iter().zip(&ids) {
                if a.cmp(b) != sha1::hex(x).cmp(&sha1::hex(y)) || a.partial_cmp(b) != Some(a.cmp(b)) || (a == b) != (x == y) {
                    return fail("order", format!("{a} against {b}: {:?}", a.cmp(b)));
                }
                if a == b && hash(a) != hash(b) {
                    return fail("hash", format!("equal ids {a} hash differently"));
                }
            }
        }
        // hashing
        let m = { let k = rng.below(300); rng.bytes(k) };
        if Id::from_hash(&m).to_hex() != sha1::hex(&sha1::sha1(&m)) {
            return fail("sha1", format!("from_hash of {} bytes", m.len()));
        }
        // abbreviations against every id
        let mut sorted = ids.clone();
        sorted.sort();
        let mut model: Vec<[u8; 20]> = set.to_vec();
        model.sort();
        let uniq: Vec<[u8; 20]> = {
            let mut u = model.clone();
            u.dedup();
            u
        };
        let mut sorted_u = sorted.clone();
        sorted_u.dedup();
        let mut shorts: Vec<Vec<u8>> = vec![];
        for b in set {
            for _ in 0..3 {
                let l = rng.range(2, 20);
                let mut p = b[..l].to_vec();
                if rng.chance(1, 3) {
                    let i = rng.below(l);
                    p[i] = p[i].wrapping_add(*rng.pick(&[1u8, 255, 128]));
                }
                shorts.push(p);
            }
            shorts.push(b.to_vec());
        }
        for p in &shorts {
            let mut text = sha1::hex(p);
            if rng.chance(1, 3) {
                text.make_ascii_uppercase();
            }
            let s = match ShortId::from_hex(text.as_bytes()) {
                Ok(s) => s,
                Err(e) => return fail("short-from-hex", format!("{text} refused: {e}")),
            };
            if s.to_hex() != sha1::hex(p) {
                return fail("short-show", format!("{text} shows as {s}"));
            }
            for (b, i) in uniq.iter().zip(&sorted_u) {
                n_cmp += 1;
                // a prefix sorts just before what it is a prefix of
                let want = p.as_slice().cmp(&b[..]);
                if s.cmp_id(i) != want || i.cmp_short(&s) != want.reverse() {
                    return fail("short-order", format!("{s} against {i}: cmp_id {:?}, cmp_short {:?}, expected {want:?}", s.cmp_id(i), i.cmp_short(&s)));
                }
                if (s.cmp_id(i) == Ordering::Equal) != (p.len() == 20 && p[..] == b[..]) {
                    return fail("short-equal", format!("{s} equals {i}"));
                }
            }
            n_search += 1;
            let at = match sorted_u.binary_search_by(|i| i.cmp_short(&s)) {
                Ok(i) => {
                    if p.len() != 20 {
                        return fail("search", format!("{s} found as a whole id"));
                    }
                    i
                }
                Err(i) => i,
            };
            let found = uniq[at..].iter().take_while(|b| b.starts_with(p)).count();
            let want = uniq.iter().filter(|b| b.starts_with(p)).count();
            if found != want {
                return fail("search", format!("search for {s} ends at {at}: {found} of {want} matches follow"));
            }
            // abbreviations among themselves
            let q = &shorts[rng.below(shorts.len())];
            let t = ShortId::from_hex(sha1::hex(q).as_bytes()).unwrap();
            if (s == t) != (p == q) {
                return fail("short-eq", format!("{s} == {t}"));
            }
        }
        Ok(())
    })();
    (vec![("ids", n_ids), ("malformed", n_mal), ("short_compares", n_cmp), ("searches", n_search)], bad.err())
}
