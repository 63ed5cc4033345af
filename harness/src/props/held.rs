//! C24: readers and objects that a caller holds, while everything else goes on.
use super::common::*;
use crate::ctx::Ctx;
use crate::model::*;
use crate::objgen;
use crate::obs;
use crate::rng::{hash64, Rng};
use crate::sha1;
use rusty_git::object::Object;
use rusty_git::repository::Repository;
use std::io::{IoSliceMut, Read};

/// the type of readers has no public name
type With = Box<dyn FnMut(&mut dyn FnMut(&mut dyn Read))>;

struct Open {
    r: With,
    want: Vec<u8>,
    pos: usize,
    what: String,
    after_end: u32,
}

struct Kept {
    o: Object,
    of: Obj,
    shown: String,
    what: String,
}

/// Everything a caller can see of a parsed object, as text.
fn all_of(o: &Object) -> String {
    use rusty_git::object::ObjectData::*;
    let d = match o.data() {
        Blob(b) => format!("{:?}", b.data()),
        Tree(t) => format!("{:?}", obs::tree(t)),
        Commit(c) => format!("{:?}", obs::commit(c)),
        Tag(t) => format!("{:?}", obs::tag(t)),
    };
    format!("{} {:?} {d}", o.id().to_hex(), o.data())
}

/// One read call of a caller; returns what it delivered or what is wrong.
fn read_some(rng: &mut Rng, x: &mut Open) -> Result<usize, String> {
    let left = x.want.len() - x.pos;
    let n = match rng.below(10) {
        0 => 0,
        1 => 1,
        2 => rng.range(2, 9),
        3 => left.max(1),
        4 => left + 1,
        5 => left.saturating_sub(1).max(1),
        6 => 4096,
        7 => 70_000,
        _ => rng.range(1, left.max(1).min(5000) + 1),
    };
    let how = rng.below(7);
    let mut got = None;
    (x.r)(&mut |r| got = Some(read_by(how, n, left, r)));
    let got = got.unwrap()?;
    if got.len() > left || got != x.want[x.pos..x.pos + got.len()] {
        let at = got.iter().zip(&x.want[x.pos..]).position(|(a, b)| a != b).unwrap_or(left);
        return Err(format!("delivers other bytes than the object's from byte {} of {} on", x.pos + at, x.want.len()));
    }
    x.pos += got.len();
    if left == 0 {
        x.after_end += 1;
    }
    Ok(got.len())
}

fn read_by(how: usize, n: usize, left: usize, r: &mut dyn Read) -> Result<Vec<u8>, String> {
    let mut buf = vec![0xa5u8; n];
    Ok(match how {
        0 => {
            let mut v = b"before".to_vec();
            let k = r.take(n as u64).read_to_end(&mut v).map_err(|e| format!("read_to_end: {e}"))?;
            if !v.starts_with(b"before") || v.len() != 6 + k {
                return Err(format!("read_to_end says {k}, but appends {}", v.len() as isize - 6));
            }
            if k < n.min(left) {
                return Err(format!("read_to_end ends after {k} of {} bytes", n.min(left)));
            }
            v.split_off(6)
        }
        1 if n <= left => {
            r.read_exact(&mut buf).map_err(|e| format!("read_exact({n}) with {left} bytes left: {e}"))?;
            buf
        }
        2 => {
            let (a, b) = buf.split_at_mut(n / 2);
            let k = r.read_vectored(&mut [IoSliceMut::new(a), IoSliceMut::new(b)]).map_err(|e| format!("read_vectored: {e}"))?;
            buf.truncate(k.min(n));
            if k > n {
                return Err(format!("read_vectored says {k} of {n}"));
            }
            buf
        }
        3 => {
            let mut v = vec![];
            for b in r.bytes().take(n.min(300)) {
                v.push(b.map_err(|e| format!("bytes: {e}"))?);
            }
            if v.len() < n.min(300).min(left) {
                return Err(format!("bytes() ends after {} of {}", v.len(), n.min(300).min(left)));
            }
            v
        }
        _ => {
            let k = r.read(&mut buf).map_err(|e| format!("read: {e}"))?;
            if k > n {
                return Err(format!("read says {k} of {n}"));
            }
            if k == 0 && n > 0 && left > 0 {
                return Err(format!("read delivers nothing with {left} bytes left"));
            }
            buf.truncate(k);
            buf
        }
    })
}

pub fn c24(c: &mut Ctx) {
    let mut rng = c.rng.fork();
    let dir = c.fresh("r");
    let repo = Repo::init(&dir);
    let mut objs: Vec<Obj> = vec![];
    let mut loose: Vec<usize> = vec![];
    let mut packs: Vec<(Pack, Vec<usize>)> = vec![];
    let add = |objs: &mut Vec<Obj>, o: Obj| match objs.iter().position(|x| *x == o) {
        Some(i) => i,
        None => {
            objs.push(o);
            objs.len() - 1
        }
    };
    for _ in 0..rng.range(3, 7) {
        let n = *rng.pick(&[0usize, 20, 3000, 100_000]);
        let o = if rng.chance(1, 2) { Obj::blob(rng.bytes(n)) } else { objgen::any_obj(&mut rng, 20_000) };
        repo.add_loose(&o, &mut rng);
        loose.push(add(&mut objs, o));
    }
    for _ in 0..rng.below(3) {
        let es = gen_entries(&mut rng, &GenOpts { n: 7, delta_percent: 60, deep: true, max_body: 4000, max_result: 20_000 });
        let po = rand_opts(&mut rng, es.len());
        let p = build_pack(&es, &po, &mut rng);
        repo.add_pack(&p);
        let ids = es.into_iter().map(|e| add(&mut objs, e.obj)).collect();
        packs.push((p, ids));
    }
    let mut handles: Vec<Repository> = vec![];
    for _ in 0..rng.range(1, 3) {
        match Repository::open(&dir) {
            Ok(r) => handles.push(r),
            Err(e) => return c.violate("open-failed", obs::chain(&e)),
        }
    }
    let mut open: Vec<Open> = vec![];
    let mut kept: Vec<Kept> = vec![];
    let mut log = vec![];
    let (mut most, mut finished) = (0, 0u64);
    for step in 0..rng.range(60, 200) {
        match rng.below(24) {
            0..=4 if open.len() < 10 => {
                let o = rng.pick(&objs).clone();
                let h = rng.below(handles.len());
                let what = format!("reader of {} {} ({} bytes) opened at step {step}", o.kind.name(), o.hex(), o.body.len());
                let Some(r) = c.op(|| format!("read_object {what}"), || handles[h].object_database().read_object(obs::id(&o.id())).map_err(|e| obs::chain(&e))) else { return };
                match r {
                    Ok(mut r) => open.push(Open { r: Box::new(move |f| f(r.reader())), want: o.enc(), pos: 0, what, after_end: 0 }),
                    Err(e) => return c.violate("present-error", format!("{what}: {e}")),
                }
                c.count("readers", 1);
                log.push(b'o');
            }
            5..=14 if !open.is_empty() => {
                let i = rng.below(open.len());
                let others = open.len() - 1;
                let x = &mut open[i];
                let d = format!("read at byte {} from {}", x.pos, x.what);
                let Some(r) = c.op(|| d, || read_some(&mut rng, x)) else { return };
                if let Err(e) = r {
                    return c.violate("reader-differs", format!("{}: {e}; {} other readers and {} objects are held ({} steps: {})", x.what, others, kept.len(), step, String::from_utf8_lossy(&log)));
                }
                c.count("reads", 1);
                log.push(b'r');
                if x.after_end > 2 {
                    finished += 1;
                    c.count("reads_after_end", 3);
                    open.swap_remove(i);
                }
            }
            15 if !open.is_empty() => {
                let i = rng.below(open.len());
                let x = open.swap_remove(i);
                let d = format!("drop {}", x.what);
                if c.op(|| d, move || drop(x)).is_none() {
                    return;
                }
                log.push(b'd');
            }
            16 | 17 if kept.len() < 10 => {
                let of = rng.pick(&objs).clone();
                let h = rng.below(handles.len());
                let what = format!("{} {} ({} bytes) parsed at step {step}", of.kind.name(), of.hex(), of.body.len());
                let Some(r) = c.op(|| format!("parse_object {what}"), || handles[h].object_database().parse_object(obs::id(&of.id())).map_err(|e| obs::chain(&e))) else { return };
                match r {
                    Ok(o) => {
                        if let Err(e) = obs::agrees(o.data(), &of) {
                            return c.violate("wrong-content", format!("{what}: {e}"));
                        }
                        let shown = all_of(&o);
                        kept.push(Kept { o, of, shown, what });
                    }
                    Err(e) => return c.violate("present-error", format!("{what}: {e}")),
                }
                c.count("objects_kept", 1);
                log.push(b'p');
            }
            18 | 19 if !kept.is_empty() => {
                let i = rng.below(kept.len());
                if rng.chance(1, 5) {
                    drop(kept.swap_remove(i));
                    continue;
                }
                let k = &mut kept[i];
                let Some((now, fit)) = c.op(|| format!("look at {}", k.what), || match rng.below(3) {
                    0 => {
                        // in another thread
                        let o = &k.o;
                        std::thread::scope(|s| s.spawn(|| (all_of(o), obs::agrees(o.data(), &k.of))).join().unwrap())
                    }
                    _ => (all_of(&k.o), obs::agrees(k.o.data(), &k.of)),
                }) else { return };
                if now != k.shown || fit.is_err() {
                    return c.violate("object-changed", format!("{}: shows other contents at step {step} than when it was parsed {fit:?} ({})", k.what, String::from_utf8_lossy(&log)));
                }
                c.count("objects_rechecked", 1);
                log.push(b'c');
            }
            20 => {
                // as `git gc` does: everything into one pack, then what is in it goes
                if rng.chance(1, 3) {
                    let es: Vec<Entry> = objs.iter().map(|o| Entry { obj: o.clone(), store: Store::Whole, delta: vec![] }).collect();
                    let p = build_pack(&es, &PackOpts::default(), &mut rng);
                    if packs.iter().any(|q| q.0.name() == p.name()) {
                        continue;
                    }
                    repo.add_pack(&p);
                    for (q, _) in packs.drain(..) {
                        let stem = repo.packs().join(q.name());
                        let _ = std::fs::remove_file(stem.with_extension("idx"));
                        let _ = std::fs::remove_file(stem.with_extension("pack"));
                    }
                    for i in loose.drain(..) {
                        let _ = std::fs::remove_file(repo.loose_path(&objs[i].id()));
                    }
                    packs.push((p, (0..objs.len()).collect()));
                    c.count("repacks", 1);
                    log.push(b'G');
                }
            }
            21 => {
                let n = rng.below(2000);
                let o = Obj::blob(rng.bytes(n));
                let h = rng.below(handles.len());
                let Some(r) = c.op(|| format!("write_object {}", o.hex()), || handles[h].object_database().write_object(&o.enc()).map(obs::oid).map_err(|e| obs::chain(&e))) else { return };
                if r != Ok(o.id()) {
                    return c.violate("write-failed", format!("{r:?}"));
                }
                let i = add(&mut objs, o);
                if !loose.contains(&i) {
                    loose.push(i);
                }
                log.push(b'w');
            }
            22 => {
                let id = absent_id(&mut rng, objs.last().map(|o| o.id()).as_ref());
                if objs.iter().all(|o| o.id() != id) {
                    let h = rng.below(handles.len());
                    expect_absent(c, handles[h].object_database(), &id, "beside held readers");
                }
                log.push(b'a');
            }
            23 if rng.chance(1, 2) => {
                // the handle goes, its readers and objects stay
                let h = rng.below(handles.len());
                match Repository::open(&dir) {
                    Ok(r) => {
                        let old = std::mem::replace(&mut handles[h], r);
                        if c.op(|| "drop handle".into(), move || drop(old)).is_none() {
                            return;
                        }
                    }
                    Err(e) => return c.violate("open-failed", obs::chain(&e)),
                }
                c.count("handles_dropped", 1);
                log.push(b'H');
            }
            _ => {}
        }
        most = most.max(open.len());
        if c.failed() {
            return;
        }
    }
    // at last without any handle
    drop(handles);
    for mut x in open {
        let d = format!("rest of {}", x.what);
        let Some(r) = c.op(|| d, || -> Result<(), String> {
            while x.pos < x.want.len() {
                let mut buf = vec![0; 9000];
                let mut got = None;
                (x.r)(&mut |r| got = Some(r.read(&mut buf)));
                let k = got.unwrap().map_err(|e| e.to_string())?;
                if k == 0 || buf[..k] != x.want[x.pos..(x.pos + k).min(x.want.len())] {
                    return Err(format!("{k} bytes at byte {} of {} are wrong", x.pos, x.want.len()));
                }
                x.pos += k;
            }
            Ok(())
        }) else { return };
        if let Err(e) = r {
            return c.violate("reader-differs", format!("{}, after its handle is gone: {e}", x.what));
        }
        finished += 1;
    }
    for k in &kept {
        let Some((now, fit)) = c.op(|| format!("look at {}", k.what), || (all_of(&k.o), obs::agrees(k.o.data(), &k.of))) else { return };
        if now != k.shown || fit.is_err() {
            return c.violate("object-changed", format!("{} shows other contents after its handle is gone", k.what));
        }
    }
    c.count("readers_finished", finished);
    c.count("most_open_readers", most as u64);
    c.eval(hash64(&[&log[..], &c.case.to_le_bytes()].concat()), most > 1);
    c.sample(|| format!("{} objects ({}...), steps {}", objs.len(), sha1::hex(&objs[0].id()), String::from_utf8_lossy(&log)));
}
