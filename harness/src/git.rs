//! The git command line as a second, independent reader and writer.
use crate::model::{Kind, Obj, Oid};
use crate::sha1;
use std::io::{Read, Write};
use std::path::Path;
use std::process::{Command, Stdio};

pub fn cmd(path: &Path) -> Command {
    let mut c = Command::new("git");
    c.current_dir(path)
        .env_clear()
        .env("PATH", std::env::var("PATH").unwrap_or_else(|_| "/usr/bin:/bin".into()))
        .env("HOME", path)
        .env("LC_ALL", "C")
        .env("TZ", "UTC")
        .env("GIT_CONFIG_NOSYSTEM", "1")
        .env("GIT_CONFIG_GLOBAL", "/dev/null")
        .env("GIT_CEILING_DIRECTORIES", path.parent().unwrap_or(path))
        .env("GIT_AUTHOR_NAME", "A U Thor")
        .env("GIT_AUTHOR_EMAIL", "author@example.com")
        .env("GIT_COMMITTER_NAME", "C O Mitter")
        .env("GIT_COMMITTER_EMAIL", "committer@example.com")
        .env("GIT_AUTHOR_DATE", "1600000000 +0130")
        .env("GIT_COMMITTER_DATE", "1600000100 -0500")
        .args(["-c", "core.fsync=none", "-c", "gc.auto=0", "-c", "pack.threads=1"]);
    c
}

pub fn run_in(c: &mut Command, input: &[u8]) -> Result<Vec<u8>, String> {
    let mut ch = c
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| format!("cannot run git: {e}"))?;
    let mut si = ch.stdin.take().unwrap();
    let inp = input.to_vec();
    let t = std::thread::spawn(move || {
        let _ = si.write_all(&inp);
    });
    let mut out = Vec::new();
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let te = std::thread::spawn(move || {
        let mut e = Vec::new();
        let _ = se.read_to_end(&mut e);
        e
    });
    so.read_to_end(&mut out).map_err(|e| e.to_string())?;
    let _ = t.join();
    let err = te.join().unwrap_or_default();
    let st = ch.wait().map_err(|e| e.to_string())?;
    if st.success() {
        Ok(out)
    } else {
        Err(format!("{:?}: {}", c.get_args().collect::<Vec<_>>(), String::from_utf8_lossy(&err)))
    }
}

pub fn run(path: &Path, args: &[&str]) -> Result<Vec<u8>, String> {
    run_in(cmd(path).args(args), b"")
}

/// `git cat-file --batch` over the given ids; None = missing.
pub fn cat(path: &Path, ids: &[Oid]) -> Result<Vec<Option<Obj>>, String> {
    let mut inp = String::new();
    for i in ids {
        inp += &sha1::hex(i);
        inp.push('\n');
    }
    let out = run_in(cmd(path).args(["cat-file", "--batch"]), inp.as_bytes())?;
    parse_batch(&out, ids.len())
}

pub fn parse_batch(out: &[u8], n: usize) -> Result<Vec<Option<Obj>>, String> {
    let mut at = 0;
    let mut v = Vec::new();
    for _ in 0..n {
        let nl = out[at..].iter().position(|&b| b == b'\n').ok_or("cat-file output cut")? + at;
        let l = String::from_utf8_lossy(&out[at..nl]).into_owned();
        at = nl + 1;
        let w: Vec<&str> = l.split(' ').collect();
        if w.len() == 2 {
            v.push(None);
            continue;
        }
        if w.len() != 3 {
            return Err(format!("cat-file said: {l}"));
        }
        let kind = Kind::from_name(w[1].as_bytes()).ok_or("kind")?;
        let len: usize = w[2].parse().map_err(|_| "len")?;
        let body = out.get(at..at + len).ok_or("cat-file output cut")?.to_vec();
        at += len + 1;
        v.push(Some(Obj { kind, body }));
    }
    Ok(v)
}

/// Every object git finds: `--batch-all-objects`.
pub fn all(path: &Path) -> Result<Vec<(Oid, Obj)>, String> {
    let ids = run(path, &["cat-file", "--batch-all-objects", "--batch-check=%(objectname)"])?;
    let ids: Vec<Oid> = String::from_utf8_lossy(&ids)
        .lines()
        .filter_map(|l| sha1::unhex(l.trim()).try_into().ok())
        .collect();
    let objs = cat(path, &ids)?;
    ids.into_iter().zip(objs).map(|(i, o)| o.map(|o| (i, o)).ok_or_else(|| "object vanished".to_string())).collect()
}
