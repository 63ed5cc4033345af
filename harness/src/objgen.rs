//! Generators of commits, identities, tags and trees as git writes them, with their ground truth.
use crate::model::{Kind, Obj, Oid};
use crate::rng::Rng;
use crate::sha1;

#[derive(Clone, Debug, PartialEq)]
pub struct Ident {
    pub name: Vec<u8>,
    pub email: Vec<u8>,
    pub time: Option<Vec<u8>>,
    pub zone: Option<Vec<u8>>,
}

impl Ident {
    pub fn line(&self) -> Vec<u8> {
        let mut v = self.name.clone();
        v.extend_from_slice(b" <");
        v.extend_from_slice(&self.email);
        v.push(b'>');
        if let Some(t) = &self.time {
            v.push(b' ');
            v.extend_from_slice(t);
            if let Some(z) = &self.zone {
                v.push(b' ');
                v.extend_from_slice(z);
            }
        }
        v
    }
}

/// Bytes git strips from the ends of a name or an email ("crud").
pub fn is_crud(b: u8) -> bool {
    b <= 32 || b",:;<>\"\\'".contains(&b)
}

pub fn strip_crud(s: &[u8]) -> Vec<u8> {
    let mut a = 0;
    let mut b = s.len();
    while a < b && is_crud(s[a]) {
        a += 1;
    }
    while b > a && is_crud(s[b - 1]) {
        b -= 1;
    }
    s[a..b].iter().copied().filter(|c| !b"\n<>".contains(c)).collect()
}

fn words(rng: &mut Rng) -> Vec<u8> {
    const W: &[&[u8]] = &[
        b"Ada", b"J. Random Hacker", b"O'Neil", b"D\xc3\xbcrer", b"\xe5\xb1\xb1\xe7\x94\xb0", b"Jos\xe9", b"\x8c\xb4\xa0",
        b"1337", b"42nd", b"007 Bond", b"x", b"(bot)", b"[ci]", b"a-b_c", b"49699333+dependabot[bot]", b"-", b"@home",
        b"#1", b"!bang", b"$USER", b"%s", b"&co", b"*star*", b"+plus+", b"/slash/", b"0", b"?", b"= =", b"`tick`", b"{}", b"|", b"~", b"^",
        b"tab\there", b"two  spaces", b"Dr. (med.) X", b"a,b;c:d", b"\xff\xfe", b"\xc3", b"name\xc2\xa0nbsp", b"a \"quoted\" b",
    ];
    rng.pick(W).to_vec()
}

pub fn ident_text(rng: &mut Rng, email: bool) -> Vec<u8> {
    let mut v = match rng.below(10) {
        0 => vec![],
        1 => (0..rng.range(1, 40)).map(|_| rng.byte()).collect(),
        2 => (0..rng.range(1, 20)).map(|_| 0x20 + rng.byte() % 0x5f).collect(),
        3 => (0..rng.range(1, 6)).map(|_| b'0' + rng.byte() % 10).collect(),
        4 => {
            // one chosen leading byte: every value gets its turn
            let mut v = vec![rng.byte()];
            v.extend(words(rng));
            v
        }
        5 => {
            let mut v = words(rng);
            v.push(b' ');
            v.extend(words(rng));
            v
        }
        6 => {
            let n = rng.range(60, 300);
            (0..n).map(|_| *rng.pick(b"abc XYZ.-0\xe9")).collect()
        }
        _ => words(rng),
    };
    if email && rng.chance(2, 3) {
        v.extend_from_slice(b"@example.com");
    }
    v.retain(|&b| b != 0 && b != b'\n');
    strip_crud(&v)
}

pub fn ident(rng: &mut Rng) -> Ident {
    let time = match rng.below(12) {
        0 => None,
        1 => Some(b"0".to_vec()),
        2 => Some(b"18446744073709551615".to_vec()),
        3 => Some(rng.below(10).to_string().into_bytes()),
        4 => Some(b"4294967296".to_vec()),
        _ => Some((1_000_000_000 + rng.below(1_200_000_000)).to_string().into_bytes()),
    };
    let zone = match (&time, rng.below(12)) {
        (None, _) | (_, 0) => None,
        (_, 1) => Some(b"+0000".to_vec()),
        (_, 2) => Some(b"-0000".to_vec()),
        (_, 3) => Some(b"+051800".to_vec()),
        (_, 4) => Some(b"-1200".to_vec()),
        _ => {
            let s = *rng.pick(b"+-") as char;
            Some(format!("{}{:02}{:02}", s, rng.below(15), *rng.pick(&[0, 0, 30, 45])).into_bytes())
        }
    };
    Ident { name: ident_text(rng, false), email: ident_text(rng, true), time, zone }
}

/// As `git commit` itself writes: both time and zone present.
pub fn ident_dated(rng: &mut Rng) -> Ident {
    loop {
        let i = ident(rng);
        if i.time.is_some() && i.zone.is_some() {
            return i;
        }
    }
}

pub fn oid(rng: &mut Rng) -> Oid {
    let mut o: Oid = rng.bytes(20).try_into().unwrap();
    match rng.below(12) {
        0 => o = [0; 20],
        1 => o = [0xff; 20],
        2 => o[rng.below(20)] = 0,
        3 => o[0] = b'\n',
        4 => o[rng.below(20)] = b' ',
        5 => {
            // looks like the start of another tree entry
            o[..7].copy_from_slice(b"100644 ");
        }
        _ => {}
    }
    o
}

/// Things that mean something somewhere: in a message they are text.
fn token(rng: &mut Rng) -> Vec<u8> {
    const T: &[&[u8]] = &[
        b"-----BEGIN PGP SIGNATURE-----", b"-----END PGP SIGNATURE-----", b"-----BEGIN PGP MESSAGE-----", b"-----BEGIN SSH SIGNATURE-----",
        b"-----END SSH SIGNATURE-----", b"-----BEGIN SIGNED MESSAGE-----", b"-----BEGIN PGP SIGNED MESSAGE-----", b"-----", b"-- ", b"--", b"---",
        b"Signed-off-by: A U Thor <a@b.c>", b"Co-authored-by: Jos\xe9 <j@x>", b"Change-Id: I0123456789abcdef", b"Fixes: #12", b"(cherry picked from commit 0000)",
        b"# ------------------------ >8 ------------------------", b"# a comment", b"#", b";", b"tree 4b825dc642cb6eb9a060e54bf8d69288fbee4904",
        b"parent 4b825dc642cb6eb9a060e54bf8d69288fbee4904", b"author A <a@b> 1 +0000", b"committer C <c@d> 2 -0000", b"encoding ISO-8859-1", b"encoding",
        b"gpgsig -----BEGIN PGP SIGNATURE-----", b"gpgsig-sha256 x", b"mergetag object 00", b"object 4b825dc642cb6eb9a060e54bf8d69288fbee4904",
        b"type commit", b"tag v1", b"tagger T <t@x> 3 +0000", b"tagger", b"HG:extra x", b"\xef\xbb\xbfbom", b"\xff\xfe", b"\r", b"text\r", b"\t", b" ",
        b" leading space", b"trailing space ", b"diff --git a/x b/x", b"@@ -1 +1 @@", b"+added", b"-removed", b"ref: refs/heads/x", b"PACK", b"x: y",
        b"NUL", b"\x01", b"\x1b[31mred", b"\x7f", b"iQEzBAABCAAdFiEE", b"=abcd", b"blob 12", b"commit 99", b"", b"", b"",
    ];
    match rng.below(24) {
        0 => {
            let n = rng.range(300, 9000);
            vec![*rng.pick(b"a -\t\xe9"); n]
        }
        1 => format!("parent {}", sha1::hex(&oid(rng))).into_bytes(),
        2 => (0..rng.range(1, 30)).map(|_| 1 + rng.byte() % 255).collect(),
        _ => rng.pick(T).to_vec(),
    }
}

pub fn message(rng: &mut Rng) -> Vec<u8> {
    if rng.chance(2, 5) {
        let mut v = vec![];
        let n = rng.range(1, 7);
        for i in 0..n {
            v.extend(token(rng));
            if i + 1 < n || rng.chance(2, 3) {
                v.push(b'\n');
            }
        }
        return v;
    }
    match rng.below(12) {
        0 => vec![],
        1 => b"\n".to_vec(),
        2 => b"no newline at end".to_vec(),
        3 => b"\n\nleading blank lines\n".to_vec(),
        4 => b"subject\n\nencoding UTF-16\nauthor Fake <f@x> 1 +0000\n\nparent 0000\n".to_vec(),
        5 => b"caf\xe9 latin-1\n".to_vec(),
        6 => {
            let n = rng.range(1, 400);
            (0..n).map(|_| 1 + rng.byte() % 255).collect()
        }
        7 => {
            let n = rng.range(2000, 70_000);
            (0..n).map(|_| *rng.pick(b"lorem ipsum\n")).collect()
        }
        8 => b"trailing spaces   \n\n\n".to_vec(),
        9 => b"crlf\r\nbody\r\n".to_vec(),
        _ => format!("subject {}\n\nbody line {}\n", rng.below(1000), rng.below(1000)).into_bytes(),
    }
}

#[derive(Clone, Debug)]
pub struct CommitT {
    pub tree: Oid,
    pub parents: Vec<Oid>,
    pub author: Ident,
    /// further author headers, which some tools wrote and which are ignored
    pub more_authors: Vec<Ident>,
    pub committer: Ident,
    pub encoding: Option<Vec<u8>>,
    /// other headers, in order, around the encoding header
    pub before: Vec<Vec<u8>>,
    pub after: Vec<Vec<u8>>,
    pub message: Vec<u8>,
    /// an empty message without the blank line before it
    pub bare: bool,
}

impl CommitT {
    pub fn body(&self) -> Vec<u8> {
        let mut v = format!("tree {}\n", sha1::hex(&self.tree)).into_bytes();
        for p in &self.parents {
            v.extend(format!("parent {}\n", sha1::hex(p)).into_bytes());
        }
        v.extend_from_slice(b"author ");
        v.extend(self.author.line());
        for a in &self.more_authors {
            v.extend_from_slice(b"\nauthor ");
            v.extend(a.line());
        }
        v.extend_from_slice(b"\ncommitter ");
        v.extend(self.committer.line());
        v.push(b'\n');
        for h in &self.before {
            v.extend_from_slice(h);
        }
        if let Some(e) = &self.encoding {
            v.extend_from_slice(b"encoding ");
            v.extend_from_slice(e);
            v.push(b'\n');
        }
        for h in &self.after {
            v.extend_from_slice(h);
        }
        if !self.bare || !self.message.is_empty() {
            v.push(b'\n');
            v.extend_from_slice(&self.message);
        }
        v
    }
    pub fn obj(&self) -> Obj {
        Obj::new(Kind::Commit, self.body())
    }
}

/// A header with continuation lines (each continuation starts with one space).
pub fn folded(key: &str, lines: &[&[u8]]) -> Vec<u8> {
    let mut v = key.as_bytes().to_vec();
    for l in lines {
        v.push(b' ');
        v.extend_from_slice(l);
        v.push(b'\n');
    }
    v
}

fn extra_header(rng: &mut Rng) -> Vec<u8> {
    match rng.below(12) {
        11 => {
            // signatures of other programs
            let lines: Vec<Vec<u8>> = (0..rng.range(1, 6)).map(|_| token(rng)).map(|mut t| { t.retain(|&b| b != b'\n'); t }).collect();
            folded(*rng.pick(&["gpgsig", "gpgsig-sha256", "mergetag"]), &lines.iter().map(|l| &l[..]).collect::<Vec<_>>())
        }
        8 => {
            // any key, any value, any continuation
            let key: String = match rng.below(4) {
                0 => (0..rng.range(1, 20)).map(|_| *rng.pick(b"abcXYZ-_.:0") as char).collect(),
                _ => rng.pick(&["tree", "parents", "authors", "comitter", "object", "type", "tag", "tagger", "note", "gpgsign", "enc", "encodin", "Encoding", "ENCODING", "message", "x:y", "#"]).to_string(),
            };
            let lines: Vec<Vec<u8>> = (0..rng.range(1, 5)).map(|_| token(rng)).map(|mut t| { t.retain(|&b| b != b'\n'); t }).collect();
            folded(&key, &lines.iter().map(|l| &l[..]).collect::<Vec<_>>())
        }
        9 => {
            let n = rng.range(20, 3000);
            let l: Vec<u8> = (0..n).map(|_| *rng.pick(b"ABCDEFabcdef0123+/")).collect();
            folded("gpgsig", &[b"-----BEGIN PGP SIGNATURE-----", b"", &l, b"-----END PGP SIGNATURE-----"])
        }
        0 | 1 => folded(
            "gpgsig",
            &[b"-----BEGIN PGP SIGNATURE-----", b"", b"iQEzBAABCAAdFiEE", b"=abcd", b"-----END PGP SIGNATURE-----", b""],
        ),
        2 => folded("gpgsig-sha256", &[b"-----BEGIN SSH SIGNATURE-----", b"U1NI", b"-----END SSH SIGNATURE-----"]),
        3 => {
            let id = sha1::hex(&oid(rng));
            let o = format!("object {id}");
            folded(
                "mergetag",
                &[
                    o.as_bytes(), b"type commit", b"tag v1.0", b"tagger T <t@x> 1600000000 +0000", b"",
                    b"encoding of a merged tag", b"", b"tree 0000", b"-----BEGIN PGP SIGNATURE-----", b"", b"xx",
                ],
            )
        }
        4 => b"HG:extra rebase_source:abcdef\n".to_vec(),
        5 => b"x-empty \n".to_vec(),
        6 => folded("custom", &[b"a", b"encoding fake-in-continuation", b"author Not <n@n> 1 +0000"]),
        _ => b"encodings not-the-encoding-header\n".to_vec(),
    }
}

pub fn commit(rng: &mut Rng) -> CommitT {
    let mut np = *rng.pick(&[0usize, 1, 1, 1, 2, 2, 3, 8, 17, 66]);
    if rng.chance(1, 150) {
        np = rng.range(200, 1200);
    }
    let encoding = match rng.below(6) {
        0 => Some(b"ISO-8859-1".to_vec()),
        1 => Some(rng.pick(&[&b"UTF-16"[..], b"windows-1252", b"eucJP", b"x", b"weird encoding name", b"\xff\xfe"]).to_vec()),
        _ => None,
    };
    let mut before = vec![];
    let mut after = vec![];
    for _ in 0..*rng.pick(&[0usize, 0, 0, 1, 1, 2, 4]) {
        let h = extra_header(rng);
        if rng.chance(1, 4) {
            before.push(h)
        } else {
            after.push(h)
        }
    }
    let author = ident(rng);
    let committer = if rng.chance(1, 2) { author.clone() } else { ident(rng) };
    let mut parents: Vec<Oid> = (0..np).map(|_| oid(rng)).collect();
    if np > 1 && rng.chance(1, 4) {
        // git allows the same parent twice in an object
        let (a, b) = (rng.below(np), rng.below(np));
        parents[a] = parents[b];
    }
    let bare = rng.chance(1, 30);
    let more_authors = if rng.chance(1, 30) { (0..rng.range(1, 4)).map(|_| ident(rng)).collect() } else { vec![] };
    CommitT {
        tree: oid(rng),
        parents,
        author,
        more_authors,
        committer,
        encoding,
        before,
        after,
        message: if bare { vec![] } else { message(rng) },
        bare,
    }
}

#[derive(Clone, Debug)]
pub struct TagT {
    pub object: Oid,
    pub kind: Kind,
    pub name: Vec<u8>,
    pub tagger: Option<Ident>,
    /// other headers, in order
    pub after: Vec<Vec<u8>>,
    pub message: Vec<u8>,
    /// an empty message without the blank line before it
    pub bare: bool,
}

impl TagT {
    pub fn body(&self) -> Vec<u8> {
        let mut v = format!("object {}\ntype {}\ntag ", sha1::hex(&self.object), self.kind.name()).into_bytes();
        v.extend_from_slice(&self.name);
        v.push(b'\n');
        if let Some(t) = &self.tagger {
            v.extend_from_slice(b"tagger ");
            v.extend(t.line());
            v.push(b'\n');
        }
        for h in &self.after {
            v.extend_from_slice(h);
        }
        if !self.bare || !self.message.is_empty() {
            v.push(b'\n');
            v.extend_from_slice(&self.message);
        }
        v
    }
    pub fn obj(&self) -> Obj {
        Obj::new(Kind::Tag, self.body())
    }
}

pub fn tag(rng: &mut Rng) -> TagT {
    let name = match rng.below(8) {
        0 => b"release/v1.0".to_vec(),
        1 => "日本".as_bytes().to_vec(),
        2 => b"caf\xe9".to_vec(),
        3 => b"x".to_vec(),
        4 => rng.pick(&[&b"tagger"[..], b"tag", b"object", b"type", b"commit", b"HEAD", b"-", b"refs/tags/x", b"v1.0^{}", b"0", b"tagger-x", b"@"]).to_vec(),
        5 => (0..rng.range(1, 120)).map(|_| *rng.pick(b"abcXYZ-_.+0/\xe9")).collect(),
        _ => format!("v{}.{}", rng.below(20), rng.below(20)).into_bytes(),
    };
    let bare = rng.chance(1, 30);
    let tagger = if rng.chance(1, 4) { None } else { Some(ident(rng)) };
    let mut after = vec![];
    if rng.chance(1, 6) {
        // like the signatures of a tag in a repository with two hash algorithms
        for _ in 0..rng.range(1, 4) {
            let h = extra_header(rng);
            if !h.starts_with(b"tagger ") {
                after.push(h);
            }
        }
    }
    TagT {
        object: oid(rng),
        kind: *rng.pick(&Kind::ALL),
        name,
        tagger,
        after,
        message: if bare { vec![] } else { message(rng) },
        bare,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct EntryT {
    pub mode: u32,
    pub name: Vec<u8>,
    pub id: Oid,
}

pub fn tree_body(es: &[EntryT]) -> Vec<u8> {
    let mut v = vec![];
    for e in es {
        v.extend(format!("{:o} ", e.mode).into_bytes());
        v.extend_from_slice(&e.name);
        v.push(0);
        v.extend_from_slice(&e.id);
    }
    v
}

pub const MODES: [u32; 6] = [0o100644, 0o100755, 0o120000, 0o40000, 0o160000, 0o100664];

/// Entries in git's order (directories sort as if they ended in '/').
pub fn tree(rng: &mut Rng) -> Vec<EntryT> {
    let n = match rng.below(8) {
        0 => 0,
        1 => 1,
        2 => rng.range(100, 400),
        _ => rng.range(2, 20),
    };
    let mut es: Vec<EntryT> = Vec::new();
    let mut seen = std::collections::HashSet::new();
    for i in 0..n {
        let mut name: Vec<u8> = match rng.below(11) {
            9 => rng.pick(&[&b".git"[..], b".GIT", b"..", b".", b" ", b"  ", b"a ", b" a", b"\r", b"\n", b"\t", b"a\r", b"40000", b"40000 x", b"#", b"-", b"~", b"\\", b":", b"*", b"a\\b", b".gitmodules", b"con", b"\xc0\xae", b"0", b"\x01"]).to_vec(),
            10 => { let mut v = oid(rng).to_vec(); v.extend_from_slice(b"100644 "); v }
            0 => (0..rng.range(1, 30)).map(|_| 1 + rng.byte() % 255).collect(),
            1 => b"with space".to_vec(),
            2 => b"100644 looks like a mode".to_vec(),
            3 => vec![rng.byte().max(1)],
            4 => b"new\nline".to_vec(),
            5 => (0..rng.range(200, 3000)).map(|_| *rng.pick(b"abcdef")).collect(),
            6 => b"\xff\xfe\x80".to_vec(),
            _ => format!("file{}.txt", i).into_bytes(),
        };
        name.retain(|&b| b != b'/' && b != 0);
        if name.is_empty() || !seen.insert(name.clone()) {
            name = format!("u{i}").into_bytes();
            if !seen.insert(name.clone()) {
                continue;
            }
        }
        es.push(EntryT { mode: *rng.pick(&MODES), name, id: oid(rng) });
    }
    let key = |e: &EntryT| {
        let mut k = e.name.clone();
        if e.mode == 0o40000 {
            k.push(b'/');
        }
        k
    };
    es.sort_by_key(key);
    es
}

pub fn blob_body(rng: &mut Rng, max: usize) -> Vec<u8> {
    let n = match rng.below(10) {
        0 => 0,
        1 => rng.range(1, 30),
        2 => rng.range(1, 200),
        3 => *rng.pick(&[15usize, 16, 17, 127, 128, 129, 255, 256, 2047, 2048, 4095, 4096, 8192, 32767, 32768, 65535, 65536]),
        4 => rng.range(200, 20_000),
        _ => rng.range(1, 2000),
    }
    .min(max);
    match rng.below(5) {
        0 => rng.bytes(n),
        1 => vec![rng.byte(); n],
        2 => {
            let w: Vec<Vec<u8>> = (0..4).map(|_| { let k = rng.range(1, 9); rng.bytes(k) }).collect();
            let mut v = Vec::new();
            while v.len() < n {
                v.extend_from_slice(&w[rng.below(4)]);
            }
            v.truncate(n);
            v
        }
        3 => (0..n).map(|i| (i % 251) as u8).collect(),
        _ => (0..n).map(|_| *rng.pick(b"the quick brown fox\n")).collect(),
    }
}

/// A valid object of any kind.
pub fn any_obj(rng: &mut Rng, max: usize) -> Obj {
    match rng.below(8) {
        0 => commit(rng).obj(),
        1 => tag(rng).obj(),
        2 => Obj::new(Kind::Tree, tree_body(&tree(rng))),
        _ => Obj::blob(blob_body(rng, max)),
    }
}

// ------------------------------------------------------------- independent parsers of well-formed bodies

fn split_line(b: &[u8]) -> Option<(&[u8], &[u8])> {
    let n = b.iter().position(|&c| c == b'\n')?;
    Some((&b[..n], &b[n + 1..]))
}

/// Splits an identity line by its delimiters: last '>' ... as git's split_ident_line.
pub fn parse_ident(l: &[u8]) -> Option<Ident> {
    let lt = l.iter().position(|&c| c == b'<')?;
    let gt = l.iter().rposition(|&c| c == b'>')?;
    if gt < lt || lt == 0 || l[lt - 1] != b' ' {
        return None;
    }
    let rest = &l[gt + 1..];
    let mut it = rest.split(|&c| c == b' ').filter(|s| !s.is_empty());
    Some(Ident {
        name: l[..lt - 1].to_vec(),
        email: l[lt + 1..gt].to_vec(),
        time: it.next().map(|s| s.to_vec()),
        zone: it.next().map(|s| s.to_vec()),
    })
}

pub fn parse_commit(b: &[u8]) -> Option<CommitT> {
    let (l, mut b) = split_line(b)?;
    let tree: Oid = sha1::unhex(std::str::from_utf8(l.strip_prefix(b"tree ")?).ok()?).try_into().ok()?;
    let mut parents = vec![];
    loop {
        let (l, r) = split_line(b)?;
        let Some(h) = l.strip_prefix(b"parent ") else { break };
        parents.push(sha1::unhex(std::str::from_utf8(h).ok()?).try_into().ok()?);
        b = r;
    }
    let (l, r) = split_line(b)?;
    let author = parse_ident(l.strip_prefix(b"author ")?)?;
    let (l, mut b) = split_line(r)?;
    let committer = parse_ident(l.strip_prefix(b"committer ")?)?;
    let mut encoding = None;
    loop {
        let (l, r) = split_line(b)?;
        b = r;
        if l.is_empty() {
            break;
        }
        if let Some(e) = l.strip_prefix(b"encoding ") {
            encoding = Some(e.to_vec());
        }
    }
    Some(CommitT { tree, parents, author, more_authors: vec![], committer, encoding, before: vec![], after: vec![], message: b.to_vec(), bare: false })
}
