//! A case is a list of operations, each with what it must answer. Cases are
//! plain text on disk, so that any of them can be replayed on its own.
use crate::util::*;
use rusty_git::object::{Id, ObjectData, ShortId, Signature};
use rusty_git::reference::{Direct, Reference, ReferenceTarget, Symbolic};
use rusty_git::repository::Repository;
use std::cmp::Ordering;
use std::fs;
use std::io::Read;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    /// exactly this answer
    Is(String),
    /// any answer which does not start with "ok"
    NotOk,
    /// an answer which starts with "ok"
    Ok,
    /// one of these
    OneOf(Vec<String>),
    /// no panic, abort, hang or overflow: anything else will do
    Any,
    /// an answer "ok <n>" with n at most this
    AtMost(u64),
}
impl Expect {
    pub fn holds(&self, got: &str) -> bool {
        if got.starts_with("panic") {
            return false;
        }
        match self {
            Expect::Is(s) => s == got,
            Expect::NotOk => !got.starts_with("ok"),
            Expect::Ok => got.starts_with("ok"),
            Expect::OneOf(v) => v.iter().any(|s| s == got),
            Expect::Any => true,
            Expect::AtMost(n) => got.strip_prefix("ok ").and_then(|s| s.parse::<u64>().ok()).map_or(false, |x| x <= *n),
        }
    }
    pub fn text(&self) -> String {
        match self {
            Expect::Is(s) => format!("is {}", s),
            Expect::NotOk => "error".into(),
            Expect::Ok => "success".into(),
            Expect::OneOf(v) => format!("oneof {}", v.join(" | ")),
            Expect::Any => "nopanic".into(),
            Expect::AtMost(n) => format!("atmost {}", n),
        }
    }
    fn parse(s: &str) -> Expect {
        if let Some(r) = s.strip_prefix("is ") {
            Expect::Is(r.into())
        } else if let Some(r) = s.strip_prefix("oneof ") {
            Expect::OneOf(r.split(" | ").map(|x| x.to_string()).collect())
        } else if let Some(r) = s.strip_prefix("atmost ") {
            Expect::AtMost(r.parse().unwrap())
        } else {
            match s {
                "error" => Expect::NotOk,
                "success" => Expect::Ok,
                "nopanic" => Expect::Any,
                _ => panic!("bad expectation {:?}", s),
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Op {
    pub tag: String,
    pub args: Vec<Vec<u8>>,
    pub expect: Expect,
}
#[derive(Clone, Debug, Default)]
pub struct Case {
    pub about: String,
    pub ops: Vec<Op>,
}
pub fn num(n: u64) -> Vec<u8> {
    n.to_string().into_bytes()
}
fn get_num(b: &[u8]) -> u64 {
    std::str::from_utf8(b).unwrap().parse().unwrap()
}
impl Case {
    pub fn new(about: impl Into<String>) -> Self {
        Case { about: about.into(), ops: vec![] }
    }
    pub fn op(&mut self, tag: &str, args: &[&[u8]], expect: Expect) -> &mut Self {
        self.ops.push(Op { tag: tag.into(), args: args.iter().map(|a| a.to_vec()).collect(), expect });
        self
    }
    pub fn file(&mut self, rel: &str, data: &[u8]) -> &mut Self {
        self.op("file", &[rel.as_bytes(), data], Expect::Any)
    }
    pub fn loose(&mut self, id: &Id20, compressed: &[u8]) -> &mut Self {
        let h = hex(id);
        self.file(&format!("objects/{}/{}", &h[..2], &h[2..]), compressed)
    }
    pub fn pack(&mut self, name: &str, pack: &[u8], idx: &[u8]) -> &mut Self {
        self.file(&format!("objects/pack/{}.pack", name), pack);
        self.file(&format!("objects/pack/{}.idx", name), idx)
    }
    pub fn object(&mut self, id: &Id20, expect: Expect) -> &mut Self {
        self.op("object", &[id], expect)
    }
    pub fn text(&self) -> String {
        let mut s = format!("# {}\n", self.about.replace('\n', " "));
        for o in &self.ops {
            s.push_str(&o.tag);
            for a in &o.args {
                s.push(' ');
                if a.is_empty() {
                    s.push('-')
                } else {
                    s.push_str(&hex(a))
                }
            }
            s.push_str(" => ");
            s.push_str(&o.expect.text().replace('\n', " "));
            s.push('\n');
        }
        s
    }
    /// a short rendering for reports
    pub fn brief(&self) -> String {
        let mut s = self.about.clone();
        for o in &self.ops {
            s.push_str(" ; ");
            s.push_str(&o.tag);
            for a in &o.args {
                s.push(' ');
                s.push_str(&show(a));
            }
            if o.expect != Expect::Any {
                let t = o.expect.text();
                s.push_str(&format!(" => {}", t.chars().take(160).collect::<String>()));
            }
        }
        s.chars().take(900).collect()
    }
    pub fn parse(text: &str) -> Case {
        let mut c = Case::default();
        for l in text.lines() {
            if let Some(a) = l.strip_prefix("# ") {
                if c.about.is_empty() {
                    c.about = a.into();
                }
            } else if let Some((lhs, rhs)) = l.split_once(" => ") {
                let mut w = lhs.split(' ');
                let tag = w.next().unwrap().to_string();
                let args = w.map(|x| if x == "-" { vec![] } else { unhex(x) }).collect();
                c.ops.push(Op { tag, args, expect: Expect::parse(rhs) });
            }
        }
        c
    }
    /// Run on the real code. `None`: every answer was as expected.
    pub fn run(&self) -> Option<String> {
        let mut st = State { scratch: None, repo: None };
        for (i, o) in self.ops.iter().enumerate() {
            let got = match catch_unwind(AssertUnwindSafe(|| st.exec(o))) {
                Ok(s) => s,
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    format!("panic {}", m.replace('\n', " "))
                }
            };
            if got.starts_with("prepare") {
                // the file system does not take this arrangement of files
                return None;
            }
            if !got.starts_with("skipped") && !o.expect.holds(&got) {
                return Some(format!("operation {} ({}): expected [{}] but got [{}]", i, o.tag, o.expect.text(), got));
            }
        }
        None
    }
}
pub fn show(b: &[u8]) -> String {
    if b.len() > 48 {
        format!("{:?}..({} bytes)", String::from_utf8_lossy(&b[..40]), b.len())
    } else {
        format!("{:?}", String::from_utf8_lossy(b))
    }
}
/// bytes in an answer
pub fn b(x: &[u8]) -> String {
    if x.len() <= 80 {
        format!("[{}]", hex(x))
    } else {
        format!("[len {} sha1 {}]", x.len(), hex(&sha1(x)))
    }
}
pub fn ob(x: Option<&[u8]>) -> String {
    x.map_or("none".into(), b)
}

struct State {
    scratch: Option<Scratch>,
    repo: Option<Repository>,
}

/// A reader that returns pieces: each script byte is a piece length, 0 an interruption, 253 and more an error.
pub struct Script<'a> {
    data: &'a [u8],
    script: &'a [u8],
    i: usize,
}
impl<'a> Script<'a> {
    pub fn new(data: &'a [u8], script: &'a [u8]) -> Self {
        Script { data, script, i: 0 }
    }
}
impl Read for Script<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let n = if self.i < self.script.len() {
            let n = self.script[self.i];
            self.i += 1;
            match n {
                0 => return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "interrupted")),
                255 => return Err(std::io::Error::new(std::io::ErrorKind::Other, "failed")),
                254 => return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "cut")),
                253 => return Err(std::io::Error::new(std::io::ErrorKind::TimedOut, "late")),
                n => n as usize,
            }
        } else {
            usize::MAX
        };
        let n = n.min(out.len()).min(self.data.len());
        out[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

fn sig_text(s: &Signature) -> String {
    format!(
        "name {} email {} time {} zone {}",
        b(s.name()),
        b(s.email()),
        ob(s.timestamp().map(|x| -> &[u8] { x })),
        ob(s.timezone().map(|x| -> &[u8] { x }))
    )
}
fn kind_name(k: rusty_git::object::ObjectKind) -> &'static str {
    use rusty_git::object::ObjectKind::*;
    match k {
        Commit => "commit",
        Tree => "tree",
        Blob => "blob",
        Tag => "tag",
        OfsDelta => "ofs",
        RefDelta => "ref",
    }
}
pub fn data_text(d: &ObjectData) -> String {
    match d {
        ObjectData::Blob(x) => format!("ok blob {}", b(x.data())),
        ObjectData::Tree(t) => {
            let n = t.entries().len();
            let mut s = format!("ok tree {}", n);
            for e in t.entries() {
                s.push_str(&format!(" ({:o} {} {})", e.mode(), b(e.filename()), e.id().to_hex()));
            }
            s
        }
        ObjectData::Commit(c) => format!(
            "ok commit tree {} parents {:?} author ({}) committer ({}) encoding {} message {}",
            c.tree().to_hex(),
            c.parents().map(|x| x.to_hex()).collect::<Vec<_>>(),
            sig_text(&c.author()),
            sig_text(&c.committer()),
            ob(c.encoding().map(|x| -> &[u8] { x })),
            b(c.message())
        ),
        ObjectData::Tag(t) => format!(
            "ok tag {} object {} kind {} tagger ({}) message {}",
            b(t.tag()),
            t.object().to_hex(),
            kind_name(t.kind()),
            t.tagger().map_or("none".into(), |s| sig_text(&s)),
            ob(t.message().map(|x| -> &[u8] { x }))
        ),
    }
}
fn read_err(e: &rusty_git::object::ReadObjectError, id: &Id) -> String {
    let _ = format!("{} {:?}", e, e);
    let mut src = std::error::Error::source(e);
    while let Some(s) = src {
        let _ = s.to_string();
        src = s.source();
    }
    if e.id() != ShortId::from(*id) {
        return format!("err wrong id {}", e.id());
    }
    match (e.is_not_found(), e.is_ambiguous()) {
        (true, false) => "err notfound".into(),
        (false, true) => "err ambiguous".into(),
        (false, false) => "err other".into(),
        _ => "err both".into(),
    }
}
fn ref_err(e: &rusty_git::reference::Error) -> String {
    let _ = format!("{} {:?}", e, e);
    use rusty_git::reference::Error::*;
    match e {
        ReferenceNotFound => "err ref-notfound".into(),
        ReferenceNameInvalidPath => "err name".into(),
        DereferencingFailed(e) => format!("err object {}", if e.is_not_found() { "notfound" } else { "other" }),
        SymbolicReferenceTooDeep => "err deep".into(),
        InvalidReference(_) => "err invalid".into(),
        Io(_) => "err io".into(),
        _ => "err other".into(),
    }
}
fn peel_id(bytes: &[u8]) -> Option<Direct> {
    Direct::from_bytes(bytes).ok()
}
pub fn direct_text(d: &Direct) -> String {
    let s = format!("{:?}", d);
    let h: String = s.chars().skip_while(|c| *c != '{').filter(|c| c.is_ascii_hexdigit()).collect();
    // `Direct { id: <hex> }` leaves the d of "id"
    h[h.len().saturating_sub(40)..].to_string()
}
fn ref_text(r: &Reference) -> String {
    let _ = format!("{:?}", r);
    match r.target() {
        ReferenceTarget::Direct(d) => {
            if r.name().is_some() {
                return "ok direct with a name".into();
            }
            format!("ok direct {}", direct_text(d))
        }
        ReferenceTarget::Symbolic(s) => {
            let want = std::str::from_utf8(s.data()).ok();
            if r.name() != want {
                return format!("ok symbolic with name {:?}", r.name());
            }
            format!("ok symbolic {}", b(s.data()))
        }
    }
}
fn ref_is(r: &Reference, name: &[u8], peel: &[u8]) -> bool {
    let p = if peel.is_empty() { None } else { Some(peel) };
    match Symbolic::from_bytes(name, p) {
        Ok(s) => *r.target() == ReferenceTarget::Symbolic(s),
        Err(_) => false,
    }
}
fn ord(o: Ordering) -> &'static str {
    match o {
        Ordering::Less => "less",
        Ordering::Equal => "equal",
        Ordering::Greater => "greater",
    }
}

impl State {
    fn scratch(&mut self) -> &Scratch {
        if self.scratch.is_none() {
            self.scratch = Some(Scratch::new());
        }
        self.scratch.as_ref().unwrap()
    }
    fn path(&mut self, rel: &[u8]) -> PathBuf {
        use std::os::unix::ffi::OsStrExt;
        self.scratch().git().join(std::ffi::OsStr::from_bytes(rel))
    }
    fn repo(&mut self) -> &Repository {
        if self.repo.is_none() {
            let r = self.scratch().open();
            self.repo = Some(r);
        }
        self.repo.as_ref().unwrap()
    }
    fn exec(&mut self, op: &Op) -> String {
        let a = &op.args;
        match op.tag.as_str() {
            // --- preparing the repository (not the code under test)
            "file" => {
                let p = self.path(&a[0]);
                if let Err(e) = fs::create_dir_all(p.parent().unwrap()).and_then(|_| fs::write(&p, &a[1])) {
                    return format!("prepare {}", e);
                }
                "ok".into()
            }
            "link" => {
                let p = self.path(&a[0]);
                let to = <std::ffi::OsStr as std::os::unix::ffi::OsStrExt>::from_bytes(&a[1]);
                if let Err(e) = fs::create_dir_all(p.parent().unwrap()).and_then(|_| std::os::unix::fs::symlink(to, &p)) {
                    return format!("prepare {}", e);
                }
                "ok".into()
            }
            "wait" => {
                std::thread::sleep(std::time::Duration::from_millis(2100));
                "ok".into()
            }
            "dir" => {
                let p = self.path(&a[0]);
                if let Err(e) = fs::create_dir_all(p) {
                    return format!("prepare {}", e);
                }
                "ok".into()
            }
            "rmdir" => {
                let p = self.path(&a[0]);
                assert!(p.starts_with(self.scratch().root.clone()));
                let _ = fs::remove_dir_all(&p);
                let _ = fs::remove_file(&p);
                "ok".into()
            }
            "outside" => {
                // a file next to the git directory
                let p = self.scratch().root.join(String::from_utf8(a[0].clone()).unwrap());
                fs::create_dir_all(p.parent().unwrap()).unwrap();
                fs::write(p, &a[1]).unwrap();
                "ok".into()
            }
            "sleep" => {
                std::thread::sleep(std::time::Duration::from_millis(get_num(&a[0])));
                "ok".into()
            }
            "reopen" => {
                self.repo = None;
                self.repo();
                "ok".into()
            }
            // --- objects
            "object" => {
                let id = Id::from_bytes(&a[0]);
                match self.repo().object_database().parse_object(id) {
                    Ok(o) => {
                        if *o.id() != id {
                            return format!("ok wrong id {}", o.id());
                        }
                        let _ = format!("{:?}", o);
                        data_text(o.data())
                    }
                    Err(e) => read_err(&e, &id),
                }
            }
            "raw" => {
                let id = Id::from_bytes(&a[0]);
                let chunk = get_num(&a[1]) as usize;
                match self.repo().object_database().read_object(id) {
                    Ok(mut r) => {
                        let mut out = Vec::new();
                        let mut buf = vec![0u8; chunk.max(1)];
                        let rd = r.reader();
                        loop {
                            match rd.read(&mut buf) {
                                Ok(0) => break,
                                Ok(n) => out.extend(&buf[..n]),
                                Err(_) => return "err read".into(),
                            }
                        }
                        format!("ok {}", b(&out))
                    }
                    Err(e) => read_err(&e, &id),
                }
            }
            "write" => match self.repo().object_database().write_object(&a[0]) {
                Ok(id) => format!("ok {}", id.to_hex()),
                Err(e) => {
                    let _ = format!("{} {:?}", e, e);
                    "err write".into()
                }
            },
            // what an independent reader finds in the object file
            "stored" => {
                let id: Id20 = a[0][..].try_into().unwrap();
                let p = self.scratch().loose_path(&id);
                match fs::read(p) {
                    Ok(z) => {
                        let mut out = Vec::new();
                        match flate2::read::ZlibDecoder::new(&z[..]).read_to_end(&mut out) {
                            Ok(_) => format!("ok {}", b(&out)),
                            Err(_) => "err corrupt".into(),
                        }
                    }
                    Err(_) => "err absent".into(),
                }
            }
            "faults" => crate::faults::explore(&a[0], get_num(&a[1]), a.get(2).map_or(&b"kill"[..], |x| &x[..])),
            // --- ids
            "id-hex" => match Id::from_hex(&a[0]) {
                Ok(id) => {
                    let via = std::str::from_utf8(&a[0]).ok().and_then(|s| s.parse::<Id>().ok());
                    if via != Some(id) {
                        return "ok differs from str".into();
                    }
                    if id.to_string() != id.to_hex() || format!("{:?}", id) != id.to_hex() {
                        return "ok display differs".into();
                    }
                    format!("ok {}", id.to_hex())
                }
                Err(e) => {
                    let _ = format!("{} {:?}", e, e);
                    if std::str::from_utf8(&a[0]).map_or(false, |s| s.parse::<Id>().is_ok()) {
                        return "ok from str only".into();
                    }
                    "err".into()
                }
            },
            "id-bytes" => {
                let id = Id::from_bytes(&a[0]);
                if Id::from_hex(id.to_hex().as_bytes()).ok() != Some(id) || Id::from_hex(id.to_hex().to_uppercase().as_bytes()).ok() != Some(id) {
                    return "ok no round trip".into();
                }
                format!("ok {}", id.to_hex())
            }
            "id-hash" => format!("ok {}", Id::from_hash(&a[0]).to_hex()),
            "id-cmp" => {
                let (x, y) = (Id::from_bytes(&a[0]), Id::from_bytes(&a[1]));
                format!("ok {} {}", ord(x.cmp(&y)), x == y)
            }
            "short-hex" => match ShortId::from_hex(&a[0]) {
                Ok(s) => {
                    let via = std::str::from_utf8(&a[0]).ok().and_then(|t| t.parse::<ShortId>().ok());
                    if via != Some(s) {
                        return "ok differs from str".into();
                    }
                    format!("ok {}", s.to_hex())
                }
                Err(_) => "err".into(),
            },
            "short-cmp" => {
                let s = ShortId::from_hex(&a[0]).unwrap();
                let id = Id::from_bytes(&a[1]);
                let (x, y) = (s.cmp_id(&id), id.cmp_short(&s));
                if x != y.reverse() {
                    return "ok inconsistent".into();
                }
                format!("ok {}", ord(x))
            }
            "short-full" => {
                let s = ShortId::from(Id::from_bytes(&a[0]));
                format!("ok {}", s.to_hex())
            }
            // --- references
            "ref" => match Reference::from_bytes(&a[0]) {
                Ok(r) => ref_text(&r),
                Err(e) => ref_err(&e),
            },
            "ref-read" => match Reference::from_reader(Script::new(&a[0], &a[1])) {
                Ok(r) => ref_text(&r),
                Err(e) => ref_err(&e),
            },
            "ref-peeled" => match Reference::from_bytes(&a[0]) {
                Ok(r) => format!("ok {}", ref_is(&r, &a[1], &a[2])),
                Err(e) => ref_err(&e),
            },
            "direct" => peel_id(&a[0]).map_or("err".into(), |d| format!("ok {}", direct_text(&d))),
            "ref-get" => match self.repo().reference_database().reference(&a[0]) {
                Ok(r) => ref_text(&r),
                Err(e) => ref_err(&e),
            },
            "ref-parse" => match self.repo().reference_database().parse_reference(&a[0]) {
                Ok(r) => ref_text(&r),
                Err(e) => ref_err(&e),
            },
            "ref-file" => match self.repo().reference_database().read_reference_file(&a[0]) {
                Ok(mut f) => {
                    let mut v = vec![];
                    match f.read_to_end(&mut v) {
                        Ok(_) => format!("ok {}", b(&v)),
                        Err(_) => "err io".into(),
                    }
                }
                Err(e) => ref_err(&e),
            },
            "head" => match self.repo().reference_database().head() {
                Ok(r) => ref_text(&r),
                Err(e) => ref_err(&e),
            },
            "ref-peel" => {
                let repo = self.repo();
                match repo.reference_database().reference(&a[0]) {
                    Ok(r) => match r.peel(repo) {
                        Ok(o) => format!("ok {} {}", o.id(), data_text(o.data())),
                        Err(e) => ref_err(&e),
                    },
                    Err(e) => ref_err(&e),
                }
            }
            "head-peel" => {
                let repo = self.repo();
                match repo.reference_database().head() {
                    Ok(r) => match r.target().peel(repo) {
                        Ok(o) => format!("ok {} {}", o.id(), data_text(o.data())),
                        Err(e) => ref_err(&e),
                    },
                    Err(e) => ref_err(&e),
                }
            }
            "names" => {
                let db = self.repo().reference_database();
                let r = match &a[0][..] {
                    b"heads" => db.head_reference_names(),
                    b"tags" => db.tag_reference_names(),
                    b"remotes" => db.remote_reference_names(),
                    _ => db.reference_names(),
                };
                match r {
                    Ok(mut v) => {
                        v.sort();
                        names_text(&v)
                    }
                    Err(e) => ref_err(&e),
                }
            }
            // --- how much memory one operation asks for
            "memory" => {
                // compile the regexes and other one-time state first
                crate::alloc::warm();
                let inner = Op { tag: String::from_utf8(a[0].clone()).unwrap(), args: a[1..].to_vec(), expect: Expect::Any };
                self.repo();
                crate::alloc::reset();
                let r = catch_unwind(AssertUnwindSafe(|| self.exec(&inner)));
                let peak = crate::alloc::peak();
                if r.is_err() {
                    return "panic".into();
                }
                format!("ok {}", peak)
            }
            _ => self.exec_hook(op),
        }
    }
    #[cfg(not(rusty_git_verif))]
    fn exec_hook(&mut self, op: &Op) -> String {
        format!("skipped {}", op.tag)
    }
    #[cfg(rusty_git_verif)]
    fn exec_hook(&mut self, op: &Op) -> String {
        use rusty_git::object::verif;
        let a = &op.args;
        match op.tag.as_str() {
            "h-parse" => match verif::parse_object(Script::new(&a[0], &a[1])) {
                Ok(d) => data_text(&d),
                Err(e) => format!("err {}", e),
            },
            "h-index-open" => {
                let p = self.path(&a[0]);
                match verif::index_open(p) {
                    Ok((n, id)) => format!("ok {} {}", n, id),
                    Err(e) => format!("err {}", e),
                }
            }
            "h-index" => {
                let p = self.path(&a[0]);
                match verif::index_find(p, &ShortId::from_hex(&a[1]).unwrap()) {
                    Ok((o, id)) => format!("ok {} {}", o, id),
                    Err(e) => format!("err {}", e),
                }
            }
            "h-delta" => match verif::delta(&a[0], Script::new(&a[1], &a[2])) {
                Ok(d) => format!("ok {}", b(&d)),
                // accepted with a length that is not the length of the result
                Err(e) if e.starts_with("header") => format!("ok but {}", e),
                Err(e) => format!("err {}", e),
            },
            "h-header" => match verif::entry_header(Script::new(&a[0], &a[1])) {
                Some((k, l, p)) => format!("ok {} {} {}", k, l, p),
                None => "err".into(),
            },
            "h-offset" => match verif::delta_offset(Script::new(&a[0], &a[1])) {
                Some((o, p)) => format!("ok {} {}", o, p),
                None => "err".into(),
            },
            t => panic!("unknown operation {}", t),
        }
    }
}
pub fn names_text(v: &[Vec<u8>]) -> String {
    let mut s = format!("ok {}", v.len());
    for n in v {
        s.push(' ');
        s.push_str(&b(n));
    }
    s
}
