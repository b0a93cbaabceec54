//! Contract files. See DESIGN.md ("Contract files").
use std::collections::BTreeMap;

#[derive(Debug, Clone, Default)]
pub struct FnContract {
    pub key: String,
    pub line: usize,
    pub file: String,
    pub opts: BTreeMap<String, String>,
    pub sig: String,
    pub loops: BTreeMap<usize, (String, String)>, // kind, text
    pub loop_start: BTreeMap<usize, String>,
    pub loop_end: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    pub start: String,
    pub tail: String,
    pub rets: BTreeMap<usize, String>,
    pub after: Vec<(String, String)>,
    pub before: Vec<(String, String)>,
    pub isolate: Vec<(String, String)>,
    pub attrs: String,
}

#[derive(Debug, Clone)]
pub enum Item {
    Text(String),
    Struct(String, BTreeMap<String, String>),
    Const(String),
    Fn(FnContract),
    ImplOpen(String),
    World(Vec<String>),
    ImplClose,
}

#[derive(Debug, Clone)]
pub struct File {
    pub name: String,
    pub module: String,
    pub src: Option<String>,
    pub items: Vec<Item>,
}

fn opts(words: &[&str]) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for w in words {
        match w.split_once('=') {
            Some((k, v)) => m.insert(k.to_string(), v.to_string()),
            None => m.insert(w.to_string(), String::new()),
        };
    }
    m
}

pub fn load_dir(dir: &str) -> Vec<File> {
    let mut names: Vec<_> = std::fs::read_dir(dir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map_or(false, |e| e == "vc"))
        .collect();
    names.sort();
    let mut out = vec![];
    for p in names {
        load(&p.to_string_lossy(), &mut out);
    }
    out
}

fn load(path: &str, out: &mut Vec<File>) {
    let text = std::fs::read_to_string(path).unwrap();
    let mut cur: Option<File> = None;
    let mut verb = String::new();
    let mut lines = text.lines().enumerate().peekable();
    macro_rules! flush {
        () => {
            if !verb.trim().is_empty() {
                cur.as_mut().expect("text before @mod").items.push(Item::Text(std::mem::take(&mut verb)));
            }
            verb.clear();
        };
    }
    while let Some((ln, line)) = lines.next() {
        let t = line.trim_start();
        if t.starts_with("@//") {
            continue;
        }
        if !t.starts_with('@') {
            verb.push_str(line);
            verb.push('\n');
            continue;
        }
        let words: Vec<&str> = t.split_whitespace().collect();
        match words[0] {
            "@mod" => {
                if cur.is_some() {
                    flush!();
                    out.push(cur.take().unwrap());
                }
                let o = opts(&words[2..]);
                cur = Some(File {
                    name: path.to_string(),
                    module: words[1].to_string(),
                    src: o.get("src").cloned(),
                    items: vec![],
                });
            }
            "@struct" | "@enum" | "@type" => {
                flush!();
                cur.as_mut().unwrap().items.push(Item::Struct(words[1].to_string(), opts(&words[2..])));
            }
            "@const" => {
                flush!();
                cur.as_mut().unwrap().items.push(Item::Const(words[1].to_string()));
            }
            "@impl" => {
                flush!();
                cur.as_mut().unwrap().items.push(Item::ImplOpen(t["@impl".len()..].trim().to_string()));
            }
            "@world" => {
                flush!();
                cur.as_mut().unwrap().items.push(Item::World(words[1..].iter().map(|s| s.to_string()).collect()));
            }
            "@endimpl" => {
                flush!();
                cur.as_mut().unwrap().items.push(Item::ImplClose);
            }
            "@fn" => {
                flush!();
                // @fn key words up to `;;` then options
                let rest = t["@fn".len()..].trim();
                let (key, o) = match rest.split_once(";;") {
                    Some((k, o)) => (k.trim(), opts(&o.split_whitespace().collect::<Vec<_>>())),
                    None => (rest, BTreeMap::new()),
                };
                let mut c = FnContract { key: key.to_string(), line: ln + 1, file: path.to_string(), opts: o, ..Default::default() };
                let mut sect = String::from("sig");
                let mut arg = String::new();
                let mut arg2 = String::new();
                let mut buf = String::new();
                loop {
                    let (l2, line) = match lines.next() {
                        Some(x) => x,
                        None => panic!("{}:{}: @fn without @end", path, ln + 1),
                    };
                    let t = line.trim_start();
                    if t.starts_with("@//") {
                        continue;
                    }
                    if !t.starts_with('@') {
                        buf.push_str(line);
                        buf.push('\n');
                        continue;
                    }
                    let b = std::mem::take(&mut buf);
                    let n = || arg.parse::<usize>().unwrap_or_else(|_| panic!("{}:{}: bad number {}", path, l2, arg));
                    match sect.as_str() {
                        "sig" => c.sig = b,
                        "start" => c.start = b,
                        "tail" => c.tail = b,
                        "attrs" => c.attrs = b,
                        "loop" => { c.loops.insert(n(), (arg2.clone(), b)); }
                        "loopstart" => { c.loop_start.insert(n(), b); }
                        "loopend" => { c.loop_end.insert(n(), b); }
                        "closure" => { c.closures.insert(n(), b); }
                        "ret" => { c.rets.insert(n(), b); }
                        "after" => { c.after.push((arg.clone(), b)); }
                        "isolate" => { c.isolate.push((arg.clone(), b)); }
                        "before" => { c.before.push((arg.clone(), b)); }
                        s => panic!("{}:{}: unknown section {}", path, l2, s),
                    }
                    let w: Vec<&str> = t.split_whitespace().collect();
                    if w[0] == "@end" {
                        break;
                    }
                    sect = w[0][1..].to_string();
                    arg = w.get(1).unwrap_or(&"").to_string();
                    arg2 = w.get(2).unwrap_or(&"").to_string();
                }
                cur.as_mut().unwrap().items.push(Item::Fn(c));
            }
            w => panic!("{}:{}: unknown directive {}", path, ln + 1, w),
        }
    }
    if cur.is_some() {
        flush!();
        out.push(cur.take().unwrap());
    }
}
