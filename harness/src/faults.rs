//! Stop or fail a write at each of its file operations, and look at what is left.
use crate::util::*;
use std::fs;
use std::io::Read;
use std::process::Command;

/// every file with the name of an object must be a complete object of that name
fn check_store(s: &Scratch) -> Result<usize, String> {
    let mut n = 0;
    for d in fs::read_dir(s.git().join("objects")).map_err(|e| e.to_string())? {
        let d = d.unwrap();
        let dn = d.file_name().into_string().unwrap_or_default();
        if dn.len() != 2 || !d.path().is_dir() {
            continue;
        }
        for f in fs::read_dir(d.path()).unwrap() {
            let f = f.unwrap();
            let name = f.file_name().into_string().unwrap_or_default();
            if name.len() != 38 || !name.bytes().all(|c| c.is_ascii_hexdigit()) {
                continue;
            }
            let z = fs::read(f.path()).unwrap();
            let mut out = vec![];
            let ok = flate2::read::ZlibDecoder::new(&z[..]).read_to_end(&mut out).is_ok();
            if !ok || hex(&sha1(&out)) != format!("{}{}", dn, name) {
                return Err(format!("object {}{} is left with {} bytes that are not its data", dn, name, z.len()));
            }
            n += 1;
        }
    }
    Ok(n)
}

pub fn explore(content: &[u8], start: u64, mode: &[u8]) -> String {
    let lib = match std::env::var_os("RG_FAULT_LIB") {
        Some(l) => l,
        None => return "skipped".into(),
    };
    let mode = std::str::from_utf8(mode).unwrap();
    let id = sha1(content);
    let mut runs = 0;
    let mut at = 1;
    loop {
        let s = Scratch::new();
        let other = b"blob 5\0other";
        if start & 1 != 0 {
            // the folder is already there, with another object
            let mut x = id;
            x[19] ^= 1;
            fs::create_dir_all(s.loose_path(&x).parent().unwrap()).unwrap();
            s.put_loose_at(&sha1(other), &zlib(other));
        }
        if start & 2 != 0 {
            s.put_loose_at(&id, &zlib(content));
        }
        let input = s.root.join("input");
        fs::write(&input, content).unwrap();
        let rival = s.root.join("rival");
        fs::write(&rival, zlib(content)).unwrap();
        let out = Command::new(std::env::current_exe().unwrap())
            .arg("writer")
            .arg(&s.root)
            .arg(&input)
            .env("LD_PRELOAD", &lib)
            .env("RG_FAULT_AT", at.to_string())
            .env("RG_FAULT_MODE", mode)
            .env("RG_FAULT_SRC", &rival)
            .env("RG_FAULT_DST", s.loose_path(&id))
            .output()
            .unwrap();
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        let last = text.lines().last().unwrap_or("").to_string();
        runs += 1;
        let here = format!("{} at file operation {}", mode, at);
        if let Err(e) = check_store(&s) {
            return format!("bad after {}: {}", here, e);
        }
        let count: u64 = last.split_whitespace().nth(1).and_then(|x| x.parse().ok()).unwrap_or(u64::MAX);
        if last.starts_with("done") || last.starts_with("failed") {
            if !out.status.success() {
                return format!("bad after {}: the writer ended with {}", here, out.status);
            }
        } else if out.status.code() != Some(77) {
            return format!("bad after {}: the writer ended with {}", here, out.status);
        }
        let repo = s.open();
        let read = |repo: &rusty_git::repository::Repository| -> Result<Option<Vec<u8>>, String> {
            match repo.object_database().read_object(rid(&id)) {
                Ok(mut r) => {
                    let mut v = vec![];
                    r.reader().read_to_end(&mut v).map_err(|e| e.to_string())?;
                    Ok(Some(v))
                }
                Err(e) if e.is_not_found() => Ok(None),
                Err(e) => Err(e.to_string()),
            }
        };
        match read(&repo) {
            Err(e) => return format!("bad after {}: reading the object fails: {}", here, e),
            Ok(Some(v)) if v != content => return format!("bad after {}: the object reads as {} bytes instead of {}", here, v.len(), content.len()),
            Ok(None) if last.starts_with("done") => return format!("bad after {}: the write succeeded but the object is not there", here),
            Ok(None) if mode.starts_with("race") && count >= at => return format!("bad after {}: another writer stored the object there, and it is lost", here),
            Ok(None) if start & 2 != 0 => return format!("bad after {}: the object was there before and is lost", here),
            _ => (),
        }
        if last.starts_with("done") && last.split_whitespace().nth(2) != Some(&hex(&id)) {
            return format!("bad after {}: the write returned {}", here, last);
        }
        // a later write repairs whatever happened
        match repo.object_database().write_object(content) {
            Ok(w) if w == rid(&id) => (),
            Ok(w) => return format!("bad after {}: the next write returned {}", here, w),
            Err(e) => return format!("bad after {}: the next write failed: {}", here, e),
        }
        match read(&repo) {
            Ok(Some(v)) if v == content => (),
            _ => return format!("bad after {}: the object is missing after the next write", here),
        }
        if let Err(e) = check_store(&s) {
            return format!("bad after {} and another write: {}", here, e);
        }
        if count < at || at > 4000 {
            return format!("ok {}", runs);
        }
        // visit every one of the first operations, then larger and larger steps
        at += if at < 24 { 1 } else { at / 8 };
    }
}

/// the process that writes: `writer <root> <file>`
pub fn writer(root: &str, input: &str) {
    let content = fs::read(input).unwrap();
    let repo = rusty_git::repository::Repository::open(root).unwrap();
    let (start, stop, count) = unsafe {
        let f = |n: &str| libc::dlsym(libc::RTLD_DEFAULT, std::ffi::CString::new(n).unwrap().as_ptr());
        (f("rg_fault_start"), f("rg_fault_stop"), f("rg_fault_count"))
    };
    if start.is_null() {
        println!("nolib");
        return;
    }
    let start: extern "C" fn() = unsafe { std::mem::transmute(start) };
    let stop: extern "C" fn() = unsafe { std::mem::transmute(stop) };
    let count: extern "C" fn() -> i32 = unsafe { std::mem::transmute(count) };
    start();
    let r = repo.object_database().write_object(&content);
    stop();
    let n = count();
    match r {
        Ok(id) => println!("done {} {}", n, id.to_hex()),
        Err(_) => println!("failed {}", n),
    }
}
