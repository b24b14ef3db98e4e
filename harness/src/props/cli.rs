//! C24: the command line program, run as a process on files and streams of a scratch directory.
use super::syntax::any_text;
use super::values::{gen_map, render};
use super::*;
use crate::ensure;
use crate::gen;
use ferrous_chloride::value::from_reader;
use ferrous_chloride::MergeBehaviour;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

pub fn props() -> Vec<Prop> {
    vec![prop(
        "C24",
        vec![
            check("parse", 2_400, 40_000, "the document is well-formed and not empty, or the run must fail", c24),
            check("usage", 120, 1_000, "the arguments are not understood", usage),
        ],
    )]
}

/// removed with everything in it when the case ends
struct Scratch(PathBuf);
static NEXT: AtomicU64 = AtomicU64::new(0);

impl Scratch {
    fn new() -> Self {
        let d = std::env::temp_dir().join(format!("fcheck-cli-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir(&d).expect("scratch directory");
        Scratch(d)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// the program, where anyone can run it
fn cli() -> PathBuf {
    static AT: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
    AT.get_or_init(|| {
        use std::os::unix::fs::PermissionsExt;
        let exe = PathBuf::from(std::env::var("FCHECK_CLI").unwrap_or_else(|_| "target/cli/debug/fecl".into()));
        let open = exe.ancestors().all(|p| p.as_os_str().is_empty() || std::fs::metadata(p).map(|m| m.permissions().mode() & 1 != 0).unwrap_or(true));
        if open || !root() {
            return exe;
        }
        let d = copied();
        let _ = std::fs::create_dir(&d);
        let _ = std::fs::copy(&exe, d.join("fecl"));
        for p in [d.join("fecl"), d.clone()] {
            let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755));
        }
        d.join("fecl")
    })
    .clone()
}

fn copied() -> PathBuf {
    std::env::temp_dir().join(format!("fcheck-cli-{}-program", std::process::id()))
}

pub fn cleanup() {
    let _ = std::fs::remove_dir_all(copied());
}

struct Run {
    code: Option<i32>,
    out: Vec<u8>,
    err: Vec<u8>,
}

/// nobody's: whatever the program does to paths, it can only reach its own scratch folder
const NOBODY: u32 = 65534;

fn root() -> bool {
    use std::os::unix::fs::MetadataExt;
    std::fs::metadata("/proc/self").map(|m| m.uid() == 0).unwrap_or(false)
}

fn mode(path: &Path, mode: u32) {
    use std::os::unix::fs::PermissionsExt;
    // never through a link: the program under test may have put one there
    if std::fs::symlink_metadata(path).map(|m| m.is_file()).unwrap_or(false) {
        std::fs::set_permissions(path, std::fs::Permissions::from_mode(mode)).expect("permissions");
    }
}

fn give_away(path: &Path) {
    if let Err(e) = std::os::unix::fs::lchown(path, Some(NOBODY), Some(NOBODY)) {
        eprintln!("cannot give {} away: {}", path.display(), e);
        crate::alloc::die(2)
    }
    if std::fs::symlink_metadata(path).map(|m| m.is_dir()).unwrap_or(false) {
        for e in std::fs::read_dir(path).into_iter().flatten().flatten() {
            give_away(&e.path());
        }
    }
}

/// `limit`: how many blocks of 512 bytes a file can hold (what is over fails to be written);
/// `stdout`: a file to use as standard output
fn run(dir: &Path, args: &[String], input: Option<(Vec<u8>, usize)>, limit: Option<usize>, stdout: Option<&Path>) -> Run {
    let exe = cli();
    let mut c = match limit {
        None => Command::new(&exe),
        Some(n) => {
            let mut c = Command::new("/bin/sh");
            c.arg("-c").arg(format!("trap '' XFSZ; ulimit -f {} && exec \"$0\" \"$@\"; exit 99", n)).arg(&exe);
            c
        }
    };
    c.args(args).current_dir(dir).env_remove("RUST_BACKTRACE").stdout(Stdio::piped()).stderr(Stdio::piped());
    if let Some(p) = stdout {
        c.stdout(std::fs::File::create(p).expect("standard output"));
    }
    if root() {
        use std::os::unix::process::CommandExt;
        give_away(dir);
        c.uid(NOBODY).gid(NOBODY);
    }
    c.stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() });
    let mut ch = match c.spawn() {
        Ok(c) => c,
        Err(e) => {
            // not a statement about the program
            eprintln!("cannot run {}: {}", exe.display(), e);
            crate::alloc::die(2)
        }
    };
    let w = input.map(|(bytes, piece)| {
        let mut p = ch.stdin.take().unwrap();
        std::thread::spawn(move || {
            for c in bytes.chunks(piece.max(1)) {
                if p.write_all(c).is_err() {
                    break;
                }
            }
        })
    });
    let o = ch.wait_with_output().expect("output of the program");
    if let Some(w) = w {
        let _ = w.join();
    }
    Run { code: o.status.code(), out: o.stdout, err: o.stderr }
}

/// A rendering with the entries of every map sorted: the order of a hash map means nothing.
fn canon(t: &str) -> Result<Vec<String>, String> {
    let lines: Vec<&str> = t.lines().collect();
    let mut i = 0;
    let v = block(&lines, &mut i, 0)?;
    if i != lines.len() {
        return Err(format!("cannot read the rendering at line {}: {:?}", i, lines[i]));
    }
    Ok(v)
}

fn indent(l: &str) -> usize {
    l.len() - l.trim_start_matches(' ').len()
}

fn block(lines: &[&str], i: &mut usize, at: usize) -> Result<Vec<String>, String> {
    let mut out = vec![];
    while *i < lines.len() && indent(lines[*i]) >= at {
        let l = lines[*i];
        if indent(l) > at {
            return Err(format!("cannot read the rendering at line {}: {:?}", *i, l));
        }
        out.push(l.to_string());
        *i += 1;
        if *i < lines.len() && indent(lines[*i]) > at {
            let inner = block(lines, i, indent(lines[*i]))?;
            if l.trim_end().ends_with('{') {
                // entries end with a comma at their own level
                let lvl = indent(&inner[0]);
                let mut entries: Vec<Vec<String>> = vec![];
                let mut cur = vec![];
                for x in inner {
                    let done = indent(&x) == lvl && x.ends_with(',');
                    cur.push(x);
                    if done {
                        entries.push(std::mem::take(&mut cur));
                    }
                }
                if !cur.is_empty() {
                    entries.push(cur);
                }
                entries.sort();
                out.extend(entries.into_iter().flatten());
            } else {
                out.extend(inner);
            }
        }
    }
    Ok(out)
}

fn same_rendering(what: &str, got: &[u8], want: &str, merged: bool) -> CaseResult {
    let got = match std::str::from_utf8(got) {
        Ok(g) => g,
        Err(_) => return Err(format!("{}: not UTF-8", what)),
    };
    ensure!(got.ends_with('\n') == want.ends_with('\n'), "{}: end of line", what);
    if merged {
        // an escaped text never spans lines, so layout is structure
        same(what, &canon(got)?, &canon(want)?)
    } else {
        same(what, &got.to_string(), &want.to_string())
    }
}

fn content(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[5, 5, 3, 2, 2, 1, 1]) {
        0 => gen::doc(s).1.out.into_bytes(),
        1 => {
            let tidy = s.bool();
            let m = gen_map(s, 3, tidy);
            render(s, &m).into_bytes()
        }
        2 => {
            let mut t = gen::doc(s).1.out;
            gen::edit(s, &mut t, None);
            t.into_bytes()
        }
        3 => any_text(s).into_bytes(),
        4 => {
            // not UTF-8
            let mut b = gen::doc(s).1.out.into_bytes();
            let bad: &[&[u8]] = &[&[0xff], &[0xc3], &[0xe2, 0x82], &[0xed, 0xa0, 0x80], &[0xc0, 0x80], &[0xf4, 0x90, 0x80, 0x80]];
            let x = *s.pick(bad);
            let mut at = s.range(0, b.len());
            while at > 0 && at < b.len() && b[at] & 0xc0 == 0x80 {
                at -= 1;
            }
            b.splice(at..at, x.iter().copied());
            b
        }
        5 => {
            // longer than the buffers of pipes
            let n = s.range(2_000, 9_000);
            let mut t = String::new();
            for i in 0..n {
                t.push_str(&format!("name_{} = \"{}\"\n", i, i));
            }
            if s.chance(1, 3) {
                t.push_str("end = ");
            }
            t.into_bytes()
        }
        _ => vec![],
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum In {
    /// a file that may not be read
    Forbidden,
    Default,
    Dash,
    File,
    Missing,
    Directory,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Out {
    /// a file that may not be written
    ReadOnly,
    Default,
    Dash,
    New,
    Existing,
    NoParent,
    Directory,
    /// the input file itself
    Same,
    /// a file that cannot hold much, or anything
    Full,
    /// standard output that cannot hold much, or anything
    FullStdout,
    /// a symbolic link to a file elsewhere, there or not
    Link,
}

fn c24(s: &mut Src, cx: &mut Ctx) -> CaseResult {
    let doc = content(s);
    let no_merge = s.bool();
    let mut inp = [In::Default, In::Dash, In::File, In::Missing, In::Directory, In::Forbidden][s.weighted(&[8, 8, 16, 2, 2, 1])];
    let out = [Out::Default, Out::Dash, Out::New, Out::Existing, Out::NoParent, Out::Directory, Out::Same, Out::Full, Out::FullStdout, Out::Link, Out::ReadOnly]
        [s.weighted(&[12, 8, 10, 12, 2, 2, 2, 2, 2, 2, 1])];
    let explicit_out = out != Out::Default && out != Out::FullStdout;
    if explicit_out && inp == In::Default {
        inp = In::Dash;
    }
    if out == Out::Same {
        inp = In::File;
    }
    let scratch = Scratch::new();
    let dir = &scratch.0;
    // names that mean nothing more than other names; after -- any at all
    let dashes = explicit_out && s.chance(1, 6);
    let mut iname = s.pick(&["in.hcl", "an input", "é.hcl", "./-", "sub/-", "in", "in.json", "stdin", "x-", "sub/../parse", ".in", "*"]).to_string();
    let mut oname = s.pick(&["out.txt", "an output", "ü.txt", "sub/out", "./ -", "sub/ -", "sub/../o-", "stdout", "out", "out.json", ".out", "?"]).to_string();
    if oname.ends_with(" -") && iname != "./-" && iname != "sub/-" {
        oname = oname.replace(' ', "");
    }
    let absolute = s.bool();
    if dashes && !absolute {
        iname = s.pick(&["-in", "--no-merge", "in"]).to_string();
        oname = s.pick(&["-o", "--", "out", "--help"]).to_string();
    }
    let as_arg = |n: &str| if absolute { dir.join(n).to_string_lossy().into_owned() } else { n.to_string() };
    std::fs::create_dir(dir.join("sub")).unwrap();
    std::fs::create_dir(dir.join("folder")).unwrap();
    let mut args = vec!["parse".to_string()];
    match inp {
        In::Default => {}
        In::Dash => args.push("-".into()),
        In::File => {
            std::fs::write(dir.join(&iname), &doc).unwrap();
            args.push(as_arg(&iname));
        }
        In::Forbidden => {
            std::fs::write(dir.join(&iname), &doc).unwrap();
            mode(&dir.join(&iname), 0);
            args.push(as_arg(&iname));
        }
        In::Missing => args.push(as_arg("nothing-here")),
        In::Directory => args.push(as_arg("folder")),
    }
    let before: Option<Vec<u8>> = if matches!(out, Out::Existing | Out::ReadOnly) || (out == Out::Link && s.bool()) {
        // often longer than what replaces it
        let n = *s.pick(&[0usize, 1, 100, 100_000]);
        Some(vec![b'x'; n])
    } else {
        None
    };
    let opath = match out {
        Out::Default | Out::FullStdout => None,
        Out::Dash => {
            args.push("-".into());
            None
        }
        Out::New | Out::Existing | Out::Full | Out::ReadOnly => {
            if let Some(b) = &before {
                std::fs::write(dir.join(&oname), b).unwrap();
                if out == Out::ReadOnly {
                    mode(&dir.join(&oname), 0o444);
                } else if s.chance(1, 4) {
                    // it has to be written, not read
                    mode(&dir.join(&oname), 0o222);
                }
            }
            args.push(as_arg(&oname));
            Some(dir.join(&oname))
        }
        Out::Link => {
            // a name for a file that lies elsewhere, or does not exist yet
            let real = dir.join("folder").join("real");
            if let Some(b) = &before {
                std::fs::write(&real, b).unwrap();
            }
            std::os::unix::fs::symlink(&real, dir.join(&oname)).unwrap();
            args.push(as_arg(&oname));
            Some(real)
        }
        Out::NoParent => {
            args.push(as_arg("no-such-folder/out"));
            None
        }
        Out::Directory => {
            args.push(as_arg("folder"));
            None
        }
        Out::Same => {
            args.push(as_arg(&iname));
            Some(dir.join(&iname))
        }
    };
    if dashes {
        args.insert(1, "--".into());
    }
    if no_merge {
        let at = if dashes { 1 } else { s.range(1, args.len()) };
        args.insert(at, "--no-merge".into());
    }
    let shown = String::from_utf8_lossy(&doc).into_owned();
    cx.show = format!("{:?} {:?} {:?} {:?}", inp, out, args, clip(&shown, 600));

    // what the library says
    let behaviour = if no_merge { None } else { Some(MergeBehaviour::Error) };
    let lib = guard(|| from_reader(&doc[..], behaviour).map(|m| format!("{:#?}\n", m)).map_err(|e| e.to_string()))?;
    let readable = !matches!(inp, In::Missing | In::Directory | In::Forbidden);
    // the longest a file can get, in blocks of 512 bytes
    let limit = if matches!(out, Out::Full | Out::FullStdout) { Some(*s.pick(&[0usize, 0, 1, 8, 64])) } else { None };
    let fits = limit.map_or(true, |n| lib.as_ref().map_or(true, |l| l.len() <= n * 512));
    let writable = fits && !matches!(out, Out::NoParent | Out::Directory | Out::ReadOnly);
    let from_stdin = matches!(inp, In::Default | In::Dash);
    let piece = if from_stdin { *s.pick(&[1usize << 20, 7, 4096]) } else { 1 };
    let piece = if doc.len() > 20_000 { piece.max(4096) } else { piece };

    let limited_stdout = if out == Out::FullStdout { Some(dir.join("folder").join("stdout")) } else { None };
    let mut r = run(dir, &args, if from_stdin { Some((doc.clone(), piece)) } else { None }, limit, limited_stdout.as_deref());

    for p in [Some(dir.join(&iname)), opath.clone()].into_iter().flatten().filter(|p| p.exists()) {
        mode(&p, 0o644);
    }
    if let Some(p) = &limited_stdout {
        r.out = std::fs::read(p).unwrap_or_default();
    }
    let cut_short = limit.is_some() && !fits;
    let on_stdout = matches!(out, Out::Default | Out::Dash | Out::FullStdout);
    cx.label_if(cut_short, "output does not fit");
    let good = readable && writable && lib.is_ok();
    cx.nontrivial = !good || !doc.is_empty();
    cx.label(if good { "succeeds" } else { "fails" });
    cx.label_if(readable && lib.is_err(), "refused document");
    cx.label_if(out == Out::Same, "output replaces input");
    cx.label_if(readable && lib.is_err() && from_reader(&doc[..], None).is_ok(), "merge conflict");
    let said = format!("status {:?}, stdout {:?}, stderr {:?}", r.code, clip(&String::from_utf8_lossy(&r.out), 300), clip(&String::from_utf8_lossy(&r.err), 300));
    if good {
        let want = lib.clone().unwrap();
        ensure!(r.code == Some(0), "does not succeed on a document the library reads: {}", said);
        if on_stdout {
            same_rendering("standard output", &r.out, &want, !no_merge)?;
        } else {
            ensure!(r.out.is_empty(), "writes to standard output as well as to the file: {}", said);
            let got = match std::fs::read(opath.as_ref().unwrap()) {
                Ok(g) => g,
                Err(e) => return Err(format!("cannot read the output file: {}; {}", e, said)),
            };
            same_rendering("output file", &got, &want, !no_merge)?;
        }
    } else {
        ensure!(matches!(r.code, Some(c) if c != 0), "does not fail: {}", said);
        ensure!(!r.out.is_empty() || !r.err.is_empty(), "fails without printing an error: {}", said);
        let text = String::from_utf8_lossy(&r.out).into_owned() + &String::from_utf8_lossy(&r.err);
        ensure!(text.to_lowercase().contains("error") || text.contains("panicked"), "fails without an error: {}", said);
        // what does fit may have been written
        if !shown.contains("erged(") && !(cut_short && lib.is_ok()) {
            let doc_line = String::from_utf8_lossy(&r.out).lines().any(|l| l == "Merged(" || l == "Unmerged(" || l == "Merged({})" || l == "Unmerged([])");
            ensure!(!doc_line, "prints a document although it fails: {}", said);
        }
        match out {
            Out::Link if before.is_none() => ensure!(!opath.as_ref().unwrap().exists(), "creates the output file although it fails: {}", said),
            Out::Full if readable && lib.is_ok() => {}
            Out::New | Out::Full => ensure!(!opath.as_ref().unwrap().exists(), "creates the output file although it fails: {}", said),
            Out::Existing | Out::Link | Out::ReadOnly => {
                let got = std::fs::read(opath.as_ref().unwrap()).ok();
                ensure!(got == before, "modifies the output file although it fails: {}", said);
            }
            Out::Same => {
                let got = std::fs::read(opath.as_ref().unwrap()).ok();
                ensure!(got.as_ref() == Some(&doc), "modifies the file although it fails: {}", said);
            }
            _ => {}
        }
    }
    if matches!(inp, In::File | In::Forbidden) && out != Out::Same {
        let got = std::fs::read(dir.join(&iname)).ok();
        ensure!(got.as_ref() == Some(&doc), "modifies its input file");
    }
    // nothing else was made
    let mut names: Vec<String> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect();
    let last = |n: &str| Path::new(n).file_name().map(|n| n.to_string_lossy().into_owned());
    names.retain(|n| n != "sub" && n != "folder" && Some(n) != last(&iname).as_ref() && Some(n) != last(&oname).as_ref());
    ensure!(names.is_empty(), "leaves other files: {:?}", names);
    Ok(())
}

fn usage(s: &mut Src, cx: &mut Ctx) -> CaseResult {
    let scratch = Scratch::new();
    let dir = &scratch.0;
    std::fs::write(dir.join("in"), "a = 1\n").unwrap();
    let sets: &[&[&str]] = &[
        &[],
        &["unknown"],
        &["parse", "in", "out", "more"],
        &["parse", "--other", "in", "out"],
        &["parse", "in", "out", "--merge=yes"],
        &["unknown", "in", "out"],
        &["parse", "", "out"],
    ];
    let set = *s.pick(sets);
    cx.show = format!("{:?}", set);
    cx.nontrivial = true;
    let args: Vec<String> = set.iter().map(|x| x.to_string()).collect();
    let r = run(dir, &args, None, None, None);
    ensure!(matches!(r.code, Some(c) if c != 0), "succeeds on arguments it does not know: {:?}", r.code);
    ensure!(!r.out.is_empty() || !r.err.is_empty(), "fails without a message");
    ensure!(!dir.join("out").exists(), "creates the output file although it fails");
    Ok(())
}
