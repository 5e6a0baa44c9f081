//! C24: the command line tool writes what the library computes, where it was told to.
use super::{sym, util::*};

struct Run { ok: bool, out: String, err: String }
/// run the tool in the scratch directory, then judge what it did (also when it ends the process)
#[cfg(target_family = "wasm")]
fn run(args: &[&str], stdin: &str, limit: Option<usize>, judge: impl FnOnce(Run) + 'static) {
    let _ = std::fs::create_dir("/dev");
    let _ = std::fs::remove_file("/dev/limit");
    std::fs::write("/dev/args", std::iter::once(&"avdl").chain(args).copied().collect::<Vec<_>>().join("\0")).unwrap();
    std::fs::write("/dev/stdin", stdin).unwrap();
    for f in ["/dev/stdout", "/dev/stderr"] { let _ = std::fs::remove_file(f); }
    JUDGE.set(Some(Box::new(judge)));
    if let Some(l) = limit { std::fs::write("/dev/limit", l.to_string()).unwrap() }
    match crate::main() {
        Ok(()) => ended(true, String::new()),
        Err(e) => ended(false, format!("{e:?}")),
    }
}
#[cfg(target_family = "wasm")]
thread_local!(static JUDGE: std::cell::Cell<Option<Box<dyn FnOnce(Run)>>> = const { std::cell::Cell::new(None) });
#[cfg(target_family = "wasm")]
fn ended(ok: bool, e: String) {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let _ = std::fs::remove_file("/dev/limit");
    let text = |f| std::fs::read_to_string(f).unwrap_or_default();
    JUDGE.take().unwrap()(Run { ok, out: text("/dev/stdout"), err: text("/dev/stderr") + &e });
}
#[cfg(target_family = "wasm")]
#[unsafe(no_mangle)]
extern "C" fn vp_exit(code: i32) {
    ended(code == 0, String::new());
    sym::done();
}
#[cfg(not(target_family = "wasm"))]
fn run(args: &[&str], stdin: &str, limit: Option<usize>, judge: impl FnOnce(Run) + 'static) {
    use std::io::Write;
    let tool = std::env::var("VP_AVDL").expect("VP_AVDL");
    let p = std::process::Stdio::piped;
    let mut c = match limit {
        None => std::process::Command::new(tool),
        Some(l) => {
            let mut c = std::process::Command::new("sh");
            c.args(["-c", "trap '' XFSZ; o=$(mktemp); exec 3<\"$o\" 4>\"$o\"; rm \"$o\"; prlimit --fsize=$0 \"$@\" >&4; r=$?; cat <&3; exit $r", &l.to_string(), &tool]);
            c
        }
    };
    let mut c = c.args(args).env("NO_COLOR", "1").stdin(p()).stdout(p()).stderr(p()).spawn().unwrap();
    let _ = c.stdin.take().unwrap().write_all(stdin.as_bytes());
    let o = c.wait_with_output().unwrap();
    let s = |b| String::from_utf8(b).unwrap();
    sym::input(&format!("avdl {}", args.join(" ")));
    check(matches!(o.status.code(), Some(0..=2)), "the tool crashes");
    judge(Run { ok: o.status.success(), out: s(o.stdout), err: s(o.stderr) })
}
/// every file below the scratch directory with its content
fn files() -> Vec<(String, String)> {
    fn walk(d: &str, rel: &str, out: &mut Vec<(String, String)>) {
        for e in std::fs::read_dir(d).unwrap().flatten() {
            let n = e.file_name().into_string().unwrap();
            let (p, r) = (format!("{d}/{n}"), format!("{rel}{n}"));
            if e.file_type().unwrap().is_dir() { out.push((format!("{r}/"), String::new())); walk(&p, &format!("{r}/"), out) } else { out.push((r, std::fs::read_to_string(&p).unwrap())) }
        }
    }
    let mut v = Vec::new();
    walk(sym::root(), "", &mut v);
    v.sort();
    v
}
fn pretty(v: &serde_json::Value) -> String { serde_json::to_string_pretty(v).unwrap() }
fn put(fs: &mut Vec<(String, String)>, name: &str, text: String) {
    fs.retain(|f| f.0 != name);
    fs.push((name.to_string(), text));
    fs.sort();
}
const SRC: &[&str] = &[
    "protocol P { record # { int i; } }",
    "protocol P { record # { int i; } /** lost */ }",
    "protocol P { record # { Undefined i; } }",
    "protocol P { % record # { Undefined i; } }",
    "schema #; enum # { A }",
    "record # { string s; }",
    "protocol P { import idl \"i.avdl\"; record R { # f; } }",
];
/// what has to be there after `idl` or `idl2schemata`
struct Want { ok: bool, noisy: bool, out: String, files: Vec<(String, String)> }
fn want_idl(input: Option<&str>, output: Option<&str>, dirs: &[&str], stdin: &str) -> Want {
    let mut c = avdl::Idl::new();
    for d in dirs { c.import_dir(at(d)); }
    let r = match input {
        None | Some("-") => c.convert_str(leak(stdin.to_string())),
        Some(p) => c.convert(at(p)),
    };
    let warned = r.as_ref().map(|o| o.warnings.len()).unwrap_or_else(|_| c.drain_warnings().len()) > 0;
    let mut w = Want { ok: r.is_ok(), noisy: warned, out: String::new(), files: files() };
    match (r.map(|o| pretty(&o.json)), output) {
        (Ok(t), None | Some("-")) => w.out = t,
        (Ok(t), Some(f)) => if writable(&w.files, f) { put(&mut w.files, f, format!("{t}\n")) } else { w.ok = false },
        _ => {}
    }
    w.noisy |= !w.ok;
    w
}
fn want_schemata(input: &str, output: Option<&str>, dirs: &[&str]) -> Want {
    let mut c = avdl::Idl2Schemata::new();
    for d in dirs { c.import_dir(at(d)); }
    let r = c.extract(at(input));
    let warned = r.as_ref().map(|o| o.warnings.len()).unwrap_or_else(|_| c.drain_warnings().len()) > 0;
    let mut w = Want { ok: r.is_ok(), noisy: warned, out: String::new(), files: files() };
    if let Ok(o) = r {
        let d = match output { None | Some(".") => "", Some(o) => o };
        if d != "" && w.files.iter().any(|f| f.0 == d) { w.ok = false } else {
            let mut dir = String::new();
            for p in d.split('/').filter(|p| !p.is_empty()) { dir += &format!("{p}/"); put(&mut w.files, &dir, String::new()) }
            for s in o.schemas { put(&mut w.files, &format!("{dir}{}.avsc", s.name), format!("{}\n", pretty(&s.schema))) }
        }
    }
    w.noisy |= !w.ok;
    w
}
fn at(p: &str) -> String { if p.is_empty() { String::new() } else { format!("{}/{p}", sym::root()) } }
fn writable(fs: &[(String, String)], f: &str) -> bool {
    let has = |f: &str| fs.iter().any(|x| x.0 == f);
    !f.is_empty() && !has(&format!("{f}/")) && f.rfind('/').is_none_or(|i| has(&f[..=i]))
}
fn compare(args: &[&str], stdin: &str, w: Want) {
    let a = format!("{args:?}");
    run(args, stdin, None, move |r| {
        sym::reach(if r.ok { "accepted" } else { "rejected" });
        sym::note(&format!("{a} {} {} {}", r.ok, r.out, r.err));
        check(!w.ok || r.ok, "the tool fails where the library succeeds");
        check(w.ok || !r.ok, "the tool succeeds where the library fails or the output cannot be written");
        check(!w.noisy || !r.err.is_empty(), "a warning or an error is not printed");
        check(w.noisy || r.err.is_empty(), "something is printed on standard error without a warning or an error");
        check(r.out == w.out, "what the tool prints is not what the library computes");
        check(files() == w.files, "the tool does not write exactly the files it was told to, or touches another one");
    })
}
/// `idl`: sources, inputs, outputs, import directories
pub fn cli_idl() {
    let w = word("w", 1);
    write("d/i.avdl", &format!("protocol I {{ enum {w} {{ A }} /** lost */ }}"));
    let src = sym::one_of("src", SRC).replace('#', &w);
    let input = sym::one_of("input", &[Some("m.avdl"), Some("./d/../m.avdl"), Some("-"), None, Some("none.avdl"), Some("d")]);
    let output = sym::one_of("output", &[None, Some("-"), Some("out.json"), Some("d/old.json"), Some("no/out.json"), Some("d"), Some("m.avdl")]);
    sym::assume(input.is_some() || output.is_none());
    let dirs = sym::pick("dirs", 4);
    let stdin = input.is_none_or(|i| i == "-");
    write("m.avdl", if stdin { "protocol File { }" } else { &src });
    write("d/old.json", &"old, and longer than anything written\n".repeat(40));
    let mut args: Vec<&str> = vec!["idl"];
    match dirs { 1 => args.extend(["--import-dir", "d"]), 2 => args.push("--import-dir=d"), _ => {} }
    args.extend(input);
    if dirs == 3 { args.extend(["--import-dir", "e", "--import-dir=d"]) }
    args.extend(output);
    let stdin = if stdin { &src } else { "protocol Stdin { }" };
    let want = want_idl(input, output, [&[][..], &["d"], &["d"], &["e", "d"]][dirs], stdin);
    compare(&args, stdin, want)
}
/// `idl2schemata`: sources, files and directories, output directories
pub fn cli_schemata() {
    let w = word("w", 1);
    write("d/i.avdl", &format!("protocol I {{ enum {w} {{ A }} /** lost */ }}"));
    write("d/x/y.avdl", "protocol Y { record Y { } fixed Z(1); }");
    let src = sym::one_of("src", &[SRC, &["@namespace(\"a.b\") protocol P { record # { int i; } @namespace(\"c\") enum E { A } }", "protocol P { }"]].concat()).replace('#', &w);
    let input = sym::one_of("input", &["m.avdl", "d", "none.avdl"]);
    let output = sym::one_of("output", &[None, Some("."), Some("d"), Some("new/deep"), Some("f"), Some("full")]);
    let dirs = sym::pick("dirs", 3);
    write("m.avdl", &src);
    write("f", "a file");
    write(&format!("full/{w}.avsc"), &"old, and longer than anything written\n".repeat(40));
    write(&format!("full/{}", sym::one_of("keep", &["keep", "index.avsc", "E.avsc", "P.avsc", "m.avdl", "full.avsc", "sub/x.avsc", "R.avsc.bak", ".avsc"])), "kept");
    let mut args: Vec<&str> = vec!["idl2schemata"];
    if dirs == 1 { args.extend(["--import-dir", "d"]) }
    args.push(input);
    args.extend(output);
    if dirs == 2 { args.push("--import-dir=d") }
    let want = want_schemata(input, output, if dirs > 0 { &["d"] } else { &[] });
    compare(&args, "", want)
}
/// any list of up to three import directories, before or after the input, of which some have the file
pub fn cli_dirs() {
    let w = word("w", 1);
    for d in ["a", "b"] {
        let has = sym::pick(d, 3);
        if has == 1 { write(&format!("{d}/i.avdl"), &format!("protocol I {{ enum {w} {{ In{d} }} }}")) }
        if has == 2 { write(&format!("{d}/other.avdl"), "protocol O { }") }
    }
    write("m.avdl", "protocol P { import idl \"i.avdl\"; record R { int i; } }");
    let extract = sym::flag("extract");
    let mut args: Vec<&str> = vec![if extract { "idl2schemata" } else { "idl" }];
    let mut dirs: Vec<&str> = vec![];
    let n = sym::pick("n", 4);
    let at = sym::pick("input", 4);
    sym::assume(at <= n);
    for i in 0..=n {
        if i == at { args.push("m.avdl") }
        if i == n { break }
        match sym::pick("dir", 4) { 0 => { args.extend(["--import-dir", "a"]); dirs.push("a") } 1 => { args.extend(["--import-dir", "b"]); dirs.push("b") } 2 => { args.push("--import-dir=b"); dirs.push("b") } _ => { args.push("--import-dir=none"); dirs.push("none") } }
    }
    let want = if extract { args.push("out"); want_schemata("m.avdl", Some("out"), &dirs) } else { want_idl(Some("m.avdl"), None, &dirs, "") };
    compare(&args, "", want)
}
/// any list of up to four arguments
pub fn cli_args() {
    const ARGS: &[&str] = &["idl", "idl2schemata", "m.avdl", "out", "-", "--", "-h", "--help", "-V", "--version", "--import-dir", "--import-dir=d", "d", "-x", "--importdir", "none"];
    let first = sym::one_of("a0", ARGS);
    let n = if matches!(first, "idl" | "idl2schemata") { sym::pick("n", 4) } else { sym::pick("n", 2) };
    let mut args = vec![first];
    for i in 0..n { args.push(sym::one_of(["a1", "a2", "a3"][i], ARGS)) }
    if sym::flag("none") { args.clear() }
    // the unknown option is any letter, the file any word
    let c = sym::byte("c", b'!', b'~');
    sym::assume(!matches!(c, b'h' | b'-'));
    let (opt, file) = (leak(sym::text(vec![b'-', c])), leak(format!("{}.avdl", word("m", 1))));
    let first_v = args.first() == Some(&"-x");
    if first_v { sym::assume(c != b'V') }
    for a in args.iter_mut() { if *a == "-x" { *a = opt } else if *a == "m.avdl" { *a = file } }
    let stdin = "protocol Stdin { import idl \"i.avdl\"; }";
    write(file, "protocol M { import idl \"i.avdl\"; }");
    write("d/i.avdl", "protocol I { enum E { A } }");
    let (mut pos, mut dirs, mut help, mut bad) = (vec![], vec![], false, false);
    let mut it = args.iter().copied();
    match it.next() {
        Some("-h" | "--help" | "-V" | "--version") => help = true,
        // whether `--` may precede the subcommand is not documented
        Some("--") => sym::assume(false),
        Some("idl" | "idl2schemata") => while let (Some(a), false) = (it.next(), help || bad) {
            match a {
                "--" => { pos.extend(it); break }
                "--import-dir" => match it.next() { Some(d) => dirs.push(d), None => bad = true },
                "--import-dir=d" => dirs.push("d"),
                "-h" | "--help" => help = true,
                "-V" | "--version" | "--importdir" => bad = true,
                p if std::ptr::eq(p, opt) => bad = true,
                p => pos.push(p),
            }
        },
        _ => bad = true,
    }
    sym::assume(pos.len() <= 2);
    bad |= !help && pos.is_empty() && args.first() == Some(&"idl2schemata");
    if help || bad {
        let fs = files();
        run(&args, stdin, None, move |r| {
            check(r.ok == help, "asking for help fails, or wrong arguments are accepted");
            check(r.out.is_empty() != help && r.err.is_empty() == help, "help is not printed on standard output, or an error not on standard error");
            check(files() == fs, "the tool writes a file when asked for help or given wrong arguments");
        });
        return
    }
    let out = pos.get(1).copied();
    let want = if args[0] == "idl" { want_idl(pos.first().copied(), out, &dirs, stdin) } else { want_schemata(pos[0], out, &dirs) };
    compare(&args, stdin, want)
}
/// options that do not exist
pub fn cli_options() {
    let c = sym::byte("c", b'!', b'~');
    let sub = sym::one_of("sub", &["idl", "idl2schemata"]);
    write("m.avdl", "protocol P { record R { } }");
    write("d/i.avdl", "protocol I { }");
    let fs = files();
    sym::assume(c != b'h');
    let opt = match sym::pick("opt", 4) {
        0 => { sym::assume(c != b'-'); sym::text(vec![b'-', c]) }
        1 => sym::text([b"--import-di".as_slice(), &[c]].concat()),
        2 => { sym::assume(c != b'='); sym::text([b"--import-dir".as_slice(), &[c]].concat()) }
        _ => sym::text(vec![b'-', b'-', c]),
    };
    let valid = opt == "--import-dir";
    let first = sym::flag("first");
    let args = if first { [sub, &opt, "d", "m.avdl"] } else { [sub, "m.avdl", &opt, "d"] };
    run(&args, "protocol Stdin { }", None, move |r| if valid { sym::reach("accepted"); check(r.ok, "a valid option is rejected") } else {
        sym::reach("rejected");
        check(!r.ok && !r.err.is_empty(), "an option that does not exist is accepted");
        check(r.out.is_empty() && files() == fs, "the tool goes on after an option that does not exist");
    })
}
/// output that runs out of space after any number of bytes
pub fn cli_full() {
    let w = word("w", 1);
    let src = sym::one_of("src", &["protocol P { record # { int i; } }", "schema #; enum # { A }", "@namespace(\"a\") protocol P { fixed #(1); /** lost */ record R { # f; } }"]).replace('#', &w);
    write("m.avdl", &src);
    write("out/old.avsc", "old");
    let limit = sym::pick("limit", 8) * 32 + sym::pick("limit", 32);
    let (args, want) = match sym::pick("form", 4) {
        0 => (vec!["idl", "m.avdl"], want_idl(Some("m.avdl"), None, &[], "")),
        1 => (vec!["idl", "-", "-"], want_idl(Some("-"), Some("-"), &[], &src)),
        2 => (vec!["idl", "m.avdl", "out/x.json"], want_idl(Some("m.avdl"), Some("out/x.json"), &[], "")),
        _ => (vec!["idl2schemata", "m.avdl", "out"], want_schemata("m.avdl", Some("out"), &[])),
    };
    let old: Vec<String> = files().into_iter().map(|f| f.0).collect();
    let fits = want.out.len() <= limit && want.files.iter().all(|f| old.contains(&f.0) || f.1.len() <= limit);
    run(&args.clone(), if args.contains(&"-") { &src } else { "" }, Some(limit), move |r| {
        sym::note(&format!("{args:?} {limit} {} {} {}", r.ok, r.out, r.err));
        if fits {
            sym::reach("accepted");
            check(r.ok && r.out == want.out && files() == want.files, "the tool fails, or writes something else, where the output fits");
        } else {
            sym::reach("rejected");
            check(!r.ok && !r.err.is_empty(), "output that could not be written is not an error");
            check(want.out.starts_with(&r.out), "something else than the output is printed");
            for f in files() { check(want.files.iter().any(|g| g.0 == f.0 && g.1.starts_with(&f.1)), "the tool touches a file it was not told to write") }
        }
    })
}
