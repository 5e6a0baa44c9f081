#!/usr/bin/env python3
"""Prepare the symbolic-build environment under /verif/.work (idempotent).

* .work/std-src     copy of the nightly rust-src `library` tree with the in-memory
                    file system, the stub hasher, cwd/args/stdout models
* .work/vendor      directory source: /repo's locked crates + std's vendored crates,
                    with antlr4rust's lexer DFA cache patched not to cache edges for
                    symbolic characters
* .work/src         scratch copy of /repo's src + a Cargo.toml without dev-deps and
                    without miette's terminal renderer (regenerated on every run)
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("VERIF_WORK", V + "/.work")
REPO = os.environ.get("VERIF_REPO", "/repo")
TC = "nightly-x86_64-unknown-linux-gnu"
REG = "/root/.cargo/registry/src"


def sub(path, pairs):
    t = open(path).read()
    for a, b in pairs:
        assert a in t, (path, a)
        t = t.replace(a, b)
    open(path, "w").write(t)


def stamp(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(open(p, "rb").read())
    return h.hexdigest()


def rm(p):
    if os.path.islink(p) or os.path.isfile(p):
        os.unlink(p)
    elif os.path.isdir(p):
        shutil.rmtree(p)


def std_src():
    sysroot = subprocess.check_output(["rustc", "+" + TC, "--print", "sysroot"], text=True).strip()
    lib = sysroot + "/lib/rustlib/src/rust/library"
    out = W + "/std-src/library"
    st = stamp(V + "/env/std_fs.rs", __file__) + sysroot
    mark = W + "/std-src.stamp"
    if os.path.exists(mark) and open(mark).read() == st:
        return
    rm(W + "/std-src")
    rm(W + "/target-wasm")  # cargo does not notice changes of std
    shutil.copytree(lib, out, symlinks=True)
    shutil.copy(V + "/env/std_fs.rs", out + "/std/src/sys/fs/unsupported.rs")
    sub(out + "/std/src/sys/path/unix.rs", [
        ('target_os = "hermit", target_os = "wasi", target_os = "motor"',
         'target_os = "hermit", target_family = "wasm", target_os = "motor"')])
    sub(out + "/std/src/sys/paths/unsupported.rs", [
        ("pub fn getcwd() -> io::Result<PathBuf> {\n    unsupported()",
         'pub fn getcwd() -> io::Result<PathBuf> {\n    Ok(PathBuf::from("/w"))')])
    # hasher: the engine decides the hash (constant by default, symbolic when a
    # harness asks for arbitrary iteration orders)
    sub(out + "/std/src/hash/random.rs", [
        ("pub struct DefaultHasher(SipHasher13);", "pub struct DefaultHasher(SipHasher13, u64);"),
        ("DefaultHasher(SipHasher13::new_with_keys(0, 0))", "DefaultHasher(SipHasher13::new_with_keys(0, 0), 0)"),
        ("DefaultHasher(SipHasher13::new_with_keys(self.k0, self.k1))",
         "DefaultHasher(SipHasher13::new_with_keys(self.k0, self.k1), 0)"),
        ("        self.0.write(msg)\n",
         "        unsafe { self.1 = vp_hash_write(self.1, msg.as_ptr(), msg.len()) }\n"),
        ("        self.0.write_str(s);\n",
         "        unsafe { self.1 = vp_hash_write(self.1, s.as_ptr(), s.len()) }\n"),
        ("        self.0.finish()\n", "        unsafe { vp_hash_finish(self.1) }\n"),
        ("/// The default [`Hasher`] used by [`RandomState`].\n",
         '#[link(wasm_import_module = "env")]\nunsafe extern "C" {\n'
         "    fn vp_hash_write(acc: u64, p: *const u8, n: usize) -> u64;\n"
         "    fn vp_hash_finish(acc: u64) -> u64;\n}\n\n"
         "/// The default [`Hasher`] used by [`RandomState`].\n"),
    ])
    # RandomState::new consults thread-local keys; fine as is.
    sub(out + "/std/src/sys/stdio/unsupported.rs", [
        ("pub fn is_ebadf(_err: &io::Error) -> bool {\n    true", "pub fn is_ebadf(_err: &io::Error) -> bool {\n    false"),
        ("pub type Stderr = Stdout;", "pub struct Stderr;\n"
         "impl Stderr { pub const fn new() -> Stderr { Stderr } }\n"
         "impl io::Write for Stderr {\n"
         "    fn write(&mut self, buf: &[u8]) -> io::Result<usize> { crate::sys::fs::append_raw(\"/dev/stderr\", buf); Ok(buf.len()) }\n"
         "    fn flush(&mut self) -> io::Result<()> { Ok(()) }\n}"),
        ("    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {\n        Ok(buf.len())\n",
         "    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {\n        crate::sys::fs::append_out(buf)\n"),
        ("        let total_len = bufs.iter().map(|b| b.len()).sum();\n        Ok(total_len)",
         "        let mut n = 0;\n        for b in bufs { if b.is_empty() { continue } match crate::sys::fs::append_out(b) { Ok(m) => { n += m; if m < b.len() { break } } Err(_) if n > 0 => break, Err(e) => return Err(e) } }\n        Ok(n)"),
        ("    fn write_all(&mut self, _buf: &[u8]) -> io::Result<()> {\n        Ok(())",
         "    fn write_all(&mut self, mut buf: &[u8]) -> io::Result<()> {\n        while !buf.is_empty() { let n = crate::sys::fs::append_out(buf)?; buf = &buf[n..]; }\n        Ok(())"),
        ("    fn write_all_vectored(&mut self, _bufs: &mut [IoSlice<'_>]) -> io::Result<()> {\n        Ok(())",
         "    fn write_all_vectored(&mut self, bufs: &mut [IoSlice<'_>]) -> io::Result<()> {\n        for b in bufs { self.write_all(b)? }\n        Ok(())"),
        ("impl io::Read for Stdin {\n    #[inline]\n    fn read(&mut self, _buf: &mut [u8]) -> io::Result<usize> {\n        Ok(0)",
         "impl io::Read for Stdin {\n    #[inline]\n    fn read(&mut self, _buf: &mut [u8]) -> io::Result<usize> {\n        Ok(0)"),
        ("    fn read_to_end(&mut self, _buf: &mut Vec<u8>) -> io::Result<usize> {\n        Ok(0)",
         "    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> io::Result<usize> {\n        let d = crate::sys::fs::read_raw(\"/dev/stdin\").unwrap_or_default();\n        buf.extend_from_slice(&d);\n        Ok(d.len())"),
        ("    fn read_to_string(&mut self, _buf: &mut String) -> io::Result<usize> {\n        Ok(0)",
         "    fn read_to_string(&mut self, buf: &mut String) -> io::Result<usize> {\n        let d = crate::sys::fs::read_raw(\"/dev/stdin\").unwrap_or_default();\n        match crate::str::from_utf8(&d) { Ok(s) => { buf.push_str(s); Ok(d.len()) } Err(_) => Err(io::Error::INVALID_UTF8) }"),
    ])
    sub(out + "/std/src/sys/fs/mod.rs", [
        ("        mod unsupported;\n        use unsupported as imp;",
         "        mod unsupported;\n        use unsupported as imp;\n        pub(crate) use unsupported::{append_out, append_raw, read_raw};")])
    # process::exit: the harness decides what follows (vp_exit does not return)
    sub(out + "/std/src/sys/exit.rs", [
        ("        _ => {\n            let _ = code;\n            crate::intrinsics::abort_immediate()",
         '        _ => {\n            unsafe extern "C" { fn vp_exit(code: i32); }\n'
         "            unsafe { vp_exit(code) }\n            crate::intrinsics::abort_immediate()")])
    open(out + "/std/src/sys/args/unsupported.rs", "w").write('''use crate::ffi::OsString;
use crate::fmt;
use crate::vec::{self, Vec};

pub struct Args { it: vec::IntoIter<OsString> }

pub fn args() -> Args {
    let d = crate::sys::fs::read_raw("/dev/args").unwrap_or_default();
    let v: Vec<OsString> = if d.is_empty() { Vec::new() } else {
        d.split(|b| *b == 0).map(|a| unsafe { OsString::from_encoded_bytes_unchecked(a.to_vec()) }).collect()
    };
    Args { it: v.into_iter() }
}
impl fmt::Debug for Args {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_list().finish() }
}
impl Iterator for Args {
    type Item = OsString;
    #[inline]
    fn next(&mut self) -> Option<OsString> { self.it.next() }
    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() }
}
impl DoubleEndedIterator for Args {
    #[inline]
    fn next_back(&mut self) -> Option<OsString> { self.it.next_back() }
}
impl ExactSizeIterator for Args {
    #[inline]
    fn len(&self) -> usize { self.it.len() }
}
''')
    open(mark, "w").write(st)


def locks(p):
    t = open(p).read()
    return {m[1] + "-" + m[2]: m[3] for m in re.finditer(
        r'name = "([^"]+)"\nversion = "([^"]+)"\nsource = "[^"]+"\nchecksum = "([^"]+)"', t)}


def vendor():
    st = stamp(REPO + "/Cargo.lock", __file__)
    mark = W + "/vendor.stamp"
    if os.path.exists(mark) and open(mark).read() == st:
        return
    out = W + "/vendor"
    rm(out)
    os.makedirs(out)
    L = locks(REPO + "/Cargo.lock")
    for src in glob.glob(REG + "/*/*"):
        b = os.path.basename(src)
        if b in L:
            shutil.copytree(src, out + "/" + b)
            json.dump({"files": {}, "package": L[b]}, open(out + "/" + b + "/.cargo-checksum.json", "w"))
    for src in glob.glob(W + "/std-src/library/vendor/*"):
        b = os.path.basename(src)
        if not os.path.exists(out + "/" + b):
            shutil.copytree(src, out + "/" + b)
    # antlr4rust: never cache a lexer DFA edge for a symbolic character
    a = glob.glob(out + "/antlr4rust-*/src/lexer_atn_simulator.rs")[0]
    sub(a, [("    fn add_dfaedge(&self, _from: &mut DFAState, t: i32, _to: DFAStateRef) {\n",
             "    fn add_dfaedge(&self, _from: &mut DFAState, t: i32, _to: DFAStateRef) {\n"
             "        #[cfg(target_family = \"wasm\")]\n"
             "        {\n"
             "            #[link(wasm_import_module = \"env\")]\n"
             "            unsafe extern \"C\" { fn vp_is_symbolic(v: i64) -> i32; }\n"
             "            if unsafe { vp_is_symbolic(t as i64) } != 0 { return; }\n"
             "        }\n")])
    open(mark, "w").write(st)


def src():
    """Scratch copy of the code under test, refreshed every run (mtime-preserving)."""
    out = W + "/src"
    os.makedirs(out, exist_ok=True)
    new = {}
    for root, _, files in os.walk(REPO + "/src"):
        for f in files:
            p = os.path.join(root, f)
            new[os.path.relpath(p, REPO)] = open(p, "rb").read()
    t = open(REPO + "/Cargo.toml").read()
    t = t.replace('features = ["fancy"]', "features = []")
    t = re.sub(r"\[dev-dependencies\][^\[]*", "", t)
    t = re.sub(r"\[profile[^\[]*", "", t)
    t = re.sub(r"\[lints[^\[]*", "", t)
    new["Cargo.toml"] = t.encode()
    # the command line tool as a library: main.rs itself with the harness as a module of it
    if "src/main.rs" in new:
        new["src/vp_cli.rs"] = new["src/main.rs"] + ('\n#[path = "%s/harness/src/cli_root.rs"]\nmod vp;\n' % V).encode()
    for root, _, files in os.walk(out):
        for f in files:
            p = os.path.join(root, f)
            if os.path.relpath(p, out) not in new:
                os.unlink(p)
    for k, v in new.items():
        p = out + "/" + k
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p, "rb").read() != v:
            open(p, "wb").write(v)


if __name__ == "__main__":
    os.makedirs(W, exist_ok=True)
    std_src()
    vendor()
    src()
