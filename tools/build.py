"""Builds: engine, parser generator, shadow copy of /repo, symbolic (.ll) and native harness."""
import os, sys, subprocess, re, hashlib, shutil, time, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
TC = "stable-x86_64-unknown-linux-gnu"


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    for k in list(e):
        if k.startswith("CARGO_PROFILE_"):
            e.pop(k)
    e["RUSTUP_TOOLCHAIN"] = TC
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def sh(cmd, cwd=None, log=None):
    p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if log:
        with open(os.path.join(CACHE, log), "w") as f:
            f.write(p.stdout)
    if p.returncode != 0:
        raise BuildError("%s failed (%d)\n%s" % (" ".join(cmd), p.returncode, p.stdout[-6000:]))
    return p.stdout


def write_if(path, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)
    return True


def lockfile(d):
    """Use the repository's resolved versions."""
    for src in (os.path.join(REPO, "Cargo.lock"), "/opt/vp/Cargo.lock"):
        if os.path.exists(src):
            if not os.path.exists(os.path.join(d, "Cargo.lock")):
                shutil.copyfile(src, os.path.join(d, "Cargo.lock"))
            return


def build_engine():
    sh(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(CACHE, "engine")],
       cwd=os.path.join(VERIF, "engine"), log="engine.log")
    return os.path.join(CACHE, "engine/release/symx")


def build_genparser():
    d = os.path.join(VERIF, "harness/genparser")
    lockfile(d)
    sh(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(CACHE, "genparser")], cwd=d,
       log="genparser.log")
    return os.path.join(CACHE, "genparser/release/genparser")


def unpub(text):
    """Only Program stays a public entry point: the grammar's productions and actions are untouched,
    but one LR automaton is generated instead of one per public nonterminal."""
    if not re.search(r"^pub Program\b", text, re.M):
        return text
    return re.sub(r"^pub (?!Program\b)([A-Z])", r"\1", text, flags=re.M)


SHADOW_TOML = """[package]
name = "scilla-parser"
version = "2.0.0"
edition = "{edition}"
build = "build.rs"
[lib]
path = "../src/lib.rs"
[dependencies]
lalrpop-util = "0.20.0"
thiserror = "1.0.50"
regex = {regex}
"""
SHADOW_BUILD = """// copies the parser generated from /repo's grammar (see tools/build.py)
use std::{env, fs, path::Path};
fn cp(a: &Path, b: &Path) {
    fs::create_dir_all(b).unwrap();
    for e in fs::read_dir(a).unwrap() {
        let e = e.unwrap();
        if e.file_type().unwrap().is_dir() {
            cp(&e.path(), &b.join(e.file_name()));
        } else {
            fs::copy(e.path(), b.join(e.file_name())).unwrap();
        }
    }
}
fn main() {
    println!("cargo:rerun-if-changed=../gen");
    cp(Path::new("../gen"), Path::new(&env::var("OUT_DIR").unwrap()));
}
"""


def shadow(raw=False, name="shadow"):
    """Mirror /repo/src into .cache/shadow (mtimes change only where content does)."""
    sd = os.path.join(CACHE, name)
    src = os.path.join(REPO, "src")
    want = set()
    grammar_changed = False
    h = hashlib.sha256()
    for root, dirs, files in os.walk(src):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            rel = os.path.relpath(p, src)
            data = open(p, "rb").read()
            h.update(rel.encode() + b"\0" + data + b"\0")
            if f.endswith(".lalrpop") and not raw:
                data = unpub(data.decode()).encode()
            want.add(rel)
            ch = write_if(os.path.join(sd, "src", rel), data)
            if f.endswith(".lalrpop") and ch:
                grammar_changed = True
    for root, dirs, files in os.walk(os.path.join(sd, "src")):
        for f in files:
            p = os.path.join(root, f)
            rel = os.path.relpath(p, os.path.join(sd, "src"))
            if rel not in want:
                os.remove(p)
    readme = os.path.join(REPO, "README.md")
    write_if(os.path.join(sd, "README.md"), open(readme, "rb").read() if os.path.exists(readme) else b"")
    toml = open(os.path.join(REPO, "Cargo.toml")).read()
    m = re.search(r'^edition\s*=\s*"(\d+)"', toml, re.M)
    edition = m.group(1) if m else "2021"
    stub = os.path.join(VERIF, "harness/regex-stub")
    for side, rx in (("sym", '{ path = "%s" }' % stub), ("nat", '"1.10.2"')):
        write_if(os.path.join(sd, side, "Cargo.toml"), SHADOW_TOML.format(edition=edition, regex=rx))
        write_if(os.path.join(sd, side, "build.rs"), SHADOW_BUILD)
    # parser generation
    gen = os.path.join(sd, "gen")
    stamp = os.path.join(sd, "gen.stamp")
    gh = hashlib.sha256()
    for rel in sorted(want):
        if rel.endswith(".lalrpop"):
            gh.update(rel.encode() + open(os.path.join(sd, "src", rel), "rb").read())
    if not (os.path.exists(stamp) and open(stamp).read() == gh.hexdigest()):
        if os.path.exists(stamp):
            os.remove(stamp)
        tmp = os.path.join(sd, "gen.tmp")
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        sh([build_genparser(), os.path.join(sd, "src"), tmp], log="gen.log")
        have = set()
        for root, dirs, files in os.walk(tmp):
            for f in files:
                p = os.path.join(root, f)
                rel = os.path.relpath(p, tmp)
                have.add(rel)
                write_if(os.path.join(gen, rel), open(p, "rb").read())
        for root, dirs, files in os.walk(gen):
            for f in files:
                if os.path.relpath(os.path.join(root, f), gen) not in have:
                    os.remove(os.path.join(root, f))
        shutil.rmtree(tmp)
        with open(stamp, "w") as f:
            f.write(gh.hexdigest())
    return h.hexdigest()


def build_sym(d=os.path.join(VERIF, "harness/sym"), td=os.path.join(CACHE, "t-sym")):
    lockfile(d)
    sh(["cargo", "rustc", "--release", "--offline", "--target-dir", td, "--", "--emit=llvm-ir", "-C", "no-vectorize-loops",
        "-C", "no-vectorize-slp", "-C", "linker=/bin/true", "-C", "save-temps=no"], cwd=d, log="sym.log")
    lls = sorted(glob.glob(os.path.join(td, "release/deps/h-*.ll")), key=os.path.getmtime)
    if not lls:
        raise BuildError("no LLVM IR produced")
    for x in lls[:-1]:
        os.remove(x)
    return lls[-1]


def build_nat(d=os.path.join(VERIF, "harness/nat"), td=os.path.join(CACHE, "t-nat")):
    lockfile(d)
    sh(["cargo", "build", "--release", "--offline", "--target-dir", td], cwd=d, log="nat.log")
    return os.path.join(td, "release/h")


def build_all():
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        e = ex.submit(build_engine)
        h = shadow()
        try:
            s = ex.submit(build_sym)
            n = ex.submit(build_nat)
            return h, e.result(), s.result(), n.result()
        except BuildError:
            # the reduced grammar may not build where the full one does
            shadow(raw=True)
            s = ex.submit(build_sym)
            n = ex.submit(build_nat)
            return h, e.result(), s.result(), n.result()


def build_full():
    """Everything again with every public parser of the grammar (thorough runs only: generating and
    compiling one automaton per public nonterminal takes minutes)."""
    from concurrent.futures import ThreadPoolExecutor
    shadow(raw=True, name="shadow-full")
    ds = []
    for side in ("sym", "nat"):
        d = os.path.join(CACHE, "full", side)
        t = open(os.path.join(VERIF, "harness", side, "Cargo.toml")).read()
        t = t.replace("../../.cache/shadow/", os.path.join(CACHE, "shadow-full") + "/").replace("../src/main.rs", os.path.join(VERIF, "harness/src/main.rs"))
        t = re.sub(r"\[features\].*?\n\[", "[features]\ndefault = [%s]\nnative = []\nentries = []\n[" % ('"native", "entries"' if side == "nat" else '"entries"'), t, flags=re.S)
        write_if(os.path.join(d, "Cargo.toml"), t)
        shutil.copyfile(os.path.join(VERIF, "harness", side, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
        ds.append(d)
    with ThreadPoolExecutor(2) as ex:
        s = ex.submit(build_sym, ds[0], os.path.join(CACHE, "full/t-sym"))
        n = ex.submit(build_nat, ds[1], os.path.join(CACHE, "full/t-nat"))
        return s.result(), n.result()


if __name__ == "__main__":
    t = time.time()
    print(build_all(), "%.1fs" % (time.time() - t))
