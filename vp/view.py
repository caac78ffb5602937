#!/usr/bin/env python3
"""Makes a crate out of /repo's current sources that can be compiled without the git dependencies:
the sources are taken over as they are, the missing dependencies come from /verif/shims, and items
that cannot be compiled against the shims (ECS systems, plugins, HDF5 input and output) are blanked.
Which items those are is recorded in vp/drops.json for the pinned tree; items that do not compile and
are not listed there are found from the compiler's errors, one round after the other."""
import json, os, shutil, subprocess, sys, re

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
TOOLCHAIN = os.environ.get("VP_TOOLCHAIN", "nightly-x86_64-unknown-linux-gnu")

class ViewError(Exception):
    pass

def env(target=None):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN=TOOLCHAIN, RUSTC_WRAPPER="")
    e.pop("RUSTFLAGS", None)
    if target:
        e["CARGO_TARGET_DIR"] = target
    return e

def tool():
    t = os.path.join(BUILD, "tool")
    exe = os.path.join(t, "release", "vptool")
    r = subprocess.run(["cargo", "build", "--release", "--quiet", "--offline", "--locked", "--manifest-path",
                        os.path.join(VERIF, "tool", "Cargo.toml")], env=env(t), capture_output=True, text=True)
    if r.returncode:
        raise ViewError("building vptool: " + r.stderr)
    return exe

CARGO = '''[package]
name = "subsweep"
version = "0.2.0"
edition = "2021"
resolver = "2"
autobins = false
autoexamples = false
autobenches = false
autotests = false

[lib]
path = "src/lib.rs"

[features]
default = ["3d"]
2d = []
3d = []
vis = []
mpi_test = []
parallel-hdf5 = []

[dependencies]
array-init = "2.1.0"
bevy_app = { path = "@S/bevy_app" }
bevy_core = { path = "@S/bevy_core" }
bevy_ecs = { path = "@S/bevy_ecs" }
bevy_utils = { path = "@S/bevy_utils" }
bimap = { path = "@S/bimap" }
chrono = { version = "0.4.31", default-features = false, features = ["clock"] }
clap = {version = "3.2.25", features = ["derive"]}
derive_more = "0.99.17"
diman = { path = "@S/diman" }
generational-arena = "0.2.9"
glam = { version = "0.24.1", features = ["scalar-math"] }
hdf5 = { path = "@S/hdf5" }
kiddo = "2.1.1"
lazy_static = { path = "@S/lazy_static" }
linked-hash-map = { version = "0.5.6", features = ["serde", "serde_impl"] }
log = { version = "0.4.20", features = ["max_level_off", "release_max_level_off"] }
mpi = { path = "@S/mpi", features = ["derive"] }
ndarray = "0.15.6"
num = "0.4.1"
once_cell = "1.18.0"
ordered-float = "3.9.1"
rand = { path = "@S/rand" }
serde = {version = "1.0.188", features = ["derive"] }
serde_yaml = "0.9.25"
simplelog = "0.12.1"
time = { version = "0.3.29", default-features = false }
derive_custom = { path = "crates/derive_custom" }
derive_traits = { path = "crates/derive_traits" }

[lints.rust]
unexpected_cfgs = { level = "allow" }

[profile.dev]
debug = "line-tables-only"

[profile.vp]
inherits = "release"
opt-level = 2
lto = "fat"
codegen-units = 1
panic = "abort"
overflow-checks = true
debug = "line-tables-only"

[workspace]
'''

def write_if_changed(path, data):
    try:
        with open(path) as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(data)

def sources():
    out = {}
    base = os.path.join(REPO, "src")
    for d, _, fs in os.walk(base):
        for f in fs:
            if f.endswith(".rs"):
                p = os.path.join(d, f)
                out[os.path.relpath(p, base)] = open(p, encoding="utf-8").read()
    return out

def offset(lines, line, col):
    # proc_macro2 columns count characters
    return sum(len(l) for l in lines[:line - 1]) + col

def blank(text, spans):
    if not spans:
        return text
    lines = text.splitlines(keepends=True)
    t = list(text)
    for (l0, c0, l1, c1) in spans:
        a, b = offset(lines, l0, c0), offset(lines, l1, c1)
        for i in range(a, b):
            if t[i] != "\n":
                t[i] = " "
    return "".join(t)

class View:
    def __init__(self, name="view", extra=None, append=None):
        self.dir = os.path.join(BUILD, name)
        self.target = os.path.join(BUILD, "target-" + name)
        self.src = sources()
        self.drops = []          # (file, key) in the order found
        self.extra = extra or {}     # file under src -> text: added to the crate
        self.append = append or {}   # file under src -> text to append
        self.havoc = []              # (file, key, new body): functions whose result is arbitrary
        self.items = self.parse()
        self.auto = []

    def parse(self):
        exe = tool()
        base = os.path.join(REPO, "src")
        r = subprocess.run([exe] + [os.path.join(base, f) for f in sorted(self.src)], capture_output=True, text=True)
        if r.returncode:
            raise ViewError("parsing: " + r.stderr)
        j = json.loads(r.stdout)
        return {os.path.relpath(k, base): v for k, v in j.items()}

    def keyed(self, f):
        """All items of a file: (key, item, parent)."""
        out = []
        def walk(items, prefix, parent):
            for i in items:
                k = prefix + i["kind"] + " " + i["name"]
                out.append((k, i, parent))
                walk(i["children"], k + " > ", i)
        walk(self.items[f], "", None)
        return out

    def spans(self, f):
        s = []
        dropped = {k for (g, k) in self.drops if g == f}
        for k, i, _ in self.keyed(f):
            if i["test"] or k in dropped:
                s.append(tuple(i["at"]))
        return s

    def with_havoc(self, f, t):
        """The file's text with the bodies of the functions in self.havoc replaced (blanking keeps all positions)."""
        for (g, key, body) in self.havoc:
            if g != f:
                continue
            if not any(k == key for k, _, _ in self.keyed(f)):
                if body.startswith("+"):
                    continue
                raise ViewError("there is no " + key + " in " + f)
            for k, i, _ in self.keyed(f):
                if k == key:
                    lines = t.splitlines(keepends=True)
                    a, b = offset(lines, *i["at"][:2]), offset(lines, *i["at"][2:])
                    h = t[a:b]
                    if "fn " not in h:
                        break
                    o = h.index("{", h.index(")", h.index("fn ")))
                    if body.startswith("+"):
                        # in addition to what is there
                        t = t[:a] + h[:o] + "{ " + body[1:] + " " + h[o + 1:] + t[b:]
                        break
                    n = h.count("\n", o)
                    t = t[:a] + h[:o] + "{ " + body + " " + "\n" * n + "}" + t[b:]
                    break
        return t

    def write(self):
        os.makedirs(os.path.join(self.dir, "src"), exist_ok=True)
        write_if_changed(os.path.join(self.dir, "Cargo.toml"), CARGO.replace("@S", os.path.join(VERIF, "shims")))
        lock = os.path.join(HERE, "view.lock")
        if os.path.exists(lock) and not os.path.exists(os.path.join(self.dir, "Cargo.lock")):
            shutil.copy(lock, os.path.join(self.dir, "Cargo.lock"))
        for c in ("derive_custom", "derive_traits"):
            s = os.path.join(REPO, "crates", c)
            d = os.path.join(self.dir, "crates", c)
            t = open(os.path.join(s, "Cargo.toml")).read()
            t = re.sub(r"(?m)^bevy_ecs\s*=.*$", 'bevy_ecs = { path = "%s/shims/bevy_ecs" }' % VERIF, t)
            write_if_changed(os.path.join(d, "Cargo.toml"), t)
            write_if_changed(os.path.join(d, "src", "lib.rs"), open(os.path.join(s, "src", "lib.rs")).read())
        want = set()
        for f, t in self.src.items():
            t = self.with_havoc(f, blank(t, self.spans(f))) + self.append.get(f, "")
            want.add(f)
            write_if_changed(os.path.join(self.dir, "src", f), t)
        for f, t in self.extra.items():
            want.add(f)
            write_if_changed(os.path.join(self.dir, "src", f), t)
        for d, _, fs in os.walk(os.path.join(self.dir, "src")):
            for f in fs:
                p = os.path.join(d, f)
                if os.path.relpath(p, os.path.join(self.dir, "src")) not in want:
                    os.remove(p)

    def check(self):
        r = subprocess.run(["cargo", "check", "--lib", "--offline", "--message-format=json", "--quiet"],
                           cwd=self.dir, env=env(self.target), capture_output=True, text=True)
        errs = []
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                errs.append(m["message"])
        if r.returncode and not errs:
            raise ViewError("cargo check: " + r.stderr[-3000:])
        return errs if r.returncode else []

    def culprit(self, f, line, col):
        best = None
        for k, i, parent in self.keyed(f):
            l0, c0, l1, c1 = i["at"]
            if (l0, c0) <= (line, col) <= (l1, c1) and (f, k) not in self.drops and not i["test"]:
                if i["kind"] == "method" and parent["whole"]:
                    continue
                best = k
        return best

    def prune(self, rounds=40, verbose=False):
        for n in range(rounds):
            self.write()
            errs = self.check()
            if not errs:
                return
            new = []
            # unresolved names first: other errors may only follow from them
            for e in errs:
                for s in e["spans"]:
                    if not s["is_primary"]:
                        continue
                    t = s
                    while t.get("expansion") and not t["file_name"].startswith("src/"):
                        t = t["expansion"]["span"]
                    f = os.path.relpath(os.path.join(self.dir, t["file_name"]), os.path.join(self.dir, "src"))
                    if f not in self.items:
                        continue
                    k = self.culprit(f, t["line_start"], t["column_start"] - 1)
                    if k and (f, k) not in new:
                        new.append((f, k))
                        if verbose:
                            print("  drop %s: %s   [%s]" % (f, k, e["message"][:150].replace("\n", " ")))
            if not new:
                raise ViewError("cannot prune: " + "\n".join(e.get("rendered", "")[:800] for e in errs[:5]))
            if verbose:
                print("round %d: %d errors, %d items dropped" % (n, len(errs), len(new)))
            self.drops += new
            self.auto += new
        raise ViewError("pruning does not come to an end")

if __name__ == "__main__":
    v = View()
    rules = os.path.join(HERE, "drops.json")
    if os.path.exists(rules) and "--fresh" not in sys.argv:
        v.drops = [tuple(x) for x in json.load(open(rules))]
    else:
        v.drops = [tuple(x) for x in json.load(open(os.path.join(HERE, "drops_seed.json")))]
    v.append = {"lib.rs": '\nextern crate self as subsweep;\n#[allow(dead_code, unused)]\nmod arepo_postprocess;\n'}
    v.prune(verbose=True)
    json.dump(v.drops, open(rules, "w"), indent=0)
    print(len(v.drops), "items dropped")
