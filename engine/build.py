"""Builds the harness crate of one property against the current /repo and lowers it to LLVM IR."""
import hashlib, json, os, re, shutil, subprocess, sys, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TOOLCHAIN = "1.88.0-x86_64-unknown-linux-gnu"
TARGET = "x86_64-unknown-linux-gnu"
IRFLAGS = ("--emit=llvm-ir,link -C overflow-checks=on -C panic=abort -C codegen-units=1 "
           "-C no-vectorize-loops -C no-vectorize-slp -C opt-level=2 -C debug-assertions=off "
           "-C embed-bitcode=no -C debuginfo=0 -A warnings")

class RepoBroken(Exception):
    pass

class CorpusBroken(Exception):
    """nom-derive itself builds, but a definition of the corpus does not any more"""
    def __init__(self, msgs):
        self.msgs = msgs

def env():
    e = dict(os.environ)
    e.update(HOME="/root", CARGO_HOME="/root/.cargo", RUSTUP_HOME="/root/.rustup",
             RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="", CARGO_INCREMENTAL="0", RUST_BACKTRACE="0")
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "TRYBUILD", "RUSTC", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e

def repo_files():
    out = []
    for root in ("src", "nom-derive-impl"):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            if "/target" in d:
                continue
            out += [os.path.join(d, f) for f in fs]
    out += [os.path.join(REPO, "Cargo.toml")]
    return sorted(out)

def repo_hash():
    h = hashlib.sha256()
    for f in repo_files():
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()

BUILTIN = {"hx": ("be", "le", "pa"), "h": ("be", "le", "pa"), "t": ("be", "le", "pa"), "hc": ("go",)}

def harnesses(src):
    """[(module, fn)] found in the source of a property's corpus.  A corpus announces macros of its own
    that define harness modules with lines like `// harness-macro: tr be le pa`."""
    kinds = dict(BUILTIN)
    for m in re.finditer(r"^// harness-macro: (\w+)((?: \w+)+)$", src, re.M):
        kinds[m.group(1)] = tuple(m.group(2).split())
    out, seen = [], set()
    for l in src.splitlines():
        if l.lstrip().startswith("//"):
            continue
        for m in re.finditer(r"(?:^|[;}\s])(%s)!\(\s*(\w+)\s*," % "|".join(kinds), l):
            kind, name = m.groups()
            if name in seen:
                raise RuntimeError("duplicate harness " + name)
            seen.add(name)
            out += [(name, f) for f in kinds[kind]]
    # every harness module of the source must be registered: count the macro invocations of the corpus' own macros
    own = set(re.findall(r"macro_rules! (\w+)", src))
    for k in own - set(kinds) - set(re.findall(r"^// helper-macro: (\w+)", src, re.M)):
        body = re.search(r"macro_rules! %s\b.*?(?=\nmacro_rules!|\n#\[|\nst!|\Z)" % k, src, re.S).group(0)
        if "pub mod $" in body:
            raise RuntimeError("macro %s defines harnesses but is not announced" % k)
    return out

def items(src):
    """[(first line, last line, text)] of the top-level items of a corpus, attributes included in their item"""
    out, i, n, depth, start, line, sline = [], 0, len(src), 0, 0, 1, 1
    def close(j):
        out.append([sline, line, src[start:j]])
    while i < n:
        c = src[i]
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if c == "\n":
            line += 1
        if not src[start:i].strip() and depth == 0 and c.isspace():
            i += 1
            start, sline = i, line
            continue
        m = re.compile(r'b?r(#*)"').match(src, i) if c in "br" and not (src[i - 1:i].isalnum() or src[i - 1:i] == "_") else None
        if m:
            j = src.index('"' + m.group(1), m.end())
            line += src.count("\n", i, j)
            i = j + 1 + len(m.group(1))
            continue
        if c == '"':
            j = i + 1
            while src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            line += src.count("\n", i, j)
            i = j + 1
            continue
        m = re.compile(r"'(\\.[^']*|[^'\\])'").match(src, i) if c == "'" else None
        if m:
            i = m.end()
            continue
        if c in "({[":
            depth += 1
        elif c in ")}]":
            depth -= 1
        i += 1
        if depth == 0 and (c == ";" or c == "}"):
            # `macro!{..};`, `struct X {..}`, `fn f() {..}`, `use a::{b};`, `static A: [u8; 2] = [..];`
            head = src[start:i]
            if c == "}" and re.match(r"\s*(#\[[^\n]*\]\s*)*(pub(\([a-z]+\))?\s+)?(use|static|const|type|let)\b(?!\s+fn)", head):
                continue
            close(i)
            start, sline = i, line
    if src[start:].strip():
        close(n)
    return out

class Build:
    drop_limit = 8
    def __init__(self, prop, features="std", tag=""):
        self.prop = prop.lower()
        self.features = features
        self.dir = os.path.join(VERIF, ".build", prop + tag)
        self.target = os.path.join(self.dir, "target")

    def write_if_changed(self, path, text):
        try:
            if open(path).read() == text:
                return
        except OSError:
            pass
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(text)

    def prepare(self):
        hdir = os.path.join(VERIF, "harness")
        stamp = os.path.join(self.dir, "repo.sha256")
        h = repo_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != h:
            # never trust cargo's mtime-based freshness across different source trees
            shutil.rmtree(self.target, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        toml = open(os.path.join(hdir, "Cargo.toml")).read().replace("@REPO@", REPO)
        if self.features != "std":
            toml = toml.replace('nom-derive = { path = "%s" }' % REPO,
                                'nom-derive = { path = "%s", default-features = false }' % REPO)
        self.write_if_changed(os.path.join(self.dir, "Cargo.toml"), toml)
        lock = os.path.join(hdir, "Cargo.lock")
        self.write_if_changed(os.path.join(self.dir, "Cargo.lock"), open(lock).read())
        self.modules = [self.prop]
        sfx = "_nostd" if self.features == "none" else ""
        gen = os.path.join(hdir, "src", self.prop + sfx + ".rs")
        src = open(gen).read()
        g = os.path.join(hdir, "gen_%s%s.py" % (self.prop, sfx))
        if os.path.exists(g):
            src += subprocess.run([sys.executable, g], check=True, capture_output=True, text=True,
                                  env=dict(os.environ)).stdout
        self.full = src
        self.all_harnesses = harnesses(src)
        self.dropped, self.drop_msgs, self.scope_msgs = [], [], []
        self.write_corpus(src)
        with open(stamp, "w") as f:
            f.write(h)

    def write_corpus(self, src):
        hdir = os.path.join(VERIF, "harness")
        self.write_if_changed(os.path.join(self.dir, "src", self.prop + ".rs"), src)
        for f in ("lib.rs", "sup.rs", "main.rs"):
            self.write_if_changed(os.path.join(self.dir, "src", f),
                                  open(os.path.join(hdir, "src", f)).read().replace("@PROP@", self.prop)
                                  .replace("@ALLOC@", "false" if self.features == "none" else "true"))
        self.harnesses = harnesses(src)
        reg = "pub type H = fn(&[u8], u64, u64) -> u64;\npub static ALL: &[(&str, H)] = &[\n"
        reg += "".join('    ("%s::%s", crate::%s::%s::%s),\n' % (m, f, self.prop, m, f) for m, f in self.harnesses)
        reg += "];\n"
        self.write_if_changed(os.path.join(self.dir, "src", "reg.rs"), reg)
        self.src = src

    def drop_failing(self, msgs):
        """take the corpus items a compile error points into out of the corpus; False if that is not possible"""
        its = items(self.src)
        file = "src/%s.rs" % self.prop
        bad = set()
        for m in msgs:
            hit = set()
            for sp in m["message"].get("spans", []):
                if not sp.get("is_primary"):
                    continue
                while sp:
                    if sp["file_name"].endswith(file):
                        hit.update(k for k, (a, b, _) in enumerate(its) if a <= sp["line_start"] <= b
                                   and not re.match(r"\s*(//[^\n]*\n\s*|#\[[^\n]*\]\s*)*(pub\s+)?(macro_rules!|use\b)", its[k][2]))
                    sp = (sp.get("expansion") or {}).get("span")
            if not hit and m["message"].get("spans"):
                return False
            bad |= hit
        if not bad:
            return False
        out, prev = self.src.split("\n"), None
        names = {n for _, _, t in self.dropped for n in re.findall(r"\b(?:struct|enum)\s+(\w+)", t)}
        names |= {n for k in bad for n in re.findall(r"\b(?:struct|enum)\s+(\w+)", its[k][2])}
        src = self.src
        for k in sorted(bad, reverse=True):
            t = its[k][2]
            m = re.match(r"\s*eqv!\(([^)]*)\);$", t)
            keep = [w for w in m.group(1).split() if w not in names] if m else []
            if m and keep and len(keep) < len(m.group(1).split()):
                new = "eqv!(%s);" % " ".join(keep)
            else:
                new = ""
                self.dropped.append(its[k])
            assert src.count(t) >= 1
            # replace the occurrence that is this item: items are in order, so count the earlier equal ones
            nth = sum(1 for x in its[:k] if x[2] == t)
            pos = -1
            for _ in range(nth + 1):
                pos = src.index(t, pos + 1)
            src = src[:pos] + new + "\n" * t.count("\n") + src[pos + len(t):]
        self.drop_msgs += [m["message"].get("rendered") or m["message"]["message"] for m in msgs]
        for m in msgs:
            # a name promised in an expression (field, argument, input) that is out of reach, arguments not passed on
            code = (m["message"].get("code") or {}).get("code")
            w = re.search(r"`(\w+)`", m["message"]["message"])
            if code in ("E0061", "E0425") and not (w and w.group(1) in names):
                self.scope_msgs.append(m["message"].get("rendered") or m["message"]["message"])
        self.write_corpus(src)
        return True

    def cargo(self, args, flags="", target=None):
        e = env()
        e["RUSTFLAGS"] = flags
        cmd = ["cargo"] + args + ["--offline", "--target", TARGET, "--target-dir", target or self.target,
                                  "--message-format=json-diagnostic-short" if False else "--message-format=json"]
        p = subprocess.run(cmd, cwd=self.dir, env=e, capture_output=True, text=True)
        msgs = []
        for l in p.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") == "compiler-message" and m["message"].get("level") in ("error", "error: internal compiler error"):
                msgs.append(m)
        return p.returncode, msgs, p.stderr

    def compile_ir(self):
        rc, msgs, err = self.cargo(["build", "--release", "--lib", "--bin", "replay"], IRFLAGS)
        if rc != 0:
            mine = [m for m in msgs if m["target"]["name"] in ("harness",) ]
            other = [m for m in msgs if m not in mine]
            if mine and not other:
                if self.drop_limit and self.drop_failing([m for m in mine if m["message"].get("spans")]):
                    self.drop_limit -= 1
                    return self.compile_ir()
                raise CorpusBroken([m["message"].get("rendered") or m["message"]["message"] for m in mine])
            raise RepoBroken(err[-4000:] + "\n".join(m["message"].get("rendered", "") for m in other)[-4000:])
        deps = os.path.join(self.target, TARGET, "release", "deps")
        lls = []
        for pat in ("harness-*.ll", "nom-*.ll", "nom_derive-*.ll"):
            c = sorted(glob.glob(os.path.join(deps, pat)), key=os.path.getmtime)
            if c:
                lls.append(c[-1])
        if not lls or "harness-" not in lls[0]:
            raise RepoBroken("no IR produced")
        self.lls = lls
        self.bin = os.path.join(self.target, TARGET, "release", "replay")

    def lost(self):
        """harness modules whose definitions do not compile, and the reason to call that a violation by itself, if any"""
        kept = {m for m, _ in self.harnesses}
        total = {m for m, _ in self.all_harnesses}
        gone = sorted(total - kept)
        why = None
        if self.scope_msgs:
            why = "a name that a definition's expressions must be able to use is not in scope"
        elif len(gone) > len(total) // 10:
            why = "many valid definitions expand to code that does not compile"
        elif self.prop in ("c17", "c18"):
            names = lambda t: set(re.findall(r"\b(?:struct|enum)\s+(\w+)", t))
            d = {n for _, _, t in self.dropped for n in names(t)}
            for n in sorted(d):
                m = re.match(r"(X\d+)(?:v\d+)?$" if self.prop == "c18" else r"(\w+)[PG]$", n)
                if not m:
                    continue
                twins = [m.group(1) + "P", m.group(1) + "G"] if self.prop == "c17" else [m.group(1)]
                if any(x not in d and x in names(self.full) for x in twins):
                    why = "of two definitions that must be equivalent only one compiles (%s)" % n
                    break
        return gone, why

    def compile_native(self, profile):
        """plain dev / release builds used to confirm a counterexample"""
        tgt = os.path.join(self.dir, "target-" + profile)
        shutil.rmtree(tgt, ignore_errors=True)
        rc, msgs, err = self.cargo(["build", "--bin", "replay"] + (["--release"] if profile == "release" else []), "-A warnings", tgt)
        if rc != 0:
            raise RepoBroken(err[-2000:])
        return os.path.join(tgt, TARGET, "release" if profile == "release" else "debug", "replay")

if __name__ == "__main__":
    b = Build(sys.argv[1])
    b.prepare()
    try:
        b.compile_ir()
    except CorpusBroken as x:
        print("\n".join(x.msgs)); sys.exit(1)
    print(b.lls, b.bin, len(b.harnesses))
