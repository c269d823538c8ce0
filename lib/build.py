"""Building the contracts crate against /repo's current working tree."""
import fcntl, os, re, shutil, subprocess, hashlib, json

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
REPO = "/repo"


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tree_hash():
    """Hash of everything the build depends on."""
    h = hashlib.sha256()
    for top in (os.path.join(REPO, "src"), os.path.join(VERIF, "contracts", "src"), os.path.join(VERIF, "driver")):
        for d, ds, fs in sorted(os.walk(top)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                h.update(open(p, "rb").read() + b"\0")
    for p in (os.path.join(REPO, "Cargo.toml"), os.path.join(VERIF, "contracts", "Cargo.toml")):
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    return h.hexdigest()


def sync_sources():
    """A copy of the contracts crate (harnesses which lost their anchor are cut out of the copy)."""
    dst = os.path.join(BUILD, "contracts")
    os.makedirs(os.path.join(dst, "src"), exist_ok=True)
    src = os.path.join(VERIF, "contracts")
    for f in ("Cargo.toml", "Cargo.lock"):
        if os.path.exists(os.path.join(src, f)):
            copy_if_changed(os.path.join(src, f), os.path.join(dst, f))
    names = set(os.listdir(os.path.join(src, "src")))
    for f in names:
        copy_if_changed(os.path.join(src, "src", f), os.path.join(dst, "src", f))
    for f in os.listdir(os.path.join(dst, "src")):
        if f not in names:
            os.remove(os.path.join(dst, "src", f))
    return dst


def copy_if_changed(a, b):
    data = open(a, "rb").read()
    if not os.path.exists(b) or open(b, "rb").read() != data:
        open(b, "wb").write(data)


def functions(lines):
    """Line ranges of top-level functions: name -> (first, last), zero-based."""
    out = {}
    i = 0
    while i < len(lines):
        m = re.match(r"(?:pub )?fn (\w+)", lines[i])
        if m:
            j = i
            if not (lines[i].rstrip().endswith("}") and lines[i].count("{") == lines[i].count("}")):
                while j < len(lines) and lines[j].rstrip() != "}":
                    j += 1
            out[m.group(1)] = (i, j)
            i = j
        i += 1
    return out


def cut(dst, errors):
    """Cut the functions containing the given errors out; returns the names."""
    gone = []
    for path, ls in errors.items():
        p = os.path.join(dst, path)
        lines = open(p).read().split("\n")
        fns = functions(lines)
        drop = {n for n, (a, b) in fns.items() for l in ls if a <= l - 1 <= b}
        for n in sorted(drop):
            a, b = fns[n]
            for k in range(a, b + 1):
                lines[k] = ""
            gone.append(n)
        left = [l for l in ls if not any(a <= l - 1 <= b for a, b in fns.values())]
        for l in left:  # e.g. an import or an entry of the list of harnesses
            t = lines[l - 1]
            if t.strip().startswith("use "):
                lines[l - 1] = ""
                gone.append(t.strip())
        text = "\n".join(lines)
        for n in drop:
            text = re.sub(r"(?m)^(\s+\"C\d\d\":.*?)\b%s\b,?" % n, r"\1", text)
        open(p, "w").write(text)
    return gone


ENV = {"CARGO_NET_OFFLINE": "true"}


def cargo_env(flags, target):
    e = dict(os.environ)
    e.update(ENV)
    e["RUSTFLAGS"] = flags
    e["CARGO_TARGET_DIR"] = target
    e.pop("CARGO_BUILD_TARGET", None)
    return e


def build_native():
    """Returns (path of the binary or None, names of the harnesses which had to be cut out, log)."""
    with Lock("native"):
        tag = os.path.join(BUILD, "native.tag")
        target = os.path.join(BUILD, "native")
        binary = os.path.join(target, "release", "native")
        h = tree_hash()
        if os.path.exists(tag) and os.path.exists(binary):
            t = json.load(open(tag))
            if t["hash"] == h:
                return binary, t["cut"], ""
        dst = sync_sources()
        gone = []
        for flags in ("--cfg firrtl_verif -A warnings", "-A warnings"):
            for _ in range(12):
                p = run(["cargo", "build", "--release", "--offline", "--message-format", "short"], cwd=dst, env=cargo_env(flags, target))
                if p.returncode == 0:
                    json.dump({"hash": h, "cut": gone, "flags": flags}, open(tag, "w"))
                    return binary, gone, p.stdout
                errs = {}
                for m in re.finditer(r"(?m)^(src/\w+\.rs):(\d+):\d+: error", p.stdout):
                    errs.setdefault(m.group(1), []).append(int(m.group(2)))
                new = cut(dst, errs) if errs else []
                if not new:
                    break
                gone += new
            # the hook itself may be what does not compile
            if re.search(r"(?m)^src/\w+\.rs:\d+", p.stdout) and not re.search(r"/repo/src/lib\.rs", p.stdout):
                pass
        return None, gone, p.stdout
