#!/usr/bin/env python3
"""Runs /repo's generate_tables.py in scratch folders, with the network and the outside tool replaced.

gen_driver.py PROFILE OUTDIR SCENARIOS

The script runs as an unprivileged user in a scratch folder of its own.  Downloads are answered by a stand-in
(a sitecustomize module) that serves made-up databases; `ucd-generate` is a stand-in that reads the unpacked
database as the real tool does and prints in the real tool's format.  What the script wrote is compiled with
rustc and read back by the compiled program.
"""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import zipfile

PROFILE, OUT = sys.argv[1:3]
SCEN = sys.argv[3]
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = os.environ.get("VERIF_TIER", "quick") == "thorough"
SHARDS = int(os.environ.get("SHARDS", "8"))
HERE = os.path.dirname(os.path.abspath(__file__))
SCRIPT = "/repo/generate_tables.py"
MAX = 0x10FFFF
NOBODY = 65534

ABBREV = ("Pe Pc Cc Sc Pd Nd Me Pf Cf Pi Nl Zl Ll Sm Lm Sk Mn Ps Lo No "
          "Po So Zp Co Zs Mc Cs Lt Cn Lu").split()
LONG = ("Close_Punctuation Connector_Punctuation Control Currency_Symbol Dash_Punctuation Decimal_Number Enclosing_Mark "
        "Final_Punctuation Format Initial_Punctuation Letter_Number Line_Separator Lowercase_Letter Math_Symbol Modifier_Letter "
        "Modifier_Symbol Nonspacing_Mark Open_Punctuation Other_Letter Other_Number Other_Punctuation Other_Symbol "
        "Paragraph_Separator Private_Use Space_Separator Spacing_Mark Surrogate Titlecase_Letter Unassigned Uppercase_Letter").split()
GROUPS = {"Cased_Letter": "Lu Ll Lt", "Letter": "Lu Ll Lt Lm Lo", "Mark": "Mn Mc Me", "Number": "Nd Nl No", "Other": "Cc Cf Cs Co Cn",
          "Punctuation": "Pc Pd Ps Pe Pi Pf Po", "Separator": "Zs Zl Zp", "Symbol": "Sm Sc Sk So"}
VERSIONS = "9.0.0 10.0.0 11.0.0 12.0.0 12.1.0 13.0.0 14.0.0 15.0.0 15.1.0 16.0.0 17.0.0".split()

STUB = r'''
import io, os, email.message, urllib.request, urllib.error, urllib.response
DB, LOG, FAULT = os.environ["GEN_DB"], os.environ["GEN_LOG"], os.environ["GEN_FAULT"]

def answer(self, req):
    url = req.full_url
    with open(LOG, "a") as f:
        f.write(url + "\n")
    if FAULT == "network":
        raise urllib.error.URLError(OSError("no route"))
    head, tail = "https://www.unicode.org/Public/", "/ucd/UCD.zip"
    body = None
    if url.startswith(head) and url.endswith(tail):
        p = os.path.join(DB, url[len(head):-len(tail)] + ".zip")
        if "/" not in url[len(head):-len(tail)] and os.path.exists(p):
            with open(p, "rb") as f:
                body = f.read()
    h = email.message.Message()
    if body is None or FAULT == "http":
        h["Content-Length"] = "0"
        r = urllib.response.addinfourl(io.BytesIO(b""), h, url, 404)
        r.msg = "Not Found"
        return r
    if FAULT == "notzip":
        body = b"<html>moved</html>" * 50
    h["Content-Length"] = str(len(body))
    if FAULT == "short":
        body = body[:len(body) // 2]
    r = urllib.response.addinfourl(io.BytesIO(body), h, url, 200)
    r.msg = "OK"
    return r

urllib.request.HTTPSHandler.https_open = answer
urllib.request.HTTPHandler.http_open = answer
'''

TOOL = r'''#!%s -SE
# stands in for ucd-generate
import os, sys
LONG = %r
GROUPS = %r
ABBREV = %r
fault, per = os.environ["GEN_FAULT"], os.environ["GEN_PER"]
args, exclude, where = sys.argv[1:], set(), []
sub = args.pop(0) if args else ""
while args:
    a = args.pop(0)
    if a.startswith("--exclude="):
        exclude |= set(a[10:].split(","))
    elif a in ("--exclude", "-x"):
        exclude |= set(args.pop(0).split(","))
    elif a.startswith("-"):
        sys.exit("error: unexpected argument " + a)
    else:
        where.append(a)
if sub != "general-category" or len(where) != 1:
    sys.exit("error: unexpected arguments")
d = where[0]
cats = {}
at = 0
def put(k, lo, hi):
    l = cats.setdefault(k, [])
    if l and l[-1][1] + 1 == lo:
        l[-1][1] = hi
    else:
        l.append([lo, hi])
known = []
for line in open(os.path.join(d, "PropertyValueAliases.txt")):
    f = [x.strip() for x in line.split(";")]
    if f[0] == "gc":
        known.append((f[1], f[2]))
first = None
version = ""
for line in open(os.path.join(d, "PropList.txt")):
    version = version or line.split("-")[1].split(".txt")[0]
for line in open(os.path.join(d, "UnicodeData.txt")):
    f = line.split(";")
    c = int(f[0], 16)
    if f[1].endswith(", First>"):
        first = c
        continue
    lo = c if first is None else first
    first = None
    if lo > at:
        put("Cn", at, lo - 1)
    put(f[2], lo, c)
    at = c + 1
if at <= 0x10FFFF:
    put("Cn", at, 0x10FFFF)
lists = {}
for ab, name in known:
    if ab in ABBREV:
        lists[name] = cats.get(ab, [])
    else:
        m = sorted(x for a in GROUPS[name].split() for x in cats.get(a, []))
        j = []
        for lo, hi in m:
            if j and j[-1][1] + 1 == lo:
                j[-1][1] = hi
            else:
                j.append([lo, hi])
        lists[name] = j
names = sorted(n for n in lists if n not in exclude)
out = []
out.append("// DO NOT EDIT THIS FILE. IT WAS AUTOMATICALLY GENERATED BY:\n//\n//   ucd-generate " + " ".join(sys.argv[1:]) +
           "\n//\n// Unicode version: " + version + ".\n//\n// ucd-generate 0.2.15 is available on crates.io.\n\n")
def wrapped(items, width):
    lines, cur = [], "  "
    for i in items:
        if len(cur) + len(i) > width and cur.strip():
            lines.append(cur.rstrip())
            cur = "  "
        cur += i
    if cur.strip():
        lines.append(cur.rstrip())
    return "\n".join(lines) + "\n"
entries = ['("%%s", %%s), ' %% (n, n.upper()) for n in names]
out.append("pub const BY_NAME: &'static [(&'static str, &'static [(u32, u32)])] = &[\n")
out.append(wrapped(entries, {"1": 0, "2": 79, "3": 10 ** 9}[per]) + "];\n\n")
for n in names:
    out.append("pub const " + n.upper() + ": &'static [(u32, u32)] = &[\n" + wrapped(["(%%d, %%d), " %% (a, b) for a, b in lists[n]], 79) + "];\n\n")
text = "".join(out)
if fault == "toolfails":
    sys.stdout.write(text[:len(text) // 2])
    sys.stdout.flush()
    sys.exit(1)
if per == "2":
    # the tool may have something to say
    sys.stderr.write("ucd-generate: note: %%d categories\n" %% len(names))
    sys.stderr.flush()
sys.stdout.write(text)
''' % (sys.executable, LONG, GROUPS, ABBREV)

PROGRAM_HEAD = "#![allow(dead_code, unused)]\n"
PROGRAM_TAIL = '''
fn show(i: usize, t: &[&[(u32, u32)]]) {
    let l: Vec<String> = t.iter().map(|x| {
        let v: Vec<String> = x.iter().map(|(a, b)| format!("[{a},{b}]")).collect();
        format!("[{}]", v.join(","))
    }).collect();
    println!("{i} [{}]", l.join(","));
}
'''


def other_users():
    """Whether files can be given to another user here (not in a namespace that has one user only)."""
    with tempfile.TemporaryDirectory() as d:
        try:
            os.chown(d, NOBODY, NOBODY)
        except OSError:
            return False
    return True


DEMOTE = other_users()


def demote():
    if not DEMOTE:
        return
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)


def write_db(path, version, runs, without=None):
    """A database archive with the files the tool reads and some it does not."""
    data = []
    for lo, hi, k in runs:
        ab = ABBREV[k - 1]
        if ab == "Cn":
            continue
        if hi - lo > 3:
            data.append(f"{lo:04X};<Range {lo:X}, First>;{ab};0;L;;;;;N;;;;;\n{hi:04X};<Range {lo:X}, Last>;{ab};0;L;;;;;N;;;;;\n")
        else:
            data += [f"{c:04X};CHARACTER {c:X};{ab};0;L;;;;;N;;;;;\n" for c in range(lo, hi + 1)]
    alias = ["# PropertyValueAliases\n"]
    for ab, name in list(zip(ABBREV, LONG)) + [("LC" if g == "Cased_Letter" else g[0], g) for g in GROUPS]:
        if name != without:
            alias.append(f"gc ; {ab} ; {name}\n")
    with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED) as z:
        z.writestr("UnicodeData.txt", "".join(data))
        z.writestr("PropertyValueAliases.txt", "".join(alias))
        z.writestr("PropList.txt", f"# PropList-{version}.txt\n")
        z.writestr("extracted/DerivedAge.txt", f"# made up for {version}\n")
        z.writestr("ReadMe.txt", "made up\n")


def files(top):
    out = {}
    for d, dirs, names in os.walk(top):
        dirs[:] = [x for x in dirs if x != "__pycache__"]
        for n in names:
            p = os.path.join(d, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, top)] = f.read()
    return out


HEADERS = {"plain": "t", "space": "my files", "named": "Control/Format", "quote": "it's $HOME;(x) \"y\" `z` *",
           # beyond ASCII, and with what only text (not bytes) is split at
           "strange": "gr\u00f6\u00dfe \u2603\u2028 x\x0b y\x0c z\x85 \x1c"}


class Run:
    def __init__(self, top, i, version, runs, fault, prior, per, header, without, decoys, earlier=(), scar=None):
        self.__dict__.update(locals())
        del self.self

    def damage(self, path):
        """The table written before becomes another one of the same length or time, or a part of it, or more."""
        when = os.stat(path)
        with open(path, "rb") as f:
            text = f.read()
        third = len(text) // 3
        other = bytes(x ^ 1 if 48 <= x <= 57 else x for x in text[third:2 * third])
        if self.scar in ("length", "time"):
            text = text[:third] + other + text[2 * third:]
        elif self.scar == "tail":
            text = text[:-2 * third] + bytes(x ^ 1 if 48 <= x <= 57 else x for x in text[-2 * third:])
        elif self.scar == "part":
            text = text[:third]
        elif self.scar == "more":
            text += text[third:2 * third]
        elif self.scar == "lines":
            text = text.replace(b"\n", b"\r\n")
        with open(path, "wb") as f:
            f.write(text)
        if self.scar != "length":
            os.utime(path, ns=(when.st_atime_ns, when.st_mtime_ns))

    def go(self):
        """Runs the script; returns (event, text written or None)."""
        d = os.path.join(self.top, f"run{self.i}")
        repo = os.path.join(d, "repo")
        crate = os.path.join(repo, "crates", "unicode-intervals")
        tables = os.path.join(crate, "src", "tables")
        tmp = os.path.join(d, HEADERS[self.header])
        for x in (crate, tmp, os.path.join(d, "db"), os.path.join(d, "bin"), os.path.join(d, "py"), os.path.join(d, "home")):
            os.makedirs(x)
        shutil.copyfile(SCRIPT, os.path.join(repo, "generate_tables.py"))
        with open(os.path.join(crate, "Cargo.toml"), "w") as f:
            f.write("[package]\n")
        name = "v" + self.version.replace(".", "_") + ".rs"
        if self.prior != "none":
            os.makedirs(tables)
            with open(os.path.join(tables, "v8_0_0.rs"), "w") as f:
                f.write("// another version\n")
            with open(os.path.join(tables, "mod.rs"), "w") as f:
                f.write("pub mod v8_0_0;\n")
        if self.prior == "old":
            with open(os.path.join(tables, name), "w") as f:
                f.write("// what was there before\n" * 100)
        for v, runs in [(self.version, self.runs)] + self.decoys:
            write_db(os.path.join(d, "db", v + ".zip"), v, runs, self.without if v == self.version else None)
        with open(os.path.join(d, "py", "sitecustomize.py"), "w") as f:
            f.write(STUB)
        if self.fault != "toolmissing":
            p = os.path.join(d, "bin", "ucd-generate")
            with open(p, "w") as f:
                f.write(TOOL)
            os.chmod(p, 0o755)
        log = os.path.join(d, "log")
        open(log, "w").close()
        if DEMOTE:
            subprocess.run(["chown", "-R", f"{NOBODY}:{NOBODY}", d], check=True)
        env = {"PATH": os.path.join(d, "bin") + ":/usr/bin:/bin", "HOME": os.path.join(d, "home"), "TMPDIR": tmp, "LANG": "C.UTF-8",
               "PYTHONPATH": os.path.join(d, "py"), "PYTHONDONTWRITEBYTECODE": "1", "GEN_DB": os.path.join(d, "db"), "GEN_LOG": log,
               "GEN_FAULT": self.fault, "GEN_PER": str(self.per)}
        argv = {"noarg": [], "twoargs": [self.version, self.version]}.get(self.fault, [self.version])
        script = os.path.join(repo, "generate_tables.py")
        event = {"op": "gentables", "v": self.version, "fault": self.fault, "prior": self.prior, "per": self.per, "header": self.header,
                 "runs": self.runs}
        # other runs before this one, in the same place
        for k, (v, runs, fault) in enumerate(self.earlier):
            write_db(os.path.join(d, "db", v + ".zip"), v, runs)
            if DEMOTE:
                subprocess.run(["chown", "-R", f"{NOBODY}:{NOBODY}", d], check=True)
            try:
                subprocess.run([sys.executable, script, v], cwd=crate, env=dict(env, GEN_FAULT=fault), stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60, preexec_fn=demote)
            except subprocess.TimeoutExpired:
                return dict(event, r={"hang": 60}), None, ""
        if self.earlier:
            open(log, "w").close()
            write_db(os.path.join(d, "db", self.version + ".zip"), self.version, self.runs)
            if DEMOTE:
                subprocess.run(["chown", "-R", f"{NOBODY}:{NOBODY}", d], check=True)
        if self.scar and os.path.exists(os.path.join(tables, name)):
            self.damage(os.path.join(tables, name))
        before = files(repo)
        try:
            p = subprocess.run([sys.executable, script] + argv, cwd=crate, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=60, preexec_fn=demote)
        except subprocess.TimeoutExpired:
            return dict(event, r={"hang": 60}), None, ""
        said = (p.stdout + p.stderr).decode(errors="replace")
        after = files(repo)
        target = os.path.relpath(os.path.join(tables, name), repo)
        others = sum(1 for k in set(before) | set(after) if k != target and before.get(k) != after.get(k))
        text = after.get(target)
        same = text == before.get(target)
        with open(log) as f:
            asked = f.read().split()
        event["r"] = {"exit": 1 if p.returncode else 0, "usage": 1 if "Usage:" in said else 0, "others": others,
                      "file": "same" if same else ("gone" if text is None else "changed"), "lists": [], "asked": asked[:5],
                      "said": said[-500:]}
        shutil.rmtree(d, ignore_errors=True)
        return event, (None if same else text), said if not asked else ""


def read_back(top, tag, texts):
    """Compiles table files and prints what they define; None where one does not compile."""
    if not texts:
        return {}
    d = os.path.join(top, "rust-" + tag)
    os.makedirs(d)
    src = PROGRAM_HEAD
    for i, t in texts.items():
        with open(os.path.join(d, f"t{i}.rs"), "wb") as f:
            f.write(t)
        src += f"mod t{i};\n"
    src += PROGRAM_TAIL + "fn main() {\n" + "".join(f"    show({i}, t{i}::BY_NAME);\n" for i in texts) + "}\n"
    with open(os.path.join(d, "main.rs"), "w") as f:
        f.write(src)
    p = subprocess.run(["rustc", "--edition=2021", "-Cdebuginfo=0", "-o", os.path.join(d, "main"), os.path.join(d, "main.rs")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = {}
    if p.returncode == 0:
        q = subprocess.run([os.path.join(d, "main")], stdout=subprocess.PIPE, check=True)
        for line in q.stdout.decode().splitlines():
            i, x = line.split(" ", 1)
            out[int(i)] = json.loads(x)
    elif len(texts) > 1:
        for i, t in texts.items():
            out.update(read_back(top, f"{tag}-{i}", {i: t}))
    else:
        out = {i: None for i in texts}
    shutil.rmtree(d, ignore_errors=True)
    return out


def some_runs(r):
    """A database: every category occurs, runs of all lengths."""
    n = r.choice((30, 40, 100, 400))
    cuts = set()
    while len(cuts) < n - 1:
        k = r.randrange(3)
        cuts.add(r.randrange(1, 400) if k == 0 else r.randrange(1, MAX + 1) if k == 1 else min(MAX, max(1, r.choice(sorted(cuts) or [5]) + r.choice((-1, 1, 2)))))
    cuts = [0] + sorted(cuts) + [MAX + 1]
    ks = list(range(1, 31))
    r.shuffle(ks)
    runs = []
    for i in range(len(cuts) - 1):
        k = ks[i] if i < 30 else r.randrange(1, 31)
        if runs and runs[-1][2] == k:
            runs[-1][1] = cuts[i + 1] - 1
        else:
            runs.append([cuts[i], cuts[i + 1] - 1, k])
    return runs


def main():
    r = random.Random(SEED)
    top = tempfile.mkdtemp(prefix="gentables-")
    os.chmod(top, 0o755)
    try:
        with open(os.path.join(HERE, "..", "spec", "data", "ucd_runs.json")) as f:
            ucd = json.load(f)
        with open(SCEN) as f:
            scen = [json.loads(x.replace('\\"', '"')) for x in f if x.strip()]
        jobs = []

        def add(version, runs, s, earlier=(), scar=None):
            decoys = [(v, some_runs(r)) for v in r.sample([x for x in VERSIONS + ["latest", "18.0.0"] if x != version], 3)]
            without = r.choice(LONG) if s["fault"] == "listmissing" else None
            jobs.append(Run(top, len(jobs), version, runs, s["fault"], s["prior"], s["per"], s["header"], without, decoys, earlier, scar))

        FAULTS = ("http", "network", "short", "notzip", "toolfails")
        nominal = dict(fault="none", prior="dir", per=1, header="plain")
        add("15.0.0", some_runs(r), nominal)
        for s in scen:
            add(r.choice(VERSIONS + ["8.0.0", "18.0.0", "6.3.0", "4.1.0", "100.20.3"]), some_runs(r), s)
        for _ in range(600 if THOROUGH else 40):
            add(r.choice(VERSIONS + ["18.0.0"]), some_runs(r), dict(fault="none", prior=r.choice(("none", "dir", "old")),
                                                                  per=r.randrange(1, 4), header=r.choice(list(HEADERS))))
        # names the database has or had in other releases, and ones it may get
        for v in ("3.0-Update1", "4.0-Update", "2.1-Update4", "3.1-Update", "17.0.0.1", "16.1", "18", "10.0.10", "20.10.0", "9.0.1", "1.10.100"):
            for _ in range(4 if THOROUGH else 1):
                add(v, some_runs(r), dict(nominal, prior=r.choice(("none", "dir", "old")), per=r.randrange(1, 4)))
        # several runs in one place: other versions (of the same family), the same one with another database, failed ones
        kin = {v: [w for w in VERSIONS + ["18.0.0"] if w != v and w.split(".")[0] == v.split(".")[0]] for v in VERSIONS}
        for i in range(150 if THOROUGH else 27):
            v = r.choice([x for x in VERSIONS if kin[x]]) if i % 3 == 0 else r.choice(VERSIONS)
            earlier = []
            for _ in range(1 + r.randrange(3) // 2):
                w = (r.choice(kin[v]) if i % 3 == 0 else v if i % 3 == 1 else r.choice(VERSIONS))
                earlier.append((w, some_runs(r), r.choice(FAULTS) if r.randrange(4) == 0 else "none"))
            s = dict(nominal, prior=r.choice(("dir", "old")), per=r.randrange(1, 4), header=r.choice(list(HEADERS)))
            if r.randrange(4) == 0:
                s["fault"] = r.choice(FAULTS)
            add(v, some_runs(r), s, earlier)
        # the table of the same database was there, but is no longer what it was
        for scar in ("length", "time", "tail", "part", "more", "lines") * (5 if THOROUGH else 1):
            v, runs = r.choice(VERSIONS), some_runs(r)
            add(v, runs, dict(nominal, per=r.randrange(1, 4)), [(v, runs, "none")], scar)
        for v, runs in zip(VERSIONS, ucd):
            add(v, runs, dict(nominal, prior=r.choice(("none", "dir", "old")), per=r.randrange(1, 4)))
        with cf.ThreadPoolExecutor(max_workers=8) as pool:
            done = list(pool.map(Run.go, jobs))
            hung = [e for e, _, _ in done if "hang" in e["r"]]
            if hung:
                with open(os.path.join(OUT, "stuck.ndjson"), "w") as f:
                    f.write(json.dumps({"op": "hang", "what": {k: v for k, v in hung[0].items() if k != "runs"}}) + "\n")
                return 3
            e, _, said = done[0]
            if e["r"]["exit"] and not e["r"]["asked"] and re.search(r"resol|onnection|URLError|gaierror|unreachable|proxy|curl|wget|requests", said):
                print("the script does not download in a way that can be answered here: " + said[-500:], file=sys.stderr)
                return 9
            texts = {j.i: t for j, (_, t, _) in zip(jobs, done) if t is not None}
            ids = sorted(texts, key=lambda i: -len(texts[i]))
            parts = [{i: texts[i] for i in ids[k::8]} for k in range(8)]
            lists = {}
            for x in pool.map(lambda kp: read_back(top, str(kp[0]), kp[1]), enumerate(parts)):
                lists.update(x)
        lines = []
        for j, (e, t, _) in zip(jobs, done):
            if t is not None:
                got = lists.get(j.i)
                e["r"]["file"] = "broken" if got is None else "table"
                e["r"]["lists"] = got or []
            lines.append(json.dumps(e))
        lines.sort(key=len, reverse=True)
        for k in range(min(SHARDS, len(lines))):
            with open(os.path.join(OUT, f"shard{k:02d}.ndjson"), "w") as f:
                f.write("\n".join(lines[k::SHARDS]) + "\n")
        print(json.dumps({"blocks": len(lines), "lines": len(lines), "calls": len(lines)}))
        return 0
    finally:
        shutil.rmtree(top, ignore_errors=True)


sys.exit(main())
