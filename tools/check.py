#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property of /repo's current working tree:
  1. tools/extract turns /repo/src into one Verus file with the contracts of
     /verif/contracts spliced in (the code text is taken from /repo each time);
  2. Verus discharges every obligation, function by function;
  3. the property holds if every obligation in the property's dependency
     closure is discharged and no contract lost its place in the code;
  4. otherwise a native search looks for an input that violates the property
     on the real crate, and the failed obligation is reported.
"""
import collections, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SPDM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CONTRACTS = os.path.join(VERIF, "contracts")
BASE = os.path.join(VERIF, "contracts", "baseline.json")
T0 = time.time()
THREADS = str(min(8, os.cpu_count() or 4))


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def left(total=860):
    return total - (time.time() - T0)


def run(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         start_new_session=True, errors="replace", **kw)
    try:
        o, e = p.communicate(timeout=max(5, timeout))
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return -9, o, e + "\n[timed out]"


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def cargo_env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", SPDM_CONFIG="spdm-config-crypto.toml")
    e.pop("RUSTFLAGS", None)
    return e


def build_extractor():
    d = os.path.join(VERIF, "tools", "extract")
    with Lock("extract.lock"):
        rc, o, e = run(["cargo", "build", "--release", "--offline", "--quiet", "--manifest-path",
                        os.path.join(d, "Cargo.toml"), "--target-dir", os.path.join(BUILD, "extract")],
                       600, env=cargo_env())
    if rc:
        raise SystemExit("cannot build the extractor:\n" + e)
    return os.path.join(BUILD, "extract", "release", "extract")


def build_engine(timeout):
    d = os.path.join(VERIF, "engine")
    with Lock("engine.lock"):
        rc, o, e = run(["cargo", "build", "--release", "--offline", "--quiet", "--manifest-path",
                        os.path.join(d, "Cargo.toml"), "--target-dir", os.path.join(BUILD, "engine")],
                       timeout, env=cargo_env())
    if rc:
        log("native engine does not build against this tree:\n" + e[-3000:])
        return None
    return os.path.join(BUILD, "engine", "release", "engine")


# ---------------------------------------------------------------- generated file
class Gen:
    """The generated file: which function and module each line belongs to."""

    def __init__(self, path):
        self.path = path
        self.text = open(path).read()
        self.lines = self.text.split("\n")
        n = len(self.lines)
        self.fn_at = [None] * (n + 2)      # key of the extracted function body
        self.mod_at = [""] * (n + 2)
        self.item_at = [None] * (n + 2)    # name of the nearest preceding `fn`
        self.spec_of = {}                  # key -> (first line, last line) of header + contract
        mods, fn, item, item_line = [], None, None, 0
        for i, l in enumerate(self.lines, 1):
            for m in re.finditer(r"/\*#(m|x|fn|end) ?([^*]*(?:\*(?!/)[^*]*)*)\*/|\bfn\s+(\w+)", l):
                if m.group(3):
                    if fn is None:
                        item, item_line = m.group(3), i
                    continue
                k, v = m.group(1), m.group(2).strip()
                if k == "m":
                    mods.append(v)
                elif k == "x":
                    if mods:
                        mods.pop()
                elif k == "fn":
                    fn = v
                    self.spec_of[v] = (item_line, i)
                    self.fn_at[i] = v
                else:
                    self.fn_at[i] = fn
                    fn = None
            if fn:
                self.fn_at[i] = fn
            self.mod_at[i] = mods[-1] if mods else ""
            self.item_at[i] = item
        # contract lines belong to the function they precede
        self.owner = list(self.fn_at)
        for k, (a, b) in self.spec_of.items():
            for i in range(a, b + 1):
                if self.owner[i] is None:
                    self.owner[i] = k

    def tags_in(self, a, b):
        t = set()
        for i in range(a, min(b, len(self.lines)) + 1):
            for m in re.finditer(r"//@([A-Z0-9, ]+)", self.lines[i - 1]):
                t |= {x.strip() for x in m.group(1).split(",") if x.strip()}
        return t

    def clause_tags(self, a, b):
        """Tags of the clause that starts at line a: on its last line."""
        t = self.tags_in(a, b)
        i = b
        depth = sum(self.lines[k - 1].count("(") - self.lines[k - 1].count(")") for k in range(a, b + 1))
        while not t and depth > 0 and i < len(self.lines) and i < b + 12:
            i += 1
            depth += self.lines[i - 1].count("(") - self.lines[i - 1].count(")")
            t = self.tags_in(i, i)
        return t

    def fn_tags(self, key):
        t = set()
        for i, k in enumerate(self.owner):
            if k == key:
                t |= self.tags_in(i, i)
        return t

    def tag_sites(self):
        """property -> set of (module, item name) whose contract carries its tag"""
        r = collections.defaultdict(set)
        n = collections.Counter()
        for i, l in enumerate(self.lines, 1):
            for m in re.finditer(r"//@([A-Z0-9, ]+)", l):
                for x in m.group(1).split(","):
                    if x.strip():
                        r[x.strip()].add((self.mod_at[i], self.item_at[i]))
                        n[x.strip()] += 1
        return r, n


# ---------------------------------------------------------------- call graph
class Graph:
    def __init__(self, d):
        self.nodes, self.edges = {}, collections.defaultdict(set)
        p = os.path.join(d, "crate-call-graph-nostd-initial.dot")
        self.ok = os.path.exists(p)
        if not self.ok:
            return
        for l in open(p):
            m = re.match(r'\s*(node_\d+) \[.*label="(\w+)\\n([^"]*)"', l)
            if m:
                self.nodes[m[1]] = (m[2], m[3])
                continue
            m = re.match(r"\s*(node_\d+) -> (node_\d+)", l)
            if m:
                self.edges[m[1]].add(m[2])

    @staticmethod
    def site(path):
        s = [x for x in path.split("::") if not x.startswith("impl&")]
        if s and s[0] == "gen":
            s = s[1:]
        return s

    def funs(self):
        """node -> (path segments without impl parts)"""
        return {n: self.site(v) for n, (k, v) in self.nodes.items() if k == "Fun" and v.startswith("gen::")}

    def closure(self, starts):
        """starts: set of (module, name); returns set of (module, name)."""
        funs = self.funs()
        by = collections.defaultdict(set)
        sites = {}
        for n, s in funs.items():
            if not s:
                continue
            name = s[-1]
            # the module is the longest lowercase prefix
            ms = [x for x in s[:-1] if x and x[0].islower()]
            st = ("::".join(ms), name)
            sites[n] = st
            by[st].add(n)
        seen = set()
        stack = []
        for s in starts:
            for n in by.get(s, ()):
                seen.add(n)
                stack.append(n)
        while stack:
            x = stack.pop()
            if self.nodes.get(x, ("",))[0] in ("Crate", "ModuleReveal"):
                continue
            for y in self.edges[x]:
                if y not in seen:
                    seen.add(y)
                    stack.append(y)
        return {sites[n] for n in seen if n in sites}


def key_site(key):
    k = key.split("@")[0]
    s = k.split("::")
    return ("::".join(x for x in s[:-1] if x and x[0].islower()), s[-1])


def bd_site(name):
    s = Graph.site(name)
    return ("::".join(x for x in s[:-1] if x and x[0].islower()), s[-1] if s else "")


# ---------------------------------------------------------------- verus
class Result:
    pass


def verus(gen, rundir, extra=(), timeout=300, graph=False):
    cmd = ["verus", "gen.rs", "--num-threads", THREADS, "--output-json", "--time-expanded",
           "--error-format=json", "--multiple-errors", "6", *extra]
    if graph:
        shutil.rmtree(os.path.join(rundir, "log"), ignore_errors=True)
        cmd += ["--log", "call-graph", "--log-dir", os.path.join(rundir, "log")]
    t = time.time()
    rc, out, err = run(cmd, timeout, cwd=rundir)
    r = Result()
    r.cmd, r.rc, r.stderr, r.wall = " ".join(cmd), rc, err, time.time() - t
    r.diags = []
    for l in err.splitlines():
        if l.startswith("{"):
            try:
                r.diags.append(json.loads(l))
            except ValueError:
                pass
    try:
        i = out.index("{")
        r.json = json.loads(out[i:])
    except ValueError:
        r.json = {}
    vr = r.json.get("verification-results", {})
    r.verified = vr.get("verified", 0)
    r.errors = vr.get("errors", 0)
    r.success = bool(vr.get("success"))
    r.vir_error = (not vr) or bool(vr.get("encountered-vir-error"))
    r.units = []
    for m in r.json.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for b in m.get("function-breakdown", []):
            r.units.append({"name": b["function"], "mode": b.get("mode:", b.get("mode", "")),
                            "us": b.get("time-micros", 0), "ok": b.get("success"), "module": m.get("module", "")})
    r.failed_units = [u for u in r.units if not u["ok"]]
    return r


PANIC = re.compile(r"precondition|overflow|underflow|division|unreachable|index|shift|bounds", re.I)


# A codec function that misses its contract breaks these properties too, besides
# those named on the clause.
ALSO = [
    (r"version::GetVersion::parse", "C12 C16"), (r"version::Version::write", "C16"), (r"version::Version::parse", "C07"),
    (r"capabilities::GetCapabilities::parse", "C12 C21"), (r"capabilities::GetCapabilities::write", "C21"),
    (r"capabilities::Capabilities::(parse|write)", "C21"),
    (r"algorithms::NegotiateAlgorithms::(parse|read)", "C08 C12"), (r"algorithms::NegotiateAlgorithms::write", "C09"),
    (r"algorithms::Algorithms::(parse|read|ensure)", "C09"), (r"algorithms::Algorithms::write", "C08"),
    (r"algorithms::AlgorithmRequest::read", "C08 C09"), (r"algorithms::AlgorithmRequest::write", "C08"),
    (r"digest::GetDigests::parse", "C12"), (r"digest::Digests::(parse|read|write)", "C17"),
    (r"certificates::GetCertificate::parse", "C12 C18"), (r"certificates::Certificate(Chain)?::(parse|write|read)", "C18"),
    (r"challenge::Challenge::parse", "C12"), (r"challenge::Challenge::write", "C23"),
    (r"challenge::ChallengeAuth::write", "C15"), (r"challenge::ChallengeAuth::parse", "C14"),
    (r"error::Error::write", "C20"),
]


def also(key):
    return {t for p, ts in ALSO for t in ts.split() if re.match("msgs::" + p, key or "")}


def failures(r, gen):
    """Verification errors as obligations."""
    out = []
    for d in r.diags:
        if d.get("level") != "error" or d["message"].startswith("aborting due"):
            continue
        sp = [s for s in d.get("spans", []) if s.get("file_name", "").endswith("gen.rs")]
        if not sp:
            continue
        prim = [s for s in sp if s.get("is_primary")] or sp
        f = {"message": d["message"], "rendered": d.get("rendered", ""),
             "lines": [(s["line_start"], s["line_end"], s.get("label") or "") for s in sp]}
        body = None
        for s in sp:
            k = gen.fn_at[s["line_start"]]
            if k:
                body = k
                break
        if body is None:
            body = gen.owner[prim[0]["line_start"]]
        f["fn"] = body
        ln = prim[0]["line_start"]
        f["module"] = gen.mod_at[ln] if body is None else key_site(body)[0]
        f["item"] = body or "%s::%s" % (gen.mod_at[ln], gen.item_at[ln])
        f["site"] = key_site(body) if body else (gen.mod_at[ln], gen.item_at[ln])
        f["clause"] = " ".join(x.strip() for x in gen.lines[ln - 1:prim[0]["line_end"]])[:300]
        tags = set()
        panics = {"C01", "C02"}
        if f["module"].startswith("requester"):
            panics = {"C02"}
        elif f["module"].startswith("responder"):
            panics = {"C01"}
        if d["message"].startswith("postcondition"):
            for s in sp:
                if "failed this postcondition" in (s.get("label") or ""):
                    tags |= gen.clause_tags(s["line_start"], s["line_end"])
            f["direct"] = bool(tags)
            if not tags and body:
                tags = gen.fn_tags(body)
        elif PANIC.search(d["message"]):
            tags = set(panics)
            f["direct"] = True
        else:
            # a failing proof step, loop invariant, termination or resource limit
            f["direct"] = False
            if body:
                tags = gen.fn_tags(body) | panics
            else:
                t, _ = gen.tag_sites()
                tags = {p for p, v in t.items() if f["site"] in v}
        if not PANIC.search(d["message"]):
            tags |= also(body)
        f["tags"] = sorted(tags)
        f["name"] = "%s: %s: %s" % (f["item"], d["message"], f["clause"])
        out.append(f)
    return out


def compile_errors(r, gen):
    """Functions in which rustc/VIR errors lie, and errors outside any function."""
    keys, other = set(), []
    for d in r.diags:
        if d.get("level") != "error" or d["message"].startswith("aborting due"):
            continue
        sp = [s for s in d.get("spans", []) if s.get("file_name", "").endswith("gen.rs")]
        ks = {gen.fn_at[s["line_start"]] for s in sp} - {None}
        if not ks:
            ks = {gen.owner[s["line_start"]] for s in sp} - {None}
        if ks:
            keys |= ks
        else:
            other.append(d.get("rendered", d["message"])[:600])
    return keys, other


def extract(exe, rundir, external=(), vacuity=False, config=None, features=None, hint=()):
    gen, mp = os.path.join(rundir, "gen.rs"), os.path.join(rundir, "map.json")
    base = os.path.join(rundir, "baseline.tsv")
    b = {}
    if os.path.exists(BASE):
        b = json.load(open(BASE))
        with open(base, "w") as f:
            for k, v in b.items():
                f.write("\t".join([k, ",".join(v["params"]), ",".join(v["locals"]), "\x01".join(v["loops"])]) + "\n")
    cmd = [exe, REPO, CONTRACTS, gen, mp]
    if b:
        cmd += ["--baseline", base]
    if external:
        cmd += ["--external", ",".join(sorted(external))]
    if vacuity:
        cmd += ["--vacuity"]
    if hint:
        cmd += ["--hint", ",".join(sorted(hint))]
    if config:
        cmd += ["--config", config]
    if features is not None:
        cmd += ["--features", features]
    rc, o, e = run(cmd, 60)
    if rc:
        return None, None, b, e.strip()
    return Gen(gen), json.load(open(mp)), b, ""


# ---------------------------------------------------------------- evidence
TRUSTED = [
    "Verus 0.2026.09.13 (VC generation, vstd specifications of core/alloc) and Z3 as its back end",
    "rustc's expansion-independent reading of the source; /verif/tools/extract (mechanical rewrite of /repo/src; the list of rewrites applied in this run is in coverage.rewrites)",
    "assumed contracts of ring, webpki, ring-compat and rand (/verif/contracts/01_ext.vc): signature and chain validity, hashing and key pairs are uninterpreted; lengths of digests (32/48/64) and of fixed ECDSA signatures (64/96) are assumed",
    "assumed specifications in /verif/contracts/00_root.vc: to/from_le/be_bytes, count_ones, the `?` conversion calling From::from, slice equality, try_into to arrays, slice length <= isize::MAX, functions of Option, Result, slices and integers that only changed code would use (the thorough tier discharges these with Kani on the code that runs, slices bounded: /verif/kani)",
    "derived Clone/PartialEq/PartialOrd/Default are expanded field by field by the extractor, as rustc's derive does (coverage.derived_impls), and verified; equality of arrays is assumed to be that of their elements",
]


def assumed_items(gen):
    out = []
    for i, l in enumerate(gen.lines, 1):
        if "external_body" in l and "derive" not in l:
            # the item it belongs to
            for j in range(i, min(i + 4, len(gen.lines)) + 1):
                m = re.search(r"\b(?:proof\s+)?fn\s+(\w+)|\bstruct\s+(\w+)", gen.lines[j - 1])
                if m:
                    out.append("%s::%s" % (gen.mod_at[i] or "crate", m.group(1) or m.group(2)))
                    break
    return out


def write_evidence(prop, ev):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                out.append(l[len("finding: "):])
    return out


def loop_class(h):
    """What kind of loop a header is: its bounds may change, its kind may not."""
    if h.startswith("for "):
        e = h.split(" in ", 1)[-1]
        return "range" if re.search(r"\.\. ", e) and "[" not in e and "iter ()" not in e else "each"
    return h.split(" ")[0]


def intact(key, mp, base, external, lost, direct=True):
    """The function still has the shape its proof was written for.

    A step inside a proof (an assertion, an invariant) counts against the code
    only if statements, branches and calls are those the proof was written for:
    after a rearrangement it may just stand in the wrong place."""
    if key is None:
        return True
    cur = {f["key"]: f for f in mp["functions"]}
    if key in external or key in lost or key in mp["touched"] or key not in cur or key not in base:
        return False
    f, b = cur[key], base[key]
    if f["has_body"] is False or [loop_class(l) for l in f["loops"]] != [loop_class(l) for l in b["loops"]]:
        return False
    if not direct and f["skel"] != b["skel"]:
        return False
    new = set(f["calls"]) - set(b["calls"])
    for c in new:
        for k, g in cur.items():
            if key_site(k)[1] == c and k not in base:
                return False
    # a helper that lost its contracted callee is judged by the search alone
    return True


# ---------------------------------------------------------------- engine
def run_engine(prop, tier, seed, rundir, budget):
    exe = build_engine(min(400, left() - 60))
    if exe is None:
        return None
    secs = int(max(10, min(budget, left() - 60)))
    rp = os.path.join(BUILD, "replay")
    os.makedirs(rp, exist_ok=True)
    path = os.path.join(rp, "%s.json" % prop)
    if os.path.exists(path):
        os.remove(path)
    log("searching natively for a violating input, %d s" % secs)
    rc, o, e = run([exe, "search", prop, "--seed", str(seed), "--seconds", str(secs), "--out", path], secs + 60)
    st = {}
    for l in o.splitlines():
        if l.startswith("STATS "):
            try:
                st = json.loads(l[6:])
            except ValueError:
                pass
    if rc == 10 and os.path.exists(path):
        return {"found": True, "path": path, "stats": st, "text": o}
    if rc == 0 and st:
        return {"found": False, "stats": st, "text": o}
    log("engine failed rc=%d\n%s\n%s" % (rc, o[-1500:], e[-1500:]))
    return None


def prove(exe, rundir):
    """Extract the tree and run the verifier on all of it."""
    external, base = set(), {}
    gen = mp = r = None
    whole = ""          # why nothing can be proved at all
    for _ in range(8):
        gen, mp, base, err = extract(exe, rundir, external)
        if gen is None:
            whole = "extraction failed: " + err
            break
        r = verus(gen, rundir, timeout=min(300, left()), graph=True)
        log("verus: %d verified, %d errors%s, %.1f s" % (r.verified, r.errors, " (compile error)" if r.vir_error else "", r.wall))
        if r.success or (not r.vir_error and r.units):
            break
        keys, other = compile_errors(r, gen)
        new = keys - external
        if not new:
            whole = "the generated file is not accepted by the verifier's front end: " + "; ".join(other)[:1500] + r.stderr[-500:] * (not r.diags)
            break
        log("outside the verifier's reach, treated as external: " + ", ".join(sorted(new)))
        external |= new
    else:
        whole = "too many functions outside the verifier's reach"
    if whole:
        log(whole)

    fails, retries = [], 0
    if not whole and not r.success:
        fails = failures(r, gen)
        mods = sorted({f["module"] for f in fails} | {bd_site(u["name"])[0] for u in r.failed_units})
        bad = {u["name"] for u in r.failed_units}
        for opts in (["--smt-option", "smt.random_seed=7", "--rlimit", "30"],
                     ["--smt-option", "smt.random_seed=23", "--rlimit", "60", "-V", "spinoff-all"]):
            if not fails or left() < 420 or not bad:
                break
            a = list(opts)
            for m in mods:
                a += ["--verify-only-module", m] if m else ["--verify-root"]
            # the last time with general facts on bits and byte sequences (vx::hint)
            gen2, dir2 = gen, rundir
            hint = {f["fn"] for f in fails if f["fn"]}
            if retries and hint:
                dir2 = os.path.join(rundir, "hint")
                os.makedirs(dir2, exist_ok=True)
                gen2 = extract(exe, dir2, external, hint=hint)[0]
                if gen2 is None:
                    gen2, dir2 = gen, rundir
            r2 = verus(gen2, dir2, a, timeout=min(200, left() - 300))
            retries += 1
            log("retry %s: %d verified, %d errors, %.1f s" % (" ".join(opts), r2.verified, r2.errors, r2.wall))
            if r2.vir_error or not r2.units:
                continue
            still = {u["name"] for u in r2.failed_units}
            ok2 = {u["name"] for u in r2.units if u["ok"]}
            bad = {n for n in bad if n in still or n not in ok2}
            f2 = failures(r2, gen2)
            names2 = {f["item"] for f in f2}
            fails = [f for f in fails if f["item"] in names2]
            for u in r.units:
                if not u["ok"] and u["name"] not in bad:
                    u["ok"] = True
        r.failed_units = [u for u in r.units if not u["ok"]]
        if not fails and r.failed_units:
            for u in r.failed_units:
                fails.append({"name": u["name"] + ": not discharged", "item": u["name"], "fn": None, "site": bd_site(u["name"]),
                              "module": bd_site(u["name"])[0], "tags": [], "direct": False, "clause": "", "rendered": "", "message": "not discharged"})

    return external, gen, mp, base, r, whole, fails, retries


def judge(prop, rundir, external, gen, mp, base, r, whole, fails):
    """The part of the run the property depends on, and what in it is not proved."""
    lost = {k: w for k, w in (mp["lost"] if mp else [])}
    gone = list(mp["contracts_without_function"]) + list(mp["missing_anchors"]) if mp else []

    # the property's part of the crate
    clo, ntag = set(), {}
    if not whole:
        g = Graph(os.path.join(rundir, "log"))
        sites, ntag = gen.tag_sites()
        starts = set(sites.get(prop, ()))
        cur = {f["key"]: f for f in mp["functions"]}
        tnames = {n for (m, n) in starts if any(f["key"].split("::")[-1] == n and not f["has_body"] for f in cur.values())}
        for k in cur:
            if "@" in k and key_site(k)[1] in tnames:
                starts.add(key_site(k))
        if prop == "C01":
            starts |= {key_site(k) for k in cur if k.startswith("responder::Responder::")}
        if prop == "C02":
            starts |= {key_site(k) for k in cur if k.startswith("requester::Requester")}
        clo = g.closure(starts) if g.ok else {key_site(k) for k in cur}
        clo |= starts

    def relevant(site):
        return site in clo

    unproved = []     # (why, fn key or None, direct?)
    if not whole:
        for f in fails:
            if relevant(f["site"]) or prop in f["tags"]:
                unproved.append((f["name"], f["fn"], prop in f["tags"], f))
        for k in external:
            if relevant(key_site(k)):
                unproved.append(("%s: outside the verifier's reach" % k, k, False, None))
        for k, w in (mp["lost"] if mp else []):
            # without a step of its proof a function is proved if the verifier accepts it
            if relevant(key_site(k)) and not w.startswith("proof step:"):
                unproved.append(("%s: %s" % (k, w), k, False, None))
        for k in gone:
            kk = k.split(" ")[-1]
            if relevant(key_site(kk)) or not key_site(kk)[0]:
                unproved.append(("%s: contract has no function in this tree" % k, kk, False, None))
    else:
        unproved.append((whole, None, False, None))

    return unproved, relevant, lost, ntag


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    rundir = os.path.join(BUILD, "run-" + prop)
    shutil.rmtree(rundir, ignore_errors=True)
    os.makedirs(rundir)
    exe = build_extractor()
    external, gen, mp, base, r, whole, fails, retries = prove(exe, rundir)
    unproved, relevant, lost, ntag = judge(prop, rundir, external, gen, mp, base, r, whole, fails)

    covered = [f for f in (mp["functions"] if mp else []) if relevant(key_site(f["key"])) and f["has_body"] and not f["external"]]
    under = [f["key"] for f in covered if f["contracted"]]
    units = [u for u in (r.units if r else []) if relevant(bd_site(u["name"]))]
    obligations = len(units)
    discharged = len([u for u in units if u["ok"]])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "obligation_unit": "one verification query per function body, lemma, loop-carrying function or constant in the property's dependency closure (Verus call graph)",
            "crate_obligations": len(r.units) if r else 0, "crate_discharged": len([u for u in r.units if u["ok"]]) if r else 0,
            "clauses_tagged": ntag.get(prop, 0),
            "functions_under_contract": len(under), "functions": under,
            "functions_without_contract": [f["key"] for f in covered if not f["contracted"]],
            "back_end": "Verus 0.2026.09.13.671956e / Z3 (bundled)",
            "solver_time_s": round(sum(u["us"] for u in units) / 1e6, 3),
            "crate_solver_time_s": round(sum(u["us"] for u in (r.units if r else [])) / 1e6, 3),
            "slowest": [{"unit": u["name"], "ms": u["us"] // 1000} for u in sorted(units, key=lambda u: -u["us"])[:5]],
            "checker_cmd": r.cmd if r else "",
            "trusted_base": TRUSTED,
            "assumed_items": assumed_items(gen) if gen else [],
            "derived_impls": len(mp["assumed"]) if mp else 0,
            "rewrites": mp["rewrites"] if mp else {},
            "retries": retries,
        },
        "assumptions": ASSUMPTIONS.get(prop, []) + ASSUME_ALL,
        "wall_s": 0.0, "violations": 0,
    }
    status = 0
    if not unproved:
        if tier == "thorough":
            thorough(exe, rundir, gen, mp, prop, seed, ev, relevant, external)
            if ev.get("_bad"):
                unproved = ev.pop("_bad")
        if not unproved:
            log("%s: proved, %d obligations in its closure" % (prop, obligations))
    if True:
        if unproved:
            log("not proved on this tree:")
            for u in unproved[:12]:
                log("   " + u[0][:300])
        # Everything proved: a short run of the real code against the reference
        # models still covers what the proof assumes (ring, webpki, the random
        # source, derived impls, the build).  It is never counted as proof.
        res = run_engine(prop, tier, seed, rundir, 240 if tier == "thorough" else 75 if unproved else 10)
        if res:
            ev["coverage"]["native_search"] = dict(res["stats"], bounded="sampled, not counted as proved")
        if res and res["found"]:
            ev["violations"] = 1
            doc = json.load(open(res["path"]))
            doc["property"] = prop
            doc["failed_obligations"] = [u[0] for u in unproved]
            doc["replay_cmd"] = "python3 %s replay %s" % (os.path.join(VERIF, "tools", "check.py"), res["path"])
            doc["verifier_output"] = [u[3]["rendered"] for u in unproved if u[3]][:8]
            json.dump(doc, open(res["path"], "w"), indent=1)
            print("violated: " + str(doc.get("what", "")))
            print("VIOLATION property=%s replay=%s" % (prop, res["path"]))
            status = 1
        elif unproved:
            named = [u for u in unproved if u[2] and intact(u[1], mp, base, external, lost, not u[3] or u[3]["direct"])]
            if named or (whole and res is None):
                rp = os.path.join(BUILD, "replay")
                os.makedirs(rp, exist_ok=True)
                path = os.path.join(rp, prop + ".json")
                json.dump({"property": prop, "kind": "obligation", "failed_obligations": [u[0] for u in (named or unproved)],
                           "other_unproved": [u[0] for u in unproved if u not in named],
                           "verifier_output": [u[3]["rendered"] for u in named if u[3]][:8] or [whole],
                           "checker_cmd": r.cmd if r else "", "native_search": res["stats"] if res else "not available"},
                          open(path, "w"), indent=1)
                ev["violations"] = 1
                for u in (named or unproved)[:6]:
                    print("failed obligation: " + u[0][:300])
                print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
                status = 1
            else:
                # the code moved out of the proof's shape: the bounded search stands in
                ev["level"] = "exploration"
                st = res["stats"] if res else {}
                ev["coverage"].update({
                    "evaluations": st.get("evaluations", 0), "distinct_nontrivial": st.get("distinct_nontrivial", 0),
                    "rule": st.get("rule", ""), "samples": st.get("samples", ["none"]),
                    "bounded": "BOUNDED, not proved on this tree: " + "; ".join(u[0] for u in unproved)[:2000]})
                log("%s: not proved on this tree (see evidence), bounded search found no violation" % prop)
    if status == 0:
        for k in known_findings(prop):
            print("KNOWN-FINDING: " + k)
        print("OK property=%s level=%s" % (prop, ev["level"]))
    ev["wall_s"] = round(time.time() - T0, 2)
    write_evidence(prop, ev)
    return status


def thorough(exe, rundir, gen, mp, prop, seed, ev, relevant, external):
    """Second solver seed, and a vacuity run: with `assert(false)` at the end of
    every contracted function body every one of them has to fail."""
    r2 = verus(gen, rundir, ["--smt-option", "smt.random_seed=%d" % (seed + 100), "--rlimit", "40"], timeout=min(300, left() - 400))
    ev["coverage"]["second_seed"] = {"verified": r2.verified, "errors": r2.errors}
    vd = os.path.join(rundir, "vac")
    os.makedirs(vd, exist_ok=True)
    g2, m2, _, err = extract(exe, vd, vacuity=True)
    if g2 is None:
        ev["coverage"]["vacuity"] = "extraction failed"
        return
    r3 = verus(g2, vd, timeout=min(300, left() - 300))
    marked = {g2.fn_at[i] for i, l in enumerate(g2.lines, 1) if "/*#vac*/" in l and g2.fn_at[i]}
    failed = set()
    for d in r3.diags:
        if d.get("level") == "error":
            for s in d.get("spans", []):
                k = g2.fn_at[s["line_start"]] if s.get("file_name", "").endswith("gen.rs") else None
                if k:
                    failed.add(k)
    dead = sorted(k for k in marked - failed if relevant(key_site(k)))
    ev["coverage"]["vacuity"] = {"functions_probed": len([k for k in marked if relevant(key_site(k))]),
                                 "assert_false_refuted": len([k for k in marked & failed if relevant(key_site(k))]),
                                 "not_refuted": dead}
    ev["coverage"]["assumed_contracts_checked"] = assumed_by_kani(ev)
    other_configs(exe, rundir, ev, prop, relevant, external)


def other_configs(exe, rundir, ev, prop, relevant, external):
    """The same proof with other build-time configurations (/verif/configs), and
    for the build without a crypto provider, whose stand-ins panic when reached."""
    out = ev["coverage"]["other_configurations"] = []
    confs = [("no crypto provider (spdm-config.toml, default features)", os.path.join(REPO, "spdm-config.toml"), "")]
    confs += [("configs/" + n, os.path.join(VERIF, "configs", n), None) for n in sorted(os.listdir(os.path.join(VERIF, "configs")))]
    for i, (name, path, feats) in enumerate(confs):
        if left() < 330:
            out.append({"configuration": name, "result": "no time left"})
            continue
        d = os.path.join(rundir, "cfg-%d" % i)
        os.makedirs(d, exist_ok=True)
        g, m, b, err = extract(exe, d, external, config=path, features=feats)
        if g is None:
            out.append({"configuration": name, "result": err[-500:]})
            continue
        r = verus(g, d, timeout=min(200, left() - 270))
        row = {"configuration": name, "verified": r.verified, "errors": r.errors}
        out.append(row)
        log("configuration %s: %d verified, %d errors" % (name, r.verified, r.errors))
        if r.vir_error or not r.units or r.success:
            continue
        fails = [f for f in failures(r, g) if relevant(f["site"]) or prop in f["tags"]]
        row["failed"] = [f["name"] for f in fails][:8]
        if fails:
            ev.setdefault("_bad", [])
            ev["_bad"] += [("with %s: %s" % (name, f["name"]), f["fn"], prop in f["tags"], f) for f in fails]


def assumed_by_kani(ev):
    """Kani proofs of the assumed contracts that lie within its reach: the standard
    library's conversions and bitflags as the crate instantiates it."""
    td = os.path.join(BUILD, "kani")
    with open(os.path.join(BUILD, "kani.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, o, e = run(["cargo", "kani", "--target-dir", td, "-j", "4", "--output-format", "terse"], min(300, left() - 60),
                       cwd=os.path.join(VERIF, "kani"), env=dict(os.environ, CARGO_NET_OFFLINE="true", SPDM_CONFIG="spdm-config-crypto.toml"))
    m = re.search(r"(\d+) successfully verified harnesses, (\d+) failures", o)
    if not m:
        return {"tool": "Kani", "result": "not available on this tree", "output": (o + e)[-1500:]}
    if int(m.group(2)):
        ev["_bad"] = ev.get("_bad", []) + [("assumed contract refuted by Kani", None, False, None)]
    return {"tool": "Kani 0.68 / CBMC", "verified": int(m.group(1)), "failed": int(m.group(2)), "source": "/verif/kani/src/lib.rs",
            "failed_harnesses": re.findall(r"Verification failed for - (\S+)", o)}


ASSUME_ALL = [
    "integer arithmetic is machine arithmetic (Verus checks overflow); usize is 64-bit or 32-bit as Verus allows",
    "the configuration is spdm-config-crypto.toml with the crypto-ring feature (the thorough tier repeats the proof for the three configurations in /verif/configs and for the build without a crypto provider)",
]
ASSUMPTIONS = {}


def replay():
    path = sys.argv[2]
    doc = json.load(open(path))
    if doc.get("kind") == "obligation":
        print("no failing input: obligations that failed:")
        for o in doc["failed_obligations"]:
            print("  " + o)
        print("\n".join(doc["verifier_output"]))
        return 1
    exe = build_engine(600)
    rc, o, e = run([exe, "replay", path], 300)
    sys.stdout.write(o)
    sys.stderr.write(e)
    return 1 if rc == 10 else 0


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay())
    if sys.argv[1] == "baseline":
        exe = build_extractor()
        d = os.path.join(BUILD, "baseline")
        os.makedirs(d, exist_ok=True)
        if os.path.exists(BASE):
            os.remove(BASE)
        g, m, _, err = extract(exe, d)
        assert g, err
        json.dump({f["key"]: {k: f[k] for k in ("params", "locals", "loops", "calls", "hash", "skel")} for f in m["functions"]},
                  open(BASE, "w"), indent=0, sort_keys=True)
        open(BASE, "a").write("\n")
        sys.exit(0)
    if sys.argv[1] == "setup":
        build_extractor()
        ok = build_engine(1200)
        sys.exit(0 if ok else 1)
    try:
        sys.exit(main())
    except SystemExit:
        raise
