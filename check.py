#!/usr/bin/env python3
"""python3 /verif/check.py <property> : decide one property of /repo's current working tree.

1. expand the crate (rustc's own macro expansion), extract the functions under contract (vx) and let Verus
   discharge every obligation of every unit the property depends on;
2. run the replay harness (compiled against the real crate): the bounded companion that turns a failed
   obligation into a failing input, and the labelled bounded stand-in for what is not under contract.
Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: no answer could be produced.
"""
import concurrent.futures as cf, contextlib, fcntl, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(HERE, ".cache"))
EVID = os.path.join(HERE, "evidence") if REPO == "/repo" else os.path.join(CACHE, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
CFG = json.load(open(os.path.join(HERE, "specs/units.json")))
T0 = time.time()
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in list(ENV):
    if k.startswith("CARGO_TARGET") or k in ("RUSTFLAGS", "RUSTUP_TOOLCHAIN"): ENV.pop(k)

DEFINITE = re.compile(r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|possible arithmetic (under|over)flow|"
                      r"possible division by zero|decreases not satisfied|could not prove termination|possible bit shift|recommendation not met|unable to prove|may be out of range|cannot show|failed")
UNSURE = re.compile(r"rlimit|timed out|Resource limit|incomplete|canceled", re.I)


def log(*a): print("#", *a, flush=True)


def sh(cmd, timeout=600, **kw):
    kw.setdefault("env", ENV)
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout")


# ------------------------------------------------------------------------------------------ building
@contextlib.contextmanager
def lock(name):
    with open(os.path.join(CACHE, name + ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def build_vx(tmp):
    with lock("vx"):
        env = dict(ENV, CARGO_TARGET_DIR=os.path.join(CACHE, "vx"))
        r = sh(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(HERE, "vx"), env=env)
        if r.returncode: raise RuntimeError("vx does not build: " + r.stderr[-2000:])
        return shutil.copy2(os.path.join(CACHE, "vx/debug/vx"), os.path.join(tmp, "vx"))


def copy_repo(dst):
    os.makedirs(dst)
    for n in os.listdir(REPO):
        if n in ("target", ".git"): continue
        s, d = os.path.join(REPO, n), os.path.join(dst, n)
        if os.path.isdir(s): shutil.copytree(s, d, symlinks=True, ignore=shutil.ignore_patterns("target", ".git"))
        else: shutil.copy2(s, d)


def cargo_expand(tmp, out, d, target, args, clean):
    env = dict(ENV, RUSTC_BOOTSTRAP="1", RUSTUP_TOOLCHAIN="1.81.0", CARGO_TARGET_DIR=target)
    for p in clean: sh(["cargo", "clean", "--offline", "--quiet", "-p", p], cwd=d, env=env)
    r = sh(["cargo", "rustc", "--offline", "--lib", *args, "--", "-Zunpretty=expanded"], cwd=d, env=env)
    if r.returncode or not r.stdout: raise RuntimeError("expansion fails: " + r.stderr[-3000:])
    f = os.path.join(tmp, out); open(f, "w").write(r.stdout)
    return f


def expand(tmp):
    """the crate after macro expansion, as rustc sees it"""
    with lock("exp"):
        d = os.path.join(CACHE, "exp"); shutil.rmtree(d, ignore_errors=True); copy_repo(d)
        return cargo_expand(tmp, "expanded.rs", d, os.path.join(CACHE, "texp"), ["--features", "tokio,smol"], ["crossmist", "crossmist-derive"])


def expand_fixture(tmp, name):
    """a fixture crate (derived types, functions) after expansion with the crate's own macros"""
    with lock("fx-" + name):
        d = os.path.join(CACHE, "fx-" + name); shutil.rmtree(d, ignore_errors=True); shutil.copytree(os.path.join(HERE, "fixtures", name), d)
        t = open(os.path.join(d, "Cargo.toml")).read().replace('"/repo', '"' + REPO); open(os.path.join(d, "Cargo.toml"), "w").write(t)
        return cargo_expand(tmp, f"fx-{name}.rs", d, os.path.join(CACHE, "tfx-" + name), [], ["crossmist", "crossmist-derive"])


class Broken(Exception):
    """programs of the property's own harness module that the crate no longer compiles"""


MODULES = {"c01": ["C01"], "c02": ["C02"], "c03": ["C03"], "c04": ["C04"], "c05": ["C05", "C06", "C07"], "c08": ["C08", "C09"], "c10": ["C10"], "c11": ["C11", "C12"], "c13": ["C13", "C14"], "c15": ["C15", "C16"]}
# what these promise is what the crate's macros generate: a program of theirs that no longer compiles is a failing input
MACRO_FACING = {"C02", "C10"}


def build_harness(tmp, prop):
    with lock("h"):
        env = dict(ENV, RUSTUP_TOOLCHAIN="1.81.0", CARGO_TARGET_DIR=os.path.join(CACHE, "h"))
        d = os.path.join(HERE, "harness")
        if REPO != "/repo":   # development only: judge another tree
            d2 = os.path.join(CACHE, "harness"); shutil.rmtree(d2, ignore_errors=True); shutil.copytree(d, d2, ignore=shutil.ignore_patterns("target")); d = d2
            t = open(d + "/Cargo.toml").read().replace('"/repo', '"' + REPO); open(d + "/Cargo.toml", "w").write(t)
        for p in ("crossmist", "crossmist-derive"): sh(["cargo", "clean", "--offline", "--quiet", "-p", p], cwd=d, env=env)
        r = sh(["cargo", "build", "--offline", "--quiet"], cwd=d, env=env, timeout=500)
        if r.returncode:
            # another property's programs may be what does not compile: build this property's alone
            mod = next((m for m, ps in MODULES.items() if prop in ps), "")
            r = sh(["cargo", "build", "--offline", "--no-default-features", "--features", mod], cwd=d, env=env, timeout=500)
            if r.returncode:
                own = re.findall(r"^error(?:\[E\d+\])?: .*\n(?:.*\n)??\s*--> src/%s\.rs:.*(?:\n.+)*" % mod, r.stderr, re.M)
                if own: raise Broken("\n\n".join(own)[:6000])
                raise RuntimeError("harness does not build: " + r.stderr[-3000:])
        return shutil.copy2(os.path.join(CACHE, "h/debug/h"), os.path.join(tmp, "h"))


# ------------------------------------------------------------------------------------------ deductive part
class Unit:
    def __init__(self, name):
        self.name = name; self.c = CFG["units"][name]
        self.fns = []; self.bad = {}; self.undecided = {}; self.lemma_bad = {}; self.error = None
        self.times = {}; self.text = ""; self.verified = 0; self.lemmas = {}; self.lost = []; self.dropped = []; self.solver_ms = 0; self.canary = None; self.cmd = ""; self.vacuous = None; self.single = False

    def gen(self, vx, tmp, sources, assume, extra=()):
        out = os.path.join(tmp, self.name + ".rs")
        a = []
        for k in sorted(assume): a += ["--assume", k]
        r = sh([vx, *a, *extra, os.path.join(HERE, self.c["template"]), out, out + ".json", *sources])
        if r.returncode: raise RuntimeError("extraction failed: " + r.stderr[-1500:])
        j = json.load(open(out + ".json"))
        self.fns, self.lost, self.dropped, self.omitted = j["fns"], j["lost"], j["dropped"], j["omitted"]
        self.text = open(out).read(); self.lines = self.text.split("\n")
        self.lemmas = {}
        cur = None
        spans = [(f["start"], f["end"]) for f in self.fns]
        for i, l in enumerate(self.lines, 1):
            m = re.match(r"\s*(?:pub\s+)?(?:broadcast\s+)?(proof|axiom)\s+fn\s+(\w+)", l)
            if m and not any(a <= i <= b for a, b in spans):
                if m.group(1) == "proof": self.lemmas[m.group(2)] = i; cur = m.group(2)
        return out

    def verus(self, f, rlimit, extra=()):
        cmd = ["verus", os.path.basename(f), "--num-threads", "8", "--rlimit", str(rlimit), "--output-json", "--time-expanded", "--multiple-errors", "4", *extra, "--", "--error-format=json"]
        self.cmd = " ".join(cmd)
        r = sh(cmd, cwd=os.path.dirname(f), timeout=400 if TIER != "quick" else max(60, min(400, 480 - (time.time() - T0))))
        try: j = json.loads(r.stdout[r.stdout.index("{"):])
        except Exception: j = {}
        diags = []
        for l in r.stderr.split("\n"):
            if l.startswith("{"):
                try: d = json.loads(l)
                except Exception: continue
                if d.get("level") == "error" and d.get("spans"): diags.append(d)
                elif d.get("level") == "error" and not re.match(r"aborting due", d["message"]): diags.append(d)
        return j, diags, r

    def locate(self, line):
        best = None
        for f in self.fns:
            if f["start"] <= line <= f["end"]: best = f
        return best

    def lemma_at(self, line):
        best = None
        for n, l in self.lemmas.items():
            if l <= line and (best is None or l > self.lemmas[best]): best = n
        return best

    def culprit(self, d):
        """the function whose body the diagnostic is about"""
        sp = d.get("spans") or []
        order = [s for s in sp if (s.get("label") or "").startswith("at the end of the function body") or (s.get("label") or "").startswith("at this exit")]
        order += [s for s in sp if s.get("is_primary")] + sp
        for s in order:
            f = self.locate(s["line_start"])
            if f and f["mode"] != "decl": return f, s
        return None, (order[0] if order else None)

    def run(self, vx, tmp, sources, baseline):
        self.assume = set()
        for attempt in range(10):
            f = self.gen(vx, tmp, sources, self.assume)
            j, diags, r = self.verus(f, 30)
            vr = j.get("verification-results", {})
            structural = [d for d in diags if (d.get("code") or {}).get("code") or not DEFINITE.search(d["message"]) and not UNSURE.search(d["message"])]
            if vr and not vr.get("encountered-vir-error") and "verified" in vr and not structural: break
            new = set()
            for d in structural:
                fn, s = self.culprit(d)
                if fn and fn["mode"] == "verify": new.add(fn["key"])
            new -= self.assume
            if not new:
                self.error = "not accepted by the verifier: " + "; ".join(d["message"] + (" @" + str((d.get("spans") or [{}])[0].get("line_start"))) for d in structural[:4]) + (r.stderr[-500:] if not structural else "")
                return self
            for k in new: self.undecided[k] = "; ".join(d["message"] for d in structural)[:300]
            self.assume |= new
        else:
            self.error = "not accepted by the verifier after several attempts"; return self
        self.verified = vr["verified"]
        self.times_from(j)
        fails = self.collect(diags)
        if any(True for k in fails if k[0] != "canary"):
            # a second opinion, with more resources and another seed, before anything is believed
            j2, diags2, _ = self.verus(f, 90, ["--smt-option", "smt.random_seed=%d" % (SEED + 6)]) if TIER != "quick" or time.time() - T0 < 400 else ({}, [], None)
            self.single = j2.get("verification-results", {}).get("verified") is None  # no second opinion: not believed on its own
            if j2.get("verification-results", {}).get("verified") is not None:
                f2 = self.collect(diags2)
                fails = {k: v + [x for x in f2[k] if x not in v] for k, v in fails.items() if k in f2}
        self.canary = ("canary", "vx_canary") in fails
        for (kind, key), ds in fails.items():
            if kind == "canary": continue
            if kind == "lemma": self.lemma_bad[key] = ds; continue
            fn = next(x for x in self.fns if x["key"] == key)
            why = self.ambiguous(fn, baseline) or ("no second opinion in time" if self.single else None)
            if all(UNSURE.search(d["message"]) for d in ds): why = "resource limit"
            if why: self.undecided[key] = why + ": " + ds[0]["message"]
            else: self.bad[key] = ds
        for fn in self.fns:
            if fn["mode"] == "undecided": self.undecided.setdefault(fn["key"], "not accepted by the verifier")
        return self

    def times_from(self, j):
        for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for b in m.get("function-breakdown", []):
                self.times[b["function"]] = self.times.get(b["function"], 0) + b.get("time", 0)
        self.solver_ms = j.get("times-ms", {}).get("smt", {}).get("total", 0) or sum(self.times.values())

    def collect(self, diags):
        out = {}
        for d in diags:
            if not d.get("spans"): continue
            fn, s = self.culprit(d)
            txt = self.render(d)
            rec = {"message": d["message"], "clauses": self.clauses(d), "text": txt}
            if fn: out.setdefault(("fn", fn["key"]), []).append(rec)
            else:
                p = next((x for x in d["spans"] if (x.get("label") or "").startswith("at the end of the function body")), None) or next((x for x in d["spans"] if x.get("is_primary")), d["spans"][0])
                n = self.lemma_at(p["line_start"])
                out.setdefault(("canary" if n == "vx_canary" else "lemma", n or "?"), []).append(rec)
        return out

    def clauses(self, d):
        sp = [s for s in d["spans"] if "failed" in (s.get("label") or "")] or [s for s in d["spans"] if s.get("is_primary")]
        return [" ".join(t["text"][t["highlight_start"] - 1:t["highlight_end"] - 1].strip() for t in s.get("text", [])[:6]) for s in sp]

    def render(self, d):
        return d.get("rendered") or d["message"]

    def ambiguous(self, fn, baseline):
        """a reason why a failed obligation of this function may be the proof's fault and not the code's"""
        if any(l.startswith(fn["key"] + ":") for l in self.lost): return "a proof hint has no place in the changed body"
        b = baseline.get(fn["key"])
        same_keys = [x for x in self.fns if x["key"] == fn["key"]]
        if b and fn["hints"] and (fn["lets"] != b["lets"] or fn["loops"] != b["loops"]): return "loop annotations do not fit the changed body"
        if b and fn["closures"] > b["closures"]: return "new closures"
        if b and "calls" in b and set(fn["calls"]) - set(b["calls"]): return "repeats the transfer itself"
        names = {}
        for x in self.fns: names.setdefault(x["key"].split("::")[-1], []).append(x)
        for c in fn["calls"]:
            if c in names and not any(x["contracted"] for x in names[c]): return f"calls {c}, which has no contract"
        if not fn["contracted"]: return "not under contract"
        return None


# ------------------------------------------------------------------------------------------ harness
def harness_cases(h, prop):
    r = sh([h, "list", prop], timeout=60)
    return [l.split()[1] for l in r.stdout.split("\n") if l.startswith(prop + " ")]


def run_case(h, prop, case, seed, tier, tmp):
    d = tempfile.mkdtemp(dir=tmp)
    env = dict(ENV, TMPDIR=d, RUST_BACKTRACE="0")
    t = 100 if tier == "quick" else 600
    try:
        p = subprocess.Popen([h, "run", prop, case, str(seed), tier], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, start_new_session=True)
        try: o, e = p.communicate(timeout=t); rc = p.returncode
        except subprocess.TimeoutExpired: rc = 124; o, e = b"", b"no answer within %d s" % t
        finally:
            try: os.killpg(p.pid, 9)
            except OSError: pass
    finally: shutil.rmtree(d, ignore_errors=True)
    o, e = o.decode(errors="replace"), e.decode(errors="replace")
    m = re.search(r"^RESULT evaluations=(\d+) distinct=(\d+) sample=(.*)$", o, re.M)
    return {"case": case, "rc": rc, "ok": rc == 0 and m is not None, "evaluations": int(m.group(1)) if m else 0, "distinct": int(m.group(2)) if m else 0,
            "sample": m.group(3) if m else "", "out": (o[-3000:] + "\n" + e[-3000:]).strip()}


def run_harness(h, prop, tmp):
    cases = harness_cases(h, prop)
    seeds = [SEED] if TIER == "quick" else [SEED + i for i in range(4)]
    with cf.ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda a: run_case(h, prop, a[0], a[1], TIER, tmp) | {"seed": a[1]}, [(c, s) for s in seeds for c in cases]))
    failing = []
    for r in res:
        if r["ok"]: continue
        # timing must not decide: a failure has to show again when run alone
        if failing and TIER == "quick" and time.time() - T0 > 450: break
        again = [run_case(h, prop, r["case"], r["seed"], TIER, tmp) for _ in range(1 if r["rc"] == 124 else 2)]
        if any(not a["ok"] for a in again): failing.append(next(a for a in again if not a["ok"]) | {"seed": r["seed"]})
        else: r["flaky"] = True
    return res, failing


# ------------------------------------------------------------------------------------------ main
def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+(case|obligation)=(\S+)\s+(.*)", l)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3), m.group(4).strip()))
    return out


def trusted(units):
    tb = []
    for u in units:
        ext, ax, asm = [], [], []
        L = u.lines
        for i, l in enumerate(L):
            s = l.strip()
            if s.startswith("#[verifier::external_body]"):
                for k in range(i + 1, min(i + 6, len(L))):
                    m = re.search(r"(fn|struct|enum)\s+(\w+)", L[k])
                    if m: ext.append(m.group(2)); break
            m = re.match(r"(?:pub\s+)?(?:broadcast\s+)?axiom\s+fn\s+(\w+)", s)
            if m: ax.append(m.group(1))
            if re.search(r"\b(assume|admit)\(", s) and not s.startswith("//"): asm.append(s[:120])
        tb.append(f"{u.name}: {len(ext)} external contracts (std, libc and modelled types): " + ", ".join(sorted(set(ext)))[:3000])
        tb.append(f"{u.name}: {len(ax)} axioms: " + ", ".join(sorted(set(ax)))[:2000])
        if asm: tb.append(f"{u.name}: assumptions in bodies: " + " | ".join(asm))
        tb.append(f"{u.name}: extraction drops or replaces: " + "; ".join(u.dropped))
    tb.append("Verus 0.2026.09.13 and its bundled Z3; rustc's macro expansion; the extractor /verif/vx (mechanical, its rewrites are listed in DESIGN.md)")
    return tb


def main():
    prop = sys.argv[1]
    pc = CFG["properties"][prop]
    os.makedirs(CACHE, exist_ok=True); os.makedirs(EVID, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vx-", dir="/tmp" if os.access("/tmp", os.W_OK) else CACHE)
    try: return decide(prop, pc, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)


# their contracts describe one repeated transfer; a body that tries several times itself needs them composed
RETRY = re.compile(r"::blocking_(read|write)$")
ENDS = [(r"^(.*)::serialize_self(?:_non_trivial)?$", r"^(.*)::deserialize_self(?:_non_trivial)?$"), (r"^()Serializer::", r"^()Deserializer::"),
    (r"^(Single)ObjectSender\b", r"^(Single)ObjectReceiver\b"), (r"^()(?:a_spawn|_spawn_child|fork_child_main)$", r"^()(?:crossmist_main|parse_handle)$")]
def end(key):
    """(format, 0 or 1) if the function is the writing or the reading end of a format that two functions agree on"""
    for i, ps in enumerate(ENDS):
        for side, p in enumerate(ps):
            m = re.search(p, key)
            if m: return ((i, m.group(1)), side)
    return None

def decide(prop, pc, tmp):
    names = list(pc.get("units", {}))
    fixtures = sorted({x for n in names for x in CFG["units"][n].get("fixtures", [])})
    unit_err = None; units = []; hbin = None; herr = None; broken = None
    with cf.ThreadPoolExecutor(8) as ex:
        fh = ex.submit(build_harness, tmp, prop)
        fv = ex.submit(build_vx, tmp) if names else None
        fe = ex.submit(expand, tmp) if names else None
        ff = {x: ex.submit(expand_fixture, tmp, x) for x in fixtures}
        try:
            if names:
                vx = fv.result(); exp = fe.result(); fx = {x: f.result() for x, f in ff.items()}
        except Exception as e: unit_err = str(e)
        try: hbin = fh.result()
        except Broken as e: herr = "programs of the harness do not compile: " + str(e); broken = str(e)
        except Exception as e: herr = str(e)
    log(f"built in {time.time() - T0:.1f} s", unit_err or "", herr or "")
    if names and not unit_err:
        baseline = json.load(open(os.path.join(HERE, "specs/baseline.json")))
        srcs = lambda n: [exp] + [fx[x] for x in CFG["units"][n].get("fixtures", [])]
        def one(n):
            u = Unit(n)
            try: u.run(vx, tmp, srcs(n), baseline.get(n, {}))
            except Exception as e: u.error = str(e)
            log(f"unit {n}: verified {u.verified}, failed {len(u.bad)}, undecided {len(u.undecided)}, {u.error or ''} at {time.time() - T0:.1f} s")
            if TIER == "thorough" and not u.error: u.vacuous = vacuity(u, vx, tmp, srcs(n))
            return u
        with cf.ThreadPoolExecutor(4) as ex: units = list(ex.map(one, names))
    obligations = discharged = 0; bad = []; und = []; under = []
    for u in units:
        sel = pc["units"][u.name]
        if u.error: und.append(f"{u.name}: {u.error}"); continue
        if not u.canary: und.append(f"{u.name}: the canary obligation (false) was not refuted"); continue
        rx = [re.compile(x) for x in sel.get("fns", [])]; nx = [re.compile(x) for x in sel.get("not", [])]
        cl = re.compile(sel["clauses"]) if sel.get("clauses") else None
        ncl = re.compile(sel["not_clauses"]) if sel.get("not_clauses") else None
        for f in u.fns:
            if f["mode"] == "decl" or not f["contracted"] or not any(r.search(f["key"]) for r in rx) or any(r.search(f["key"]) for r in nx): continue
            if f["mode"] == "assumed": continue
            obligations += 1; under.append(f["key"])
            if f["key"] in u.undecided: und.append(f"{u.name}: {f['key']}: {u.undecided[f['key']]}"); continue
            if f["key"] in u.bad:
                ds = [d for d in u.bad[f["key"]] if not (cl and d["clauses"] and not any(cl.search(c) for c in d["clauses"])) and not (ncl and d["clauses"] and all(ncl.search(c) for c in d["clauses"]))]
                if ds: bad.append((u, f, ds)); continue
            discharged += 1
        for n in u.lemmas:
            if n == "vx_canary" or not any(re.search(x, n) for x in sel.get("lemmas", [])): continue
            obligations += 1
            if n in u.lemma_bad:
                if n.startswith("src_"): bad.append((u, {"key": n, "start": u.lemmas[n]}, u.lemma_bad[n]))
                else: und.append(f"{u.name}: lemma {n} not discharged: {u.lemma_bad[n][0]['message']}")
            else: discharged += 1
        for m in sel.get("expect", []):
            if not any(re.search(m, f["key"]) for f in u.fns): und.append(f"{u.name}: no function matches {m} any more")
    # every function the property rests on must have been found
    for x in und: log("undecided:", x[:400])
    res, failing = [], []
    if hbin: res, failing = run_harness(hbin, prop, tmp)
    log(f"harness: {len(res)} cases, {len(failing)} failing at {time.time() - T0:.1f} s")
    if res and not failing and not broken:
        # both ends of an agreed format changed: the format written down in the specification is not the one the code uses
        # any more, so that a clause stating it fails says nothing about the property
        ends = {(u.name, end(k)) for u in units for k in list(u.bad) + list(u.undecided)}
        for u, f, ds in list(bad):
            e = end(f["key"])
            if e and (u.name, (e[0], 1 - e[1])) in ends:
                bad.remove((u, f, ds)); und.append(f"{u.name}: {f['key']}: both ends of the format changed: {ds[0]['message']}"); log("undecided:", und[-1][:400])
    kn = known(prop)
    viol = []
    if herr: und.append("bounded companion not run: " + herr[:1500])
    if broken and prop in MACRO_FACING: viol.append(("input", {"case": "programs-compile", "seed": SEED, "out": "programs written against the documented interface, which compile with the original crate, no longer compile:\n" + broken}))
    for r in failing:
        k = next((k for k in kn if k[0] == "case" and k[1] == r["case"]), None)
        if k: print(f"KNOWN-FINDING: property={prop} {k[2]}"); continue
        viol.append(("input", r))
    for u, f, ds in bad:
        k = next((k for k in kn if k[0] == "obligation" and k[1] == f["key"]), None)
        if k: print(f"KNOWN-FINDING: property={prop} {k[2]}"); continue
        viol.append(("obligation", (u, f, ds)))
    rdir = os.path.join(EVID, "replay"); os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, f"{prop}.txt")
    if viol:
        with open(rp, "w") as o:
            for kind, v in viol:
                if kind == "input":
                    o.write(f"failing input, against the real crate: case {v['case']} seed {v['seed']} tier {TIER}\nreplay: cd /verif/harness && RUSTUP_TOOLCHAIN=1.81.0 cargo run --offline -- run {prop} {v['case']} {v['seed']} {TIER}\n{v['out']}\n\n")
                else:
                    u, f, ds = v
                    o.write(f"failed obligation: unit {u.name}, function {f['key']}\nverifier: {u.cmd}\n")
                    for d in ds: o.write(d["text"] + "\n")
                    o.write("\n")
    n_eval = sum(r["evaluations"] for r in res); n_dist = sum(r["distinct"] for r in res)
    ok_units = [u for u in units if not u.error]
    answered = bool(res) or bool(ok_units)
    level = pc.get("level", "proof")
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": level, "wall_s": round(time.time() - T0, 2), "violations": len(viol),
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "; ".join(u.cmd for u in units) or "none",
            "trusted_base": trusted(ok_units),
            "functions_under_contract": under,
            "undecided": und,
            "back_end": "Verus / Z3", "solver_ms": {u.name: u.solver_ms for u in ok_units},
            "verified_queries_in_units": {u.name: u.verified for u in ok_units},
            "vacuity": {u.name: u.vacuous for u in ok_units if u.vacuous is not None},
            "evaluations": n_eval, "distinct_nontrivial": n_dist,
            "rule": "BOUNDED companion, not counted as proved: the replay harness runs the real crate on generated cases (values, message sizes, fault positions, schedules as named by the case); an evaluation is one generated case compared with its oracle, distinct ones differ in the generated case",
            "samples": [{"case": r["case"], "sample": r["sample"]} for r in res][:6],
            "bounded_cases": [r["case"] for r in res],
        },
        "assumptions": pc.get("assumptions", []) + CFG.get("assumptions", []),
    }
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    if viol:
        tail = "" if any(k == "input" for k, _ in viol) else " no-failing-input-found"
        for kind, v in viol: log(kind, v["case"] if kind == "input" else v[1]["key"] + ": " + v[2][0]["message"])
        print(f"VIOLATION property={prop} replay={rp}{tail}", flush=True)
        return 1
    if not answered:
        print("no answer:", unit_err, herr, file=sys.stderr); return 2
    print(f"{prop}: {discharged}/{obligations} obligations discharged, {len(und)} undecided; {n_eval} bounded evaluations; {time.time() - T0:.1f} s")
    return 0


def vacuity(u, vx, tmp, sources):
    """every function under contract must have a satisfiable precondition: with `assert(false)` put at its start it must fail"""
    v = Unit(u.name)
    d = os.path.join(tmp, "vac-" + u.name); os.makedirs(d, exist_ok=True)
    f = v.gen(vx, d, sources, u.assume, ["--vacuity"])
    _, diags, _ = v.verus(f, 30)
    hit = {k for (kind, k) in v.collect(diags) if kind == "fn"}
    miss = [x["key"] for x in v.fns if x["mode"] == "verify" and x["key"] not in hit and not re.search(r"::pod_\w+$", x["key"])]
    return {"checked": len([x for x in v.fns if x["mode"] == "verify"]), "vacuous": miss}


if __name__ == "__main__":
    if len(sys.argv) == 2 and sys.argv[1] == "--baseline":
        tmp = tempfile.mkdtemp(prefix="vx-")
        vx = build_vx(tmp); exp = expand(tmp); out = {}
        for n in CFG["units"]:
            u = Unit(n); u.gen(vx, tmp, [exp] + [expand_fixture(tmp, x) for x in CFG["units"][n].get("fixtures", []) if True], set())
            out[n] = {f["key"]: {"lets": f["lets"], "loops": f["loops"], "closures": f["closures"], **({"calls": sorted(set(f["calls"]))} if RETRY.search(f["key"]) else {})} for f in u.fns}
        json.dump(out, open(os.path.join(HERE, "specs/baseline.json"), "w"), indent=0, sort_keys=True)
        shutil.rmtree(tmp); sys.exit(0)
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        os.makedirs(CACHE, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="vx-")
        try: build_vx(tmp)
        finally: shutil.rmtree(tmp)
        sys.exit(0)
    sys.exit(main())
