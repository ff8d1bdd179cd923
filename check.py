#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--no-search]

Decides one property: extracts the functions of /repo/src under contract,
hands them to Verus and maps every undischarged obligation back to the source.
Exit 0: every obligation of the property is discharged (functions out of the
verifier's reach: bounded stand-in found nothing).  Exit 1 + VIOLATION line:
an obligation of the property fails.  Exit 3: error of the check itself."""
import json, os, re, subprocess, sys, time, shutil, signal

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/src"
B = V + "/build"
VERUS_FLAGS = ["--crate-type=lib", "--num-threads", "8", "--multiple-errors", "4", "--time-expanded", "--output-json"]
LENS_FLAGS = {"lex": [], "tok": []}
PARSER_FLAGS = ["--smt-option", "smt.case_split=0"]
CANDIDATES = ("prc",)   # lenses with tried ("H") facts: a refuted one is dropped and the lens runs again
LEXER_PROPS = ("C01", "C02", "C03", "C04")


def verus_flags(lens):
    f = VERUS_FLAGS + LENS_FLAGS.get(lens, PARSER_FLAGS)
    if lens in CANDIDATES:
        f = [x if x != "4" else "40" for x in f]
    return f


# property -> list of (lens, tags that count for the property in this lens)
PLAN = json.load(open(V + "/specs/plan.json"))
TRUSTED = {
    "parser": [
        "std contracts: str ==, to_uppercase, to_lowercase, chars().next/last/count behind str_* (interned strings: equality of strings = equality of q_sid)",
        "std contract of HashMap<String,ContentType> new/insert/get/contains_key behind Children",
        "derived Clone of Token and Parser returns an equal value",
        "Verus 0.2026.09.13, its vstd, rustc front end and Z3; the extractor /verif/extract (rewrite rules L1..L15, listed in DESIGN.md) preserves meaning",
        "resources: stack depth and memory are unbounded; exponential running time is not excluded",
    ],
    "case": [
        "std: to_uppercase / to_lowercase are idempotent and forget the case of ASCII letters",
        "regex crate: the one pattern of Token::is_numeric is read as specs/token_prelude.rs q_numeric; any other pattern is unknown to the proof",
        "the table constants::KEYWORDS is read off by the extractor",
    ],
    "lexer": [
        "std contracts of char::is_alphabetic / is_numeric / is_alphanumeric / is_whitespace: total predicates of the character, left uninterpreted except: an ASCII character is white space exactly if it is one of 9..13, 32, and alphabetic exactly if it is a letter; is_digit(10) = '0'..='9'",
        "std contracts of chars().collect, slice iter().collect, trim_end, to_string, chars().next/last/count, String::len (bytes >= characters), str ==, to_uppercase behind the str_* helpers of specs/lexer_prelude.rs",
        "a String holds at most isize::MAX bytes, so a text has at most isize::MAX characters",
        "Verus 0.2026.09.13, its vstd, rustc front end and Z3; the extractor /verif/extract (rewrite rules L1..L21, listed in DESIGN.md) preserves meaning",
    ],
}


def log(*a):
    print(*a, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def die(msg):
    log("CHECK-ERROR " + msg)
    sys.exit(3)


def build_extractor():
    r = sh(["cargo", "build", "--offline", "--release", "--quiet"], cwd=V + "/extract", env={k: v for k, v in os.environ.items() if k != "RUSTFLAGS"})
    if r.returncode != 0:
        die("extractor does not build: " + r.stderr[-2000:])


def build_harness():
    r = sh(["bash", V + "/tools/build_harness.sh"])
    return r.returncode == 0, r.stderr[-3000:]


# ---------------------------------------------------------------- one lens
class Lens:
    def __init__(self, name, wd):
        self.name = name
        self.dir = f"{wd}/{name}"
        os.makedirs(self.dir, exist_ok=True)
        self.external = {}   # fn -> reason
        self.failures = []   # dict(fn, kind, tag, src, text, clause)
        self.runs = 0
        self.smt_ms = 0
        self.verified = 0
        self.meta = None
        self.cmd = ""
        self.reach = True
        self.why = ""
        self.retried = {}
        self.other = []
        self.drops = []
        self.rounds = 0
        self.total = "C04" if name == "lex" else "C05"   # tag of panics, overflow, non-termination

    def extract(self, extra=()):
        rs, js = f"{self.dir}/lens.rs", f"{self.dir}/lens.json"
        cmd = [V + "/extract/target/release/bqx", self.name, SRC, V + "/specs", rs, js]
        if self.external:
            cmd += ["--external", ",".join(sorted(self.external))]
        if self.drops:
            json.dump(self.drops, open(f"{self.dir}/drop.json", "w"))
            cmd += ["--drop", f"{self.dir}/drop.json"]
        cmd += list(extra)
        r = sh(cmd)
        if r.returncode != 0:
            self.reach = False
            self.why = "extraction failed: " + (r.stderr or r.stdout)[-800:]
            return None
        self.meta = json.load(open(js))
        self.lines = open(rs).read().split("\n")
        return rs

    def verus(self, rs, flags=(), timeout=600):
        cmd = ["verus"] + verus_flags(self.name) + list(flags) + [rs]
        self.cmd = " ".join(cmd)
        try:
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=self.dir, start_new_session=True)
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return None, "timeout"
        self.runs += 1
        try:
            j = json.loads(out[out.index("{"):])
        except Exception:
            j = {}
        return j, err

    def fn_at(self, n):
        best = None
        for f in self.meta["fns"]:
            if f["out"][0] <= n <= f["out"][1]:
                best = f
        return best

    def parse(self, err):
        """-> (failures, frontend) from the diagnostics"""
        fails, front = [], []
        blocks = re.split(r"\n(?=(?:error|warning|note: (?!recommendation))(?:\[|:))", "\n" + err)
        for b in blocks:
            b = b.strip("\n")
            if not b.startswith("error"):
                continue
            head = b.split("\n")[0]
            if head.startswith("error: aborting") or "could not compile" in head:
                continue
            nums = []
            m = re.search(r"--> [^\n]*lens\.rs:(\d+):(\d+)", b)
            if m:
                nums.append(int(m.group(1)))
            # lines of our file shown in the snippet (only those before a ::: of another file)
            part = b.split("\n     ::: ")[0] if "::: " in b and "lens.rs" not in b.split("::: ")[1].split("\n")[0] else b
            nums += [int(q) for q in re.findall(r"^\s*(\d+) [|/]", part, re.M)]
            f = self.fn_at(nums[0]) if nums else None
            rec = dict(fn=f["key"] if f else None, kind=head[7:].strip() if head.startswith("error:") else head, text=b, lines=nums)
            k = rec["kind"]
            if re.match(r"(postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|assertion not satisfied|decreases not satisfied|possible |could not prove termination|recommendation not met|loop ensures|unreachable|unable to prove|requires not satisfied|failed )", k) or "not satisfied" in k:
                tag, desc = None, ""
                for n in nums:
                    t = self.meta["tags"].get(str(n))
                    if t:
                        tag, desc = t[0], t[1]
                        break
                if k.startswith("possible ") or k.startswith("decreases") or "termination" in k:
                    tag, desc = self.total, k
                elif "::: " in b and "lens.rs" not in b.split("::: ")[1].split("\n")[0]:
                    # the failed clause lies in vstd: unwrap, index, ...
                    tag, desc = self.total, k
                rec["tag"], rec["desc"] = tag or "B", desc
                src = None
                for n in nums:
                    s = self.meta["src"].get(str(n))
                    if s:
                        src = s
                        break
                if src is None and f:
                    src = f["src"][0]
                rec["src"] = src
                fails.append(rec)
            else:
                front.append(rec)
        return fails, front

    def run(self, tags, budget):
        t0 = time.time()
        while True:
            rs = self.extract()
            if rs is None:
                return
            left = budget - (time.time() - t0)
            if left < 10:
                self.reach = False
                self.why = "verifier time budget exhausted"
                return
            j, err = self.verus(rs, timeout=left)
            open(f"{self.dir}/verus.txt", "w").write(err or "")
            if j is None:
                self.reach = False
                self.why = "verifier timed out"
                return
            fails, front = self.parse(err)
            new = {}
            glob = []
            for r in front:
                if r["fn"] and r["fn"] not in self.external:
                    new[r["fn"]] = ("solver resource limit" if "esource limit" in r["kind"] else "outside the verifier's subset: " + r["kind"])[:300]
                else:
                    glob.append(r)
            if new:
                self.external.update(new)
                if len(self.external) > 40:
                    self.reach = False
                    self.why = "too many functions outside the verifier's reach"
                    return
                continue
            refuted = sorted({r["desc"] for r in fails if r["tag"] == "H"})
            if refuted:
                self.drops += refuted
                self.rounds += 1
                continue
            vr = j.get("verification-results", {})
            if glob and not vr.get("verified"):
                self.reach = False
                self.why = "front end rejects the extraction: " + glob[0]["text"][:600]
                return
            break
        times = j.get("times-ms", {})
        try:
            self.smt_ms += int(times.get("smt", {}).get("smt-run", 0))
        except Exception:
            pass
        self.verified = vr.get("verified", 0)
        self.errors = vr.get("errors", 0)
        self.times = times
        for f in self.meta["fns"]:
            if f["status"] in ("unsupported", "external"):
                self.external.setdefault(f["key"], "; ".join(f.get("why") or ["outside the extractor's subset"])[:300])
        mine = [r for r in fails if r["tag"] in tags]
        other = [r for r in fails if r["tag"] not in tags]
        self.other = other
        self.failures = mine
        self.rs = rs

    def second_opinion(self, tags, t_end):
        """brittle queries: the failed functions again with other solver settings"""
        mine, rs = self.failures, self.rs
        names = sorted({r["fn"] for r in mine if r["fn"]})
        if not mine or len(names) > 12:
            return
        ok_fns = set()
        for flags in (["--smt-option", "smt.random_seed=7"], ["--smt-option", "smt.case_split=3" if self.name not in LENS_FLAGS else "smt.random_seed=3"]):
            todo = [n for n in names if n not in ok_fns]
            left = t_end - time.time()
            if not todo or left < 30:
                break
            mods = sorted({f["module"] for f in self.meta["fns"] if f["key"] in todo and f["module"]})
            mf = []
            for m in mods:
                mf += ["--verify-only-module", m]
            j2, err2 = self.verus(rs, flags=flags + mf, timeout=left)
            if j2 is None or not j2.get("verification-results", {}).get("verified"):
                continue
            f2, g2 = self.parse(err2)
            bad = {r["fn"] for r in f2 if r["tag"] in tags} | {r["fn"] for r in g2}
            ok_fns |= {n for n in todo if n not in bad}
        self.retried = {n: "discharged with other solver settings" for n in ok_fns}
        self.failures = [r for r in mine if r["fn"] not in ok_fns]


# ---------------------------------------------------------------- concrete search
def words_of(lens_list, fnames):
    """string literals in the named functions of the current source"""
    out = set()
    for L in lens_list:
        if not L.meta:
            continue
        for f in L.meta["fns"]:
            if f["key"] in fnames:
                try:
                    src = open(f"{SRC}/{f['file']}").read().split("\n")[f["src"][0] - 1:f["src"][1]]
                except Exception:
                    continue
                for s in re.findall(r'"((?:[^"\\\n]|\\.)*)"', "\n".join(src)):
                    if s and re.fullmatch(r"[A-Za-z_]+|[^A-Za-z\s]{1,3}", s) and (s.upper() == s or s in ("when", "exception")) and len(s) < 40:
                        out.add(s.upper())
    return sorted(out)


def all_words():
    out = set()
    for f in ("parser.rs", "lexer.rs", "token.rs", "constants.rs"):
        try:
            t = open(f"{SRC}/{f}").read()
        except Exception:
            continue
        for s in re.findall(r'"((?:[^"\\\n]|\\.)*)"', t):
            if s and " " not in s and s.upper() == s and len(s) < 40:
                out.add(s)
    return sorted(out)


def jl(path, items):
    with open(path, "w") as f:
        for i in items:
            f.write(json.dumps(i) + "\n")


def replay(prop, path, timeout=25):
    try:
        r = sh([V + "/harness/target/release/bqh", "replay", prop, path], timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 4, "HANG"


def shrink_hang(prop, inp, wd):
    """an endless loop shrinks to a few tokens; exponential nesting does not"""
    def hangs(s):
        p = f"{wd}/hang.json"
        json.dump({"input": s}, open(p, "w"))
        try:
            r = sh([V + "/harness/target/release/bqh", "replay", prop, p], timeout=3)
            return r.returncode not in (0, 1)
        except subprocess.TimeoutExpired:
            return True
    toks = re.findall(r"--[^\n]*\n|/\*.*?\*/|'[^']*'|`[^`]*`|\w+|\S", inp, re.S)
    cur = toks
    if not hangs(" ".join(cur)):
        return inp if inp.count("(") <= 6 and hangs(inp) else None
    n = max(1, len(cur) // 2)
    end = time.time() + 120
    while n >= 1 and time.time() < end:
        i = 0
        any_ = False
        while i < len(cur) and time.time() < end:
            t = cur[:i] + cur[i + n:]
            if t and hangs(" ".join(t)):
                cur = t
                any_ = True
            else:
                i += n
        if not any_:
            n //= 2
    s = " ".join(cur)
    return s if s.count("(") <= 6 else None


def search(prop, seed, secs, focus, wd, pool):
    ok, err = build_harness()
    if not ok:
        log("NOTE the concrete search could not be built against the tree: " + err[-600:])
        return None, {"built": False}
    d = f"{wd}/search"
    os.makedirs(d, exist_ok=True)
    jl(f"{d}/dict", all_words())
    jl(f"{d}/focus", focus)
    stats = {"built": True, "evaluations": 0, "workers": 8, "seconds": secs, "focus": focus[:40], "crashes": 0}
    t_end = time.time() + secs
    found = None
    procs = {}
    gen = 0

    def launch(i):
        nonlocal gen
        gen += 1
        left = max(2, int(t_end - time.time()))
        cmd = [V + "/harness/target/release/bqh", "fuzz", prop, "--seed", str(seed + 1000 * gen), "--secs", str(left), "--shard", f"{i}/8",
               "--dict", f"{d}/dict", "--focus", f"{d}/focus", "--out", f"{d}/found{i}.json", "--cur", f"{d}/cur{i}"]
        for c in pool:
            cmd += ["--corpus", c]
        return subprocess.Popen(cmd, stdout=open(f"{d}/out{i}", "w"), stderr=subprocess.DEVNULL, preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (12 << 30, 12 << 30)))

    for i in range(8):
        procs[i] = launch(i)
    hang_tries = 0
    while procs and found is None:
        time.sleep(0.2)
        for i in list(procs):
            rc = procs[i].poll()
            if rc is None:
                if time.time() > t_end + 40:
                    procs[i].kill()
                    procs[i].wait()
                    del procs[i]
                continue
            out = open(f"{d}/out{i}").read()
            del procs[i]
            m = re.search(r"DONE evals=(\d+)", out)
            if m:
                stats["evaluations"] += int(m.group(1))
            if rc == 1 and os.path.exists(f"{d}/found{i}.json"):
                found = json.load(open(f"{d}/found{i}.json"))
                break
            if rc not in (0, 1):
                stats["crashes"] += 1
                total = "C04" if prop in LEXER_PROPS else "C05"
                if prop == total and hang_tries < 3:
                    hang_tries += 1
                    try:
                        inp = json.loads(open(f"{d}/cur{i}").read())
                    except Exception:
                        inp = None
                    s = shrink_hang(prop, inp, d) if inp else None
                    if s is not None:
                        found = {"property": prop, "input": s, "what": "does not return (endless loop, stack or memory exhaustion) on a short input"}
                        break
                if time.time() < t_end - 3:
                    procs[i] = launch(i)
    for p in procs.values():
        p.kill()
        p.wait()
    return found, stats


# ---------------------------------------------------------------- main
def known_open(prop):
    """open findings: (property, input) pairs that are reported, not alarmed"""
    out = []
    for l in open(V + "/known_findings.txt"):
        m = re.match(r"finding: property=(\S+) input=(\"(?:[^\"\\]|\\.)*\") (.*)", l.strip())
        if m and m.group(1) == prop:
            out.append((json.loads(m.group(2)), m.group(3)))
    return out


def main():
    a = sys.argv[1:]
    if not a:
        die("usage: check.py PROPERTY")
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    wd = f"{B}/{prop}"
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    plan = PLAN[prop]
    build_extractor()
    lenses = []
    for step in plan["lenses"]:
        L = Lens(step["lens"], wd)
        L.tags = step["tags"]
        L.run(set(step["tags"]), min(330, t0 + 560 - time.time()) if tier == "quick" else 1500)
        lenses.append(L)
        log(f"lens {L.name}: {L.verified} functions/lemmas verified, {len(L.failures)} failed obligations of {prop}, {len(L.external)} functions outside reach{'' if L.reach else ' -- lens undecided: ' + L.why}")
    failures = [(L, r) for L in lenses for r in L.failures]
    # vacuity: the functions that state the property must be among the verified ones
    must = plan.get("must", [])
    have = {f["key"] for L in lenses if L.meta for f in L.meta["fns"] if f["status"] == "verified" and f["key"] not in L.external}
    missing = [m for m in must if m not in have]
    vac = vacuity(prop, plan, lenses, tier) if not failures and (tier == 'thorough' or time.time() < t0 + 450) else {}
    ext = {}
    for L in lenses:
        for k, w in L.external.items():
            ext.setdefault(k, w)
    undecided = [L for L in lenses if not L.reach]
    for n, what in known_open(prop):
        log(f"KNOWN-FINDING: property={prop} {what}")
    found, stats = None, {}
    pool = [p for p in (V + "/corpus/seed.jsonl", V + "/corpus/evolved.jsonl") if os.path.exists(p)]
    others = [(L, r) for L in lenses for r in L.other] if not failures else []
    if others:
        log(f"  {len(others)} obligations of other properties fail in this lens; the argument for {prop} leans on those contracts, so the bounded search stands in")
    hollow = vac.get("bad", [])
    if missing or hollow:
        log(f"  functions that state the property are not among the verified ones: {missing}; hollow contracts: {hollow}; a bounded search stands in")
    if failures or ext or undecided or missing or others or hollow:
        fn_names = {r["fn"] for _, r in failures + others if r["fn"]} | set(ext)
        focus = words_of(lenses, fn_names)
        secs = plan.get("search", 150) if failures else plan.get("standin", 120)
        if tier == "thorough":
            secs *= 4
        else:
            secs = max(20, min(secs, int(t0 + 760 - time.time())))
        for _, r in failures[:6]:
            log(f"  failed obligation: {r['kind']} in {r['fn']} (source line {r['src']}) tag {r['tag']} {r['desc']}")
        for k, w in ext.items():
            log(f"  outside reach: {k}: {w}")
        if failures:
            # a quick concrete search first; without a failing input, a second opinion of the solver
            first = min(45, secs)
            found, stats = search(prop, seed, first, focus, wd, pool)
            if not found:
                for L in lenses:
                    L.second_opinion(set(L.tags), t0 + (640 if tier == "quick" else 5000))
                failures = [(L, r) for L in lenses for r in L.failures]
                if tier != "thorough":
                    secs = max(20, min(secs, int(t0 + 800 - time.time())))
                if failures or ext or undecided or missing:
                    found, stats = search(prop, seed + 77, secs, focus, wd, pool)
        else:
            found, stats = search(prop, seed, secs, focus, wd, pool)
        if found and any(found["input"] == i for i, _ in known_open(prop)):
            found = None
    # evidence
    fns = [f for L in lenses if L.meta for f in L.meta["fns"]]
    ver = sorted({f["key"] for L in lenses if L.meta for f in L.meta["fns"] if f["status"] == "verified" and f["key"] not in L.external})
    obl = sum(clauses_of(L) for L in lenses)
    failed_n = len(failures)
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": plan["level"] if not (ext or undecided or missing or others or hollow) else "other",
        "coverage": {
            "obligations": obl, "discharged": obl - failed_n,
            "checker_cmd": lenses[0].cmd if lenses else "",
            "trusted_base": [t for k in plan["trusted"] for t in TRUSTED[k]] + sorted({f"assumed contract (not verified in this lens): {f['key']}" for f in fns if f["status"] == "extern"}),
            "back_end": "Verus (Z3)",
            "functions_under_contract": len(ver),
            "functions": ver,
            "verified_items": {L.name: L.verified for L in lenses},
            "solver_ms": {L.name: L.smt_ms for L in lenses},
            "solver_runs": sum(L.runs for L in lenses),
            "rewrites": {L.name: L.meta["rules"] for L in lenses if L.meta},
            "bounded_stand_in": {k: w for k, w in ext.items()},
            "not_verified_though_required": missing,
            "undecided_lenses": {L.name: L.why for L in undecided},
            "failed_contracts_of_other_properties": sorted({f"{L.name}:{r['fn']}:{r['tag']}" for L, r in others}),
            "brittle": {k: v for L in lenses for k, v in L.retried.items()},
            "vacuity": vac,
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": 0,
    }
    if stats:
        ev["coverage"]["search"] = stats
    if ev["level"] == "other":
        ev["coverage"]["explanation"] = "part of the code is outside the verifier's reach on this tree (bounded_stand_in / undecided_lenses / not_verified_though_required); for it a bounded concrete search stands in, everything else is discharged deductively"
    rc = 0
    if found or failures:
        os.makedirs(V + "/build/replays", exist_ok=True)
        rp = f"{V}/build/replays/{prop}.json"
        rec = {"property": prop, "failed_obligations": [
            {"lens": L.name, "function": r["fn"], "kind": r["kind"], "clause": r["desc"], "tag": r["tag"], "source_line": r["src"], "verifier_output": r["text"]} for L, r in failures[:20]]}
        if found:
            rec.update(found)
            rec["replay_cmd"] = f"{V}/harness/target/release/bqh replay {prop} {rp}"
        else:
            rec["search"] = stats
        json.dump(rec, open(rp, "w"), indent=1)
        ev["violations"] = 1
        if found:
            log(f"failing input: {json.dumps(found['input'])}: {found['what']}")
            log(f"VIOLATION property={prop} replay={rp}")
        else:
            log(f"VIOLATION property={prop} replay={rp} no-failing-input-found")
        rc = 1
    ev["wall_s"] = round(time.time() - t0, 1)
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    log(f"{prop}: {'VIOLATED' if rc else 'held'} ({ev['wall_s']} s, {len(ver)} functions, {obl} contract clauses{', bounded stand-in for ' + ', '.join(sorted(ext)) if ext else ''})")
    sys.exit(rc)


def clauses_of(L):
    if not L.meta:
        return 0
    return sum(f["clauses"] for f in L.meta["fns"] if f["status"] == "verified" and f["key"] not in L.external)


def vacuity(prop, plan, lenses, tier):
    """an assert(false) at the head of a function must fail: its precondition is satisfiable"""
    res = {"checked": 0, "bad": []}
    for L in lenses:
        if not L.meta or not L.reach:
            continue
        fs = [f for f in L.meta["fns"] if f["status"] == "verified" and f["key"] not in L.external]
        if tier == "quick":
            want = set(plan.get("vac", ["parse_code", "next_token", "construct_node", "parse_statement"]))
            fs = [f for f in fs if f["key"] in want]
        if not fs:
            continue
        lines = list(L.lines)
        n = 0
        for f in fs:
            for i in range(f["out"][0] - 1, f["out"][1]):
                if lines[i].strip() in ("{", "{/*body*/"):
                    lines[i] = "{ proof { assert(false); }"
                    n += 1
                    break
        p = f"{L.dir}/vac.rs"
        open(p, "w").write("\n".join(lines))
        mods = sorted({f["module"] for f in fs if f["module"]})
        mf = []
        for m in mods:
            mf += ["--verify-only-module", m]
        cmd = ["verus"] + [x if x != "4" else "1" for x in verus_flags(L.name)] + mf + [p]
        try:
            r = sh(cmd, cwd=L.dir, timeout=300)
        except subprocess.TimeoutExpired:
            res.setdefault("notes", []).append(f"{L.name}: timeout")
            continue
        failed_at = {int(x) for x in re.findall(r"--> [^\n]*vac\.rs:(\d+):", r.stderr)}
        for f in fs:
            res["checked"] += 1
            if not any(f["out"][0] <= x <= f["out"][1] for x in failed_at):
                res["bad"].append(f"{L.name}:{f['key']}")
    return res


if __name__ == "__main__":
    main()
