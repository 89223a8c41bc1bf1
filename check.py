#!/usr/bin/env python3
"""Decides one property: check.py <property> [--tier quick|thorough]

The deductive step extracts the functions of /repo's current source, puts the
contracts of contracts/ on them and has Verus discharge every obligation.  A
bounded search over the compiled crate runs beside it: it supplies inputs that
show a violation, and stands in where the proof does not cover the property.
"""
import fnmatch
import glob
import hashlib
import json
import os
import re
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.environ.get("CARGO_TARGET_DIR", os.path.join(HERE, "target"))
SEARCH = {"quick": 35.0, "thorough": 420.0}
LONGER = {"quick": 150.0, "thorough": 300.0}
# an obligation that must not be discharged
GUARD = "probe::must_fail"


def sh(cmd, cwd=None, env=None, timeout=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)


def build(crate, binary=None):
    r = sh(["cargo", "build", "--offline", "-q"], cwd=os.path.join(HERE, crate),
           env={"CARGO_TARGET_DIR": TARGET, "CARGO_NET_OFFLINE": "true"})
    if r.returncode != 0:
        raise SystemExit("cannot build %s:\n%s" % (crate, r.stderr[-4000:]))
    return os.path.join(TARGET, "debug", binary or crate)


# ------------------------------------------------------------------ the proof

class Proof:
    """One run of the extractor and the verifier."""

    def __init__(self, work, extractor, tier):
        self.work = work
        self.extractor = extractor
        self.tier = tier
        self.broken = None          # why there is no proof at all
        self.fails = []             # failed obligations
        self.gaps = []              # what kept a function from being judged
        self.functions = {}         # key -> {obligations, smt_ms, ok}
        self.report = {}
        self.guarded = False

    def run(self):
        self.t0 = t0 = time.time()
        try:
            self.run_inner()
        except Exception as e:  # the search still decides
            self.broken = "%s: %s" % (type(e).__name__, e)
        self.wall = time.time() - t0

    def run_inner(self):
        os.makedirs(self.work, exist_ok=True)
        rs = os.path.join(self.work, "out.rs")
        js = os.path.join(self.work, "out.json")
        log = os.path.join(self.work, "log")
        self.cmd = ("verus --rlimit 60 --triggers-mode silent --num-threads 8 --output-json --time-expanded "
                    "--multiple-errors 10 --error-format=json --log-dir log --log air out.rs")
        # functions whose text the verifier does not take are left out, one after another
        left_out = {}
        while True:
            r = sh([self.extractor, os.path.join(REPO, "src"), os.path.join(HERE, "contracts"), rs, js] +
                   ([",".join(sorted(left_out))] if left_out else []), timeout=120)
            if r.returncode != 0:
                self.broken = "extraction failed: " + (r.stderr or r.stdout)[-1500:]
                return
            self.report = json.load(open(js))
            lines = open(rs).read().split("\n")
            self.lines = lines
            owner = self.owners(lines)
            for f in glob.glob(os.path.join(log, "*.air")):
                os.remove(f)
            v = sh(self.cmd.split(), cwd=self.work, timeout=420 if self.tier == "quick" else 1500)
            diags = []
            for ln in v.stderr.split("\n"):
                if ln.startswith("{"):
                    try:
                        diags.append(json.loads(ln))
                    except ValueError:
                        pass
            try:
                out = json.loads(v.stdout)
            except ValueError:
                out = {}
            res = out.get("verification-results") or {}
            if out.get("times-ms") and not res.get("encountered-vir-error") and res.get("verified", 0) > 0:
                break
            errs = [d for d in diags if d.get("level") == "error"]
            keys = {f["key"] for f in self.report.get("fns", [])} - set(left_out)
            found = {}
            for d in errs:
                for s in d.get("spans", []):
                    k = owner[min(s["line_start"], len(owner) - 1)]
                    if s.get("is_primary") and s.get("file_name", "").endswith("out.rs") and k in keys:
                        found.setdefault(k, d.get("message", ""))
            if not found or len(left_out) + len(found) > 12 or time.time() - self.t0 > 240:
                why = (errs[0].get("rendered") or errs[0].get("message", "")) if errs else v.stderr[-800:]
                self.broken = "the extracted text is outside the verifier's reach: " + why[:1500]
                return
            left_out.update(found)
        for k, why in sorted(left_out.items()):
            self.gaps.append({"function": k, "why": "outside the verifier's reach: " + why})
        self.verified = res.get("verified", 0)
        # obligations, from the queries sent to the solver
        for f in glob.glob(os.path.join(log, "*.air")):
            at = None
            for ln in open(f, errors="replace"):
                m = re.match(r";; out\.rs:(\d+):", ln)
                if m:
                    at = int(m.group(1))
                elif at is not None and re.match(r"\s*\(assert\s*$", ln):
                    k = owner[min(at, len(owner) - 1)]
                    if k:
                        self.functions.setdefault(k, {"obligations": 0, "ok": True})["obligations"] += 1
        self.smt_ms = 0
        for m in out["times-ms"]["smt"].get("smt-run-module-times", []):
            for fb in m.get("function-breakdown", []):
                self.smt_ms += fb.get("time-micros", 0) / 1000.0
        for d in diags:
            if d.get("level") != "error" or not d.get("spans"):
                continue
            msg = d.get("message", "")
            prim = [s for s in d["spans"] if s.get("is_primary")] or d["spans"]
            ks = {owner[min(s["line_start"], len(owner) - 1)] for s in prim if s.get("file_name", "").endswith("out.rs")} - {None}
            if not ks:
                continue
            key = sorted(ks)[0]
            spans = []
            label = None
            for s in d["spans"]:
                if not s.get("file_name", "").endswith("out.rs"):
                    continue
                txt = " ".join(t["text"].strip() for t in s.get("text", []))[:400]
                spans.append({"line": s["line_start"], "label": s.get("label"), "text": txt})
                if "postcondition" in (s.get("label") or "") or "precondition" in (s.get("label") or ""):
                    for k in range(s["line_start"] - 1, max(0, s["line_start"] - 60), -1):
                        m = re.match(r"\s*//@(ensures|requires)\b ?(\S*)", lines[k - 1])
                        if m:
                            label = m.group(2) or None
                            break
            if key == GUARD:
                self.guarded = True
                continue
            item = {"function": key, "obligation": msg, "clause": label, "where": spans, "rendered": (d.get("rendered") or "")[:2500]}
            if "not supported" in msg:
                self.gaps.append({"function": key, "why": msg})
            elif "could not prove termination" in msg or "decreases not satisfied" in msg:
                # the results hold if the calls end; whether they do is left to the search
                msg = "no proof that it ends: " + " ".join(x["text"] for x in spans)[:200]
                self.gaps.append({"function": key, "why": msg})
            elif "Resource limit" in msg:
                # neither proved nor refuted
                self.gaps.append({"function": key, "why": "the solver gave up: " + msg})
            else:
                self.fails.append(item)
            self.functions.setdefault(key, {"obligations": 0, "ok": True})["ok"] = False
        if not self.guarded:
            self.broken = "the assumptions contradict each other: %s was discharged" % GUARD
            return
        self.functions.pop(GUARD, None)
        bodies = {}
        for i, k in enumerate(owner):
            if k and i < len(lines) + 1:
                bodies.setdefault(k, []).append(lines[i - 1])
        bare = [f["key"] for f in self.report.get("fns", []) if not f["contract"]]
        for b in bare:
            call = re.compile(r"\b%s\(" % re.escape(b.split("::")[-1]))
            for k, text in bodies.items():
                if k != b and any(call.search(t) for t in text):
                    self.gaps.append({"function": k, "why": "calls %s, which has no contract" % b})
        for f in self.report.get("fns", []):
            if not f["contract"]:
                self.gaps.append({"function": f["key"], "why": "no contract"})
            for l in f["loops"]:
                if not l["contract"]:
                    self.gaps.append({"function": f["key"], "why": "no invariant for loop " + l["key"]})
        for l in self.report.get("lost_anchors", []):
            self.gaps.append({"function": l.get("key") or l.get("fn") or "?", "why": "contract text no longer matches the code: " + json.dumps(l)})
        for u in self.report.get("unsupported", []):
            if "generic" not in u.get("what", ""):
                self.gaps.append({"function": u.get("key") or u.get("fn") or "?", "why": "unsupported: " + json.dumps(u)})

    @staticmethod
    def owners(lines):
        """for each line of the extracted text, the function it belongs to"""
        owner = [None] * (len(lines) + 2)
        mods = []
        depth = 0
        cur = None
        marker = None
        for i, ln in enumerate(lines, 1):
            m = re.match(r"\s*//@fn (\S+)", ln)
            if m:
                marker = m.group(1)
                cur = marker
            else:
                m = re.match(r"\s*pub mod (\w+) \{", ln)
                if m:
                    mods.append(m.group(1))
                m = re.match(r"\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([^)]*\))? )?(?:open |closed |broadcast )?(proof|axiom|spec|fn|uninterp)\b.*?\b(?:fn )?(\w+)\s*[(<]", ln)
                m2 = re.match(r"\s*(?:pub )?(?:open |closed |broadcast )*(?:proof|spec) fn (\w+)", ln)
                if m2:
                    cur = "%s::%s" % (mods[-1] if mods else "root", m2.group(1))
            owner[i] = cur
        return owner


def relevant(keys, globs):
    return [k for k in keys if any(fnmatch.fnmatchcase(k, g) for g in globs)]


# ------------------------------------------------------------------- the check

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in SEARCH:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    secs = float(os.environ.get("VERIF_SECS", SEARCH[tier]))
    t0 = time.time()
    info = json.load(open(os.path.join(HERE, "props.json")))[prop]
    work = os.path.join(HERE, "work", prop)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)

    bins = {}
    errs = []

    def b(c):
        try:
            bins[c] = build(c)
        except SystemExit as e:
            errs.append(str(e))
    b("extractor")
    proof = None
    th = None
    if "extractor" in bins and info.get("fns"):
        proof = Proof(os.path.join(work, "proof"), bins["extractor"], tier)
        th = threading.Thread(target=proof.run)
        th.start()
    b("harness")
    if info.get("tool"):
        # the search runs the command line tool as well
        try:
            os.environ["VERIF_CLI"] = build("cli", "jsonschema-transpiler")
        except SystemExit as e:
            print(e, file=sys.stderr)
            if th:
                th.join()
            return 2
    if "harness" not in bins or "extractor" not in bins:
        print("\n".join(errs), file=sys.stderr)
        if th:
            th.join()
        return 2

    violations = []

    def replay_file(name, data):
        p = os.path.join(replays, "%s-%s.json" % (prop, name))
        json.dump(data, open(p, "w"), indent=1)
        return p

    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    listed = [k for k in known.get("known", []) if k["property"] == prop]

    # recorded inputs first
    corpus = sorted(glob.glob(os.path.join(HERE, "corpus", prop + "-*.json")))
    replayed = 0
    for f in corpus:
        r = sh([bins["harness"], "replay", f], timeout=120)
        replayed += 1
        if r.returncode == 1:
            data = json.load(open(f))
            data["why"] = r.stdout.strip()[:2000]
            h = hashlib.sha1(open(f, "rb").read()).hexdigest()[:8]
            violations.append((replay_file(h, data), False, data["why"]))

    # the bounded search
    def one_search(seed, secs, trace=None):
        out = os.path.join(work, "search.json")
        if os.path.exists(out):
            os.remove(out)
        try:
            r = sh([bins["harness"], "search", prop, str(seed), str(secs), os.path.join(REPO, "src"), out],
                   timeout=secs * 2 + 60, env={"VERIF_TRACE": trace} if trace else None)
        except subprocess.TimeoutExpired:
            return None, "it did not end"
        if not os.path.exists(out):
            return None, r.stderr[-2000:]
        return json.load(open(out)), None

    def run_search(seed, secs):
        res, why = one_search(seed, secs)
        if res is not None:
            return res
        # something ended the process: which of the cases was it?
        none = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "failure": None, "gave_up": why}
        if prop != "C10":
            print("the search gave no answer: " + why, file=sys.stderr)
            return none
        trace = os.path.join(work, "trace")
        os.makedirs(trace, exist_ok=True)
        for f in glob.glob(os.path.join(trace, "*")):
            os.remove(f)
        res, why = one_search(seed, secs, trace)
        if res is not None:
            return res
        for f in sorted(glob.glob(os.path.join(trace, "*"))):
            try:
                p = sh([bins["harness"], "replay", f], timeout=60)
                ended = p.returncode in (0, 1)
                what = "ended by a signal: " + p.stderr[-300:]
            except subprocess.TimeoutExpired:
                ended, what = False, "did not end within 60 s"
            if not ended:
                none["failure"] = dict(json.load(open(f)), why="the translation " + what)
                return none
        print("the search gave no answer: " + why, file=sys.stderr)
        return none
    search = run_search(seed, secs)
    if search.get("failure"):
        data = dict(search["failure"])
        data["property"] = prop
        violations.append((replay_file("search", data), False, data["why"]))

    if th:
        th.join()

    # what the proof says about this property
    mine, fails, gaps, nob, ndis = [], [], [], 0, 0
    claimed = info.get("level") == "proof"
    if proof is not None and not proof.broken:
        clauses = info.get("clauses")
        mine = sorted(relevant(proof.functions.keys(), info["fns"]))
        for f in proof.fails:
            if not relevant([f["function"]], info["fns"]):
                continue
            if f["clause"] and clauses is not None and f["clause"] not in clauses:
                continue
            fails.append(f)
        gaps = [g for g in proof.gaps if relevant([g["function"]], info["fns"])]
        nob = sum(proof.functions[k]["obligations"] for k in mine)
        ndis = nob - len(fails)
    elif proof is not None:
        gaps = [{"function": "*", "why": proof.broken}]

    # a failed obligation in a function that could be judged is a violation; in
    # one that no longer matches its contract it only means there is no proof
    excluded = {g["function"] for g in gaps}
    unread = [w for f, w in [("printing::*", ["canonical::*", "order::*"]), ("reading::*", ["keywords::*"])] if f in excluded for w in w]
    base_gaps = set(info.get("open", []))
    alarm = info.get("alarm", info["fns"])
    judged = [f for f in fails if f["function"] not in excluded and not relevant([f["function"]], unread)
              and f["function"] not in base_gaps and relevant([f["function"]], alarm)]
    if "*" in excluded:
        judged = []
    changed = bool(fails or [g for g in gaps if g["function"] not in base_gaps])
    if changed and not violations:
        # look longer for an input that shows it
        more = float(os.environ.get("VERIF_MORE", LONGER[tier]))
        s2 = run_search(seed + 1000, more)
        if True:
            search["evaluations"] += s2["evaluations"]
            search["distinct_nontrivial"] += s2["distinct_nontrivial"]
            secs += more
            if s2.get("failure"):
                data = dict(s2["failure"])
                data["property"] = prop
                violations.append((replay_file("search", data), False, data["why"]))
    if judged and not violations:
        f = judged[0]
        data = {"property": prop, "failed_obligation": f, "all_failed": judged,
                "note": "no failing input was found within the bounds of the search",
                "search": {k: search[k] for k in ("evaluations", "distinct_nontrivial")}}
        violations.append((replay_file("obligation", data), True, "%s: %s" % (f["function"], f["obligation"])))
    established = claimed and proof is not None and not proof.broken and not fails and \
        not [g for g in gaps if g["function"] not in base_gaps] and nob > 0
    level = "proof" if established else "exploration"
    if search.get("gave_up") and not violations and not established:
        print("neither the search nor the proof gave an answer", file=sys.stderr)
        return 2

    cov = {
        "evaluations": search["evaluations"],
        "distinct_nontrivial": search["distinct_nontrivial"],
        "rule": "random schemas, options and (where the property speaks of documents) documents from the grammar in "
                "harness/src/gen.rs, seeded with the names and numbers of the source; non-trivial: the schema has "
                "properties, items, additionalProperties, patternProperties or oneOf at its root; distinct: schema and options differ",
        "samples": search["samples"],
        "recorded_inputs_replayed": replayed,
        **({"bounded_exhaustive": "all %d names of up to 7 characters of a, Z, 0, _ and of up to 5 of a, z, A, Z, 0, 9, _ are called as documented" % search["names_swept"]} if search.get("names_swept") else {}),
        "bound": "bounded: %.0f s of search, schemas of depth at most about 5" % secs,
    }
    if proof is not None:
        cov.update({
            "obligations": nob,
            "discharged": ndis,
            "checker_cmd": getattr(proof, "cmd", "verus"),
            "trusted_base": trusted(proof),
            "functions_under_contract": mine,
            "not_proved": gaps,
            "failed_obligations": [{"function": f["function"], "obligation": f["obligation"], "clause": f["clause"]} for f in fails],
            "solver": "z3 (as shipped with Verus)",
            "solver_ms_whole_crate": round(getattr(proof, "smt_ms", 0.0), 1),
            "proof_wall_s": round(getattr(proof, "wall", 0.0), 1),
            "extraction_drops": proof.report.get("dropped", []),
            "uncovered_parts": info.get("uncovered", []),
        })
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": cov,
        "assumptions": info.get("assumptions", []) + COMMON,
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations),
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)

    for k in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s: %d cases, %d/%d obligations discharged, %d functions; %s" % (
        prop, search["evaluations"], ndis, nob, len(mine), level))
    if violations:
        for p, obl, why in violations:
            print(("  " + why)[:600])
            print("VIOLATION property=%s replay=%s%s" % (prop, p, " no-failing-input-found" if obl else ""))
        return 1
    return 0


COMMON = [
    "the extractor's rewriting of the source (DESIGN.md, Extraction) keeps its meaning",
    "std collections, strings, sorting, Option/Result and iterator adaptors behave as contracts/shim.rs states",
    "clone is the identity; derived Default, PartialEq and serde implementations are as derived",
    "heck does to names of ASCII letters, digits and underscores what src/casing.rs documents (axiom_heck; the check of C13 compares all short names); regular expressions are uninterpreted functions of their input",
    "stack depth and memory are not covered; numbers of items fit usize",
]


def trusted(proof):
    """what is assumed in the verified text, read off it"""
    t = ["Verus 0.2026.09.13 and its Z3", "extractor/"]
    lines = getattr(proof, "lines", [])
    ext, unint, ax, nodec = [], [], [], 0
    for i, ln in enumerate(lines):
        m = re.search(r"\bfn (\w+)", ln)
        if "external_body" in ln:
            for k in range(i, min(len(lines), i + 4)):
                m = re.search(r"\bfn (\w+)", lines[k].split("external_body]")[-1])
                if m:
                    ext.append(m.group(1))
                    break
        elif re.search(r"\baxiom fn\b", ln):
            ax.append(m.group(1))
        elif "uninterp" in ln and m:
            unint.append(m.group(1))
        elif "exec_allows_no_decreases_clause" in ln:
            nodec += 1
        elif re.search(r"\b(assume|admit)\(", ln) and not ln.strip().startswith("//"):
            t.append("assumed in the text, line %d: %s" % (i + 1, ln.strip()[:150]))
    t.append("bodies not verified, contracts assumed (shim.rs, 80_serde.rs): " + ", ".join(sorted(set(ext))))
    t.append("axioms: " + ", ".join(sorted(set(ax))))
    t.append("uninterpreted: " + ", ".join(sorted(set(unint))))
    if nodec:
        t.append("partial correctness: termination of %d functions is not proved" % nodec)
    return t


if __name__ == "__main__":
    sys.exit(main())
