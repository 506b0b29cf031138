#!/usr/bin/env python3
"""Decide one property of /repo: check.py PROPERTY.

1. extract the current source of /repo into one Verus crate with the contracts attached;
2. have Verus discharge every obligation of the modules that the property depends on;
3. run the bounded oracle (a reference implementation against the real crate), in search of a
   concrete input for an obligation that failed, and to cross-check what is assumed.

Exit 0: held.  Exit 1: violated, with a VIOLATION line.  Exit 2: the check could not be carried out.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))

import attribution  # noqa: E402

BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
START = time.time()
LIMIT = 800 if TIER == "quick" else 3000


def log(text):
    print(f"[{time.time() - START:6.1f}s] {text}", flush=True)


def run(command, timeout, **options):
    options.setdefault("stdout", subprocess.PIPE)
    options.setdefault("stderr", subprocess.PIPE)
    try:
        return subprocess.run(command, timeout=timeout, **options)
    except subprocess.TimeoutExpired as error:
        return subprocess.CompletedProcess(command, 124, error.stdout or b"", error.stderr or b"")


def environment(target, **more):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUSTFLAGS", "RUSTC", "EXTRACT"))}
    if "CARGO_HOME" in os.environ:
        env["CARGO_HOME"] = os.environ["CARGO_HOME"]
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, target)
    env["CARGO_NET_OFFLINE"] = "true"
    env.update(more)
    return env


def fail(message):
    print(f"ERROR: {message}", flush=True)
    sys.exit(2)


# ---------------------------------------------------------------- building

def build_extractor():
    result = run(["cargo", "build", "--release", "--offline", "--quiet"], 600,
                 cwd=os.path.join(HERE, "extract"), env=environment("extract"))
    if result.returncode != 0:
        fail("the extractor does not build: " + result.stderr.decode()[-2000:])
    return os.path.join(BUILD, "extract", "release", "extract")


def build_oracle():
    source = os.path.join(HERE, "oracle")
    if REPO != "/repo":
        # Another tree, for development.
        copy = os.path.join(BUILD, "oracle-source")
        shutil.rmtree(copy, ignore_errors=True)
        shutil.copytree(source, copy)
        source = copy
        path = os.path.join(source, "Cargo.toml")
        with open(path) as file:
            text = file.read()
        with open(path, "w") as file:
            file.write(text.replace('"/repo"', f'"{REPO}"'))
    command = ["cargo", "build", "--offline", "--quiet", "--profile", "oracle"]
    result = run(command, 600, cwd=source, env=environment("oracle"))
    if result.returncode != 0:
        return None, result.stderr.decode()[-3000:]
    return os.path.join(BUILD, "oracle", "oracle", "oracle"), ""


def expand(work):
    """The text that the compiler compiles after the expansion of macros."""
    env = environment("expand")
    for attempt in range(2):
        result = run(["cargo", "+nightly", "rustc", "--offline", "--lib", "--profile", "check", "--quiet",
                      "--", "-Zunpretty=expanded"], 300, cwd=REPO, env=env)
        if result.returncode != 0:
            return None, result.stderr.decode()[-3000:]
        if result.stdout.strip():
            break
        # The compiler was not run as nothing had changed.
        shutil.rmtree(env["CARGO_TARGET_DIR"], ignore_errors=True)
    else:
        return None, "no expanded text"
    path = os.path.join(work, "expanded.rs")
    with open(path, "wb") as file:
        file.write(result.stdout)
    return path, ""


# ---------------------------------------------------------------- verification

class Text:
    """The generated crate, and the functions and match arms that its lines belong to."""

    def __init__(self, path):
        with open(path) as file:
            self.lines = file.read().split("\n")
        self.where = []
        key, group, arm, name = "", "", "", ""
        extracted = False
        for line in self.lines:
            if line.startswith("// ---- extracted"):
                extracted = True
            if extracted:
                found = re.search(r"\bfn\s+(\w+)", line)
                if found and not line.lstrip().startswith("//"):
                    name = found.group(1)
                if line.startswith("pub mod vx_canary"):
                    key, group, arm = "(canary)", "", ""
                if line.startswith("//@fn "):
                    key, arm = line[6:].strip(), ""
                    group = name.split("__")[1] if "__" in name else ""
                elif line.startswith("//@arm "):
                    arm = line[7:].strip().split(" ", 1)[1]
            else:
                key = "(specification)"
            self.where.append((key, group, arm))

    def site(self, line):
        return self.where[line - 1] if 0 < line <= len(self.where) else ("", "", "")

    def kind(self, line):
        found = re.search(r"//@(kind \w+|panic)", self.lines[line - 1]) if 0 < line <= len(self.lines) else None
        return found.group(1).replace("kind ", "") if found else ""


COMPILE = ("cannot find", "mismatched types", "not supported", "unsupported")


def diagnostics(text, stderr, file_name):
    """The failed obligations, and the other errors, of a run of the verifier."""
    failed, broken = [], []
    for line in stderr.decode(errors="replace").split("\n"):
        if not line.startswith("{"):
            continue
        try:
            message = json.loads(line)
        except ValueError:
            continue
        if message.get("level") != "error" or message["message"].startswith("aborting due to"):
            continue
        spans = [s for s in message["spans"] if s["file_name"].endswith(file_name)]
        primary = [s for s in spans if s["is_primary"]] or spans
        title = message["message"]
        sites = [(text.site(s["line_start"]), s) for s in primary + spans]
        site = next((s for s, _ in sites if s[0] and s[0] != "(specification)"),
                    sites[0][0] if sites else ("", "", ""))
        # The arm is that of the point of failure rather than of the clause.
        arm = next((s[2] for s, _ in sites if s[0] == site[0] and s[2]), "")
        group = next((s[1] for s, _ in sites if s[0] == site[0] and s[1]), "")
        kinds = [text.kind(s["line_start"]) for s in primary] + [text.kind(s["line_start"]) for s in spans]
        kind = next((k for k in kinds if k), "")
        low = title.lower()
        if any(w in low for w in ("overflow", "underflow", "division by zero", "decreases", "termination")):
            kind = "safety"
        elif "precondition" in low or "panic" in kind:
            kind = "safety"
        elif "postcondition" in low:
            kind = kind or "functional"
        elif any(w in low for w in ("invariant", "assertion", "ensures", "loop")):
            kind = kind or "functional"
        entry = {
            "function": site[0], "group": group, "arms": arm, "kind": kind, "message": title,
            "text": [s["text"][0]["text"].strip()[:300] for s in spans[:4] if s["text"]],
            "rendered": message.get("rendered", "")[:4000],
        }
        proof = ("not satisfied", "assertion failed", "possible", "invariant", "might not", "failed",
                 "precondition", "postcondition", "unable to prove")
        if "resource limit" in low or "rlimit" in low:
            entry["kind"] = "undecided"
            failed.append(entry)
        elif message.get("code") is None and any(w in low for w in proof) and "panicked" not in low:
            failed.append(entry)
        else:
            entry["kind"] = "rejected"
            broken.append(entry)
    return failed, broken


def verify(work, extractor, expanded, groups, modules, deadline):
    """Extract and verify, leaving out functions that the verifier rejects."""
    trusted = []
    out, report_path = os.path.join(work, "verified.rs"), os.path.join(work, "report.json")
    attempts = []
    for attempt in range(8):
        env = environment("extract", EXTRACT_GROUPS=groups, EXTRACT_TRUST=";".join(trusted))
        result = run([extractor, expanded, os.path.join(HERE, "proof/prelude"),
                      os.path.join(HERE, "proof/contracts"), out, report_path], 60, env=env)
        if result.returncode != 0:
            return {"status": "rejected", "reason": "extraction: " + result.stderr.decode()[-1500:]}
        with open(report_path) as file:
            report = json.load(file)
        with open(out, "a") as file:
            file.write(attribution.CANARY)
        text = Text(out)
        command = ["verus", "verified.rs", "--error-format=json", "--output-json", "--time",
                   "--multiple-errors", "6", "-A", "warnings", "-V", "spinoff-all"]
        for module in modules:
            command += ["--verify-only-module", module]
        command += ["--verify-only-module", "vx_canary"]
        result = run(command, max(60, deadline - time.time()), cwd=work)
        if result.returncode == 124:
            return {"status": "rejected", "reason": "the verifier ran out of time", "report": report}
        failed, broken = diagnostics(text, result.stderr, "verified.rs")
        try:
            output = result.stdout.decode()
            summary = json.loads(output[output.index("{"):])
        except ValueError:
            summary = {}
        results = summary.get("verification-results", {})
        if broken or not results or results.get("encountered-vir-error"):
            names = set()
            for entry in broken:
                key = entry["function"]
                if not key or key == "(specification)":
                    continue
                names.add(f"{key}__{entry['group']}" if entry["group"] else key)
            names -= set(trusted)
            attempts.append([e["message"][:300] + " in " + e["function"] for e in broken[:5]])
            if names:
                trusted += sorted(names)
                continue
            return {"status": "rejected", "report": report, "attempts": attempts, "trusted": trusted,
                    "reason": "the verifier rejects the text: "
                    + "; ".join(sum(attempts[-1:], []))[:1500] + result.stderr.decode()[-300:]}
        functions = []
        for module in summary["times-ms"]["smt"]["smt-run-module-times"]:
            for function in module["function-breakdown"]:
                functions.append((function["function"].split("::", 1)[1], function["success"], function["time"]))
        canaries = [f for f in functions if f[0].startswith("vx_canary::")]
        functions = [f for f in functions if not f[0].startswith("vx_canary::")]
        if not canaries or any(success for _, success, _ in canaries):
            return {"status": "rejected", "report": report, "reason": "the assumptions are contradictory (canary)"}
        failed = [f for f in failed if f["function"] != "(canary)"]
        return {"status": "done", "report": report, "functions": functions, "failed": failed,
                "trusted": trusted, "attempts": attempts, "canaries": len(canaries),
                "clauses": clauses(text), "version": summary["verus"]["version"],
                "assumed": attribution.assumed(text.lines)}
    return {"status": "rejected", "reason": "too many functions rejected", "attempts": attempts, "trusted": trusted}


def clauses(text):
    """The number of clauses of contracts in the generated crate, by function and kind."""
    counts = {}
    for line, (key, _, _) in zip(text.lines, text.where):
        found = re.search(r"//@kind (\w+)", line)
        if found and key and key != "(specification)":
            counts.setdefault(key, {}).setdefault(found.group(1), 0)
            counts[key][found.group(1)] += 1
    return counts


# ---------------------------------------------------------------- the assumptions

def check_assumptions(work, deadline):
    """In the thorough tier, what is assumed of std is checked by Kani, on the code of std."""
    env = environment("kani")
    env["CARGO_TARGET_DIR"] = os.path.join(work, "kani")
    budget = int(max(60, deadline - time.time()))
    result = run(["timeout", "-k", "5", str(budget), "cargo", "kani", "-j", "3", "--output-format", "terse",
                  "--target-dir", os.path.join(work, "kani")], budget + 20, cwd=os.path.join(HERE, "assumptions"), env=env)
    text = result.stdout.decode(errors="replace")
    names = sorted(set(re.findall(r"Checking harness (\w+)\.\.\.", text)))
    refuted = [n for n in re.findall(r"Verification failed for - (\w+)", text)
               if "out of memory" not in text and "timed out" not in text]
    complete = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures", text)
    if result.returncode == 124 or not complete:
        return {"status": "not completed", "harnesses": names}
    return {
        "status": "refuted" if refuted else "checked" if complete.group(2) == "0" else "not completed",
        "back_end": "Kani with CBMC", "harnesses": names, "refuted": refuted,
        "note": "all_*: for all values; the others within the bound in their names",
    }


# ---------------------------------------------------------------- the oracle

WORKERS = max(1, min(6, (os.cpu_count() or 2) - 1))


def consult(oracle, work, name, millis, timeout):
    """Compare the real crate with the reference implementation; the inputs depend on the seed only."""
    from concurrent.futures import ThreadPoolExecutor
    stop = os.path.join(work, f"oracle-{name}-stop")
    env = dict(os.environ, ORACLE_STOP=stop)
    if os.path.exists(stop):
        os.remove(stop)

    def one(worker):
        path = os.path.join(work, f"oracle-{name}-{worker}.json")
        # The first one begins with the enumerated inputs.
        command = [oracle, "search", name, str(SEED + 7919 * worker), str(millis), path]
        result = run(command + (["random"] if worker else []), timeout, env=env)
        try:
            with open(path) as file:
                return json.load(file)
        except (OSError, ValueError):
            return {"status": "unavailable", "reason": (result.stderr or b"").decode(errors="replace")[-500:]}

    with ThreadPoolExecutor(WORKERS) as pool:
        answers = list(pool.map(one, range(WORKERS)))
    found = next((a for a in answers if a["status"] == "violation"), answers[0])
    for key in ("evaluations", "distinct"):
        found[key] = sum(a.get(key, 0) for a in answers)
    found["processes"] = WORKERS
    return found


def known_findings(name):
    path = os.path.join(HERE, "known_findings.jsonl")
    entries = []
    if os.path.exists(path):
        with open(path) as file:
            for line in file:
                line = line.strip()
                if line:
                    entry = json.loads(line)
                    if entry["property"] == name:
                        entries.append(entry)
    return entries


def main():
    name = sys.argv[1]
    plan = attribution.PROPERTIES[name]
    os.makedirs(BUILD, exist_ok=True)
    work = os.path.join(BUILD, "run", f"{name}-{os.getpid()}")
    os.makedirs(work)
    try:
        status = decide(name, plan, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(status)


def decide(name, plan, work):
    deadline = START + LIMIT
    log(f"{name}: {plan['title']} (tier {TIER}, seed {SEED})")
    extractor = build_extractor()
    # The oracle is built while the verifier runs.
    import threading
    built = {}
    thread = threading.Thread(target=lambda: built.update(zip(("path", "reason"), build_oracle())))
    thread.start()
    expanded, reason = expand(work)
    if expanded is None:
        thread.join()
        fail("the crate does not compile: " + reason)
    log("extracting and verifying")
    assumed = {}
    helper = threading.Thread(target=lambda: assumed.update(check_assumptions(work, deadline - 900)))
    if TIER == "thorough":
        helper.start()
    proof = verify(work, extractor, expanded, plan["groups"], plan["modules"], deadline - 200)
    thread.join()
    oracle, oracle_reason = built.get("path"), built.get("reason", "")

    core, other = [], []
    if proof["status"] == "done":
        for entry in proof["failed"]:
            (core if attribution.concerns(name, entry) else other).append(entry)
        log(f"verifier: {sum(1 for f in proof['functions'] if f[1])} of {len(proof['functions'])} functions "
            f"discharged, {len(core)} failed obligations of this property, {len(other)} of others")
        for entry in core + other:
            log(f"  failed: {entry['function']} {entry['group']} [{entry['arms']}] {entry['kind']}: {entry['message']}")
            for line in entry["text"][:2]:
                log(f"      {line}")
        for key in proof["trusted"]:
            log(f"  left out, as the verifier rejects its text: {key}")
        for messages in proof["attempts"]:
            for message in messages:
                log(f"      rejected: {message}")
        for note in proof["report"]["structural"]:
            log(f"  note: {note}")
    else:
        log("verifier: no answer: " + proof["reason"][:600])

    failing = proof["status"] != "done" or core or other or proof["trusted"]
    millis = {"quick": 60000 if failing else 6000, "thorough": 240000 if not failing else 60000}[TIER]
    millis = int(os.environ.get("VERIF_MILLIS", millis))  # for development
    found = {"status": "unavailable", "reason": oracle_reason}
    if oracle:
        found = consult(oracle, work, name, millis, millis / 1000 + 120)
    log(f"oracle: {found['status']} {found.get('evaluations', '')} {found.get('reason', '')[:300]}")

    replay_dir = os.path.join(HERE, "replay")
    os.makedirs(replay_dir, exist_ok=True)
    replay = os.path.join(replay_dir, f"{name}.json")
    violations = 0
    status = 0
    record = {
        "property": name, "failed_obligations": core, "failed_obligations_of_others": other,
        "oracle": found, "reproduce": f"python3 check.py {name}",
    }
    for finding in known_findings(name):
        if finding["status"] == "known":
            print(f"KNOWN-FINDING: property={name} {finding['what']}", flush=True)
    if found["status"] == "violation":
        violations, status = 1, 1
        record["replay"] = f"build/oracle/oracle/oracle replay {name} replay/{name}.json"
        save(replay, record)
        log("failing input: " + json.dumps(found["failure"])[:1500])
        print(f"VIOLATION property={name} replay={replay}", flush=True)
    elif core:
        decided = [e for e in core if not attribution.weakened(e, proof)]
        explained = []
        if decided and oracle:
            # An obligation that several properties share: whose failing input can be found?
            others = sorted(p for p in attribution.PROPERTIES if p != name
                            and any(attribution.concerns(p, e) for e in decided))
            for another in others[:6]:
                answer = consult(oracle, work, another, 5000, 120)
                if answer["status"] == "violation":
                    explained.append(another)
                    log(f"the failed obligations are explained by a failing input for {another}")
                    break
        if decided and not explained:
            violations, status = len(decided), 1
            save(replay, record)
            print(f"VIOLATION property={name} replay={replay} no-failing-input-found", flush=True)
    if TIER == "thorough":
        helper.join()
        log(f"assumptions: {assumed['status']}, {len(assumed['harnesses'])} harnesses")
        proof["assumptions"] = assumed
        if assumed["status"] == "refuted":
            fail("what is assumed of std does not hold: " + ", ".join(assumed["refuted"]))
    write_evidence(name, plan, proof, found, core, other, violations)
    log("done")
    return status


def save(path, record):
    with open(path, "w") as file:
        json.dump(record, file, indent=1)


def write_evidence(name, plan, proof, found, core, other, violations):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    coverage = {}
    bounded = {
        "status": found["status"],
        "evaluations": found.get("evaluations", 0),
        "distinct_nontrivial": found.get("distinct", 0),
        "rule": found.get("rule", ""),
        "samples": found.get("samples", []),
    }
    proved = False
    if proof["status"] == "done":
        functions = proof["functions"]
        proved = not core and not other and not proof["trusted"] and not proof["report"]["structural"]
        core_keys = sorted(set(k for k in proof["report"]["under_contract"] if attribution.core_key(name, k)))
        coverage.update({
            "obligations": len(functions),
            "discharged": sum(1 for f in functions if f[1]),
            "obligations_note": "one per function, loop body and lemma that the verifier checked in this run, "
                                "each of which comprises its postconditions, invariants, callees' preconditions, "
                                "arithmetic and termination",
            "contract_clauses": sum(sum(c.values()) for c in proof["clauses"].values()),
            "functions_under_contract": len(set(proof["report"]["under_contract"])),
            "core_functions": core_keys,
            "loops_with_invariants": proof["report"]["loops"],
            "checker_cmd": "verus verified.rs " + " ".join(f"--verify-only-module {m}" for m in plan["modules"]),
            "checker": f"Verus {proof['version']} with Z3",
            "solver_ms": sum(f[2] for f in functions),
            "slowest": [[f[0], f[2]] for f in sorted(functions, key=lambda f: -f[2])[:5]],
            "trusted_base": attribution.trusted_base(proof),
            "extraction_rules": proof["report"]["rules"],
            "extraction_dropped": len(proof["report"]["dropped"]),
            "vacuity_canaries_refuted": proof["canaries"],
            "left_out": proof["trusted"],
            "failed_obligations": [f"{e['function']} {e['arms']}: {e['message']}" for e in core],
            "failed_obligations_of_other_properties": [f"{e['function']} {e['arms']}: {e['message']}" for e in other],
        })
    else:
        coverage["verifier"] = proof["reason"][:1000]
    if not proved:
        coverage["bounded_note"] = ("not every obligation was discharged in this run; the bounded comparison "
                                    "stands in, and the property is not counted as proved")
        coverage.update({k: bounded[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples")})
        if not coverage["rule"]:
            coverage["rule"] = "none"
        if not coverage["samples"]:
            coverage["samples"] = ["none"]
    else:
        coverage["bounded_cross_check"] = bounded
    if "assumptions" in proof:
        coverage["assumptions_checked"] = proof["assumptions"]
    evidence = {
        "property": name,
        "tier": TIER,
        "seed": SEED,
        "level": "proof" if proved else "exploration",
        "coverage": coverage,
        "assumptions": attribution.assumptions(name),
        "wall_s": round(time.time() - START, 2),
        "violations": violations,
    }
    save(os.path.join(HERE, "evidence", f"{name}.json"), evidence)


if __name__ == "__main__":
    main()
