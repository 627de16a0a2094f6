#!/usr/bin/env python3
"""Deductive check of one property against /repo's current working tree.

  check.py <PROP> quick|thorough     decide the property
  check.py replay <file>             run a recorded counterexample against the current tree
  check.py build <PROP>              extract and build only
"""
import concurrent.futures as cf
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SYMX_REPO", "/repo")
BUILD = os.environ.get("SYMX_BUILD", os.path.join(HERE, ".build"))
EVID = os.environ.get("SYMX_EVIDENCE", os.path.join(HERE, "evidence"))
SYMX = os.path.join(HERE, "symx")


def env():
    e = dict(os.environ)
    e.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTFLAGS="-Awarnings",
             # the pictures of the induction contracts use specialization (symrt::snap)
             RUSTC_BOOTSTRAP="symrt,franka")
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    for k in ("CARGO_TARGET_DIR", "RUSTDOCFLAGS", "LD_LIBRARY_PATH"):
        e.pop(k, None)
    return e


def sh(cmd, cwd=None, timeout=600, **kw):
    return subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          text=True, timeout=timeout, **kw)


def write_if_changed(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def sync_tree(src, dst):
    """copy src over dst, touching only files whose contents differ (cargo goes by mtimes)"""
    keep = set()
    for d, _, fs in os.walk(src):
        for n in fs:
            p = os.path.join(d, n)
            q = os.path.join(dst, os.path.relpath(p, src))
            keep.add(q)
            with open(p, "rb") as f:
                write_if_changed(q, f.read())
    for d, _, fs in os.walk(dst):
        for n in fs:
            p = os.path.join(d, n)
            if p not in keep:
                os.remove(p)


INT = re.compile(r"\d[\d_]*(?:usize|[ui](?:8|16|32|64|128))?\Z")
TERM = re.compile(r"(?:symrt::)?\b(U64|U128)\b")


def type_literals(hdir, feats):
    """the extraction types integer literals by their surroundings; where the compiler then still says
    that a 64/128 bit term was expected, the literal becomes one (its value is untouched)"""
    r = sh(["cargo", "build", "-q", "--offline", "--features", feats, "--target-dir", BUILD + "/h",
            "--message-format=json"], cwd=hdir)
    edits = {}

    def add(path, a, b, ty):
        edits.setdefault(path, {})[(a, b)] = ty

    for line in r.stdout.splitlines():
        try:
            m = json.loads(line).get("message")
        except ValueError:
            continue
        if not isinstance(m, dict) or m.get("level") != "error":
            continue
        texts = [m["message"]] + [x["label"] or "" for x in m["spans"]] + [c["message"] for c in m["children"]]
        ty = TERM.search(" ".join(texts))
        if not ty:
            continue
        for sp in m["spans"]:
            path = os.path.join(hdir, sp["file_name"])
            if not os.path.realpath(path).startswith(os.path.realpath(BUILD + "/gen") + "/"):
                continue
            src = open(path, "rb").read()
            a, b = sp["byte_start"], sp["byte_end"]
            t = src[a:b].decode()
            if INT.match(t):
                add(path, a, b, ty.group(1))
                continue
            # `x op ..` or `.. op x` with an untyped local x
            names = set(re.findall(r"\b[a-z_][a-z0-9_]*\b", src[max(0, a - 60):b + 60].decode(errors="replace")))
            if "integer" in " ".join(texts):
                for mm in re.finditer(rb"let (?:mut )?([a-z_][a-z0-9_]*) = (\d[\d_]*);", src[:a]):
                    last = mm if mm.group(1).decode() in names else None
                    if last:
                        add(path, last.start(2), last.end(2), ty.group(1))
    for path, es in edits.items():
        src = open(path, "rb").read()
        for (a, b), ty in sorted(es.items(), reverse=True):
            lit = re.match(rb"[\d_]+", src[a:b]).group(0)
            src = src[:a] + b"::symrt::" + ty.encode() + b"::lit(" + lit + b")" + src[b:]
        write_if_changed(path, src)
    return bool(edits)


class BuildError(Exception):
    pass


def build(prop):
    """rewriter -> extraction of /repo/src -> contracts of this property; returns (binary, mode)"""
    r = sh(["cargo", "build", "-q", "--offline", "--locked", "--target-dir", BUILD + "/rw"], cwd=SYMX + "/rewriter")
    if r.returncode:
        raise BuildError("rewriter does not build:\n" + r.stderr[-4000:])
    def extract(hooks):
        tmp = BUILD + "/gen.tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        r = sh([BUILD + "/rw/debug/rewriter", REPO, tmp, SYMX + "/rt"] + (["hooks"] if hooks else []))
        if r.returncode:
            raise BuildError("extraction failed:\n" + r.stderr[-4000:])
        sync_tree(tmp, BUILD + "/gen")
        shutil.rmtree(tmp, ignore_errors=True)
        return r.stderr + r.stdout
    # the contracts crate refers to ../../.build/gen; with another build folder it is copied
    hdir = SYMX + "/harness"
    if BUILD != os.path.join(HERE, ".build"):
        hdir = BUILD + "/harness"
        sync_tree(SYMX + "/harness", hdir)
        t = open(hdir + "/Cargo.toml").read()
        t = t.replace("../../.build/gen", BUILD + "/gen").replace("../rt", SYMX + "/rt")
        write_if_changed(hdir + "/Cargo.toml", t.encode())
    log = ""
    for hooks in (True, False):
        extraction = extract(hooks)
        for mode in ("full", "public_only"):
            feats = prop.lower() + ("" if mode == "full" else ",public_only")
            r = sh(["cargo", "build", "-q", "--offline", "--features", feats, "--target-dir",
                    BUILD + "/h"], cwd=hdir)
            if r.returncode == 0:
                return BUILD + "/h/debug/harness", mode, log, extraction
            for _ in range(8):
                if "could not compile `libfranka-rs`" not in r.stderr or not type_literals(hdir, feats):
                    break
                r = sh(["cargo", "build", "-q", "--offline", "--features", feats, "--target-dir",
                        BUILD + "/h"], cwd=hdir)
                if r.returncode == 0:
                    return BUILD + "/h/debug/harness", mode, log, extraction
            log += "[%s%s] %s\n" % (mode, "" if hooks else ", no pictures", r.stderr[:2500])
            if hooks and "could not compile `libfranka-rs`" in r.stderr:
                break
    raise BuildError("extracted code and contracts do not build together:\n" + log)


def load_known():
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\w+) contract=(\S+) obligation=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def run_one(binary, name, budget, seed, tier):
    e = env()
    e["SYMX_TIER"] = tier
    def go(args, to):
        try:
            p = subprocess.run([binary] + args, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, timeout=to)
            if p.returncode == 0:
                return json.loads(p.stdout.strip().splitlines()[-1]), ""
            return None, "exit %s: %s" % (p.returncode, p.stderr[-1500:])
        except subprocess.TimeoutExpired:
            return None, "timeout"
        except (ValueError, IndexError) as x:
            return None, "no report: %s" % x
    r, err = go(["run", name, str(budget), str(seed)], budget * 2 + 60)
    if r is not None:
        r["error"] = ""
        return r
    # outside the generator's reach: bounded stand-in on concrete inputs
    r, err2 = go(["sample", name, str(min(budget, 60)), str(seed)], budget + 60)
    if r is None:
        return {"explore": None, "sample": None, "error": err + " / " + err2}
    r["error"] = err
    return r


def decide(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    info = json.load(open(os.path.join(HERE, "symx", "properties_info.json")))[prop]
    os.makedirs(EVID, exist_ok=True)
    binary, mode, blog, extraction = build(prop)
    t_build = time.time() - t0
    e = env()
    e["SYMX_TIER"] = tier
    lst = subprocess.run([binary, "list"], env=e, stdout=subprocess.PIPE, text=True, check=True).stdout
    hs = [l.split("\t") for l in lst.splitlines() if l.strip()]
    if not hs:
        raise BuildError("no contract of %s can be checked on this tree\n%s" % (prop, blog))
    budget = 120 if tier == "quick" else 1500
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        futs = [(h, ex.submit(run_one, binary, h[0], budget, seed, tier)) for h in hs]
        results = [(h, f.result()) for h, f in futs]

    known = [k for k in load_known() if k[0] == prop]
    tot = {"obligations": 0, "discharged": 0, "unknown": 0}
    contracts, violations, soft, errors, known_hit = [], [], [], [], []
    backends, solver_s, paths, samples = {}, 0.0, 0, 0
    certs = {}
    results.sort(key=lambda x: not x[0][0].startswith("induct_"))
    for h, r in results:
        name, about, bound = h[0], h[1], h[2]
        ex_, sa = r["explore"], r["sample"]
        c = {"contract": name, "functions": about.split(", "), "bound": bound, "note": r["error"]}
        fails = {}
        if name.startswith("induct_"):
            # a certificate; if it fails, the contracts it supports stay bounded
            ok = ex_ is not None and ex_["complete"] and ex_["covers"] and "hidden state: 0" in extraction
            for o in (ex_["obligations"].values() if ex_ is not None else ()):
                ok = ok and o["discharged"] == o["generated"] and not o["failures"]
                solver_s += o["solver_s"]
                for k, v in o["backends"].items():
                    backends[k] = backends.get(k, 0) + v
            if ex_ is not None:
                g = sum(o["generated"] for o in ex_["obligations"].values())
                d = sum(o["discharged"] for o in ex_["obligations"].values())
                c.update(cases=ex_["paths"], generated=g, discharged=d, wall_s=ex_["wall_s"])
                paths += ex_["paths"]
                solver_s += ex_["solver_s"]
                if ok:
                    tot["obligations"] += g
                    tot["discharged"] += d
            certs[name] = bool(ok)
            c["strength"] = "induction established" if ok else "induction not established"
            contracts.append(c)
            continue
        if ex_ is None and sa is None:
            errors.append("%s: %s" % (name, r["error"]))
            contracts.append(c)
            continue
        if ex_ is not None:
            g = sum(o["generated"] for o in ex_["obligations"].values())
            d = sum(o["discharged"] for o in ex_["obligations"].values())
            u = sum(o["unknown"] for o in ex_["obligations"].values())
            tot["obligations"] += g
            tot["discharged"] += d
            tot["unknown"] += u
            paths += ex_["paths"]
            solver_s += ex_["solver_s"] + sum(o["solver_s"] for o in ex_["obligations"].values())
            for o in ex_["obligations"].values():
                for k, v in o["backends"].items():
                    backends[k] = backends.get(k, 0) + v
            c.update(cases=ex_["paths"], complete=ex_["complete"], generated=g, discharged=d,
                     undecided=u, obligations={k: o["generated"] for k, o in ex_["obligations"].items()},
                     covers=ex_["covers"], undecided_branches=ex_["feas_unknown"], wall_s=ex_["wall_s"])
            for k, o in ex_["obligations"].items():
                for f in o["failures"]:
                    fails.setdefault(k, []).append(f)
            if bound and g == 0:
                # decided by the concrete runs alone
                if sa is None or not any(k.startswith("concrete:") for k in sa["covers"]):
                    errors.append("%s: no concrete run reached its obligations" % name)
            elif ex_["complete"] and not fails and (g == 0 or not ex_["covers"]):
                errors.append("%s: vacuous (%d obligations, covers %s)" % (name, g, ex_["covers"]))
        if sa is not None:
            samples += sa["samples"]
            c["concrete_runs"] = sa["samples"]
            for k, o in sa["obligations"].items():
                for f in o["failures"]:
                    fails.setdefault(k, []).append(f)
        by = [x for x in h[3].split(",") if x]
        lifted = bool(by) and all(certs.get(x) for x in by)
        if ex_ is None or not ex_["complete"] or c.get("undecided"):
            c["strength"] = "bounded"
        elif bound:
            c["strength"] = "all inputs; all iterations by induction (%s)" % ", ".join(by) if lifted else "bounded"
        elif by and not lifted:
            c["strength"] = "all inputs, in the enumerated cycles"
        else:
            c["strength"] = "all inputs" + ("; all cycles by induction (%s)" % ", ".join(by) if by else "")
        for k, fl in fails.items():
            kf = [x for x in known if x[1] == name and x[2] == k]
            if kf:
                known_hit.append(kf[0])
                continue
            rep = [f for f in fl if f["reproduced"]]
            (violations if rep else soft).append((name, k, (rep or fl)[0], about))
        contracts.append(c)

    rdir = os.path.join(EVID, "replays")
    lines = []
    if violations or soft:
        os.makedirs(rdir, exist_ok=True)
    for kind, lst_ in (("", violations), (" no-failing-input-found", [] if violations else soft)):
        for name, k, f, about in lst_[:3]:
            path = os.path.join(rdir, "%s_%s_%s.json" % (prop, name, re.sub(r"\W+", "_", k)))
            with open(path, "w") as fh:
                json.dump({"property": prop, "contract": name, "functions": about, "failed_obligation": k,
                           "reproduced_on_code": f["reproduced"], "note": f["note"], "values": f["values"],
                           "choices": f["choices"], "solver_output": f["model"],
                           "replay_cmd": "python3 check.py replay " + path}, fh, indent=1)
            lines.append("VIOLATION property=%s replay=%s%s" % (prop, path, kind))
            print("failed obligation: contract %s, %s: %s" % (name, k, f["note"]))
    for l in lines:
        print(l)
    for k in sorted(set(known_hit)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    nfail = len(violations) + len(soft)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": info["level"],
        "coverage": {
            "obligations": tot["obligations"], "discharged": tot["discharged"],
            "undecided": tot["unknown"],
            "checker_cmd": "python3 check.py %s %s" % (prop, tier),
            "trusted_base": TRUSTED + info.get("trusted", []),
            "backends": backends, "solver_s": round(solver_s, 3), "cases": paths,
            "functions_under_contract": sorted({f for c in contracts for f in c["functions"]}),
            "concrete_runs_bounded": samples,
            "contracts": contracts,
            "contract_set": mode,
            "extraction": extraction.strip().splitlines()[-20:],
            "explanation": info.get("explanation", ""),
        },
        "assumptions": ASSUMPTIONS + info.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": nfail,
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s %s: %d contracts, %d obligations, %d discharged, %d undecided, %d cases, %d concrete runs, build %.1fs, total %.1fs%s"
          % (prop, tier, len(contracts), tot["obligations"], tot["discharged"], tot["unknown"], paths,
             samples, t_build, time.time() - t0,
             "" if mode == "full" else " (public interface only)"))
    if nfail:
        return 1
    if errors:
        print("ERROR: " + "; ".join(errors))
        return 2
    if tot["obligations"] == 0 and samples == 0:
        print("ERROR: nothing was checked")
        return 2
    return 0


TRUSTED = [
    "rustc, and the back ends z3 4.8.12 / z3-new / cvc5 1.1.2 named per obligation",
    "symx/rewriter: mechanical extraction of /repo/src (f64, u64, u128, Duration -> terms; OS, socket, file and dynamic-loader crates -> recording stand-ins; #[cfg(test)] dropped; private items made public)",
    "symx/rt: case enumeration and SMT encoding (cross-checked on every run by concrete runs of the same contracts)",
    "symx/rt/env.rs: assumed contracts of mio, libc, libloading, std::fs, std::net",
    "nalgebra, serde, bincode: executed as they are, on terms",
]
ASSUMPTIONS = [
    "f64 arithmetic is treated as real arithmetic; contracts allow a rounding tolerance and restrict inputs to physically meaningful ranges (stated in the contract); NaN and infinities are covered where a contract injects them",
    "one thread; socket and file stand-ins behave as the documentation of the replaced crates says",
]


def do_replay(path):
    d = json.load(open(path))
    binary, _, _, _ = build(d["property"])
    f = path + ".in"
    with open(f, "w") as fh:
        for n, v in d["values"].items():
            fh.write("v\t%s\t%s\n" % (n, v))
        for l, v in d["choices"]:
            fh.write("c\t%s\t%s\n" % (l, v))
    e = env()
    e["SYMX_TIER"] = os.environ.get("VERIF_TIER", "quick")
    r = subprocess.run([binary, "replay", d["contract"], f], env=e)
    os.remove(f)
    return r.returncode


def main():
    a = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try:
            if a[0] == "replay":
                return do_replay(a[1])
            if a[0] == "build":
                print(build(a[1])[:2])
                return 0
            return decide(a[0], a[1])
        except (BuildError, subprocess.TimeoutExpired) as x:
            print("ERROR: %s" % x)
            return 2


if __name__ == "__main__":
    sys.exit(main())
