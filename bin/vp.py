#!/usr/bin/env python3
"""Driver: builds the harness of one property against /repo's working tree, runs it, writes evidence.

usage: vp.py PROPERTY [--tier quick|thorough] [--replay FILE] [--only FAMILY] [--scale X]

exit 0  the property held on everything generated
exit 1  violation; prints "VIOLATION property=<id> replay=<path>"
exit 2  no answer (the harness itself could not be built or run)
"""
import argparse, concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "harness"))
from props import PROPS  # noqa: E402

BASE = ["-std=c++20", "-I", REPO + "/include", "-I", VERIF + "/lib", "-I", VERIF + "/shim", "-I", VERIF + "/harness",
        "-idirafter", REPO,  # reproducibles_python/parameters
        "-Wno-deprecated-declarations", "-w", "-fmax-errors=5"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
MODES = {  # name -> flags
  "debug": ["-O1", "-D_GLIBCXX_ASSERTIONS"],
  "asan": ["-O1"] + ASAN,
  "asan_ndebug": ["-O1", "-DNDEBUG"] + ASAN,
  "ndebug": ["-O2", "-DNDEBUG"],
  "opt": ["-O2"],
}

def run(cmd, **kw):
  return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def known_findings(prop):
  path = os.path.join(VERIF, "known_findings.json")
  if not os.path.isfile(path):
    return []
  with open(path) as f:
    data = json.load(f)
  return [e for e in data["findings"] if e["property"] == prop and e["status"] == "known"]

class Fail(Exception):
  def __init__(self, msg, log, in_repo):
    self.msg, self.log, self.in_repo = msg, log, in_repo

class Builder:
  """Compiles all programs of a check at once (8 compilers at a time); equal objects are compiled once."""
  def __init__(self, scratch):
    self.scratch, self.ex, self.objs = scratch, concurrent.futures.ThreadPoolExecutor(8), {}

  def add(self, variant):
    flags = BASE + MODES[variant["mode"]] + list(variant.get("flags", ()))
    out = []
    for s in [os.path.join(VERIF, "lib", "main.cxx")] + [os.path.join(VERIF, "harness", u) for u in variant["units"]]:
      key = (s, variant["mode"]) + (tuple(variant.get("flags", ())) if "/lib/" not in s else ())
      if key not in self.objs:
        o = os.path.join(self.scratch, "%d.o" % len(self.objs))
        self.objs[key] = (s, o, self.ex.submit(run, ["g++"] + flags + ["-c", s, "-o", o]))
      out.append(self.objs[key])
    variant["build"] = (flags, out)

  def link(self, variant):
    flags, objs = variant["build"]
    for s, _, j in objs:
      r = j.result()
      if r.returncode != 0:
        errs = [l for l in r.stdout.splitlines() if re.search(r": (fatal )?error:", l)]
        in_repo = bool(errs) and all(os.path.realpath(l.split(":")[0]).startswith(os.path.realpath(REPO) + "/") for l in errs)
        raise Fail("harness unit %s does not compile" % os.path.basename(s), r.stdout, in_repo)
    exe = os.path.join(self.scratch, "run_" + variant["name"])
    r = run(["g++"] + flags + [o for _, o, _ in objs] + ["-o", exe, "-llapack", "-lblas"])
    if r.returncode != 0:
      raise Fail("harness does not link", r.stdout, False)
    return exe

def env():
  e = dict(os.environ)
  e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
  e["UBSAN_OPTIONS"] = "print_stacktrace=0:abort_on_error=1"
  e["OMP_NUM_THREADS"] = e["OPENBLAS_NUM_THREADS"] = "1"
  e["LC_ALL"] = "C.UTF-8"
  return e

def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("prop")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
  ap.add_argument("--replay")
  ap.add_argument("--only")
  ap.add_argument("--scale", type=float, default=1.0)
  ap.add_argument("--keep", action="store_true")
  a = ap.parse_args()
  spec = PROPS[a.prop]
  seed = int(os.environ.get("VERIF_SEED", "1"))
  t0 = time.time()
  evdir = os.path.join(VERIF, "evidence")
  rdir = os.path.join(evdir, "replay", a.prop)
  shutil.rmtree(rdir, ignore_errors=True) if not a.replay else None
  os.makedirs(rdir, exist_ok=True)
  scratch = tempfile.mkdtemp(prefix="vp_%s_" % a.prop)
  violations, fams, samples, evals, nontriv, discarded, infra = [], [], [], 0, 0, 0, None
  rules, known_lines = [], []
  known = known_findings(a.prop)
  try:
    builder = Builder(scratch)
    variants = [v for v in spec["variants"] if a.tier in v.get("tiers", ["quick", "thorough"])]
    if a.replay:
      rp = json.load(open(a.replay))
      variants = [v for v in spec["variants"] if rp.get("variant", v["name"]) == v["name"]][:1]
    for variant in variants:
      if variant.get("kind") != "python":
        builder.add(variant)
    for variant in variants:
      name = variant["name"]
      if variant.get("kind") == "python":
        out = os.path.join(scratch, name + ".json")
        cmd = [variant.get("python", "python3-vt"), os.path.join(VERIF, "harness", variant["script"]), "--tier", a.tier,
               "--seed", str(seed), "--out", out, "--replay-out", rdir, "--scratch", scratch]
        if a.replay:
          cmd += ["--replay", a.replay]
        r = run(cmd, env=dict(env(), VP_REPO=REPO, VP_VERIF=VERIF))
      else:
        try:
          exe = builder.link(variant)
        except Fail as e:
          log = os.path.join(rdir, name + ".compile.log")
          with open(log, "w") as f:
            f.write(e.log)
          sys.stderr.write(e.msg + "\n" + e.log[:900] + "\n")
          if e.in_repo:
            # The library's own code is ill-formed for an instantiation the property covers.
            violations.append({"family": name, "replay": log, "message": e.msg + " (errors inside the library)"})
            continue
          infra = e.msg
          break
        out = os.path.join(scratch, name + ".json")
        sc = os.path.join(scratch, "sc_" + name)
        os.makedirs(sc)
        cmd = [exe, "--tier", a.tier, "--seed", str(seed), "--out", out, "--replay-out", rdir, "--scratch", sc,
               "--scale", str(a.scale * variant.get("scale", 1.0))]
        if a.only:
          cmd += ["--only", a.only]
        if a.replay:
          cmd += ["--replay", a.replay]
        if os.environ.get("VP_FIRST"):  # mutation analysis: any violation will do
          cmd += ["--first-only", "1"]
        for k in known:
          cmd += ["--known", k["key"]]
        r = run(cmd, env=env())
      if a.replay:
        print(r.stdout.strip())
        if r.returncode == 1:
          print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
        return r.returncode
      if r.returncode not in (0, 1) or not os.path.isfile(out):
        sys.stderr.write(r.stdout[-4000:] + "\n")
        infra = "program of variant %s ended with status %d" % (name, r.returncode)
        break
      if r.stdout.strip():
        sys.stderr.write(r.stdout[-6000:] + "\n")
      d = json.load(open(out))
      evals += d["evaluations"]
      nontriv += d["distinct_nontrivial"]
      discarded += d.get("discarded", 0)
      for f in d["families"]:
        f["variant"] = name
        fams.append(f)
        if f["rule"] not in rules:
          rules.append(f["rule"])
      samples += d["samples"]
      known_lines += d.get("known", [])
      for v in d["violations"]:
        p = v["replay"]
        try:  # remember which variant reproduces it
          j = json.load(open(p))
          j["variant"] = name
          q = os.path.join(rdir, name + "-" + os.path.basename(p))
          json.dump(j, open(q, "w"), indent=1)
          os.unlink(p)
          v["replay"] = q
        except Exception:
          pass
        violations.append(v)
      if violations and os.environ.get("VP_FIRST"):
        break
  finally:
    builder.ex.shutdown(wait=True, cancel_futures=True)
    if not a.keep:
      shutil.rmtree(scratch, ignore_errors=True)
  wall = time.time() - t0
  if infra and not violations:
    sys.stderr.write("NO ANSWER: %s\n" % infra)
    return 2
  # keep a handful of samples per family
  keep, seen = [], {}
  for s in samples:
    k = s.split(":")[0]
    seen[k] = seen.get(k, 0) + 1
    if seen[k] <= 2:
      keep.append(s[:500])
  ev = {"property": a.prop, "tier": a.tier, "seed": seed, "level": spec["level"],
        "coverage": {"evaluations": evals, "distinct_nontrivial": nontriv,
                     "rule": " | ".join(rules)[:4000], "samples": keep[:60],
                     "discarded": discarded, "families": fams},
        "wall_s": round(wall, 2), "violations": [{"replay": v["replay"], "message": v["message"][:1000]} for v in violations]}
  with open(os.path.join(evdir, a.prop + ".json"), "w") as f:
    json.dump(ev, f, indent=1)
  for k in known:
    print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
  for v in violations:
    sys.stderr.write("%s: %s\n" % (v["family"], v["message"][:1500]))
  if violations:
    print("VIOLATION property=%s replay=%s" % (a.prop, violations[0]["replay"]))
    return 1
  print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (a.prop, a.tier, seed, evals, nontriv, wall))
  return 0

if __name__ == "__main__":
  sys.exit(main())
