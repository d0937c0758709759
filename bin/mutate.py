#!/usr/bin/env python3
"""Mutation analysis of the checks (a development tool; no check uses it).

usage: mutate.py HEADER(relative to /repo/include/HyperHDG) P21[,P26] [-n COUNT] [-s SEED] [-j JOBS] [-x REGEX lines to take]

Makes COUNT random one-token changes of the header in scratch copies and runs the quick checks of the given
properties on them. Prints the mutants that survive.
"""
import argparse, concurrent.futures, os, random, re, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def code_mask(src):
  """True where a character is code (not comment, string, preprocessor, assertion)."""
  m = [True] * len(src)
  for pat in (r"/\*.*?\*/", r"//[^\n]*", r"\"(\\.|[^\"\\\n])*\"", r"^[ \t]*#[^\n]*(\\\n[^\n]*)*",
              r"\b(hy_assert|static_assert)\s*\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)\s*;", r"template\s*<[^;{]*?>\s*(?=\n)", r"(typedef|using|tpp::|TPP::)[^;(]*[;(]"):
    for x in re.finditer(pat, src, re.S | re.M):
      for i in range(x.start(), x.end()):
        m[i] = False
  return m

OPS = [
 (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / ", " + "]), (r" / ", [" * "]), (r" % ", [" / "]),
 (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r" \*= ", [" /= ", " = "]), (r" /= ", [" *= "]),
 (r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
 (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
 (r"(?<![\w.])0\.?(?![\w.])", ["1"]), (r"(?<![\w.])1\.?(?![\w.])", ["2", "0"]), (r"(?<![\w.])2\.?(?![\w.])", ["1", "3"]),
 (r"\btime\b(?=[,)])", ["0."]), (r"(?<=[=(,] )-(?=[\w(])", [""]), (r"(?<=\()-(?=[\w(])", [""]), (r"\bhyEdge_dimT\b", ["space_dim"]), 
 (r"\bi\b", ["j"]), (r"\bj\b", ["i"]), (r"\bk\b", ["j"]), (r"\bface\b(?=[,)\]])", ["0"]),
 (r"\bif \(", ["if (!"]),
]
STMT = re.compile(r"^[ \t]+[\w\[\]().>*&+-][^;{}\n]*(?:\n[^;{}\n]*){0,3};[ \t]*$", re.M)
CALL = re.compile(r"\(([\w.\[\]]+), ([\w.\[\]]+)\)")

def mutants(src):
  mask = code_mask(src)
  out = []
  for pat, reps in OPS:
    for x in re.finditer(pat, src):
      if all(mask[x.start():x.end()]):
        for r in reps:
          out.append((x.start(), x.end(), r if not r.startswith("if (!") else None))
  for x in STMT.finditer(src):
    t = x.group(0).strip()
    if all(mask[x.start():x.end()]) and not re.match(r"(return|typedef|using|const |static|constexpr|auto |unsigned|SmallVec|SmallMat|std::|template|public|break|friend|double|lSol|hyE|point_index|param)", t) and ("=" in t or "(" in t):
      out.append((x.start(), x.end(), ";"))
  for x in CALL.finditer(src):
    if all(mask[x.start():x.end()]) and x.group(1) != x.group(2):
      out.append((x.start(), x.end(), "(%s, %s)" % (x.group(2), x.group(1))))
  return [m for m in out if m[2] is not None]

def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("header"); ap.add_argument("props"); ap.add_argument("-n", type=int, default=10)
  ap.add_argument("-s", type=int, default=1); ap.add_argument("-j", type=int, default=2); ap.add_argument("--scale", default="1")
  ap.add_argument("-l", help="line range a-b"); ap.add_argument("--list", action="store_true")
  a = ap.parse_args()
  path = "/repo/include/HyperHDG/" + a.header
  src = open(path).read()
  ms = mutants(src)
  if a.l:
    lo, hi = map(int, a.l.split("-"))
    ms = [m for m in ms if lo <= src.count("\n", 0, m[0]) + 1 <= hi]
  rnd = random.Random(a.s)
  rnd.shuffle(ms)
  # at most one mutant per line
  seen, pick = set(), []
  for m in ms:
    ln = src.count("\n", 0, m[0])
    if ln not in seen:
      seen.add(ln); pick.append(m)
  def show(m):
    ln = src.count("\n", 0, m[0])
    b = src.rfind("\n", 0, m[0]) + 1
    e = src.find("\n", m[1]); e = len(src) if e < 0 else e
    return "%s:%d: %s  ==>  %s" % (a.header, ln + 1, " ".join(src[b:e].split()), " ".join((src[b:m[0]] + m[2] + src[m[1]:e]).split()))
  if a.list:
    for m in pick: print(show(m))
    return
  work = tempfile.mkdtemp(prefix="mut_")
  try:
    shutil.copytree(VERIF, work + "/verif", ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
    def go(k, m):
      d = "%s/r%d" % (work, k)
      os.makedirs(d)
      shutil.copytree("/repo/include", d + "/include")
      if os.path.isdir("/repo/import"): shutil.copytree("/repo/import", d + "/import")
      with open(d + "/include/HyperHDG/" + a.header, "w") as f:
        f.write(src[:m[0]] + m[2] + src[m[1]:])
      # one verification copy per mutant: evidence and replay folders are its own
      v = "%s/v%d" % (work, k)
      shutil.copytree(work + "/verif", v)
      res = "SURVIVED"
      for p in a.props.split(","):
        r = subprocess.run(["python3", v + "/bin/vp.py", p, "--tier", "quick", "--scale", a.scale], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", env=dict(os.environ, VP_REPO=d, VP_FIRST="1"))
        if "does not compile" in r.stdout: res = "uncompilable"; break
        if r.returncode == 1: res = "killed by " + p; break
        if r.returncode != 0: res = "NO ANSWER from %s: %s" % (p, r.stdout[-300:].replace("\n", " | ")); break
      shutil.rmtree(d, ignore_errors=True); shutil.rmtree(v, ignore_errors=True)
      return res
    count = dict(killed=0, survived=0, uncompilable=0)
    it, k, running = iter(pick), 0, {}
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
      while True:
        while len(running) < a.j and count["killed"] + count["survived"] + len(running) < a.n:
          m = next(it, None)
          if m is None: break
          running[ex.submit(go, k, m)] = m; k += 1
        if not running: break
        done, _ = concurrent.futures.wait(running, return_when=concurrent.futures.FIRST_COMPLETED)
        for f in done:
          m, r = running.pop(f), f.result()
          if r == "uncompilable": count["uncompilable"] += 1; continue
          if r.startswith("killed"): count["killed"] += 1
          else:
            count["survived"] += 1
            print(r, show(m), flush=True)
    print("== %s %s: %s" % (a.header, a.props, count), flush=True)
  finally:
    shutil.rmtree(work, ignore_errors=True)
main()
