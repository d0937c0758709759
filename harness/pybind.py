"""P29: the Python classes do what the C++ classes do.

The problems are built by HyperHDG.include with the real tools (cython, g++) in scratch copies, with a transparent local
solver; generated histories of calls run in Python and, the same calls, in a C++ program. Results are compared bit by bit, plots byte by byte.
"""
import argparse, hashlib, json, os, random, shutil, subprocess, sys, traceback

NAMES = ["elliptic", "elliptic_file", "parabolic", "nonlinear_eigenvalue", "mass_approx_eigenvalue", "shifted_inverse_eigenvalue"]
CONF = [
 ("Elliptic", "Cubic<2,2>", "UnitCube<2,2,double>", "Cubic<2,2>", "BindingSolver<2,2,double>", ["vector[unsigned int]", "vector[unsigned int]"]),
 ("Elliptic", "File<1,2>", "File<1,2>", "File<1,2>", "BindingSolver<1,3,std::vector<double> >", ["string", "string", "double", "vector[double]"]),
 ("Parabolic", "Cubic<1,2>", "UnitCube<1,2,double>", "Cubic<1,2>", "BindingSolver<1,2,std::vector<double> >", ["vector[unsigned int]", "vector[unsigned int]", "", "vector[double]"]),
 ("NonlinearEigenvalue", "Cubic<2,2>", "UnitCube<2,2,double>", "Cubic<2,2>", "BindingSolver<2,1,double>", ["vector[unsigned int]", "vector[unsigned int]"]),
 ("MassApproxEigenvalue", "Cubic<1,2>", "UnitCube<1,2,double>", "Cubic<1,2>", "BindingSolver<1,2,double>", ["vector[unsigned int]", "vector[unsigned int]"]),
 ("ShiftedInverseEigenvalue", "Cubic<1,1>", "UnitCube<1,1,double>", "Cubic<1,1>", "BindingSolver<1,2,double>", ["vector[unsigned int]", "vector[unsigned int]"]),
]
OPS = [
 ["zero", "size", "flux", "res", "err", "refine", "getref", "popt", "plot", "rdir", "mat", "mat", "flux"],
 ["zero", "size", "flux", "res", "err", "refine", "getref", "popt", "plot", "rdir", "mat", "mat", "flux"],
 ["zero", "size", "flux", "res", "err", "init", "data", "data", "refine", "getref", "popt", "plot"],
 ["size", "flux", "init", "jac", "jac", "refine", "getref", "popt", "plot"],
 ["size", "flux", "mass", "mass", "dir", "refine", "getref", "popt", "plot"],
 ["size", "flux", "flux", "dir", "refine", "getref", "popt", "plot"],
]
NO_TIME = (0, 1)  # the elliptic class has no time argument in Python

def make_tree(root, repo, verif):
  os.makedirs(root)
  for d in ("include", "cython", "import"):
    shutil.copytree(repo + "/" + d, root + "/" + d, ignore=shutil.ignore_patterns("__pycache__"))
  shutil.copy(verif + "/harness/binding_solver.hxx", root + "/include/HyperHDG/local_solver/binding_solver.hxx")
  os.makedirs(root + "/stub"); os.makedirs(root + "/build")
  open(root + "/stub/fiber_network.py", "w").close()
  inc = subprocess.run([sys.executable, "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"], stdout=subprocess.PIPE, text=True).stdout.strip()
  with open(root + "/build/cmake_cython.cfg", "w") as f:
    f.write("""[compiler]
command  = g++
includes = -I%s -I%s -I%s/include -I%s/shim
flags    = -O1 -w -fPIC
standard = 20

[linker]
command = g++
flags   = -shared
libs    = -llapack -lblas

[cython]
command = cython3
flags   = -3 --cplus

[python]
ver_maj = %d
ver_min = %d
dir     = %s
""" % (inc, root, root, verif, sys.version_info.major, sys.version_info.minor, inc))

def load(root, k):
  """Builds (if necessary) and imports problem k."""
  sys.dont_write_bytecode = True
  sys.path.insert(0, root + "/stub"); sys.path.insert(0, root + "/import")
  os.chdir(root)
  import warnings; warnings.simplefilter("ignore")
  import HyperHDG
  c = HyperHDG.config()
  c.global_loop, c.topology, c.geometry, c.node_descriptor, c.local_solver, c.cython_replacements = CONF[k]
  return HyperHDG.include(c)

def build(root, k):
  nul = os.open(root + "/log", os.O_RDWR | os.O_CREAT)
  os.dup2(nul, 1); os.dup2(nul, 2)
  try:
    load(root, k)
    sys.stdout.flush()
    return 0
  except BaseException:
    traceback.print_exc()
    sys.stderr.flush()
    return 1

# ---- histories --------------------------------------------------------------------------------------------
def num(rnd):
  return rnd.choice([0., rnd.randrange(-32, 33) / 8., rnd.uniform(-2, 2)])

def vec(rnd, n):
  return [num(rnd) for _ in range(n)]

def geo_file(rnd, path):
  n = 3 + rnd.randrange(4)
  pts, seen = [], set()
  while len(pts) < n:
    p = (rnd.randrange(-8, 9) / 4., rnd.randrange(-8, 9) / 4.)
    if p not in seen:
      seen.add(p); pts.append(p)
  edges = {(i, rnd.randrange(i)) for i in range(1, n)}
  for _ in range(rnd.randrange(3)):
    a, b = rnd.sample(range(n), 2)
    if (b, a) not in edges: edges.add((a, b))
  edges = sorted(edges)
  with open(path, "w") as f:
    f.write("Space_Dim = 2;\nHyperEdge_Dim = 1;\nN_Points = %d;\nN_HyperNodes = %d;\nN_HyperEdges = %d;\n" % (n, n, len(edges)))
    f.write("POINTS:\n" + "".join("%r %r\n" % p for p in pts) + "HYPERNODES_OF_HYPEREDGES:\n" + "".join("%d %d\n" % e for e in edges))
    f.write("TYPES_OF_HYPERFACES:\n" + "".join("%d %d\n" % (rnd.randrange(3), rnd.randrange(3)) for e in edges))
    f.write("POINTS_OF_HYPEREDGES:\n" + "".join("%d %d\n" % e for e in edges))

def n_dofs(k, topo, ref, geo):
  """Size of the global system."""
  if k == 1:
    t = open(topo).read()
    nn = int(t.split("N_HyperNodes =")[1].split(";")[0]); ne = int(t.split("N_HyperEdges =")[1].split(";")[0])
    return (nn + ne * (ref - 1)) * 3
  m = [x * ref for x in topo]
  if k in (0, 3):
    return ((m[0] + 1) * m[1] + m[0] * (m[1] + 1)) * {0: 2, 3: 1}[k]
  if k in (2, 4):
    # nodes of the coarse grid plus the inner nodes of its edges
    a, b = topo
    return 2 * ((a + 1) * (b + 1) + (ref - 1) * (a * (b + 1) + (a + 1) * b))
  return (m[0] + 1) * 2

def gen(rnd, k, scratch, idx):
  """A history: [ctor, ops]; everything JSON-able."""
  if k == 1:
    topo = "%s/d%d.geo" % (scratch, idx)
    geo_file(rnd, topo)
  else:
    topo = [1 + rnd.randrange(3) for _ in range({0: 2, 3: 2, 2: 2, 4: 2, 5: 1}[k])]
  lsol = [num(rnd) for _ in range(rnd.randrange(4))] if k in (1, 2) else num(rnd)
  kind = rnd.choice(["t", "tl", "tl", "tgl"])
  if kind == "tgl" and k == 1: kind = "tl"  # a geometry from a file is made from the topology, not from a name
  ref, ops = 1, []
  for _ in range(3 + rnd.randrange(8)):
    op = rnd.choice(OPS[k])
    n = n_dofs(k, topo, ref, None)
    t = None if k in NO_TIME or rnd.random() < 0.3 else num(rnd)
    if op in ("zero", "size", "getref", "mat", "dir"): ops.append([op])
    elif op == "refine":
      ref = 1 + rnd.randrange(3)
      ops.append([op, ref])
    elif op == "popt": ops.append([op] + rnd.choice([["fileName", "abc"], ["fileName", "-"], ["printFileNumber", "0"], ["printFileNumber", "true"], ["incrementFileNumber", "false"], ["scale", "0.8"], ["n_subintervals", "2"],
                                                    ["plotEdgeBoundaries", "1"], ["plotEdges", "false"], ["fileNumber", "7"], ["boundaryScale", "0.9"], ["outputDir", "output"]]))
    elif op == "rdir": ops.append([op, [rnd.randrange(n) for _ in range(rnd.randrange(4))]])
    elif op == "jac": ops.append([op, vec(rnd, n), num(rnd), vec(rnd, n), num(rnd)])
    else: ops.append([op, t, vec(rnd, n)])
  return dict(module=k, kind=kind, topo=topo, geom=topo, lsol=lsol, ops=ops)

def hexv(v):
  return "%d %s" % (len(v), " ".join(float(x).hex() for x in v))

def to_text(h):
  def c(x):
    if isinstance(x, str): return x
    if isinstance(x, list): return "%d %s" % (len(x), " ".join(str(y) if isinstance(y, int) else float(y).hex() for y in x))
    return float(x).hex()
  s = ["%d %s %s" % (h["module"], h["kind"], c(h["topo"]))]
  if h["kind"] == "tgl": s.append(c(h["geom"]))
  if h["kind"] != "t": s.append(c(h["lsol"]))
  for o in h["ops"]:
    if len(o) == 1: s.append(o[0])
    elif o[0] == "refine": s.append("refine %d" % o[1])
    elif o[0] == "popt": s.append("popt %s %s" % (o[1], o[2]))
    elif o[0] == "rdir": s.append("rdir %d %s" % (len(o[1]), " ".join(map(str, o[1]))))
    elif o[0] == "jac": s.append("jac %s %s %s %s" % (hexv(o[1]), float(o[2]).hex(), hexv(o[3]), float(o[4]).hex()))
    else: s.append("%s %s %s" % (o[0], float(o[1] or 0.).hex(), hexv(o[2])))
  return "\n".join(s + ["end"]) + "\n"

def show(r):
  if isinstance(r, str): return "s " + r
  if isinstance(r, int): return "i %d" % r
  r = list(r)
  return r

def run_python(cls, h):
  """The same calls; returns lines of the form that the C++ program prints (as parsed lists)."""
  if h["kind"] == "t": p = cls(h["topo"])
  elif h["kind"] == "tl": p = cls(h["topo"], lsol_constr=h["lsol"])
  else: p = cls(h["topo"], h["geom"], h["lsol"])
  out = []
  F = dict(flux="trace_to_flux", mass="trace_to_mass_flux", res="residual_flux", init="make_initial", err="errors")
  for o in h["ops"]:
    if o[0] == "zero": out.append(["v"] + list(p.zero_vector()))
    elif o[0] == "size": out.append(["i", p.size_of_system()])
    elif o[0] == "getref": out.append(["i", p.refine()])
    elif o[0] == "refine":
      if p.refine(o[1]) != o[1]: out.append(["refine() does not return the refinement"])
      else: out.append(["ok"])
    elif o[0] == "popt": out.append(["s", p.plot_option(o[1], "" if o[2] == "-" else o[2])])
    elif o[0] == "rdir": p.read_dirichlet_indices(o[1]); out.append(["ok"])
    elif o[0] == "dir": out.append(["i"] + list(p.dirichlet_indices()))
    elif o[0] == "mat":
      c, r, v = p.sparse_stiff_mat()
      out += [["i"] + list(c), ["i"] + list(r), ["v"] + list(v)]
    elif o[0] == "jac": out.append(["v"] + list(p.jacobian_of_trace_to_flux(o[1], o[2], o[3], o[4])))
    elif o[0] in ("data", "plot"):
      f = p.set_data if o[0] == "data" else p.plot_solution
      f(o[2]) if o[1] is None else f(o[2], o[1])
      out.append(["ok"])
    else:
      f = getattr(p, F[o[0]])
      out.append(["v"] + list(f(o[2]) if o[1] is None else f(o[2], o[1])))
  return out

def parse(line):
  w = line.split(" ")
  if w[0] == "v": return ["v"] + [float.fromhex(x) for x in w[1:]]
  if w[0] == "i": return ["i"] + [int(x) for x in w[1:]]
  if w[0] == "s": return ["s", line[2:]]
  return [line]

def same(a, b):
  if len(a) != len(b): return False
  return all(x == y or (isinstance(x, float) and isinstance(y, float) and x != x and y != y) for x, y in zip(a, b))

def child(root, k, hs, base, q):
  """Runs histories of one module in Python; one process, objects die in between."""
  try:
    nul = os.open("/dev/null", os.O_RDWR)
    os.dup2(nul, 1); os.dup2(nul, 2)
    cls = load(root, k)
    with open(q, "w") as f:
      for i, h in hs:
        d = "%s/%d" % (base, i)
        os.makedirs(d + "/output"); os.chdir(d)
        try:
          r = run_python(cls, h)
        except BaseException as e:
          r = [["%s: %s" % (type(e).__name__, e)]]
        f.write(json.dumps([i, r]) + "\n"); f.flush()
    os._exit(0)
  except BaseException as e:
    with open(q, "a") as f: f.write(json.dumps([-1, repr(e)]) + "\n")
    os._exit(1)

def files(d):
  r = {}
  for x, _, fs in os.walk(d):
    for f in fs:
      with open(os.path.join(x, f), "rb") as g: r[os.path.relpath(os.path.join(x, f), d)] = g.read()
  return r

class Infra(Exception):
  pass

def compare(hs, roots, ref, scratch, tag):
  """Runs all histories; returns {index: message} of those that differ."""
  base = "%s/%s" % (scratch, tag)
  os.makedirs(base)
  with open(base + "/in", "w") as f:
    for h in hs: f.write(to_text(h))
  r = subprocess.run([ref, base + "/in", base + "/ref", base + "/results"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
  with open(base + "/results") as f: blocks = f.read().split("done\n")
  if r.returncode != 0 or len(blocks) != len(hs) + 1:
    raise Infra("the reference program ended with %d after %d histories: %s" % (r.returncode, len(blocks) - 1, r.stderr[-500:]))
  pids = []
  for k in range(6):
    mine = [(i, h) for i, h in enumerate(hs) if h["module"] == k]
    if not mine: continue
    q = "%s/py%d" % (base, k)
    pid = os.fork()
    if pid == 0: child(roots[k], k, mine, base + "/py", q)
    pids.append((pid, q, mine))
  bad = {}
  for pid, q, mine in pids:
    st = os.waitpid(pid, 0)[1]
    got = {}
    if os.path.isfile(q):
      for line in open(q):
        i, x = json.loads(line)
        got[i] = x
    for i, h in mine:
      if i not in got:
        bad[i] = "Python ended with status %d in this history (%s)" % (st, got.get(-1, ""))
        break
      want = [parse(l) for l in blocks[i].splitlines()]
      for j in range(max(len(want), len(got[i]))):
        a = want[j] if j < len(want) else ["nothing"]
        b = got[i][j] if j < len(got[i]) else ["nothing"]
        if not same(a, b):
          bad[i] = "result %d is %s in Python and %s in C++" % (j, str(b)[:300], str(a)[:300])
          break
      if i not in bad:
        a, b = files("%s/ref/%d" % (base, i)), files("%s/py/%d" % (base, i))
        if a != b: bad[i] = "plots differ: %s in C++, %s in Python" % (sorted(a), sorted(b))
  shutil.rmtree(base, ignore_errors=True)
  return bad

def main():
  ap = argparse.ArgumentParser()
  for o in ("tier", "seed", "out", "replay-out", "scratch", "replay", "scale"):
    ap.add_argument("--" + o)
  a = ap.parse_args()
  repo, verif = os.environ.get("VP_REPO", "/repo"), os.environ.get("VP_VERIF", "/verif")
  sc = os.path.join(a.scratch, "bind")
  os.makedirs(sc)
  roots = ["%s/m%d" % (sc, k) for k in range(6)]
  for r in roots: make_tree(r, repo, verif)
  ref = sc + "/ref"
  rp = subprocess.Popen(["g++", "-std=c++20", "-O1", "-w", "-DNDEBUG", "-I", roots[0] + "/include", "-I", verif + "/shim", verif + "/harness/pybind_ref.cxx", "-o", ref, "-llapack", "-lblas"],
                        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
  pids = []
  for k in range(6):
    pid = os.fork()
    if pid == 0: os._exit(build(roots[k], k))
    pids.append(pid)
  rc = [os.waitpid(p, 0)[1] for p in pids]
  log = rp.communicate()[0]
  if rp.returncode != 0:
    print("the reference does not compile\n" + log[-2000:])
    return 2
  viol = []
  for k in range(6):
    if rc[k] != 0:
      path = os.path.join(a.replay_out or sc, "build_%s.log" % NAMES[k])
      text = open(roots[k] + "/log").read()
      with open(path, "w") as f: f.write(text)
      viol.append(dict(family="binding_histories", replay=path, message="the Python class of %s cannot be built: %s" % (NAMES[k], text[-1200:])))
  hs, samples = [], []
  if a.replay:
    h = json.load(open(a.replay))["history"]
    if h.get("geo"):
      h["topo"] = h["geom"] = sc + "/replay.geo"
      open(h["topo"], "w").write(h["geo"])
    bad = compare([h], roots, ref, sc, "replay")
    print("REPRODUCED: " + bad[0] if bad else "not reproduced")
    return 1 if bad else 0
  n = int((900 if a.tier == "quick" else 30000) * float(a.scale or 1))
  ok = [k for k in range(6) if rc[k] == 0]
  for i in range(n):
    rnd = random.Random("%s-%d" % (a.seed, i))
    k = rnd.randrange(6)
    if k in ok: hs.append(gen(rnd, k, sc, i))
  try:
    bad = compare(hs, roots, ref, sc, "main")
    if bad:
      i = min(bad)
      h, msg = hs[i], bad[i]
      if all(compare([h], roots, ref, sc, "again%d" % j) for j in range(3)):
        progress, b = True, 0
        while progress:  # fewer calls
          progress = False
          for j in range(len(h["ops"])):
            c = dict(h, ops=h["ops"][:j] + h["ops"][j + 1:])
            if any(o[0] == "refine" for o in h["ops"][j:j + 1]): continue  # later lengths depend on it
            b += 1
            m = compare([c], roots, ref, sc, "shrink%d" % b)
            if m:
              h, msg, progress = c, m[0], True
              break
        if isinstance(h["topo"], str): h = dict(h, geo=open(h["topo"]).read())
        path = os.path.join(a.replay_out, "binding_histories.replay.json")
        json.dump(dict(family="binding_histories", message=msg, history=h), open(path, "w"), indent=1)
        viol.append(dict(family="binding_histories", replay=path, message="%s: %s | %s" % (NAMES[h["module"]], msg, json.dumps(h)[:700])))
      else:
        print("NOTE: history %d failed once and not again: %s" % (i, msg))
  except Infra as e:
    print(e)
    if not viol: return 2
  nontriv = {hashlib.sha1(to_text(h).encode()).hexdigest() for h in hs if len({o[0] for o in h["ops"]}) >= 3}
  rule = "at least three different kinds of calls"
  json.dump(dict(evaluations=len(hs), distinct_nontrivial=len(nontriv), discarded=0, violations=viol,
                 families=[dict(family="binding_histories", cases=len(hs), distinct_nontrivial=len(nontriv), rule=rule, labels={NAMES[k]: sum(h["module"] == k for h in hs) for k in range(6)})],
                 samples=["binding_histories: " + json.dumps(h)[:400] for h in hs[:3]]), open(a.out, "w"))
  return 1 if viol else 0

if __name__ == "__main__":
  sys.exit(main())
