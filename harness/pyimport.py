"""P28: HyperHDG.include(config) returns the problem that was asked for, built from the current sources.

Histories of imports and edits run in a scratch copy of the Python layer, its templates and the headers. The
three tools that the layer calls (cython, compiler, linker) are stand-ins that record what they were given: a
"compiled" module is the text of its sources with all includes expanded, plus the options. An import hook turns such
a module into a Python class that carries the text. Time stamps come from a logical clock.
Oracles: (1) a model of what has to be in the module, from the configuration and the templates alone;
(2) the same import into an empty build folder; (3) nothing is built again if nothing changed.
"""
import argparse, hashlib, json, os, random, re, shutil, subprocess, sys, traceback

TOOL = r'''
import os, re, sys
root = %(root)r
args = sys.argv[2:]
def log(line):
  with open(root + "/tool.log", "a") as f: f.write(line + "\n")
def tick(path):
  with open(root + "/clock") as f: t = int(f.read())
  os.utime(path, (t, t))
if sys.argv[1] == "cython":
  pyx = [a for a in args if a.endswith(".pyx")][0]
  pxd = pyx[:-4] + ".pxd"
  with open(pyx) as f: a = f.read()
  with open(pxd) as f: b = f.read()
  with open(pyx[:-4] + ".cpp", "w") as f: f.write("@@PYX\n" + a + "\n@@PXD\n" + b)
elif sys.argv[1] == "cc":
  src = [a for a in args if a.endswith(".cpp")][0]
  out = args[args.index("-o") + 1]
  with open(src) as f: text = f.read()
  inc = [a[2:] for a in args if a.startswith("-I")]
  done, res = [], []
  def expand(name):
    for d in [""] if name.startswith("/") else inc:
      p = os.path.realpath(os.path.join(d, name))
      if os.path.isfile(p):
        if p in done: return
        done.append(p)
        with open(p) as f: t = f.read()
        for m in re.finditer(r'^\s*#include [<"]((?:HyperHDG|extra)/[^>"]*)[>"]', t, re.M): expand(m.group(1))
        res.append("@@FILE " + os.path.relpath(p, root) + "\n" + t)
        return
    print("fatal error: no such file", name); sys.exit(1)
  for m in re.finditer(r'extern from "<([^>"]*)>"', text): expand(m.group(1))
  opts = sorted(a for a in args if a.startswith("-D") or a.startswith("--std") or a.startswith("-O") or a.startswith("-x"))
  with open(out, "w") as f: f.write("@@OPTIONS " + " ".join(opts) + "\n" + text + "\n" + "\n".join(res))
elif sys.argv[1] == "ld":
  out = args[args.index("-o") + 1]
  src = [a for a in args if a.endswith(".o") and a != out][0]
  with open(src) as f: t = f.read()
  if os.path.exists(out): os.unlink(out)
  with open(out, "w") as f: f.write(t + "\n@@LINKED " + " ".join(a for a in args if a.startswith("-l")))
  tick(out)
  log("built " + os.path.basename(out))
'''

SNIPPET = r'''
import sys
sys.dont_write_bytecode = True
import os, json, importlib.util, importlib.abc, re, io, contextlib, traceback, types
root = %(root)r
sys.path.insert(0, root + "/stub")
sys.path.insert(0, root + "/import")
class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
  def find_spec(self, name, path, target=None):
    p = root + "/build/shared_objects/" + name + ".so"
    if os.path.isfile(p): return importlib.util.spec_from_loader(name, self)
    return None
  def create_module(self, spec): return None
  def exec_module(self, mod):
    with open(root + "/build/shared_objects/" + mod.__name__ + ".so") as f: text = f.read()
    for m in re.finditer(r"^cdef class (\w+) *:", text, re.M): setattr(mod, m.group(1), type(m.group(1), (), {"built_from": text}))
sys.meta_path.insert(0, Finder())
import warnings; warnings.simplefilter("ignore")
'''

LOOPS = ["Elliptic", "Parabolic", "NonlinearEigenvalue", "MassApproxEigenvalue", "ShiftedInverseEigenvalue"]
FILES = dict(Elliptic="elliptic", Parabolic="parabolic", NonlinearEigenvalue="nonlinear_eigenvalue",
             MassApproxEigenvalue="mass_approx_eigenvalue", ShiftedInverseEigenvalue="shifted_inverse_eigenvalue")

class Violation(Exception):
  pass

class Tree:
  def __init__(self, root, repo):
    self.root = root
    os.makedirs(root)
    for d in ("include", "cython", "import"):
      shutil.copytree(repo + "/" + d, root + "/" + d, ignore=shutil.ignore_patterns("__pycache__"))
    for d in ("stub", "extra", "py", "build"):
      os.makedirs(root + "/" + d)
    self.write("stub/fiber_network.py", "")
    self.write("py/Python.h", "")
    self.write("tool.py", TOOL % dict(root=root))
    # class names of the library, taken from its headers
    self.defs = {}
    for folder in ("topology", "geometry", "node_descriptor", "local_solver", "global_loop"):
      for f in sorted(os.listdir(root + "/include/HyperHDG/" + folder)):
        with open(root + "/include/HyperHDG/%s/%s" % (folder, f)) as h:
          for m in re.finditer(r"^class (\w+)\n\{", h.read(), re.M):
            self.defs[(folder, m.group(1))] = "include/HyperHDG/%s/%s" % (folder, f)
    # solvers that a user adds
    self.add_solver("UserClass", "class", "user_class.hxx")
    self.add_solver("UserStruct", "struct", "user_struct.hxx")
    self.add_solver("UserClassMore", "class", "a_user_class_more.hxx")
    self.add_solver("Userclass", "class", "b_userclass.hxx")
    for k in range(3):
      self.write("extra/par%d.hxx" % k, "#pragma once\n#include <HyperHDG/dense_la.hxx>\nstruct Par { static constexpr int k = %d; };\n" % k)
    self.write("extra/more.hxx", "#pragma once\n#include <vector>\n#include <extra/par2.hxx>\nstruct More { };\n")
    self.edited = {}
    self.pristine = root + ".pristine"

  def add_solver(self, name, kind, f):
    self.write("include/HyperHDG/local_solver/" + f,
               "#pragma once\n#include <HyperHDG/hypercube.hxx>\nnamespace LocalSolver\n{\ntemplate <int d, int p>\n%s %s\n{\n public:\n};\n}\n" % (kind, name))
    self.defs[("local_solver", name)] = "include/HyperHDG/local_solver/" + f

  def write(self, rel, text):
    with open(self.root + "/" + rel, "w") as f:
      f.write(text)

  def read(self, rel):
    with open(self.root + "/" + rel) as f:
      return f.read()

  def stamp(self, t=None):
    """Sets the clock; without a time everything gets the time of the beginning."""
    if t is None:
      self.t = 4000000000  # later than the times of files that the layer writes itself
      for d, ds, fs in os.walk(self.root):
        for x in fs + ds + ["."]:
          os.utime(os.path.join(d, x), (self.t, self.t))
    else:
      self.t = t
    self.write("clock", str(self.t))

  def tick(self):
    self.stamp(self.t + 10)

  def fresh_build(self):
    shutil.rmtree(self.root + "/build", ignore_errors=True)
    os.makedirs(self.root + "/build")
    self.config()

  def config(self, flag="-O3"):
    tool = "%s -I -S %s/tool.py " % (sys.executable, self.root)
    self.write("build/cmake_cython.cfg", """[compiler]
command  = %scc
includes = -I%s/py -I%s -I%s/include
flags    = %s -fPIC
standard = 20

[linker]
command = %sld
flags   = -shared
libs    = -llapack

[cython]
command = %scython
flags   = -3 --cplus

[python]
ver_maj = %d
ver_min = %d
dir     = %s/py
""" % (tool, self.root, self.root, self.root, flag, tool, tool, sys.version_info.major, sys.version_info.minor, self.root))
    os.utime(self.root + "/build/cmake_cython.cfg", (self.t, self.t))

def conf_fields(c):
  return {k: c[k] for k in ("global_loop", "local_solver", "topology", "geometry", "node_descriptor", "debug_mode")}

def session(tree, steps):
  """One Python process in which some problems are imported one after another. Returns the built texts (or errors)."""
  # a forked child: the layer's modules are loaded from the scratch tree only there
  r, w = os.pipe()
  pid = os.fork()
  if pid == 0:
    code = 1
    try:
      os.close(r)
      nul = os.open("/dev/null", os.O_RDWR)
      os.dup2(nul, 1); os.dup2(nul, 2)
      os.chdir(tree.root)
      g = {}
      exec(SNIPPET % dict(root=tree.root), g)
      import HyperHDG
      out, objects = [], {}
      for c in steps:
        try:
          if c["object"] is not None and c["object"] in objects:
            conf = objects[c["object"]]
          else:
            conf = HyperHDG.config()
            if c["object"] is not None: objects[c["object"]] = conf
          for k, v in conf_fields(c).items(): setattr(conf, k, v)
          reuse = c["object"] is not None
          if c["replacements"] is not None: conf.cython_replacements = list(c["replacements"])
          if c["include_files"] is not None: conf.include_files = list(c["include_files"])
          if c["cpp_code"] is not None: conf.cpp_code = c["cpp_code"]
          cls = HyperHDG.include(conf)
          out.append(("ok", cls.built_from))
        except BaseException as e:
          out.append(("error", "%s: %s | %s" % (type(e).__name__, e, traceback.format_exc()[-700:])))
      with os.fdopen(w, "w") as f: f.write(json.dumps(out))
      code = 0
    except BaseException:
      with os.fdopen(w, "w") as f: f.write(json.dumps([("error", traceback.format_exc()[-1500:])]))
      code = 0
    finally:
      os._exit(code)
  os.close(w)
  with os.fdopen(r) as f:
    text = f.read()
  os.waitpid(pid, 0)
  return json.loads(text)

def squash(s):
  return " ".join(s.split())

def sections(text):
  opts = re.match(r"@@OPTIONS (.*)\n", text).group(1).split()
  pyx = text[text.index("@@PYX\n") + 6:text.index("\n@@PXD\n")]
  rest = text[text.index("\n@@PXD\n") + 7:]
  parts = re.split(r"^@@FILE (.*)\n", rest.split("\n@@LINKED")[0], flags=re.M)
  return opts, pyx, parts[0], dict(zip(parts[1::2], parts[2::2]))

def check_model(tree, c, text):
  """What must be in the module, from the configuration and the current files alone."""
  opts, pyx, pxd, files = sections(text)
  if ("-DNDEBUG" in opts) == c["debug_mode"]:
    raise Violation("debug_mode=%s is compiled with options %s" % (c["debug_mode"], opts))
  base = "cython/" + FILES[c["global_loop"]]
  py = re.search(r"^cdef class (\w+) *:", pyx, re.M)
  cy = re.search(r"cdef cppclass (\w+) +\"GlobalLoop", pxd)
  if not py or not cy:
    raise Violation("no class in the generated files: " + pyx[:200] + pxd[:400])
  py, cy = py.group(1), cy.group(1)
  cpp = "GlobalLoop::%s<Topology::%s,Geometry::%s,NodeDescriptor::%s,LocalSolver::%s>" % tuple(
    c[k] for k in ("global_loop", "topology", "geometry", "node_descriptor", "local_solver"))
  default = dict(re.findall(r"^replacement(\d\d)\s*=\s*(.*?)\s*$", tree.read(base + ".cfg"), re.M))
  n = int(re.search(r"n_replacements\s*=\s*(\d+)", tree.read(base + ".cfg")).group(1))
  rep = {}
  for k in range(1, n + 1):
    given = c["replacements"] or []
    rep["CyReplace%02d" % k] = given[k - 1] if k <= len(given) and given[k - 1] != "" else default["%02d" % k]
  for name, got in (("pyx", pyx), ("pxd", pxd)):
    want = tree.read(base + "." + name)
    for k, v in rep.items():
      want = want.replace(k, v)
    want = want.replace("C++ClassName", '"@CPP"').replace("CythonClassName", cy).replace("PythonClassName", py)
    if name == "pxd":
      m = re.search(r'cppclass \w+ +"(GlobalLoop[^"]*)"', got)
      if re.sub(r"\s", "", m.group(1)) != re.sub(r"\s", "", cpp):
        raise Violation("C++ class is %s, should be %s" % (m.group(1), cpp))
      got = got.replace(m.group(1), "@CPP")
      # the included files are compared as a set
      inc = re.findall(r'^cdef extern from "<([^>]*)>": pass$', got, re.M)
      got = re.sub(r'^cdef extern from "<([^>]*)>": pass$', "", got, flags=re.M)
      want = want.replace("IncludeFiles", "")
      real = set()
      own = 0
      for i in inc:
        p = i if i.startswith("/") else (tree.root + "/include/" + i if os.path.isfile(tree.root + "/include/" + i) else tree.root + "/" + i)
        p = os.path.relpath(os.path.realpath(p), os.path.realpath(tree.root))
        if p.startswith("build/"):
          own += 1
          if not c["cpp_code"] or files.get(p, "").strip() != c["cpp_code"].strip():
            raise Violation("own code is %r, should be %r" % (files.get(p), c["cpp_code"]))
        else:
          real.add(p)
      if own != (1 if c["cpp_code"] else 0):
        raise Violation("own code is included %d times" % own)
      should = set(x if x.startswith("extra") else "include/" + x for x in c["include_files"] or [])
      for folder in ("topology", "geometry", "node_descriptor", "local_solver", "global_loop"):
        should.add(tree.defs[(folder, re.split(r"[< ]", c[folder])[0])])
      if real != should:
        raise Violation("included files: missing %s, superfluous %s" % (sorted(should - real), sorted(real - should)))
    if squash(got) != squash(want):
      raise Violation("generated .%s differs from the template: %s" % (name, squash(got)[:600]))
  for p, t in files.items():
    if not p.startswith("build/") and t.strip() != tree.read(p).strip():
      raise Violation("%s was compiled in an earlier version" % p)

# ---- generation --------------------------------------------------------------------------------------------
def gen_conf(rnd, tree, pool):
  if pool and rnd.random() < 0.65:  # a variation of an earlier one
    c = dict(rnd.choice(pool))
    c["object"] = None
  else:
    d = rnd.choice([1, 2])
    loop = rnd.choice(LOOPS)
    c = dict(object=None, global_loop=loop, topology="Cubic<%d,%d>" % (d, 2), geometry="UnitCube<%d,%d,double>" % (d, 2), node_descriptor="Cubic<%d,%d>" % (d, 2),
             local_solver=rnd.choice(["Diffusion<%d,1,2,Par,double>", "DiffusionParab<%d,1,2>", "UserClass<%d,1>", "UserStruct<%d,1>", "UserClassMore <%d, 1>"]) % d,
             debug_mode=rnd.random() < 0.3, replacements=["vector[unsigned int]", "vector[unsigned int]"], include_files=None, cpp_code=None)
  for _ in range(rnd.randrange(3)):
    k = rnd.choice([0, 1, 2, 2, 3, 3, 3, 4, 5, 6, 7, 8, 9, 10])
    if k == 0: c["debug_mode"] = not c["debug_mode"]
    elif k == 1: c["replacements"] = rnd.choice([["string", "string"], ["vector[unsigned int]", "vector[unsigned int]"], ["vector[unsigned int]", "string", "", "vector[double]"],
                                                 ["string", "string", "float"], ["string", "string", "float", "float"]])
    elif k == 2: c["include_files"] = rnd.choice([None, [], ["extra/par0.hxx"], ["extra/par1.hxx"], ["extra/par1.hxx", "extra/par0.hxx"], ["extra/par0.hxx", "extra/par1.hxx"], ["extra/more.hxx"], ["HyperHDG/sparse_la.hxx"]])
    elif k == 3: c["cpp_code"] = rnd.choice([None, "", "struct Own { };\n", "struct own { };\n", "struct Own { int a; };\n", "#include <extra/more.hxx>\n", "#include <HyperHDG/sparse_la.hxx>\nstruct Own { };\n", "#include <HyperHDG/epsilon_neighborhood_graph.hxx>\n"])
    elif k == 4: c["local_solver"] = rnd.choice(["Diffusion<1,1,2,Par,double>", "Diffusion<2,1,2,Par,double>", "Diffusion<1,2,2,Par,double>", "DiffusionIP<1,1,2>", "UserClass<1,1>", "UserClass<1,11>", "UserStruct<1,1>", "Bilaplacian<1,1,2>", "Userclass<1,1>", "Diffusion<1,1,2,par,double>"])
    elif k == 5: c["global_loop"] = rnd.choice(LOOPS)
    elif k == 6: c["topology"] = rnd.choice(["Cubic<1,2>", "File<1,2>", "Cubic<1,3>", "File<12>"])
    elif k == 7: c["geometry"] = rnd.choice(["UnitCube<1,2,double>", "UnitCube<1,2>", "File<1,2>", "UnitCube<1,2,float>"])
    elif k == 8: c["node_descriptor"] = rnd.choice(["Cubic<1,2>", "File<1,2>", "Cubic<1,1>"])
    elif k == 9: c["topology"] = c["topology"].replace(",", ", ")
    else: c["object"] = rnd.randrange(2)
  return c

EDITS = ["include/HyperHDG/epsilon_neighborhood_graph.hxx", "include/HyperHDG/dense_la.hxx", "include/HyperHDG/hypercube.hxx", "include/HyperHDG/local_solver/diffusion_ldgh.hxx", "include/HyperHDG/local_solver/user_class.hxx",
         "include/HyperHDG/local_solver/user_struct.hxx", "include/HyperHDG/topology/cubic.hxx", "include/HyperHDG/wrapper/lapack.hxx", "include/HyperHDG/plot.hxx", "include/HyperHDG/sparse_la.hxx",
         "include/HyperHDG/global_loop/elliptic.hxx", "include/HyperHDG/global_loop/prototype.hxx", "extra/par0.hxx", "extra/par1.hxx", "cython/elliptic.pyx", "cython/elliptic.pxd",
         "cython/parabolic.pyx", "cython/elliptic.cfg", "include/HyperHDG/hy_assert.hxx", "include/HyperHDG/geometry/unit_cube.hxx", "include/HyperHDG/node_descriptor/cubic.hxx"]

def taking_part(tree, c):
  """All files that a module is made of."""
  todo = [x for x in c["include_files"] or []] + re.findall(r"#include <(.*)>", c["cpp_code"] or "")
  todo += [tree.defs[(x, re.split(r"[< ]", c[x])[0])][8:] for x in ("topology", "geometry", "node_descriptor", "local_solver", "global_loop")]
  got = ["cython/%s.%s" % (FILES[c["global_loop"]], e) for e in ("pyx", "pxd", "cfg") for _ in range(3)]
  while todo:
    x = todo.pop()
    for p in ("include/" + x, x):
      if os.path.isfile(tree.root + "/" + p):
        if p not in got:
          got.append(p)
          todo += re.findall(r"#include <((?:HyperHDG|extra)/.*)>", tree.read(p))
        break
  return got

def vary(rnd, tree, c):
  """Another problem that differs from c in one respect."""
  while True:
    d = dict(gen_conf(rnd, tree, [c]), object=None)
    if 1 <= sum(d[k] != c[k] for k in c if k != "object") <= 2:
      return d

def gen_case(rnd, tree):
  kind = rnd.random()
  if kind < 0.3:  # an edit of a file that takes part
    c = dict(gen_conf(rnd, tree, []), object=None)
    if rnd.random() < 0.7: c = vary(rnd, tree, c)
    files = taking_part(tree, c)
    first = [x for x in files if x.startswith("extra") or x.startswith("cython")]
    f = rnd.choice(first if rnd.random() < 0.5 else files)
    return [["session", [c]], ["edit", f, rnd.randrange(1000)], ["session", [c]]]
  if kind < 0.5:  # two problems that differ slightly
    c = dict(gen_conf(rnd, tree, []), object=None)
    if rnd.random() < 0.7: c = vary(rnd, tree, c)
    d = vary(rnd, tree, c)
    if rnd.random() < 0.1:  # the order of includes may matter
      c["include_files"] = ["extra/par0.hxx", "extra/par1.hxx"]
      d = dict(c, include_files=c["include_files"][::-1])
    return [["session", [c, d]]] if rnd.random() < 0.5 else [["session", [c]], ["session", [d]]]
  pool, ops = [], []
  for k in range(2 + rnd.randrange(5)):
    r = rnd.random()
    if r < 0.3 and k > 0:
      f = rnd.choice(EDITS)
      own = [m for c in pool for m in re.findall(r"#include <(.*)>", c["cpp_code"] or "")]
      used = [tree.defs[(x, re.split(r"[< ]", c[x])[0])] for c in pool for x in ("topology", "geometry", "node_descriptor", "local_solver", "global_loop")]
      if own and rnd.random() < 0.5:
        f = rnd.choice(own)
        if not f.startswith("extra"): f = "include/" + f
      elif used and rnd.random() < 0.4: f = rnd.choice(used)
      ops.append(["edit", f, rnd.randrange(1000)])
    elif r < 0.34 and k > 0:
      ops.append(["flags", rnd.choice(["-O1", "-O2", "-O3"])])
    elif r < 0.5 and pool:
      ops.append(["session", [dict(rnd.choice(pool), object=None)]])
    else:
      s = []
      for _ in range(1 + rnd.randrange(3)):
        c = gen_conf(rnd, tree, pool)
        pool.append(c)
        s.append(c)
      ops.append(["session", s])
  return ops

def resolve(objects, c):
  """A reused configuration object keeps what is not set again."""
  c = dict(c)
  if c["object"] is not None:
    old = objects.get(c["object"], dict(replacements=None, include_files=None, cpp_code=None))
    for k in ("replacements", "include_files", "cpp_code"):
      if c[k] is None:
        c[k] = old[k]
    objects[c["object"]] = dict(c)
  return c

def valid(c):
  return True

def run_case(tree, ops, stats):
  """Raises Violation."""
  for rel, text in tree.edited.items():
    tree.write(rel, text)
  tree.edited = {}
  tree.stamp()
  tree.fresh_build()
  tree.tick()
  flag = "-O3"
  last = {}
  for op in ops:
    if op[0] == "edit":
      tree.tick()
      if op[1] not in tree.edited:
        tree.edited[op[1]] = tree.read(op[1])
      note = {"pyx": "\n# edit %d\n", "cfg": "\nnote%d = 1\n", "pxd": "\n# edit %d\n"}.get(op[1][-3:], "\n// edit %d\n") % op[2]
      text = tree.edited[op[1]]
      if op[1].endswith(".cfg") and op[2] % 4:  # other defaults
        text = text.replace("= double", "= float") if op[2] % 4 == 1 else text.replace("04  = double", "04  = float")
      tree.write(op[1], text + note)
      os.utime(tree.root + "/" + op[1], (tree.t, tree.t))
      stats["edits"] = stats.get("edits", 0) + 1
    elif op[0] == "flags":
      tree.tick()
      flag = op[1]
      tree.config(flag)
    else:
      tree.tick()
      objects = {}
      want = [resolve(objects, c) for c in op[1]]
      if os.path.exists(tree.root + "/tool.log"): os.unlink(tree.root + "/tool.log")
      got = session(tree, op[1])
      built = tree.read("tool.log").count("built") if os.path.exists(tree.root + "/tool.log") else 0
      stats["imports"] = stats.get("imports", 0) + len(want)
      stats["builds"] = stats.get("builds", 0) + built
      if len(got) != len(want):
        raise Violation("the Python layer failed: %s" % got)
      for c, (st, text) in zip(want, got):
        if st != "ok":
          raise Violation("import of %s failed: %s" % (json.dumps(conf_fields(c)), text))
        check_model(tree, c, text)
      # (2) an empty build folder gives the same
      os.rename(tree.root + "/build", tree.root + "/build.kept")
      try:
        tree.stamp(tree.t)
        os.makedirs(tree.root + "/build")
        tree.config(flag)
        clean = session(tree, [dict(want[-1], object=None)])
        if clean[0][0] != "ok" or re.sub(r"[ ]", "", clean[0][1]) != re.sub(r"[ ]", "", got[-1][1]):  # class names up to blanks
          raise Violation("an import into an empty build folder gives another module than the one in use: %s" % (clean[0][1][-300:] if clean[0][0] != "ok" else "texts differ"))
      finally:
        shutil.rmtree(tree.root + "/build")
        os.rename(tree.root + "/build.kept", tree.root + "/build")
      # (3) nothing changed: nothing is built
      tree.tick()
      if os.path.exists(tree.root + "/tool.log"): os.unlink(tree.root + "/tool.log")
      again = session(tree, [dict(want[-1], object=None)])
      if os.path.exists(tree.root + "/tool.log"):
        raise Violation("nothing has changed, but the module is built again")
      if again[0] != got[-1]:
        raise Violation("the same import gives another module: %s" % again[0][1][-300:])

def try_case(tree, ops):
  try:
    run_case(tree, ops, {})
    return None
  except Violation as e:
    return str(e)

def shrink(tree, ops, msg):
  """Removes operations and imports as long as it fails."""
  progress, budget = True, 60
  while progress and budget > 0:
    progress = False
    for i in range(len(ops)):
      cands = [ops[:i] + ops[i + 1:]]
      if ops[i][0] == "session" and len(ops[i][1]) > 1:
        cands += [ops[:i] + [["session", ops[i][1][:j] + ops[i][1][j + 1:]]] + ops[i + 1:] for j in range(len(ops[i][1]))]
      for c in cands:
        budget -= 1
        m = try_case(tree, c)
        if m:
          ops, msg, progress = c, m, True
          break
      if progress or budget <= 0:
        break
  return ops, msg

def worker(k, cases, seed, root, repo, q):
  tree = Tree(root, repo)
  res = []
  for i in cases:
    rnd = random.Random("%d-%d" % (seed, i))
    ops = gen_case(rnd, tree)
    stats = {}
    try:
      run_case(tree, ops, stats)
      res.append((i, ops, stats, None))
    except Violation as e:
      res.append((i, ops, stats, str(e)))
      break
  with open(q, "w") as f:
    json.dump(res, f)

def main():
  ap = argparse.ArgumentParser()
  for o in ("tier", "seed", "out", "replay-out", "scratch", "replay", "scale"):
    ap.add_argument("--" + o)
  a = ap.parse_args()
  repo = os.environ.get("VP_REPO", "/repo")
  root = os.path.join(a.scratch, "py")
  os.makedirs(root)
  if a.replay:
    tree = Tree(root + "/c++replay", repo)
    m = try_case(tree, json.load(open(a.replay))["ops"])
    print("REPRODUCED: " + m if m else "not reproduced")
    return 1 if m else 0
  n = int((320 if a.tier == "quick" else 6000) * float(a.scale or 1))
  pids = []
  W = 8
  for k in range(W):
    pid = os.fork()
    if pid == 0:
      try:
        worker(k, range(k, n, W), int(a.seed), "%s/c++%d" % (root, k), repo, "%s/res%d" % (root, k))
        os._exit(0)
      except BaseException:
        traceback.print_exc()
        os._exit(9)
    pids.append(pid)
  bad = [os.waitpid(p, 0)[1] for p in pids]
  if any(bad):
    print("a worker died")
    return 2
  res = []
  for k in range(W):
    res += [tuple(x) for x in json.load(open("%s/res%d" % (root, k)))]
  res.sort(key=lambda x: x[0])
  fails = [x for x in res if x[3]]
  viol = []
  if fails:
    i, ops, _, msg = fails[0]
    tree = Tree(root + "/c++shrink", repo)
    again = [try_case(tree, ops) for _ in range(3)]
    if all(again):
      ops, msg = shrink(tree, ops, msg)
      path = os.path.join(a.replay_out, "import_histories.replay.json")
      json.dump(dict(family="import_histories", message=msg, ops=ops, case_index=i), open(path, "w"), indent=1)
      viol.append(dict(family="import_histories", replay=path, message=msg + " | history: " + json.dumps(ops)[:1500]))
    else:
      print("NOTE: case %d failed once and not again: %s" % (i, msg))
  nontriv = set()
  for i, ops, st, _ in res:
    if st.get("imports", 0) >= 2 and (st.get("edits", 0) > 0 or st.get("builds", 0) >= 2):
      nontriv.add(hashlib.sha1(json.dumps(ops, sort_keys=True).encode()).hexdigest())
  rule = "at least two imports, and an edit in between or two different modules"
  json.dump(dict(evaluations=len(res), distinct_nontrivial=len(nontriv), discarded=0, violations=viol,
                 families=[dict(family="import_histories", cases=len(res), distinct_nontrivial=len(nontriv), rule=rule,
                                labels=dict(imports=sum(x[2].get("imports", 0) for x in res), builds=sum(x[2].get("builds", 0) for x in res), edits=sum(x[2].get("edits", 0) for x in res)))],
                 samples=["import_histories: " + json.dumps(x[1])[:450] for x in res[:3]]), open(a.out, "w"))
  return 1 if viol else 0

if __name__ == "__main__":
  sys.exit(main())
