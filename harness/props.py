"""Which harness programs decide which property. Every program is compiled from /repo's working tree."""
def cxx(name, units, mode="debug", **kw):
  return dict(name=name, units=units, mode=mode, **kw)

EX = "exploration"
PROPS = {
 "P01": dict(level=EX, variants=[
   cxx("dense", ["dense_elem.cxx", "dense_elem_float.cxx", "dense_prod.cxx", "dense_prod_float.cxx"]),
   cxx("dense_asan", ["dense_elem.cxx", "dense_elem_float.cxx", "dense_prod.cxx", "dense_prod_float.cxx"], "asan", tiers=["thorough"]),
 ]),
 "P02": dict(level=EX, variants=[
   cxx("solve", ["dense_solve_double.cxx", "dense_solve_float.cxx"]),
   cxx("solve_asan", ["dense_solve_double.cxx", "dense_solve_float.cxx"], "asan", tiers=["thorough"], scale=0.2),
 ]),
 "P03": dict(level=EX, variants=[
   cxx("qr", ["dense_qr_double.cxx", "dense_qr_float.cxx"]),
   cxx("qr_asan", ["dense_qr_double.cxx", "dense_qr_float.cxx"], "asan", tiers=["thorough"], scale=0.2),
 ]),
 "P04": dict(level=EX, variants=[
   cxx("mapping", ["mapping.cxx", "mapping_float.cxx"]),
   cxx("mapping_asan", ["mapping.cxx", "mapping_float.cxx"], "asan", tiers=["thorough"], scale=0.2),
 ]),
}
def simple(units, asan_scale=0.1, **kw):
  n = units[0].split(".")[0]
  return [cxx(n, units, **kw), cxx(n + "_asan", units, "asan", tiers=["thorough"], scale=asan_scale, **kw)]
PROPS["P05"] = dict(level=EX, variants=simple(["hypercube.cxx"]))
PROPS["P06"] = dict(level=EX, variants=simple(["nodefactory.cxx"]))
PROPS["P07"] = dict(level=EX, variants=simple(["hypergraph.cxx"]))
PROPS["P08"] = dict(level=EX, variants=simple(["domain.cxx"]))
PROPS["P09"] = dict(level=EX, variants=[cxx("bad", ["domain_bad.cxx"]), cxx("bad_ndebug", ["domain_bad.cxx"], "ndebug"),
   cxx("bad_asan", ["domain_bad.cxx"], "asan", tiers=["thorough"], scale=0.05)])
PROPS["P10"] = dict(level=EX, variants=simple(["epsgraph.cxx"]))
PROPS["P15"] = dict(level=EX, variants=simple(["loop_elliptic.cxx"]))
PROPS["P17"] = dict(level=EX, variants=simple(["loop_eigen.cxx"]))
PROPS["P18"] = dict(level=EX, variants=simple(["loop_parabolic.cxx"]))
PROPS["P19"] = dict(level=EX, variants=simple(["sparse.cxx"]))
PROPS["P16"] = dict(level=EX, variants=simple(["loop_matrix.cxx"]))
PROPS["P20"] = dict(level=EX, variants=simple(["plotting.cxx"]))

def graph(k):
  d = ["-DGRAPH=%d" % k]
  return [cxx("graph%d" % k, ["graphs.cxx"], flags=d), cxx("graph%d_desc" % k, ["graphs.cxx"], flags=d + ["-DTPCC_DESCENDING"], scale=0.5),
          cxx("graph%d_asan" % k, ["graphs.cxx"], "asan", flags=d, tiers=["thorough"], scale=0.05)]
for k in (11, 12, 13, 14):
  PROPS["P%d" % k] = dict(level=EX, variants=graph(k))

def local(name, units, asan_scale=0.02):
  """Local solvers: assertions format their message on every index access, so most cases run without them."""
  return [cxx(name, units, "ndebug"), cxx(name + "_debug", units, scale=0.04), cxx(name + "_asan", units, "asan_ndebug", tiers=["thorough"], scale=asan_scale)]
PROPS["P21"] = dict(level=EX, variants=local("diffusion", ["local_diffusion.cxx", "local_diffusion_pp.cxx", "local_dar.cxx", "local_ip.cxx", "local_uniform.cxx"]))

PROPS["P22"] = dict(level=EX, variants=local("bilaplacian", ["local_bilaplacian.cxx", "local_bilap_uniform.cxx"]))
PROPS["P23"] = dict(level=EX, variants=local("parab", ["local_parab.cxx", "local_bilap_parab.cxx", "local_advection.cxx"]))
PROPS["P24"] = dict(level=EX, variants=local("eigs", ["local_eigs.cxx", "local_bilap_eigs.cxx"]))
PROPS["P25"] = dict(level=EX, variants=local("timoshenko", ["local_timoshenko.cxx"]))

def pipe(k):
  d = ["-DPIPE=%d" % k]
  return [cxx("pipe%d" % k, ["pipeline.cxx"], "ndebug", flags=d),
          cxx("pipe%d_asan" % k, ["pipeline.cxx"], "asan_ndebug", flags=d, tiers=["thorough"], scale=0.005)]
PROPS["P26"] = dict(level=EX, variants=sum([pipe(k) for k in (1, 2, 3, 4, 5, 6)], []))
PROPS["P27"] = dict(level=EX, variants=sum([pipe(k) for k in (7, 8, 9)], []))

PROPS["P28"] = dict(level=EX, variants=[dict(name="pyimport", kind="python", python="python3", script="pyimport.py")])
PROPS["P29"] = dict(level=EX, variants=[dict(name="pybind", kind="python", python="python3", script="pybind.py")])
PROPS["P30"] = dict(level=EX, variants=sum([pipe(k) for k in (10, 11, 12, 13)], []))

def model(k):
  d = ["-DMODEL=%d" % k]
  return [cxx("model%d" % k, ["models.cxx"], "ndebug", flags=d), cxx("model%d_asan" % k, ["models.cxx"], "asan_ndebug", flags=d, tiers=["thorough"], scale=0.02)]
PROPS["P31"] = dict(level=EX, variants=sum([model(k) for k in range(1, 9)], []))
