# configuration of the checks: which harness decides which property, how it is built
SAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined",
       "-fno-omit-frame-pointer", "-DENABLE_STRASSEN"]
FLAVORS = {
    "san": {"cxx": SAN, "mc_cxx": ["-O2", "-g1", "-fsanitize=address"], "ld": ["-fsanitize=address,undefined"]},
    # no sanitizers, asserts on: for enumerations too wide for the sanitized build
    "fast": {"cxx": ["-O2", "-g0", "-DENABLE_STRASSEN"], "ld": []},
}
# threads run under harness/sched.cpp, which takes the place of the thread sanitizer's runtime
SCHED = ["-O1", "-g1", "-fsanitize=thread"]
FLAVORS["sched"] = {"cxx": SCHED, "mc_cxx": ["-O2", "-g1"], "ld": ["-rdynamic"], "libs": ["-ldl"]}
# with graph recording
RCD = ["-DEDGE_RCD", "-DCSV_RCD"]
FLAVORS["rcd"] = {"cxx": SAN + RCD, "mc_cxx": FLAVORS["san"]["mc_cxx"], "ld": FLAVORS["san"]["ld"], "grpc_headers": True,
                  "libs": ["-lgrpc++", "-lgrpc", "-lgpr", "-labsl_synchronization", "-labsl_base"]}
PROPS = {}


def P(pid, name, harness, flavor="san", level="model_checking", quick="", thorough="", **kw):
    PROPS[pid] = dict(name=name, harness=harness if isinstance(harness, list) else [harness], flavor=flavor,
                      level=level, bounds={"quick": quick, "thorough": thorough}, **kw)


P("P01", "shape-algebra", "shape.cpp")
P("P02", "tensor-storage", "storage.cpp")
P("P03", "link-consistency", "link.cpp")
P("P04", "node-lifetime", "life.cpp")
P("P05", "reactive-freshness", "fresh.cpp", flavor="fast")
P("P06", "elementwise", "elementwise.cpp")
P("P07", "transforms", "transform.cpp")
P("P08", "matmul", "matmul.cpp", defs=["-DSTRASSEN_THRESHOLD=2"])
P("P09", "gradients", "gradient.cpp")
P("P10", "node-sharing", "sharing.cpp", flavor="fast")
P("P11", "leaf-copies", "leafcopy.cpp")
P("P12", "persistence", "persist.cpp", rocnnet=["layers/", "compounds/"])
P("P13", "training-steps", "training.cpp", rocnnet=["layers/", "compounds/", "models/gd_net"])
P("P14", "model-copies", "models.cpp", rocnnet=["layers/", "compounds/", "models/gd_net"])
P("P15", "q-learning", "dqn.cpp", rocnnet=["layers/", "compounds/", "models/dq_net"])

P("P16", "shared-cache", ["sched.cpp", "cache.cpp"], flavor="sched", tenncor=["thread/"])
P("P17", "stoppable-threads", ["sched.cpp", "threads.cpp"], flavor="sched", tenncor=["thread/"])
P("P18", "graph-record", "record.cpp", flavor="rcd")
P("P19", "randomness", "random.cpp")
P("P20", "leaf-contents", "leaf.cpp")
P("P21", "boltzmann-machines", "rbm.cpp", rocnnet=["layers/", "compounds/", "models/rbm"])
P("P22", "deep-belief-networks", "dbn.cpp", rocnnet=["layers/", "compounds/", "models/rbm", "models/db_net"])
