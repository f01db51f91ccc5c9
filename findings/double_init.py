import unidist, unidist.config as cfg
cfg.Backend.put("mpi")
unidist.init()
unidist.init()
@unidist.remote
def f(x): return x+1
print("RES", unidist.get(f.remote(1)))
unidist.shutdown()
