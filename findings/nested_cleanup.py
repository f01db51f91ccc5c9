import time, sys, faulthandler
import unidist
unidist.init()
@unidist.remote
def f(*a): return a
@unidist.remote
def N():
    r=[f.remote(1), f.remote(2)]
    return unidist.get(r)
@unidist.remote
def slow():
    time.sleep(15); return 1
k = unidist.put(5)
a = f.remote(7)
n = N.remote()
unidist.get(n); unidist.wait([a])
s = slow.remote()
e = f.remote(1)
g = f.remote(2)
d = f.remote(a)
unidist.get([e,g])
import weakref; wr=weakref.ref(a._ref); print(a._ref._id); del a
x=[unidist.put(i) for i in range(20)]
del x
for i in range(12):
    time.sleep(0.3); unidist.get(k)
x=[unidist.put(i) for i in range(20)]
del x
for i in range(12):
    time.sleep(0.3); unidist.get(k)
print("alive", wr() is not None, flush=True)
import gc as _g
if wr() is not None: print([type(x) for x in _g.get_referrers(wr())], flush=True)
print("cleanup list", len(__import__("unidist.core.backends.mpi.core.controller.garbage_collector",fromlist=["x"]).garbage_collector._cleanup_list), flush=True)
print(unidist.get(d), flush=True)
print("DEMO-OK",flush=True)
