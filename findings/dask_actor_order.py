import sys; sys.path.insert(0,'/repo')
import unidist.config as cfg
cfg.Backend.put('dask'); cfg.CpuCount.put(2)
import unidist, time
if __name__=='__main__':
    unidist.init()
    @unidist.remote
    def slow(x): time.sleep(2); return x
    @unidist.remote
    class K:
        def __init__(self): self.l=[]
        def add(self,x): self.l.append(x); return list(self.l)
    a=K.remote()
    r=a.add.remote(slow.remote(1)); s=a.add.remote(2)
    print(unidist.get([r,s]))
