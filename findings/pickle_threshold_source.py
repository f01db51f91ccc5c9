"""The origin of MpiPickleThreshold was overwritten by reading it while the shared object store
was on; a value set by the program was then not passed to the spawned processes."""
import unidist.config as cfg
cfg.MpiPickleThreshold.put(5)
cfg.MpiSharedObjectStore.put(True)
cfg.MpiPickleThreshold.get()
cfg.MpiSharedObjectStore.put(False)
assert cfg.MpiPickleThreshold.get() == 5
assert cfg.MpiPickleThreshold.get_value_source() == cfg.ValueSource.SET_BY_USER, cfg.MpiPickleThreshold.get_value_source()
