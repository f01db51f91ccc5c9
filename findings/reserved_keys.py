"""A dictionary with one of the serializer's own keys cannot be decoded (known finding of C19)."""
import sys
sys.path.insert(0, "/repo")
from unidist.core.backends.mpi.core import serialization as S
for k in ("__cloud_custom__", "__pickle_custom__", "__pickle5_custom__"):
    try:
        print(k, S.deserialize_complex_data(**S.serialize_complex_data({k: 1, "other": 2})))
    except Exception as e:
        print(k, "fails:", type(e).__name__, e)
