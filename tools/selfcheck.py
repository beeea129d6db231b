"""Setup: nothing is built; the library imports and the seams are in place."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import worker  # noqa: E402,F401
import LinearResponseVariationalBayes as vb  # noqa: E402
print('library:', os.path.dirname(vb.__file__))
