import sys
import engines
engines.seq_build()
engines.conc_build()
from rustc import Rustc
Rustc()
import det
det.Det()
