"""Builds what the checks share."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common as C, contracts as K
print(C.build_native("C01"))
print(C.build_native("C19"))
print(K.build_extractor())
K.expand()
