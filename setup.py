"""builds the framework's own Java parts into /verif/build"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vc'))
sys.dont_write_bytecode = True
import build
print(build.tools())
