"""setup_cmd: build the engine and warm the caches."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
vbuild.engine()
vbuild.bitcode(())
vbuild.native(())
