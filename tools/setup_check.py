#!/usr/bin/env python3
"""Nothing to build: confirm the interpreter is recent enough and the engine imports."""
import os, sys
sys.dont_write_bytecode = True
assert sys.version_info >= (3, 10), sys.version
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import sa.framework, registry
print("ok", len(registry.PROPERTIES), "properties")
