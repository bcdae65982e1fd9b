"""Setup: nothing to build; verify that the tools and the code under test can be imported."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bind  # noqa: E402
import gen  # noqa: E402

print("ready: %d element types, fastkml at %s, %d containments" % (len(bind.CLS), os.path.dirname(bind.fastkml.__file__), len(list(gen.edges()))))
