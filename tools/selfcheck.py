"""Set-up: nothing to build; confirm that the interpreter and its libraries are there."""
import sys

for name in ("numpy", "scipy", "pandas", "lark", "pint", "h5py", "yaml", "mpmath", "lmfit"):
    try:
        __import__(name)
    except ImportError as e:
        print(f"missing: {e}")
        sys.exit(1)
print("ok", sys.version.split()[0])
