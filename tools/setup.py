"""Nothing to build: verify that the interpreter and libraries the checks need are present."""
import sys
import yaml
assert sys.version_info >= (3, 11), sys.version
print("ok: python", sys.version.split()[0], "yaml", yaml.__version__)
