"""setup_cmd: nothing is built ahead; only check that the tools the checks need are there."""
import shutil, sys
import z3
miss = [t for t in ('clang-18', 'opt-18') if not shutil.which(t)]
print('z3', z3.get_version_string(), 'missing:', miss)
sys.exit(1 if miss else 0)
