import importlib
import sys

from . import core


def run(argv):
    pid = argv[0]
    module = importlib.import_module(f"harness.{pid.lower()}")
    return core.main(pid, module.run)


if __name__ == "__main__":
    sys.exit(run(sys.argv[1:]))
