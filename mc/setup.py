"""setup_cmd: checks the scheduler and race detector on programs with known behaviour. Each check builds what it needs of /repo itself."""
import sys
from mc import selftest
if __name__ == "__main__":
    sys.exit(selftest.main())
