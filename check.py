import logging
import sys

logging.disable(logging.CRITICAL)
from mc.core import run_check  # noqa: E402

if __name__ == "__main__":
    sys.exit(run_check(sys.argv[1], sys.argv[2:]))
