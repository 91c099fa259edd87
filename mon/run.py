import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
repo = os.environ.get("MON_REPO", "/repo")
sys.path.insert(0, repo)
from mon import env  # noqa: solver threads, before abcvoting is imported
from mon import core
if __name__ == "__main__":
    rc = core.main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
