"""Process environment shared by every part of the simulator."""
import os

REPO = os.environ.get("ADVSIM_REPO", "/repo")          # development override only; checks use /repo
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "out")                        # git-ignored: replay files
PKG = os.path.join(REPO, "proadv") + os.sep
TESTS = os.path.join(PKG, "tests") + os.sep
