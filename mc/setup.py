"""setup_cmd: builds thiserror from /repo in the configurations the checks use, to
show that the machinery works here. Checks rebuild what they need themselves."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.core import Base, NIGHTLY, STABLE
for kind, tc in (("std", STABLE), ("std", NIGHTLY)):
    b = Base(kind, tc).build()
    print("built", kind, tc, sorted(b.externs)[:20])
