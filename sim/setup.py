"""setup_cmd: nothing is prepared in advance (every check builds from /repo's current tree); this only verifies that the toolchain is there."""
import shutil
import sys

from . import build, check, props

assert len(props.PROPS) >= 1 and check.NPROC >= 1
e = build.env("/tmp")
missing = [t for t in ("gcc", "go", "dotnet", "node", "rustc", "zig") if not shutil.which(t, path=e["PATH"])]
print("missing tools: " + ", ".join(missing) if missing else "all tools present")
sys.exit(0)
