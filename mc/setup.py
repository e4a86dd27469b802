"""Builds the dependencies every check shares (a check also builds them when they are missing)."""
from lib import *
c = Crate("setup", deps=("whippyunits", "whippyunits-core"))
c.bin("setup", PROBE_SRC + "\nfn main() { show::<whippyunits::unit!(m)>(\"m\", 1.0f64); }\n")
ok, diags = c.build()
if not ok:
    print("".join(d["rendered"] for d in diags[:3]) + c.stderr[-2000:])
    sys.exit(1)
