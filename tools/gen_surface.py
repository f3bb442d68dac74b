"""Write the reviewed table of decorators, import-time effects and members."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import check as ck                       # noqa: E402
from sa.program import Program                   # noqa: E402
from sa.rules import surface as s                # noqa: E402
P = Program(ck.REPO, ('beer',), ck.EXTRA)
out = {
    'decorators': {q: sorted({d[0] for d in ds})
                   for q, ds in s.decorators(P).items()},
    'toplevel': {n: sorted(x[0] for x in s.toplevel(m))
                 for n, m in P.modules.items()
                 if not s.skip(m) and s.toplevel(m)},
    'settings': sorted({(q, full) for q, a, full, m, l in s.settings(P)}),
    'members': s.members(P),
}
with open(s.TABLE, 'w') as f:
    json.dump(out, f, indent=1, sort_keys=True)
