#!/usr/bin/env python3
"""campaign.py SEED0 N WORKERS ID... : judges N executions per property for every seed from SEED0 on, for ever, and
logs every violation (development tool: measures false alarms and looks for rare defects)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sim"))
import boot  # noqa: E402
boot.reexec()
import traceback  # noqa: E402
import driver  # noqa: E402

os.nice(15)
seed, n, workers, pids = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
os.environ.setdefault("DSIM_X", "1")
benches = {p: driver.Bench(p) for p in pids}
while True:
    for p in pids:
        kids = []
        for w in range(workers):
            pid = os.fork()
            if pid == 0:
                for i in range(w, n, workers):
                    try:
                        b = benches[p]
                        res, v = b.both(b.generate(seed, i, "quick"))
                    except Exception:
                        v = [(0, "HARNESS " + traceback.format_exc()[-800:])]
                    if v:
                        os.write(1, ("%s %d %d %s\n" % (p, seed, i, v[0][1][:600].replace("\n", " "))).encode())
                os._exit(0)
            kids.append(pid)
        for k in kids:
            os.waitpid(k, 0)
        os.write(1, ("# %s seed %d done (%d)\n" % (p, seed, n)).encode())
    seed += 1
