#!/usr/bin/env python3
"""check.py C01                      decide one property (VERIF_SEED, VERIF_TIER)
check.py C01 --replay FILE         run the execution in a replay file again
check.py C01 --digests 0,1,2       print the digests of these executions
check.py C01 --one I [--keep FILE] run one execution of the search"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
import boot  # noqa: E402

if __name__ == "__main__":
    boot.reexec(os.environ.get("DSIM_HASHSEED", "0"))
    import driver
    sys.exit(driver.main(HERE))
