#!/usr/bin/env python3
"""usage: python3 check.py <property id> [--tier quick|thorough] [--replay FILE]"""
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.set_int_max_str_digits(0)

import core          # noqa: E402
import registry      # noqa: E402

if __name__ == "__main__":
    spec = registry.get(sys.argv[1])
    try:
        rc = core.main(spec, sys.argv[2:])
    except core.runner.Infra as e:
        print("inconclusive: %s" % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
