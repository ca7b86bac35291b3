#!/usr/bin/env python3
"""Runs the check of one property: check.py C05 [--tier quick|thorough] | check.py --replay FILE

Builds the harness of the property from /repo's current working tree, runs the monitored workload,
merges the reports of the monitors and writes evidence/<id>.json.

exit 0  the property held on everything explored
exit 1  violated; stdout has a line `VIOLATION property=<id> replay=<path>`
exit 2  the check itself could not be carried out (harness does not compile, ...)
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import runner  # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
