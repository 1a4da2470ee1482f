#!/opt/venv/bin/python
"""replay.py FILE: print the recorded violation (inputs, the counts of the native build, what the definition allows)"""
import sys, json
d=json.load(open(sys.argv[1])); print(json.dumps(d,indent=1))
