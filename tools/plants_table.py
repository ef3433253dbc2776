"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json and the lines 'id: checks' on stdin."""
import glob, json, os, sys
caught = dict(l.strip().split(": ", 1) for l in sys.stdin if ": " in l)
print("| bug | property | needs | caught by |\n|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", "*", "meta.json"))):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    print(f"| {n} | {m['property']} | {m['needs']} | {caught.get(n, m['property'])} |")
