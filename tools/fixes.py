"""Appends 'fixed:' lines for the fix commits of /repo (run by hand)."""
import os
import subprocess
import sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, "KNOWN_FINDINGS.txt")
known = [ln for ln in open(path).read().splitlines()
         if not ln.startswith("fixed:")]
props = dict(ln.split("\t") for ln in open(
    os.path.join(root, "tools", "fix_props.tsv")).read().splitlines() if ln)
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse",
                      "--format=%h\t%s"], capture_output=True,
                     text=True).stdout
for line in log.splitlines():
    commit, text = line.split("\t", 1)
    if not text.startswith("fix: "):
        continue
    text = text[5:]
    prop = props.get(text)
    if prop is None:
        sys.exit("no property for: " + text)
    known.append("fixed: property={} {} {}".format(prop, commit, text))
open(path, "w").write("\n".join(known) + "\n")
