"""catches.py SWEEPLOG: writes into DESIGN.md which check catches which planted bug, from the output of psweep.py"""
import sys, re, collections
V = "/verif"
rows = {}
for l in open(sys.argv[1]):
    m = re.match(r"(\S+) (C\d+) rc=(\S+)", l)
    if m:
        rows[m.group(1)] = (m.group(2), m.group(3) == "1")
by = collections.defaultdict(lambda: ([], []))
for s, (p, c) in rows.items():
    by[p][0 if c else 1].append(s)
out = ["%d planted bugs, %d caught by the check of their property." % (len(rows), sum(c for _, c in rows.values())), "", "| check | catches | misses |", "|----|----|----|"]
for p in sorted(by):
    out.append("| %s | %s | %s |" % (p, ", ".join(sorted(by[p][0])), ", ".join(sorted(by[p][1])) or "–"))
s = open(V + "/DESIGN.md").read()
a, b = s.index("<!-- catches -->"), s.index("<!-- /catches -->")
open(V + "/DESIGN.md", "w").write(s[:a] + "<!-- catches -->\n" + "\n".join(out) + "\n" + s[b:])
