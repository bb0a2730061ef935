"""rewrites the table of planted bugs in DESIGN.md (run by hand)"""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (HERE, d)))
    rows.append("| %s | %s | %s (needs: %s) |" % (d, m["property"], m["what_it_breaks"], m["needs"]))
p = HERE + "/DESIGN.md"
s = open(p).read()
head = "| id | property | what it breaks |\n|---|---|---|\n"
i = s.index(head) + len(head)
j = s.index("\n\n", i)
s = s[:i] + "\n".join(rows) + s[j:]
s = re.sub(r"`seeded/<id>` \([^)]*\)", "`seeded/<id>` (%d so far)" % len(rows), s)
open(p, "w").write(s)
