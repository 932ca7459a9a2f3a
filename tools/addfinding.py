"""Developer tool (never run by a check): append one entry to known_findings.txt.
   addfinding.py fixed  C11 <commit> <facet> '<case json>' 'what failed'
   addfinding.py open   C11 -        <facet> '<case json>' 'what fails'"""
import sys, json, re, pathlib
f = pathlib.Path(__file__).resolve().parent.parent / "known_findings.txt"
kind, pid, commit, facet, case, what = sys.argv[1:]
t = f.read_text().rstrip("\n") + "\n"
n = max(int(x) for x in re.findall(r'"id": "F(\d+)"', t)) + 1
js = json.dumps({"id": f"F{n:03d}", "facet": facet, "case": json.loads(case)})
head = f"fixed: property={pid} {commit} {what}" if kind == "fixed" else f"KNOWN-FINDING: property={pid} {what}"
f.write_text(t + f"{head} ## {js}\n")
print(f"F{n:03d}")
