"""Rewrites the table of planted bugs in DESIGN.md (between the two markers)."""
import json, os, re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
FIRST = set("A06-winsor B06-default-tol A05-cost A05-resample-share E05-third-path".split())
FIRST |= set(open(os.path.join(H, "tools", "first_missed.txt")).read().split()) if os.path.exists(
    os.path.join(H, "tools", "first_missed.txt")) else set()
rows = []
for i in sorted(os.listdir(os.path.join(H, "seeded"))):
  m = json.load(open(os.path.join(H, "seeded", i, "meta.json")))
  f = sorted(set(re.findall(r"^\+\+\+ b/\S*/(\S+)", open(
      os.path.join(H, "seeded", i, "patch.diff")).read(), re.M)))
  rows.append(f"| {i}{' *' if i in FIRST else ''} | {m['property']} | {', '.join(f)} | {m['needs']} |")
text = "\n".join(["<!-- table -->", "| id | caught by | file | needs |", "|---|---|---|---|"] +
                 rows + ["<!-- end -->"])
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
s, n = re.subn(r"<!-- table -->.*<!-- end -->", lambda _: text, s, flags=re.S)
assert n == 1
s = re.sub(r"\d+ planted bugs", f"{len(rows)} planted bugs", s)
open(p, "w").write(s)
print(len(rows))
