#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {  # missed when planted, and what was strengthened
    "C16-extra-large": "extra fields beyond 32 KiB", "C18-trailer-prefix": "names that begin like the trailer",
    "C20-boundary-prefix": "lines nearly like a boundary", "C27-tar-256": "header checks on blocks of deciding sizes",
    "C10-large-size": "beginnings of data of a large recorded size", "C31-mail-name": "changed signatures",
    "C31-another-line": "texts with V2000 in another line", "C17-closing-byte": "a closing byte behind the members", "C20-long-header": "header lines above 64 KiB", "C30-environment": "commands that print what their environment says", "C33-pipe-end": "processes in the leak check", "C22-second-xbat": "documents with two tables of tables",
    "C24-provider-peek": "the archive reader among what is compared",
}
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    first = f" (missed at first; added: {MISSED[d]})" if d in MISSED else ""
    rows.append(f"| {d} | {m['needs'].replace('|', '/')} | {m.get('caught', m['property'])}{first} |")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
t = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->"
if "SEEDED_TABLE" in s:
    s = s.replace("SEEDED_TABLE", t)
else:
    s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
