"""Writes the table of planted changes into DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "update-empty-table": "tables without a name in `write`",
    "marks-16": "`long`: every list length to 70",
    "group-shift": "conditions rendered after 7 others as well",
    "ignore-two": "every number of arguments from 1 to 20 in `long`",
    "alias-table": "references qualified with a table given to `TableIdent.Field`",
    "rebind-first": "operands 73-75 (negated group of one negated condition)",
    "params-lazy": "late histories: nothing is looked at before the goroutines share it",
    "where-reuse": "`grow` branches that add different members, on an UPDATE that has values (operand 76)",
    "count-null-filter": "`tight` histories; every trace has its own comparison kinds (`every`)",
    "many-empty": "any number of empty groups at once in `write` and `long`",
    "in-dedupe": "27 kinds of list",
    "rebind-depth": "operands 77-80 (negated group in a negated group)",
    "update-31": "a panic while rendering concerns C03",
    "update-self": "profile `pair`: the same field and nil in several clauses; nil often in `tight` histories",
    "field-dash": "names of unusual characters (`OddTexts`)",
}
rows = []
for m in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "/"), MISSED.get(i, "")))
t = "<!-- seeds -->\n| change | property | needs | missed at first; now |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
p = R + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: t, s, flags=re.S) if "<!-- seeds -->" in s else s.replace("\nSEEDS\n", "\n" + t + "\n")
open(p, "w").write(s)
