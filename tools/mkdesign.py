"""Writes DESIGN.md from tools/design/, the monitors, and seeded/."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
D = os.path.join(HERE, "tools", "design")


def read(n):
    with open(os.path.join(D, n)) as f:
        return f.read()


def main():
    out = [read("head.md"), "## 2. The properties\n"]
    oracles = json.loads(read("oracles.json"))
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)
        pid = p["id"]
        m = importlib.import_module("props." + pid.lower())
        plan = lambda t: ", ".join("%s %d" % kn for kn in m.plan(t))
        out.append("### %s %s\n" % (pid, p["title"]))
        out.append("* **Observed / generated:** %s." % m.RULE)
        out.append("* **Oracle:** %s" % oracles[pid])
        out.append("* **Cases:** quick: %s; thorough: %s." % (plan("quick"), plan("thorough")))
        out.append("* **Must have been observed** (else no verdict): %s." % ", ".join("%s >= %d" % kv for kv in m.MIN.items()))
        out.append("* **Assumes:** %s.\n" % ("; ".join(m.ASSUMPTIONS) or "nothing beyond the reference semantics"))
    out.append(read("tail.md"))
    cf = os.path.join(D, "caught.json")
    caught = json.load(open(cf)) if os.path.exists(cf) else {}
    out.append("| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
    sd = os.path.join(HERE, "seeded")
    for b in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, b, "meta.json")))
        c = lambda s: s.replace("|", "/").replace("\n", " ")
        out.append("| %s | %s | %s | %s | %s |" % (b, m["property"], c(m["what_it_breaks"]), c(m["needs"]), caught.get(b, "(not run yet)")))
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write("\n".join(out) + "\n")


main()
