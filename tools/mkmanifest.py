"""Writes MANIFEST.json for every property which has a module in props/."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

TECH = {
    "C01": "runtime monitor: residual of the independent AC model on every reported state",
    "C02": "runtime monitor: convergence flag against a reference continuation/Newton oracle with margins",
    "C03": "runtime monitor: conservation of P/Q per bus and network-wide",
    "C04": "runtime monitor: independent pi-model at the reported voltages",
    "C05": "runtime monitor: completeness and unit agreement of every reported state",
    "C06": "runtime monitor: feasibility of every applied injection",
    "C07": "runtime monitor: exact reference projection",
    "C08": "runtime monitor: storage ledger over histories",
    "C09": "runtime monitor: independent reward model on the reported state",
    "C10": "trace monitor of environment rewards and termination",
    "C11": "trace monitor: scripted vectors against the reported physical state",
    "C12": "trace monitor: observations against the full state",
    "C13": "runtime monitor: spaces and declared bounds against every visited state",
    "C14": "trace monitor of resets",
    "C15": "differential runtime monitoring of twin executions and processes",
    "C16": "runtime monitor: fingerprints of everything handed in or out",
    "C17": "mutation of inputs with a rule oracle (fault injection)",
    "C18": "fault injection with a rule oracle and before/after fingerprints",
    "C19": "trace monitor against an independent calendar and daily profile",
    "C20": "runtime monitor around act(): validity of actions, fingerprints",
    "C21": "runtime monitor with an independent LP (HiGHS) as oracle",
    "C22": "trace monitor: forecasts against realised values",
    "C23": "end-to-end monitor of rendering messages",
    "C24": "trace monitor of message delivery over real sockets (ordering, exactly-once)",
    "C25": "metamorphic runtime monitor (relabelled twins)",
    "C26": "metamorphic runtime monitor (rescaled and spelled-out twins)",
    "C27": "stress and fault-injection workload with a totality monitor",
    "C28": "protocol monitor: Gymnasium contract, wrappers and vector environments",
    "C29": "runtime monitor of the page's scripts on a DOM model (node)",
    "C30": "metamorphic runtime monitor (rescaled parameters)",
}
NOT_YET = "no check has been finished for it yet"


def main():
    checks, na = [], []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        pid = json.loads(line)["id"]
        if not os.path.exists(os.path.join(HERE, "props", pid.lower() + ".py")):
            na.append({"property": pid, "reason": NOT_YET})
            continue
        mod = importlib.import_module("props." + pid.lower())
        checks.append(
            {
                "property": pid,
                "quick_cmd": "python3 check.py %s --tier quick" % pid,
                "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                "evidence_file": "evidence/%s.json" % pid,
                "technique": TECH[pid],
                "level": "exploration",
                "level_note": "Held on the executions produced (see the evidence file for what was observed); says nothing about unexplored inputs. Assumes: " + "; ".join(mod.ASSUMPTIONS or ["nothing beyond the reference semantics in vmon/"]) + ".",
            }
        )
    man = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "checks": checks,
        "not_applicable": na,
        "notes": "Pure-Python target: the checks import gym_anm straight from /repo's working tree (nothing to compile) and need no hooks in /repo. VERIF_REPO may point the checks at another tree (development only).",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


main()
