"""Writes MANIFEST.json from jobs.py: python3 py/manifest.py"""
import json
import os

import jobs

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = [json.loads(line)["id"] for line in open(os.path.join(VERIF, "properties.jsonl"))]
TECH = ("TLA+ specification (Asta.tla) with TLC: histories recorded from the real code - of behaviours enumerated by TLC "
        "and of seeded ones - are validated event by event against the specification")
NOTE = ("Every history explored is decided by the TLA+ specification; no claim beyond the explored behaviours. Trusts the "
        "driver which records observations, TLC, and the reading of the documentation laid down in the specification.")
NOT = {}


def main():
    checks = []
    for pid in ALL:
        if pid not in jobs.PROPS:
            continue
        p = jobs.PROPS[pid]
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 py/check.py {pid} quick",
            "thorough_cmd": f"python3 py/check.py {pid} thorough",
            "technique": p.get("technique", TECH),
            "level": "model_checking",
            "level_note": p.get("note", NOTE),
        })
    man = {
        "version": 1,
        "setup_cmd": "python3 py/setup.py",
        "checks": checks,
        "not_applicable": [{"property": i, "reason": NOT.get(i, "check under construction")}
                           for i in ALL if i not in jobs.PROPS],
        "hooks": {"guard": "none", "enable": "no hooks: the checks use asta's public interface only"},
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
