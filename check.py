#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property from /repo's current sources."""
import json, os, sys, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "analysis"))
sys.dont_write_bytecode = True
threading.stack_size(512 * 1024 * 1024)


def main():
    import core, rules
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    c = [c for c in m["checks"] if c["property"] == prop]
    level, note = (c[0]["level"], c[0]["level_note"]) if c else ("other", "")
    main.rc = core.run(prop, tier, int(os.environ.get("VERIF_SEED", "1")), level, note)


if __name__ == "__main__":
    main.rc = 3
    t = threading.Thread(target=main)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(main.rc)
