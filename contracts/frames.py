"""C24: which contracts' frame obligations belong to the quick tier (the rest: thorough)

A frame obligation of a contract: on every path through the code under contract, every input buffer holds the values it held
before the call, and every structural attribute of an array that existed before the call is the object it was, or equal to it.
Contracts of assignments (their purpose is to change an operand) have none."""
import json, os
_lists = json.load(open(os.path.join(os.path.dirname(__file__), "frames_slow.json")))
SLOW, NONE = set(_lists["thorough"]), set(_lists["none"])
ASSIGNMENTS = ("set_", "delete_", "reassign_", "edits_", "indexedmasked_new_maskedwhen")


def tier(c):
    name = "%s:%s" % (c["prop"], c["name"])
    if c["name"].startswith(ASSIGNMENTS) or c["name"].endswith("first_use") or name in NONE:
        return None
    return "thorough" if name in SLOW else "quick"
