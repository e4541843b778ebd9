#!/usr/bin/env python3
"""check.py <property>: decides one property. Exit 0 held, 1 violated, 2 the check itself failed."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib
TABLE = {}
for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"):
    TABLE[p] = "c_ls"
for p in ("C09", "C10", "C11"):
    TABLE[p] = "c_transport"
TABLE["C16"] = "c_paths"
TABLE["C17"] = "c_fmap"
TABLE["C18"] = "c_fptext"
TABLE["C22"] = "c_builder"
TABLE["C19"] = TABLE["C20"] = TABLE["C21"] = "c_l10n"
TABLE["C15"] = "c_rmtree"
TABLE["C13"] = TABLE["C14"] = "c_conc"
TABLE["C12"] = "c_atomic"
TABLE["C23"] = TABLE["C24"] = "c_vfs"
TABLE["C25"] = "c_fileid"
TABLE["C26"] = TABLE["C27"] = TABLE["C28"] = TABLE["C29"] = "c_proj"
TABLE["C30"] = "c_texts"
TABLE["C31"] = "c_uris"
TABLE["C32"] = "c_focus"
TABLE["C33"] = "c_lock"
TABLE["C34"] = "c_owner"
TABLE["C35"] = "c_outputs"
TABLE["C36"] = "c_roots"


def run():
    prop = sys.argv[1]
    if prop not in TABLE:
        print(f"unknown property {prop}", file=sys.stderr)
        return 2
    return importlib.import_module(TABLE[prop]).run(prop)


if __name__ == "__main__":
    vlib.main(run)
