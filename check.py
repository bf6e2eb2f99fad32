#!/usr/bin/env python3
"""check.py <property id> [--thorough] [--replay FILE]"""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.dont_write_bytecode = True
import harness


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in a:
        tier = "thorough"
        a.remove("--thorough")
    if a == ["--setup"]:      # everything is built by each check from the current tree; verify the tools are there
        import core, tempfile, shutil
        d = tempfile.mkdtemp(prefix="vmc-setup-")
        try:
            core.build_native(d)
        finally:
            shutil.rmtree(d)
        print("setup ok")
        return
    replay = None
    if "--replay" in a:
        i = a.index("--replay")
        replay = a[i + 1]
        del a[i:i + 2]
    mod = importlib.import_module(a[0].lower())
    sys.exit(harness.run_check(mod.CHECK, "thorough" if tier == "thorough" else "quick", replay))


if __name__ == "__main__":
    main()
