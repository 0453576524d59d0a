"""python check.py <property> [quick|thorough]   (or: check.py --replay <file>)"""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))


def checks():
    import importlib
    out = {}
    for m in ("props_pipe", "props_track", "props_num", "props_misc"):
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        for k in dir(mod):
            if len(k) == 3 and k[0] == "c" and k[1:].isdigit():
                out.setdefault(k.upper(), []).append(getattr(mod, k))
    return out


def replay(path):
    import tlc
    d = json.load(open(path))
    print(d["property"], d["what"])
    c = d["case"]
    if isinstance(c, dict) and "scenario" in c:
        v, _, _ = tlc.validate(c["module"], [c["scenario"]])
        print("verdict of the specification on the recorded trace:", sorted(v[0]))
    else:
        print(json.dumps(c, indent=1)[:5000])


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import run
    chk = run.Check(prop, tier, seed)
    for f in checks()[prop]:
        try:
            f(chk)
        except Exception as e:
            # what the implementation raises, or returns and the recorder cannot digest
            here = run.from_repo(e)
            if not here and not isinstance(e, (KeyError, IndexError, TypeError, ValueError, AttributeError, ArithmeticError)):
                raise
            import traceback
            chk.violation(f"the implementation {'raised' if here else 'gave something indigestible:'} "
                          f"{type(e).__name__}: {e}", {"traceback": traceback.format_exc()})
    return chk.finish()


if __name__ == "__main__":
    sys.exit(main())
