#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]

exit 0: the property held on everything explored; 1: VIOLATION printed; other: the machinery failed."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import common

CHECKS = {"C12": "c_command", "C11": "c_show", "C10": "c_generate", "C07": "c_apply", "C08": "c_apply", "C09": "c_apply", "C06": "c_parse", "C13": "c_session", "C03": "c_same", "C05": "c_text", "C01": "c_diff", "C02": "c_diff", "C04": "c_diff"}

def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args: tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if prop not in CHECKS: sys.exit("no such check")
    mod = __import__(CHECKS[prop])
    if "--replay" in args:
        sys.exit(mod.replay(prop, args[args.index("--replay") + 1]))
    rep = common.Report(prop, tier, seed)
    scr = common.Scratch()
    try:
        n = mod.run(prop, tier, seed, scr, rep)
        code = rep.finish(n)
    except common.Machinery as x:
        print("MACHINERY: %s" % x); code = 2
    except Exception:
        traceback.print_exc(); code = 2
    finally:
        scr.close()
    sys.exit(code)

main()
