#!/usr/bin/env python3
"""check.py <property>: decides one property (see DESIGN.md)."""
import importlib, os, signal, sys, traceback
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.path.insert(0, os.path.join(ROOT, "checks"))
sys.dont_write_bytecode = True
import vp

# (whoever started this may ignore signals, which programs would inherit)
for n in ("SIGINT", "SIGTERM", "SIGHUP", "SIGQUIT"):
    signal.signal(getattr(signal, n), signal.SIG_DFL)
signal.pthread_sigmask(signal.SIG_SETMASK, [])

GROUPS = {"C01": "template", "C02": "template", "C03": "template", "C04": "template", "C05": "loader", "C24": "loader",
          "C06": "source", "C07": "content", "C08": "content", "C09": "content", "C23": "source",
          "C10": "config", "C11": "cli", "C12": "make", "C13": "make", "C14": "make", "C15": "make", "C16": "make",
          "C17": "faults", "C18": "server", "C19": "server", "C20": "receiver", "C21": "receiver", "C22": "receiver", "C25": "publish"}


def main():
    prop = sys.argv[1]
    try:
        m = importlib.import_module("g_" + GROUPS[prop])
        rc = getattr(m, prop)()
    except vp.CheckError as e:
        vp.log("check error: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return rc


sys.exit(main())
