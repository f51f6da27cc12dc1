#!/usr/bin/env python3
"""usage: check.py Cxx [--replay FILE]   (see DESIGN.md)"""
import glob, importlib.util, os, signal, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "lib"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import engine

# the programs under test start with the usual signal handling, however this was started (nohup ignores SIGHUP)
for n in (signal.SIGHUP, signal.SIGQUIT, signal.SIGTERM, signal.SIGUSR1, signal.SIGUSR2, signal.SIGALRM, signal.SIGCHLD, signal.SIGCONT, signal.SIGTSTP, signal.SIGTTIN, signal.SIGTTOU):
    signal.signal(n, signal.SIG_DFL)
if signal.getsignal(signal.SIGINT) == signal.SIG_IGN:
    signal.signal(signal.SIGINT, signal.default_int_handler)
signal.pthread_sigmask(signal.SIG_SETMASK, [])

cid = sys.argv[1]
path = glob.glob(os.path.join(here, "checks", cid + "_*.py"))[0]
spec = importlib.util.spec_from_file_location(cid, path)
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
rc = engine.main(mod.CHECK)
sys.stdout.flush()
sys.exit(rc)
