#!/usr/bin/env python3
"""run.py PROPERTY [--case NAME]: decides one property (tier and seed from VERIF_TIER and VERIF_SEED)."""
import importlib, os, signal, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if __name__ == "__main__":
    # Whatever started this may have had signals ignored or blocked, which would be inherited by everything that is run here
    for s in set(signal.Signals) - {signal.SIGKILL, signal.SIGSTOP, signal.SIGPIPE, signal.SIGINT}:
        if signal.getsignal(s) == signal.SIG_IGN:
            signal.signal(s, signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    m = importlib.import_module(sys.argv[1].lower())
    m.check().main(sys.argv[2:])
