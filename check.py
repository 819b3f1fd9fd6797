#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [--tier quick|thorough] [-v]"""
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
threading.stack_size(1 << 29)
rc = [3]


def go():
    from flowlint.run import main
    rc[0] = main()


t = threading.Thread(target=go)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
