#!/usr/bin/env python3
"""check.py <property>: decides the property's obligations on /repo's current sources."""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import threading
threading.stack_size(512 * 1024 * 1024)
sys.setrecursionlimit(400000)
from sa import driver


def main():
    rc = [3]

    def go():
        rc[0] = driver.main(sys.argv[1:])
    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0])


main()
