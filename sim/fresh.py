"""One scenario in a fresh interpreter: outcome digests on stdout"""
import json
import sys

import core

core.install_seams()


def main():
    import scen
    from props import c01
    out = [c01.digests(scen.Scen(s).run().outcome())
           for s in json.load(sys.stdin)]
    print(json.dumps(out))


main()
