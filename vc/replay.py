"""Re-run the failing input of a replay file on the real code."""
import json
import random
import sys
from vc import run, api


def main(p):
    r = json.load(open(p))
    cs = [c for c in run.load_props(r['property']) if c.name == r['contract']]
    g = api.ConcG(random.Random(0), r.get('inputs') or {})
    try:
        cs[0].fn(g)
    except api.Failure as f:
        print('FAILS', f.name, f.detail)
        return 1
    print('holds on this input')
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
