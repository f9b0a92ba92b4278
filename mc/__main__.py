"""python -m mc check C01 | python -m mc replay FILE | python -m mc all [quick|thorough]"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import engine


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == 'check':
        job = os.environ.get('VERIF_JOB')
        return engine.main(sys.argv[2], only_job=int(job) if job else None)
    if len(sys.argv) >= 3 and sys.argv[1] == 'replay':
        return engine.replay(sys.argv[2])
    if len(sys.argv) >= 2 and sys.argv[1] == 'all':
        import subprocess
        m = json.load(open(os.path.join(engine.VERIF, 'MANIFEST.json')))
        bad = 0
        for c in m['checks']:
            r = subprocess.call([sys.executable, '-m', 'mc', 'check', c['property']], cwd=engine.VERIF)
            bad |= r
        return bad
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
