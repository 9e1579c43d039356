#!/opt/venv/bin/python
"""Entry point of every check:  run.py <property> [--thorough] [--replay FILE]

exit 0  the property held on every execution observed
exit 1  violated; prints 'VIOLATION property=<id> replay=<path>'
exit 2  inconclusive (a required monitor observed nothing, a worker died, watchdog)
"""
import os
import sys

# settings that have to be in place before numpy is imported
if os.environ.get('KMV_CHILD') != '1':
    env = dict(os.environ, KMV_CHILD='1', PYTHONHASHSEED='0',
               PYTHONDONTWRITEBYTECODE='1',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')
    for var in ('PYTHONPATH', 'PYTHONWARNINGS', 'PYTHONOPTIMIZE', 'PYTHONSTARTUP'):
        env.pop(var, None)
    os.execve('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv, env)

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('KMV_REPO', '/repo')
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)

from kmv import core  # noqa

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:], verif=VERIF, repo=REPO))
