#!/opt/venv/bin/python
"""Run the generated-input check of one property: check.py ID [--tier quick|thorough] [--replay FILE] [--sub NAME] [--scale F].

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.  Anything else: error of the check.
"""
import os, sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'

ENV = {
    'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'NUMBA_NUM_THREADS': '2',
    'PYTHONDONTWRITEBYTECODE': '1', 'HDF5_USE_FILE_LOCKING': 'FALSE', 'MPLBACKEND': 'Agg'
}


def _bootstrap():
    want = dict(ENV)
    if any(os.environ.get(k) != v for k, v in want.items()) or 'PYTHONPATH' in os.environ or os.path.realpath(
            sys.prefix) != os.path.realpath('/opt/venv'):
        env = dict(os.environ)
        env.update(want)
        env.pop('PYTHONPATH', None)
        if env.get('VERIF_BOOT') == '1':
            raise SystemExit('bootstrap loop')
        env['VERIF_BOOT'] = '1'
        os.execve(VENV, [VENV, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)
    os.environ.pop('VERIF_BOOT', None)
    sys.path.insert(0, HERE)
    repo = os.environ.get('VERIF_REPO', '/repo')
    sys.path.insert(0, repo)


if __name__ == '__main__':
    _bootstrap()
    from pbt import core
    sys.exit(core.main(sys.argv[1:], HERE))
