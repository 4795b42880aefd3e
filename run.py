#!/opt/venv/bin/python
"""Runs one check: run.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import json
import os
import subprocess
import sys
import tempfile

if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('LC_ALL') != 'C.UTF-8' or os.environ.get('PYTHONDONTWRITEBYTECODE') != '1':
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8')
    os.execve(sys.executable, [sys.executable, *sys.argv], env)

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)

# Checks that watch, kill at, or fail file-changing calls run with a library preloaded that is built here.
checkId = next((a for a in sys.argv[1:] if a[:1] == 'C' and a[1:].isdigit()), '')
source = os.path.join(here, 'checks', checkId.lower() + '.py')
if checkId and os.path.exists(source) and '\nSHIM = True' in open(source).read() and 'RV_SHIM' not in os.environ:
    folder = tempfile.mkdtemp(prefix='rv-shim-', dir='/tmp')
    library = os.path.join(folder, 'shim.so')
    subprocess.run(['gcc', '-O1', '-fPIC', '-shared', '-o', library, os.path.join(here, 'rv', 'shim', 'shim.c'), '-ldl'], check=True)
    os.execve(sys.executable, [sys.executable, *sys.argv], dict(os.environ, LD_PRELOAD=library, RV_SHIM=library))
if 'RV_SHIM' in os.environ:  # It is loaded now.
    os.environ.pop('LD_PRELOAD', None)
    library = os.environ.pop('RV_SHIM')
    if os.path.exists(library):
        os.remove(library)
        os.rmdir(os.path.dirname(library))

if os.environ.get('RV_REPO'):  # development only: judge a scratch copy instead of /repo
    repo = os.environ['RV_REPO']
    sys.path.insert(0, repo)
    sys.path.insert(0, os.path.join(repo, 'core'))

from rv import core  # noqa: E402

parser = argparse.ArgumentParser()
parser.add_argument('check')
parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
parser.add_argument('--replay')
args = parser.parse_args()
replay = None
if args.replay:
    with open(args.replay) as file:
        replay = json.load(file)
sys.exit(core.run_check(args.check, args.tier, args.seed, replay))
