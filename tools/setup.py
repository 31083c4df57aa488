#!/usr/bin/env python3
"""Nothing is built: checks that the interpreters and the corpus are there."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for py in ('/opt/venv/bin/python', '/opt/venv-slow/bin/python'):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=HERE)
    subprocess.check_call([py, '-c', 'import pmv.engine, pmv.refmodel'], env=env, cwd=HERE)
assert os.path.exists(os.path.join(HERE, 'data', 'ru_words.txt'))
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
print('ok')
sys.exit(0)
