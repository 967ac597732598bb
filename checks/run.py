#!/opt/venv/bin/python
"""run.py PID [--tier quick|thorough] [--seed N] [--only stream:index] [--replay file]"""
import os
import sys
if os.environ.get('PYTHONHASHSEED') != '0' or not os.environ.get('PYTHONDONTWRITEBYTECODE'):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    python = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
    os.execve(python, [python] + sys.argv, env)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import core
if __name__ == '__main__':
    code = core.main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
