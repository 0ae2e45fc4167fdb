"""setup_cmd: the framework is plain Python; make sure it and the code under test import."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else "python3"
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent")
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
code = "import sys; sys.path.insert(0, %r); import dst.env as e; e.install(); import pynmeagps; " \
       "from dst import kernel, icd, workload, drive; print('ok', pynmeagps.__file__, len(icd.corpus()))" % HERE
sys.exit(subprocess.call([PY, "-c", code], env=env, cwd=HERE))
