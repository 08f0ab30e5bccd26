#!/opt/venv/bin/python
"""replay.py <replay.json>: run the recorded counterexample on the real code."""
import json
import sys
sys.path.insert(0, __file__.rsplit('/', 1)[0])
from engine.runner import Concrete
v = json.load(open(sys.argv[1]))
c = Concrete()
r = c.ask(op='run', module=v['module'], harness=v['harness'], params=v['params'], values=v['values'])
c.close()
print(json.dumps(r.get('fails', r), indent=1))
sys.exit(1 if r.get('fails') else 0)
