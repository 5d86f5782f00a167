"""python3-vt run.py <property> | --replay <file>"""
import json
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")

if __name__ == "__main__":
    from engine import runner
    if sys.argv[1] == "--replay":
        import tempfile
        d = json.load(open(sys.argv[2]))
        with tempfile.TemporaryDirectory() as tmp:
            r = runner.replay(d["property"], [dict(instance=d["instance"], values=d["values"], keep=False)], tmp)[0]
        print(json.dumps(r, indent=1))
        sys.exit(1 if r["status"] == "fail" else 0)
    sys.exit(runner.main(sys.argv[1]))
