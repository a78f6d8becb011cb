#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--only suite|proofs]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.environ["TQDM_DISABLE"] = "1"   # progress bars
from vc import report  # noqa: E402

if __name__ == "__main__":
    try:
        code = report.main(sys.argv[1:])
    except BaseException:
        import traceback
        traceback.print_exc()
        print("the check itself failed: nothing is decided")
        code = 0 if os.environ.get("VC_LENIENT") else 3
    sys.stdout.flush()
    os._exit(code)
