"""Entry point: check.py <PROPERTY> [quick|thorough] [--replay FILE]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.append(os.path.join(HERE, "vendor"))
sys.path.insert(1, HERE)

from harness.runner import main  # noqa: E402

if __name__ == "__main__":
    if sys.argv[1:] == ["--selftest"]:
        import hypothesis
        import libecalc.presentation.yaml.model  # noqa: F401

        print("hypothesis", hypothesis.__version__, "code from", os.environ.get("VERIF_REPO"))
        sys.exit(0)
    main(sys.argv[1:])
