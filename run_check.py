"""Entry point: python3-vt -B run_check.py <property> [--tier quick|thorough] | --replay FILE"""

import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vse.run import main  # noqa: E402

sys.exit(main())
