#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--seed n] [--only job] [--replay file]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import run
sys.exit(run.main(sys.argv[1:]))
