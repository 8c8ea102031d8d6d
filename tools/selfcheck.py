"""setup_cmd: nothing is compiled; verify that the interpreter, the project and Hypothesis are importable."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot

h = boot.setup()
import gym_anm

assert gym_anm.__file__.startswith(boot.REPO + "/"), gym_anm.__file__
print("hypothesis", h.__version__, "- gym_anm from", gym_anm.__file__)
