import sys

from .checks import load
from .engine import main

load()
sys.exit(main(sys.argv[1:]))
