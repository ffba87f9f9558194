import sys
from . import core
sys.exit(core.main(sys.argv[1:]))
