import sys
import logging
logging.disable(logging.CRITICAL)
from mc.core import main
sys.exit(main(sys.argv[1]))
