import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pv import runner
if __name__ == '__main__':
  rc = runner.main(sys.argv[1:])
  sys.stdout.flush()
  os._exit(rc)
