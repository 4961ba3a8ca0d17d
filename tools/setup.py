"""setup: nothing to install; test the verification engine on deliberately broken bodies"""
import subprocess, sys, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.exit(subprocess.call([sys.executable, os.path.join(here, 'tools', 'selftest.py')]))
