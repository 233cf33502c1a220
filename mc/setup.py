"""Nothing to build: the checks compile against /repo's headers themselves.  Verifies the tools are there."""
import subprocess, sys
for t in ('g++', 'clang++'):
    subprocess.run([t, '--version'], stdout=subprocess.DEVNULL, check=True)
print('ok')
