"""setup_cmd: the machinery is interpreted Python over clang/opt; check that the tools are there."""
import shutil, sys
for t in ('clang++-18', 'opt-18', 'python3'):
    if not shutil.which(t):
        sys.exit(f'missing {t}')
print('ok')
