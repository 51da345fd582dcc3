import sys

from . import engine

if len(sys.argv) == 3 and sys.argv[1] == "worker":
    engine.worker(sys.argv[2])
elif len(sys.argv) == 4 and sys.argv[1] == "observe":
    engine.observe(sys.argv[2], sys.argv[3])
else:
    sys.exit("usage: python -m hvsim worker CONFIG | observe PLAN OUT")
