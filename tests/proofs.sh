#!/bin/sh
# Checks the TLAPS proofs about the parser's memories (the thorough tier does so, too).
cd "$(dirname "$0")/.." && python3 -c '
from lib import engine
for m in ("FragProofs", "GsvProofs", "StatProofs", "ParserProofs"):
    p = engine.Proof(m)
    print("%s: %d obligations proved, %.1f s" % (m, p.obligations, p.wall))
engine.cleanup()'
