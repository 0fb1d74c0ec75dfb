"""Runs snippets against the real Python package on behalf of c21.cc.

Reads one line of Python per request and answers with a line "ok N" or
"err N" followed by N bytes: what the snippet put in `out`, or the error.
"""
import sys
import types

sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
# The compiled extension is not available; the package only re-exports it.
sys.modules["symbolic.pysymbolic"] = types.ModuleType("symbolic.pysymbolic")
import symbolic  # noqa: E402
import symbolic.problem  # noqa: E402

NAMES = {k: getattr(symbolic, k) for k in ("Problem", "_P", "_and", "_or", "_not", "_forall", "_exists",
                                           "_when", "parse_proposition", "parse_head", "parse_args")}
NAMES["pprint_formula"] = symbolic.problem.pprint_formula

stdin = sys.stdin
stdout = sys.stdout.buffer
for line in stdin:
    env = dict(NAMES)
    try:
        exec(line.replace("\x1f", "\n"), env)
        tag, text = "ok", env["out"]
    except Exception as e:  # reported to the harness
        tag, text = "err", "%s: %s" % (type(e).__name__, e)
    data = text.encode()
    stdout.write(b"%s %d\n" % (tag.encode(), len(data)) + data)
    stdout.flush()
