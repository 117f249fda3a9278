#!/usr/bin/env python3
"""replay.py FILE: re-execute a replay file on /repo's working tree; exit 1 when it fails as recorded."""
import os
import sys
import check


if __name__ == "__main__":
    check.reexec()
    sys.path.insert(0, check.HERE)
    from dst import engine
    try:
        code = engine.replay(sys.argv[1])
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
