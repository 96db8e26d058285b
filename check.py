#!/usr/bin/env python3
"""check.py P01: decide one property on /repo's working tree. See DESIGN.md."""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core  # noqa: E402


def ended(c):
    """The check could not go on. What it found before stands."""
    return c.finish() if c.violations else 2


def main():
    pid = sys.argv[1]
    import registry

    c = core.Check(pid)
    try:
        c.build()
        registry.CHECKS[pid](c)
        return c.finish()
    except core.ToolError as e:
        core.log(f"{pid}: ERROR of the check: {e}")
        return ended(c)
    except Exception:
        traceback.print_exc()
        return ended(c)
    finally:
        c.cleanup()


if __name__ == "__main__":
    sys.exit(main())
