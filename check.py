#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property; see DESIGN.md."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib
import props


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        sys.exit(props.CHECKS[prop](prop, tier))
    except vlib.CodeFailure as e:
        sys.exit(vlib.failed(prop, tier, str(e)))
    except vlib.ToolError as e:
        print("TOOL-ERROR property=%s: %s" % (prop, e))
        sys.exit(2)


if __name__ == "__main__":
    main()
