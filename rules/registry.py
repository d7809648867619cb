"""Rule table, derived from props.py."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import props
RULES = {p["id"]: (p["mod"], p["fn"], p["rule"] + " Engine: " + props.ENGINE, p["assumptions"], p["floor"]) for p in props.P}
