#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]"""
import argparse, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import engine, props

a = argparse.ArgumentParser()
a.add_argument("prop"); a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
a.add_argument("--replay"); a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
o = a.parse_args()
sys.exit(engine.main(props.CHECKS[o.prop](), o.tier, o.seed, o.replay))
