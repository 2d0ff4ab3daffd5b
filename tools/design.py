#!/usr/bin/env python3
"""Assemble DESIGN.md from doc/ (run by hand)."""
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = "\n".join(open(f"{H}/doc/{n}.md").read().rstrip() + "\n" for n in ("design_head", "design_props", "design_tail", "catches") if os.path.exists(f"{H}/doc/{n}.md"))
open(f"{H}/DESIGN.md", "w").write(out)
