import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import BUILD, Check, VERIF  # noqa

os.makedirs(f"{BUILD}/gen_partial", exist_ok=True)
with open(f"{BUILD}/gen_partial/main.rs", "w") as f:
    f.write("fn main() {}\n")
bad = 0
for crate in sorted(os.listdir(f"{VERIF}/harness")):
    if os.path.exists(f"{VERIF}/harness/{crate}/src/main.rs") or crate == "partial":
        try:
            Check("setup").build(crate)
            print("built", crate)
        except Exception as e:
            print(e, file=sys.stderr)
            bad = 1
sys.exit(bad)
