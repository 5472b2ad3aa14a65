#!/usr/bin/env python3
"""tdfix.py IN.td OUT.td: drops the operands that newer MLIR's arith float ops
have and MLIR 20's lack (rounding mode / denormal mode) from DRR patterns."""
import re, sys
s = open(sys.argv[1]).read()
s = re.sub(r"\$(fm\d*|fastmath\w*|_), ?\$(rm\d*|rounding\w*|_)\)", r"$\1)", s)
s = s.replace("DefFastMath, (GetNullAttr))", "DefFastMath)")
s = re.sub(r"(Arith_(?:UIToFP|ExtUI)Op[^,]*), \(GetNullAttr\)", r"\1", s)
#s = s.replace("(Math_ExpOp (Arith_NegFOp $x, $_), $_)", "(Math_ExpOp (Arith_NegFOp $x, $_), $_)")
open(sys.argv[2], "w").write(s)
