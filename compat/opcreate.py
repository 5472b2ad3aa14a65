import re
def _split(args):
    out, depth, cur = [], 0, ""
    for ch in args:
        if ch in "(<{[": depth += 1
        if ch in ")>}]": depth -= 1
        if ch == "," and depth == 0:
            out.append(cur); cur = ""
        else:
            cur += ch
    if cur.strip(): out.append(cur)
    return [x.strip() for x in out]
def add_creates(s):
    out, pos = [], 0
    cls = None
    for m in re.finditer(r"^class (\w+) : public ::mlir::Op<.*\{\npublic:\n|^  static void build\(::mlir::OpBuilder ?& ?\w*, ::mlir::OperationState ?& ?\w*(?:, (.*?))?\);\n", s, re.M):
        if m.group(1):
            cls = m.group(1)
            out.append(s[pos:m.end()]); pos = m.end()
            out.append("  using Op::create;\n")
            continue
        if cls is None: continue
        if re.search(r'(?<!\w)(FuncOp|IntegerSet|::mlir::func::FuncOp) \w', m.group(2) or ''): continue
        args = _split(m.group(2) or "")
        names, ok = [], True
        for a in args:
            d = re.split(r"(?<![=<>!])=(?!=)", a, 1)[0].strip()
            n = re.search(r"(\w+)$", d)
            if not n or n.group(1) == d or d.endswith(("::" + n.group(1),)): ok = False; break
            names.append(n.group(1))
        if not ok: continue
        al = ", ".join(args); nl = "".join(", " + n for n in names)
        sep = ", " if al else ""
        out.append(s[pos:m.end()]); pos = m.end()
        out.append(f"  static {cls} create(::mlir::OpBuilder &compatB, ::mlir::Location compatL{sep}{al}) {{\n"
                   f"    ::mlir::OperationState st(compatL, getOperationName()); build(compatB, st{nl});\n"
                   f"    return ::llvm::cast<{cls}>(compatB.create(st)); }}\n")
        out.append(f"  static {cls} create(::mlir::ImplicitLocOpBuilder &compatB{sep}{al}) {{ return create(static_cast<::mlir::OpBuilder &>(compatB), compatB.getLoc(){nl}); }}\n")
    out.append(s[pos:])
    return "".join(out)
if __name__ == "__main__":
    import sys
    t = open(sys.argv[1]).read()
    open(sys.argv[1], "w").write(add_creates(t))
