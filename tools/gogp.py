#!/usr/bin/env python3
"""gogp.py TEMPLATE OUT KEY=VALUE...: instantiates a gogp template (.gp): the directives
used in this repository (IFDEF/ELSE/ENDIF, ONCE, IGNORE, REPLACE, REQUIRE, GPGCFG).
A key with the value false counts as not defined.  REQUIREd templates are not pulled in."""
import re, sys

class Unsupported(Exception):
    pass

def reverse(text, defs):
    """Turns a fake go file (.gp.go) into its template (.gp): the text between FILE_BEGIN
    and FILE_END without the ignored parts, stand-in names replaced by placeholders."""
    out, on, ignore = ["<PACKAGE>"], "#GOGP_FILE_BEGIN" not in text, False
    for line in text.replace("\r\n", "\n").split("\n"):
        m = re.match(r"\s*//+\s*#(GOGP_[A-Z_]+)", line)
        d = m.group(1) if m else ""
        if d == "GOGP_FILE_BEGIN":
            on = True
        elif d == "GOGP_FILE_END":
            on = False
        elif d == "GOGP_IGNORE_BEGIN":
            ignore = True
        elif d == "GOGP_IGNORE_END":
            ignore = False
        elif on and not ignore:
            for k, v in defs.items():
                line = line.replace(v, "<%s>" % k)
            out.append(line)
    return "\n".join(out)

def instantiate(text, defs):
    out, stack, ignore, once = [], [], False, False
    defined = lambda k: defs.get(k.strip("<>"), "false") not in ("false", "")
    for line in text.replace("\r\n", "\n").split("\n"):
        m = re.match(r"\s*//+\s*#(GOGP_[A-Z_]+)(.*)", line)
        d = m.group(1) if m else ""
        arg = m.group(2).strip() if m else ""
        if d == "GOGP_IGNORE_BEGIN":
            ignore = True
        elif d == "GOGP_IGNORE_END":
            ignore = False
        elif ignore:
            pass
        elif d == "GOGP_IFDEF":
            stack.append(defined(arg))
        elif d == "GOGP_ELSE":
            stack[-1] = not stack[-1]
        elif d in ("GOGP_ENDIF", "GOGP_END_IF"):
            stack.pop()
        elif d == "GOGP_ONCE":
            once = True
        elif d in ("GOGP_END_ONCE", "GOGP_ONCE_END"):
            once = False
        elif not all(stack) or once and defs.get("ONCE") == "false" or d in ("GOGP_REQUIRE", "GOGP_FILE_BEGIN", "GOGP_FILE_END"):
            pass
        elif d == "GOGP_REPLACE":
            a, b = [x.strip() for x in arg.strip("()").split(",")]
            defs = dict(defs)
            defs[a.strip("<>")] = defs.get(b.strip("<>"), b)
        elif d and d != "GOGP_GPGCFG":
            raise Unsupported(line)
        else:
            line = re.sub(r"#GOGP_GPGCFG\((\w+)\)", lambda m: defs.get(m.group(1), ""), line)
            line = re.sub(r"<([A-Z][A-Z_]*)>", lambda m: defs[m.group(1)] if m.group(1) in defs else m.group(0), line)
            out.append(line)
    return "\n".join(out)

def sections(f):
    """The sections of a .gpg file (an ini file)."""
    out, cur = {}, None
    for l in open(f, encoding="utf-8", errors="replace"):
        l = l.strip()
        if l.startswith("["):
            cur = out.setdefault(l.strip("[]"), {})
        elif l and l[0] != ";" and "=" in l and cur is not None:
            k, v = l.split("=", 1)
            cur[k.strip()] = v.strip()
    return out

if __name__ == "__main__":
    defs = dict(a.split("=", 1) for a in sys.argv[3:])
    open(sys.argv[2], "w").write(instantiate(open(sys.argv[1], encoding="utf-8").read(), defs))
