#!/usr/bin/env python3
"""mutate.py PROP FILE[:from-to] N [SEED]: small random source changes in a scratch copy of /repo; prints those the check of PROP misses.
A survey of what the checks see, not part of any check."""
import os, random, re, shutil, subprocess, sys
prop, spec, n = sys.argv[1], sys.argv[2], int(sys.argv[3]); seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
f, _, rng = spec.partition(":"); D = "/tmp/mut_" + prop; random.seed(seed)
if os.path.exists(D): shutil.rmtree(D)
subprocess.run(["cp", "-a", "/repo", D], check=True); P = os.path.join(D, f); src = open(P, newline="").read(); lines = src.split("\n")
a, b = (int(x) for x in rng.split("-")) if rng else (1, len(lines))
SUB = [(r" \+ ", " - "), (r" - ", " + "), (r"\+=", "-="), (r"-=", "+="), (r" \* ", " / "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r"==", "!="), (r"!=", "=="), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "2"), (r"\b2\b(?!\.)", "1"), (r"\b3\b(?!\.)", "2"), (r"&&", "||"), (r"\|\|", "&&"), (r"\band\b", "or"), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r"\.T\b", ""), (r"\.transpose\(\)", ""), (r"\+\+", "--"), (r"\bx\(\)", "y()"), (r"\b0\.5\b", "1.0"), (r"-1\b", "-2"), (r"\.copy\(\)", ""), (r"lmom", "amom"), (r"com_", "lmom_"), (r"(?<=[(\[,=])(\w+)\+1", r"\1"), (r"\bs\(\)", "z()"), (r"\bz\(\)", "s()"), (r"\btau\(\)", "kappa()"), (r"DEL", None)]
C = []
for i in range(a - 1, min(b, len(lines))):
    l = lines[i]; t = l.strip()
    if not t or t.startswith(("//", "#", "*", "/*", "'''", '"""', "import", "from", "def ", "class ", "print", "std::cout", "}", "{")): continue
    for r, s in SUB:
        if s is None:
            if re.match(r"^[\w.\[\]()>\-<:, *+]+\s*[-+*/]?=[^=].*;?$", t) and not t.startswith(("double", "int", "bool", "for", "if", "const", "Eigen")) or re.match(r"^[\w.\->]+\(.*\);?$", t): C.append((i, re.match(r"\s*", l).group(0) + ("pass" if f.endswith("py") else ";")))
        else:
            for m in re.finditer(r, l): C.append((i, l[:m.start()] + m.expand(s) + l[m.end():]))
random.shuffle(C); seen = set(); miss = k = 0
for i, nl in C:
    if k >= n: break
    if (i, nl) in seen or nl == lines[i]: continue
    seen.add((i, nl)); k += 1; x = list(lines); x[i] = nl; open(P, "w", newline="").write("\n".join(x))
    try: c = subprocess.run(["/verif/bin/check", prop, "--tier", "quick"], env=dict(os.environ, SX_REPO=D), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600); out, rc = c.stdout, c.returncode
    except subprocess.TimeoutExpired: out, rc = "", 99
    if rc != 1 and not (rc == 2 and re.search(r"error:|SyntaxError", out)):
        miss += 1; print("MISS%s rc=%d %s:%d  %s   ->   %s" % (" UNREPRO" if "not reproduced" in out else "", rc, os.path.basename(f), i + 1, lines[i].strip()[:110], nl.strip()[:110]), flush=True)
open(P, "w", newline="").write(src); print("%s: %d mutants, %d not caught" % (prop, k, miss)); shutil.rmtree(D); shutil.rmtree("/verif/out" + D.replace("/", "_"), ignore_errors=True)
