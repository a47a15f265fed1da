#!/usr/bin/env python3
"""mutate.py OUT [part/parts] - systematic small mutants of /repo's sources that
pass the existing tests, and which check (cheapest first) notices each."""
import os, re, subprocess, sys, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["zeropb.go", "offsets.go", "generate/generate.go", "generate/stringtree.go", "cmd/protoc-gen-zeropb/main.go", "cmd/protoc-gen-text/main.go"]
RT = "C04 C06 C18 C10 C14 C21 C12 C23 C13 C09 C24 C07 C20 C19 C01 C08 C26 C02 C03 C05 C25 C11".split()
GEN = "C22 C16 C17 C15".split()
SWAP = [("==", "!="), ("!=", "=="), ("<=", "<"), (">=", ">"), ("<", "<="), (">", ">="), ("&&", "||"), ("||", "&&"),
        ("+=", "-="), ("-=", "+="), ("+", "-"), ("-", "+"), ("|", "&"), ("&", "|"), ("<<", ">>"), (">>", "<<"), ("++", "--"), ("!", "")]
TOK = re.compile(r'//.*|/\*.*?\*/|`[^`]*`|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|<<|>>|==|!=|<=|>=|&&|\|\||\+=|-=|:=|\+\+|--|&\^|[-+<>|&!]|\b0x[0-9a-fA-F]+\b|\b\d+\b|\b(?:true|false|continue|break)\b', re.S)
def mutants(src):
    start = src.index("\nfunc ") if "\nfunc " in src else 0
    for m in TOK.finditer(src):
        t = m.group(0)
        if m.start() < start and not t.isdigit(): continue
        if t[0] in "/`\"'": continue
        for a, b in SWAP:
            if a == t: yield m.start(), m.end(), b
        if re.fullmatch(r"\d+", t):
            yield m.start(), m.end(), str(int(t) + 1)
            if int(t) > 0: yield m.start(), m.end(), str(int(t) - 1)
        if t in ("true", "false"): yield m.start(), m.end(), "false" if t == "true" else "true"
        if t == "continue": yield m.start(), m.end(), "break"
        if t == "break": yield m.start(), m.end(), "continue"
    # Statement deletion and condition forcing.
    pos = 0
    for line in src.splitlines(True):
        s = line.strip()
        if pos > start and line.startswith("\t") and s and not s.startswith(("//", "}", "case", "default", "if", "for", "switch", "func", "var", ")", "{", "`")) and not s.endswith(("{", "(", ",", "`")):
            yield pos, pos + len(line) - 1, "\t_ = 0"
        m = re.match(r"(\s*(?:\} else )?if )(?:[^;{]*; )?([^;{]+) \{$", line.rstrip("\n"))
        if pos > start and m:
            a = pos + line.rindex(m.group(2)); b = a + len(m.group(2))
            yield a, b, "(" + m.group(2) + ") && false" ; yield a, b, "(" + m.group(2) + ") || true"
        pos += len(line)
def sh(cmd, cwd, env=None, to=900):
    try: p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=to); return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired: return 124, "timeout"
def main():
    out = open(sys.argv[1], "a"); part, parts = map(int, (sys.argv[2] if len(sys.argv) > 2 else "0/1").split("/"))
    files = sys.argv[3].split(",") if len(sys.argv) > 3 else FILES
    d = tempfile.mkdtemp(prefix="mutants."); repo = d + "/repo"
    shutil.copytree("/repo", repo, symlinks=True); n = 0
    done = set(l.split(" |")[0] for l in open(sys.argv[1]) if " |" in l)
    try:
        for f in files:
            src = open("/repo/" + f).read()
            for a, b, r in mutants(src):
                n += 1
                if n % parts != part: continue
                line = src.count("\n", 0, a) + 1
                ls = src.rindex("\n", 0, a) + 1; le = src.index("\n", b)
                desc = "%s:%d:%d %s => %s" % (f, line, a - ls, src[ls:le].strip()[:70], (src[ls:a] + r + src[b:le]).strip()[:80])
                if desc in done: continue
                open(repo + "/" + f, "w").write(src[:a] + r + src[b:])
                rc, o = sh(". /opt/vp/env.sh; go build ./... && go test -vet=off ./... ", repo, to=120)
                if rc: open(repo + "/" + f, "w").write(src); continue
                res = "SURVIVED"
                for c in (GEN if "/" in f else RT):
                    rc, o = sh("%s/check %s quick" % (ROOT, c), ROOT, dict(os.environ, VERIF_REPO=repo))
                    if rc == 1: res = c; break
                    if rc: res = "rc%d %s" % (rc, c); break
                out.write("%s | %s\n" % (desc, res)); out.flush()
                open(repo + "/" + f, "w").write(src)
    finally: shutil.rmtree(d)
main()
