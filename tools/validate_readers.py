#!/usr/bin/env python3
"""Cross-checks rendered literals with the real compilers and interpreters of the target languages.

usage: validate_readers.py <mc binary>
Prints one line per language: <language> <literals> <disagreements> [first disagreement]; languages
whose tools are missing or fail to run are reported with 'skip'."""
import json, os, shutil, subprocess, sys, tempfile
mc = sys.argv[1]
cases = {}
for l in subprocess.run([mc, "dump-literals"], stdout=subprocess.PIPE, check=True).stdout.decode().split('\n')[:-1]:
    la, text, lit = json.loads(l)
    cases.setdefault(la, []).append((text, lit))
tmp = tempfile.mkdtemp(prefix="vr-")
env = dict(os.environ, HOME=tmp, GOCACHE=tmp + "/gocache", GOFLAGS="-mod=mod", GO111MODULE="off", JAVA_TOOL_OPTIONS="-XX:+UseSerialGC")
env["HOME"] = tmp
def run(*a, **k):
    e = dict(env); e.update(k.pop("extra", {}))
    return subprocess.run(a, cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600, **k)
def write(n, s):
    with open(os.path.join(tmp, n), "w", encoding="utf-8", newline="") as f: f.write(s)
def hexs(b): return b.hex()
def u8(t): return hexs(t.encode("utf-8"))
def u16(t): return hexs(t.encode("utf-16-be"))
def report(la, got, enc):
    cs = cases[la]
    if len(got) != len(cs):
        print(la, len(cs), len(cs), "tool gave", len(got), "answers"); return
    bad = [(t, l, g) for (t, l), g in zip(cs, got) if enc(t) != g]
    print(la, len(cs), len(bad), repr(bad[0]) if bad else "")
def node():
    write("t.js", "for (const s of [\n%s]) { let o=''; for (let i=0;i<s.length;i++) o+=s.charCodeAt(i).toString(16).padStart(4,'0'); console.log('='+o) }\n" % "".join(l + ",\n" for _, l in cases["Js"]))
    r = run("node", "t.js"); assert r.returncode == 0, r.stderr[-400:]
    report("Js", [x[1:] for x in r.stdout.decode().splitlines()], u16)
    # and as templates
    write("t2.js", "for (const s of [\n%s]) { let o=''; for (let i=0;i<s.length;i++) o+=s.charCodeAt(i).toString(16).padStart(4,'0'); console.log('='+o) }\n" % "".join("`" + l[1:-1] + "`,\n" for _, l in cases["Js"]))
    r = run("node", "t2.js"); assert r.returncode == 0, r.stderr[-400:]
    report("Js", [x[1:] for x in r.stdout.decode().splitlines()], u16)
def python():
    write("t.py", "for s in [\n%s]: print('='+s.encode('utf-8','surrogatepass').hex())\n" % "".join(l + ",\n" for _, l in cases["Python"]))
    r = run(sys.executable, "-W", "error", "t.py"); assert r.returncode == 0, r.stderr[-400:]
    report("Python", [x[1:] for x in r.stdout.decode().splitlines()], u8)
def go():
    write("t.go", 'package main\nimport "fmt"\nvar a = []string{\n%s}\nfunc main() { for _, s := range a { fmt.Printf("=%%x\\n", s) } }\n' % "".join(l + ",\n" for _, l in cases["Go"]))
    r = run("go", "run", "t.go"); assert r.returncode == 0, r.stderr[-400:]
    report("Go", [x[1:] for x in r.stdout.decode().splitlines()], u8)
def c():
    write("t.c", '#include <stdio.h>\nstruct {const char*p; unsigned long n;} a[] = {\n%s};\nint main(void){for(unsigned long i=0;i<sizeof a/sizeof*a;i++){putchar(61);for(unsigned long j=0;j<a[i].n;j++)printf("%%02x",(unsigned char)a[i].p[j]);puts("");}}\n' % "".join("{%s, sizeof(%s)-1},\n" % (l, l) for _, l in cases["C"]))
    for cc in ("gcc", "clang"):
        if not shutil.which(cc): continue
        r = run(cc, "-Werror", "-Wno-invalid-source-encoding", "-o", "tc", "t.c"); assert r.returncode == 0, r.stderr[:400]
        r = run("./tc"); report("C", [x[1:] for x in r.stdout.decode().splitlines()], u8)
def java():
    out = []
    cs = cases["Java"]; n = 400
    parts = [cs[i:i + n] for i in range(0, len(cs), n)]
    src = "".join("class P%d { static String[] a = {\n%s}; }\n" % (i, "".join(l + ",\n" for _, l in p)) for i, p in enumerate(parts))
    src += "public class T { public static void main(String[] x) { String[][] all = {%s}; StringBuilder b = new StringBuilder(); for (String[] a : all) for (String s : a) { b.append('='); for (char c : s.toCharArray()) b.append(String.format(\"%%04x\", (int) c)); b.append('\\n'); } System.out.print(b); } }\n" % ",".join("P%d.a" % i for i in range(len(parts)))
    write("T.java", src)
    r = run("javac", "-encoding", "UTF-8", "T.java"); assert r.returncode == 0, r.stderr[-600:]
    r = run("java", "T"); report("Java", [x[1:] for x in r.stdout.decode().splitlines()], u16)
def rust():
    write("t.rs", '#![allow(text_direction_codepoint_in_literal)]\nfn main() { let a: &[&str] = &[\n%s]; for s in a { print!("="); for b in s.bytes() { print!("{:02x}", b); } println!(); } }\n' % "".join(l + ",\n" for _, l in cases["Rust"]))
    r = run("rustc", "--edition", "2021", "-o", "tr", "t.rs", extra={"HOME": os.environ.get("HOME", "/root")}); assert r.returncode == 0, r.stderr[-600:]
    r = run("./tr"); report("Rust", [x[1:] for x in r.stdout.decode().splitlines()], u8)
try:
    for name, tool, f in [("Js", "node", node), ("Python", sys.executable, python), ("Go", "go", go), ("C", "gcc", c), ("Java", "javac", java), ("Rust", "rustc", rust)]:
        if not shutil.which(tool):
            print(name, "skip", "no", tool); continue
        try: f()
        except AssertionError as e: print(name, len(cases[name]), len(cases[name]), "rejected:", e)
        except Exception as e: print(name, "skip", repr(e)[:200])
finally:
    shutil.rmtree(tmp, ignore_errors=True)
