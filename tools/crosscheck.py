#!/usr/bin/env python3
"""Compare golden/golden.bin with whatever independent copies of the Unicode Character Database
the installed tools carry. Not part of any check: it says how far the recorded data can be trusted.

Full general categories: Java 17 (13.0), Python and Perl and older Go (15.0), regex-syntax (16.0),
Node's ICU and Go 1.27 (17.0). Assigned code points per version: regex-syntax's and Node's age
tables, golang.org/x/text's rangetable (9.0 to 13.0).
"""
import glob
import json
import os
import re
import struct
import subprocess
import sys
import tempfile
import unicodedata

HERE = os.path.dirname(os.path.abspath(__file__))
CATS = "Pe Pc Cc Sc Pd Nd Me Pf Cf Pi Nl Zl Ll Sm Lm Sk Mn Ps Lo No Po So Zp Co Zs Mc Cs Lt Cn Lu".split()
VERSIONS = "9.0 10.0 11.0 12.0 12.1 13.0 14.0 15.0 15.1 16.0 17.0".split()
N = 0x110000


def golden():
    b = open(os.path.join(HERE, "..", "golden", "golden.bin"), "rb").read()
    w = struct.unpack("<%dI" % (len(b) // 4), b)
    out = {}
    for k, v in enumerate(VERSIONS):
        first, n = w[2 * k], w[2 * k + 1]
        runs = [(x >> 5, CATS[x & 31]) for x in w[first:first + n]]
        l = []
        for (s, c), (e, _) in zip(runs, runs[1:] + [(N, "")]):
            l += [c] * (e - s)
        out[v] = l
    return out


def run(cmd, text=None):
    p = subprocess.run(cmd, input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return p.stdout.split() if p.returncode == 0 else None


def node():
    return run(["node", "-e", """
const cs = %s; const t = cs.map(c => new RegExp('^\\\\p{gc=' + c + '}$', 'u'));
const out = []; let last = 0;
for (let x = 0; x < 0x110000; x++) { const s = String.fromCodePoint(x);
  if (!t[last].test(s)) last = t.findIndex(r => r.test(s)); out.push(cs[last]); }
console.log(out.join('\\n'));""" % json.dumps(CATS)])


JAVA = """public class G { public static void main(String[] a) {
 String[] n = new String[31]; Object[][] t = {{1,"Lu"},{2,"Ll"},{3,"Lt"},{4,"Lm"},{5,"Lo"},{6,"Mn"},{7,"Me"},{8,"Mc"},{9,"Nd"},{10,"Nl"},{11,"No"},{12,"Zs"},{13,"Zl"},{14,"Zp"},{15,"Cc"},{16,"Cf"},{18,"Co"},{19,"Cs"},{20,"Pd"},{21,"Ps"},{22,"Pe"},{23,"Pc"},{24,"Po"},{25,"Sm"},{26,"Sc"},{27,"Sk"},{28,"So"},{29,"Pi"},{30,"Pf"},{0,"Cn"}};
 for (Object[] x : t) n[(Integer) x[0]] = (String) x[1];
 StringBuilder b = new StringBuilder(); for (int i = 0; i < 0x110000; i++) b.append(n[Character.getType(i)]).append('\\n');
 System.out.print(b); } }"""

GO = """package main
import ("bufio"; "fmt"; "os"; "unicode")
func main() { w := bufio.NewWriter(os.Stdout); defer w.Flush()
 for x := rune(0); x < 0x110000; x++ { c := "Cn"
  for n, t := range unicode.Categories { if len(n) == 2 && n != "Cn" && n != "LC" && unicode.Is(t, x) { c = n } }
  fmt.Fprintln(w, c) } }"""


def java(d):
    open(os.path.join(d, "G.java"), "w").write(JAVA)
    return run(["java", os.path.join(d, "G.java")])


def go(d, exe):
    open(os.path.join(d, "g.go"), "w").write(GO)
    return run([exe, "run", os.path.join(d, "g.go")])


def perl():
    return run(["perl", "-e", 'no warnings; use Unicode::UCD "charprop"; for $x (0..0x10ffff) { $c = chr $x; '
                'for ($last, %s) { next unless $_; $r = $re{$_} //= qr/\\A\\p{gc=$_}\\z/; if ($c =~ $r) { $last = $_; print "$_\\n"; last } } }'
                % ", ".join("'%s'" % c for c in CATS)])


def rust_char(s):
    g = re.match(r"\\u\{([0-9a-f]+)\}$", s)
    if g:
        return int(g.group(1), 16)
    esc = {"\\n": 10, "\\r": 13, "\\t": 9, "\\'": 39, "\\\\": 92, "\\0": 0}
    return esc[s] if s in esc else ord(s)


def regex_tables(name):
    path = glob.glob(os.path.expanduser("~/.cargo/registry/src/*/regex-syntax-*/src/unicode_tables/%s.rs" % name))[0]
    t = open(path).read()
    names = dict((b, a) for a, b in re.findall(r'\("([A-Za-z0-9_]+)", ([A-Z0-9_]+)\)', t))
    out = {}
    for const, body in re.findall(r"pub const ([A-Z0-9_]+): &'static \[\(char, char\)\] =\s*&\[(.*?)\];", t, re.S):
        out[names[const]] = [(rust_char(a), rust_char(b)) for a, b in re.findall(r"\('((?:\\u\{[0-9a-f]+\}|\\.|.))', '((?:\\u\{[0-9a-f]+\}|\\.|.))'\)", body)]
    return re.search(r"Unicode version: ([0-9]+\.[0-9]+)", t).group(1), out


def regex_syntax():
    long = dict(zip("""Close_Punctuation Connector_Punctuation Control Currency_Symbol Dash_Punctuation Decimal_Number Enclosing_Mark Final_Punctuation
        Format Initial_Punctuation Letter_Number Line_Separator Lowercase_Letter Math_Symbol Modifier_Letter Modifier_Symbol Nonspacing_Mark
        Open_Punctuation Other_Letter Other_Number Other_Punctuation Other_Symbol Paragraph_Separator Private_Use Space_Separator Spacing_Mark
        Surrogate Titlecase_Letter Unassigned Uppercase_Letter""".split(), CATS))
    v, t = regex_tables("general_category")
    out = ["Cs" if 0xD800 <= x <= 0xDFFF else None for x in range(N)]
    for name, ivs in t.items():
        if name in long:
            for a, b in ivs:
                for x in range(a, b + 1):
                    if not 0xD800 <= x <= 0xDFFF:
                        assert out[x] is None
                        out[x] = long[name]
    return v, out


def noncharacter(x):
    return x & 0xFFFE == 0xFFFE or 0xFDD0 <= x <= 0xFDEF


def rangetable(v):
    out = None
    for path in sorted(glob.glob(os.path.expanduser("~/go/pkg/mod/golang.org/x/text@*/unicode/rangetable/tables%s.0.go" % v))):
        t = open(path).read()
        g = re.search(r"var assigned%s = &unicode.RangeTable\{(.*?)\n\}" % (v.replace(".", "_") + "_0"), t, re.S)
        if g:
            out = {x for a, b, s in re.findall(r"\{(0x[0-9a-f]+), (0x[0-9a-f]+), ([0-9]+)\}", g.group(1)) for x in range(int(a, 16), int(b, 16) + 1, int(s))}
    return out


def main():
    g = golden()
    bad = 0

    def report(source, v, data):
        nonlocal bad
        if data is None or len(data) != N:
            print("%-28s %-5s not available" % (source, v))
            return
        d = [x for x in range(N) if g[v][x] != data[x]]
        bad += len(d)
        print("%-28s %-5s %s" % (source, v, "all 1114112 code points agree" if not d else "%d differ: %s" % (len(d), [("%04X" % x, g[v][x], data[x]) for x in d[:5]])), flush=True)

    def assigned(source, v, data):
        nonlocal bad
        mine = {x for x in range(N) if g[v][x] != "Cn"}
        other = {x for x in data if not noncharacter(x)}
        d = mine ^ other
        bad += len(d)
        print("%-28s %-5s %s" % (source, v, "assigned code points agree" if not d else "%d differ: %s" % (len(d), ["%04X" % x for x in sorted(d)[:5]])), flush=True)

    with tempfile.TemporaryDirectory() as d:
        report("Java", "13.0", java(d))
        report("Python", unicodedata.unidata_version[:4], [unicodedata.category(chr(x)) for x in range(N)])
        report("Perl", "15.0", perl())
        report("Go 1.23", "15.0", go(d, "go1.23"))
        report("regex-syntax", *regex_syntax())
        report("Node (ICU)", "17.0", node())
        report("Go 1.27", "17.0", go(d, "go"))
    top, ages = regex_tables("age")
    for v in VERSIONS:
        key = tuple(map(int, v.split(".")))
        if key <= tuple(map(int, top.split("."))):
            s = {x for n, ivs in ages.items() if tuple(map(int, n[1:].split("_"))) <= key for a, b in ivs for x in range(a, b + 1)}
            assigned("regex-syntax age", v, s | set(range(0xD800, 0xE000)))
    for v in VERSIONS:
        s = rangetable(v)
        if s:
            assigned("golang.org/x/text", v, s)
    # Which categories of already assigned characters changed, version by version: a handful, all in the release notes.
    for a, b in zip(VERSIONS, VERSIONS[1:]):
        d = [(x, g[a][x], g[b][x]) for x in range(N) if g[a][x] != g[b][x] and g[a][x] != "Cn"]
        for p, q in sorted({y[1:] for y in d}):
            print("changed in %-4s %s -> %s: %s" % (b, p, q, " ".join("%04X" % y[0] for y in d if y[1:] == (p, q))))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
