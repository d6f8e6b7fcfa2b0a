#!/usr/bin/env python3
"""Compares spec/data/ucd_runs.json with every source of general categories installed here.

Exact, code point by code point: Java 17 (13.0), Python and Perl (15.0), regex-syntax (16.0), Node and Go (17.0).
For the other versions: the assigned code points are those whose Age (Perl; regex-syntax) is not newer, and
the differences in category to the neighbouring checked version are listed.
"""
import glob
import json
import os
import re
import subprocess
import sys
import tempfile
import unicodedata

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ABBREV = ("Pe Pc Cc Sc Pd Nd Me Pf Cf Pi Nl Zl Ll Sm Lm Sk Mn Ps Lo No Po So Zp Co Zs Mc Cs Lt Cn Lu").split()
VERSIONS = "9.0.0 10.0.0 11.0.0 12.0.0 12.1.0 13.0.0 14.0.0 15.0.0 15.1.0 16.0.0 17.0.0".split()
N = 0x110000
runs = json.load(open(os.path.join(HERE, "spec/data/ucd_runs.json")))
table = {}
for v, rs in zip(VERSIONS, runs):
    t = [None] * N
    for lo, hi, c in rs:
        for x in range(lo, hi + 1):
            assert t[x] is None
            t[x] = ABBREV[c - 1]
    assert None not in t
    table[v] = t

bad = 0


def compare(v, name, t):
    global bad
    d = [c for c in range(N) if t[c] != table[v][c]]
    bad += len(d)
    print(f"{v}: {name}: {'equal' if not d else str(len(d)) + ' differences, first ' + hex(d[0])}")


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, check=True, **k).stdout.decode()


compare(unicodedata.unidata_version, "Python", [unicodedata.category(chr(c)) for c in range(N)])

with tempfile.TemporaryDirectory() as d:
    js = """const cats='%s'.split(' ');const out=new Array(0x110000).fill('Cn');
for(const k of cats){const r=new RegExp('^\\\\p{gc='+k+'}$','u');for(let c=0;c<0x110000;c++)if(r.test(String.fromCodePoint(c)))out[c]=k;}
console.log(process.versions.unicode+'.0 '+out.join(','))""" % " ".join(ABBREV)
    f = os.path.join(d, "a.js")
    open(f, "w").write(js)
    v, t = run(["node", f]).split()
    compare(v, "Node", t.split(","))
    f = os.path.join(d, "T.java")
    open(f, "w").write("""class T{public static void main(String[] a){StringBuilder s=new StringBuilder();
for(int c=0;c<0x110000;c++)s.append(Character.getType(c)).append(',');System.out.println(s);}}""")
    names = dict(zip([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 0],
                     "Lu Ll Lt Lm Lo Mn Me Mc Nd Nl No Zs Zl Zp Cc Cf Co Cs Pd Ps Pe Pc Po Sm Sc Sk So Pi Pf Cn".split()))
    compare("13.0.0", "Java", [names[int(x)] for x in run(["java", f]).strip().rstrip(",").split(",")])
    f = os.path.join(d, "a.go")
    open(f, "w").write("""package main
import ("fmt";"unicode";"strings")
func main(){out:=make([]string,0x110000)
for c:=range out{out[c]="Cn"}
for k,t:=range unicode.Categories{if len(k)==2&&k!="Cn"&&k!="LC"{for c:=range out{if unicode.Is(t,rune(c)){out[c]=k}}}}
fmt.Println(unicode.Version+" "+strings.Join(out,","))}
""")
    for g in ["/opt/veriftools/go1.23.12/bin/go", "go"]:
        try:
            v, t = run([g, "run", f], env=dict(os.environ, GOTOOLCHAIN="local", GOCACHE=os.path.join(d, "c"))).split()
        except (OSError, subprocess.CalledProcessError):
            continue
        compare(v, "Go", t.split(","))

perl = r"""my @c=qw(%s);my @o;for my $k (@c){my $r=qr/^\p{gc=$k}$/;for my $c(0..0x10ffff){next if defined $o[$c];no warnings;$o[$c]=$k if chr($c)=~$r}}
print join(',',@o),"\n";use Unicode::UCD qw(prop_invmap);my($l,$m)=prop_invmap('Age');for my $i(0..$#$l){print "$l->[$i] $m->[$i]\n"}""" % " ".join(ABBREV)
out = run(["perl", "-e", perl]).splitlines()
compare("15.0.0", "Perl", out[0].split(","))
age = ["NA"] * N
starts = [x.split() for x in out[1:]]
for (lo, a), nxt in zip(starts, starts[1:] + [[str(N), ""]]):
    for c in range(int(lo), min(N, int(nxt[0]))):
        age[c] = a


def num(s):
    return tuple(int(x) for x in re.findall(r"\d+", s))[:2]


# regex-syntax: 16.0 categories and ages
src = sorted(glob.glob(os.path.expanduser("~/.cargo/registry/src/*/regex-syntax-*/src/unicode_tables")))
age16 = None
if src:
    def tables(path):
        text = open(path).read()
        for m in re.finditer(r"pub const (\w+): &'static \[\(char, char\)\] =\s*&\[(.*?)\];", text, re.S):
            yield m.group(1), [tuple(unq(x) for x in p) for p in re.findall(r"\(('(?:\\.[^']*|[^'])'), ('(?:\\.[^']*|[^'])')\)", m.group(2))]

    def unq(s):
        s = s[1:-1]
        m = re.match(r"\\u\{([0-9a-f]+)\}", s)
        if m:
            return int(m.group(1), 16)
        if s.startswith("\\"):
            return ord({"n": "\n", "t": "\t", "r": "\r", "\\": "\\", "'": "'", "0": "\0"}[s[1]])
        return ord(s)

    long = dict(zip("CLOSE_PUNCTUATION CONNECTOR_PUNCTUATION CONTROL CURRENCY_SYMBOL DASH_PUNCTUATION DECIMAL_NUMBER ENCLOSING_MARK "
                    "FINAL_PUNCTUATION FORMAT INITIAL_PUNCTUATION LETTER_NUMBER LINE_SEPARATOR LOWERCASE_LETTER MATH_SYMBOL MODIFIER_LETTER "
                    "MODIFIER_SYMBOL NONSPACING_MARK OPEN_PUNCTUATION OTHER_LETTER OTHER_NUMBER OTHER_PUNCTUATION OTHER_SYMBOL "
                    "PARAGRAPH_SEPARATOR PRIVATE_USE SPACE_SEPARATOR SPACING_MARK SURROGATE TITLECASE_LETTER UNASSIGNED UPPERCASE_LETTER".split(), ABBREV))
    t = ["Cn"] * N
    for c in range(0xD800, 0xE000):
        t[c] = "Cs"   # char ranges cannot hold them
    for name, rs in tables(os.path.join(src[-1], "general_category.rs")):
        if name in long and name != "UNASSIGNED":
            for lo, hi in rs:
                for c in range(lo, hi + 1):
                    t[c] = long[name]
    compare("16.0.0", "regex-syntax", t)
    age16 = {}
    for name, rs in tables(os.path.join(src[-1], "age.rs")):
        for lo, hi in rs:
            for c in range(lo, hi + 1):
                age16[c] = num(name)

nonchar = {c for c in range(N) if 0xFDD0 <= c <= 0xFDEF or c % 0x10000 >= 0xFFFE}
for v in VERSIONS:
    k = num(v)
    if k <= (15, 0):
        want = {c for c in range(N) if num(age[c]) and num(age[c]) <= k} - nonchar
        name = "Perl's Age"
    elif k <= (16, 0) and age16:
        want = {c for c, a in age16.items() if a <= k} - nonchar | set(range(0xD800, 0xE000))
        name = "regex-syntax's Age"
    else:
        continue
    got = {c for c in range(N) if table[v][c] != "Cn"}
    bad += len(want ^ got)
    print(f"{v}: assigned by {name}: {'equal' if want == got else len(want ^ got)}")

for a, b in zip(VERSIONS, VERSIONS[1:]):
    d = [c for c in range(N) if table[a][c] != "Cn" and table[a][c] != table[b][c]]
    print(f"{a} -> {b}: {len(d)} assigned code points change category: " +
          ", ".join(f"{c:04X} {table[a][c]}->{table[b][c]}" for c in d[:12]) + (" ..." if len(d) > 12 else ""))
sys.exit(1 if bad else 0)
