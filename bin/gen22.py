"""Generates the exhaustively enumerated invocations of frozen_map! for the check of C22."""
import itertools
import os

INTS = {"u8": 8, "i8": -8, "u16": 16, "i16": -16, "u32": 32, "i32": -32, "u64": 64, "i64": -64, "u128": 128, "i128": -128}


def bounds(bits):
    return (0, (1 << bits) - 1) if bits > 0 else (-(1 << (-bits - 1)), (1 << (-bits - 1)) - 1)


def rs(s):
    """A Rust string literal."""
    o = '"'
    for c in s:
        if c in '"\\':
            o += "\\" + c
        elif 32 <= ord(c) < 127:
            o += c
        else:
            o += "\\u{%x}" % ord(c)
    return o + '"'


class Gen:
    def __init__(self):
        self.cases = {}  # scenario -> [(description, code)]

    def put(self, scn, macro_ty, keys, check, lits=None, sep=", ", end="", body=None):
        """One invocation: keys are the literals which the result is compared with, lits those in the invocation."""
        lits = lits or keys
        inv = "frozen_map!(%s, %s%s)" % (macro_ty, sep.join("%s: v(%d)" % (k, i) for i, k in enumerate(lits)), end)
        if body:
            inv = body % inv
        code = "%s[%s], %s)" % (check, ", ".join(keys), inv)
        self.cases.setdefault(scn, []).append((inv, code))

    def ints(self, scn, ty, keys, **k):
        if keys and len(set(keys)) == len(keys):
            self.put(scn, ty, [str(x) for x in keys], "by_key!(%s, " % ty, **k)

    def strs(self, scn, keys, ty="&str", **k):
        if len(set(keys)) != len(keys) or not keys:
            return
        check = "by_string!(" if len(keys) >= 3 and ty == "&str" else "by_key!(&'static str, "
        self.put(scn, ty, [rs(x) for x in keys], check, **k)


def subsets(xs, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.combinations(xs, n)


def integers(g, thorough):
    for ty, bits in INTS.items():
        mn, mx = bounds(bits)
        size = abs(bits)
        w = 8 if thorough else 7
        windows = {
            "least": [mn + i for i in range(w)],
            "greatest": [mx - i for i in reversed(range(w))],
            "apart": [mn, mn + 1, -1 if mn < 0 else 2, 0 if mn < 0 else 3, 1 if mn < 0 else mx // 2, mx - 1, mx],
        }
        if mn < 0:
            windows["zero"] = [i - 3 for i in range(w)]
        else:
            windows["half"] = [mx // 2 - 3 + i for i in range(w)]
        for name, win in windows.items():
            scn = "%s/%s" % (ty, name)
            for s in subsets(win, 1, len(win)):
                g.ints(scn, ty, s)
                if len(s) > 1:
                    g.ints(scn, ty, s[::-1])
            for s in itertools.permutations(win[:5], 3):
                g.ints(scn, ty, s)
            for s in itertools.permutations(win[1:5], 4):
                g.ints(scn, ty, s)
            for s in itertools.permutations(win[2:4], 2):
                g.ints(scn, ty, s)
        # distances in powers of two
        dist = [1, 2, 3, 4, 16, 255, 256, 257] + [1 << e for e in (15, 16, 31, 32, 33, 63, 64, 65, 126, 127) if e < size]
        for a, b in itertools.product(dist, dist):
            for first in ((mn, -2, 0) if mn < 0 else (mn, 1)):
                s = [first, first + a, first + a + b]
                if s[2] <= mx:
                    g.ints(ty + "/gaps", ty, s)
                t = [mx, mx - a, mx - a - b]
                if t[2] >= mn and first == mn:
                    g.ints(ty + "/gaps", ty, t)
                if thorough:
                    for third in dist:
                        if s[2] + third <= mx:
                            g.ints(ty + "/gaps", ty, [s[2], s[0], s[1] + b + third, s[1]])
        # numbers of entries
        for n in [*range(1, 36 if thorough else 21), 62, 63, 64, 65, 100, 127, 128, 129, 253, 254, 255, 256, 257, 258]:
            for first, step in ((mn, 1), (mx - n + 1, 1), (mn + 2, 2), (mx - 3 * n, 3), (0, 1), (-(n // 2), 1), (1, 1), (1, 5)):
                s = [first + i * step for i in range(n)]
                if s[0] < mn or s[-1] > mx:
                    continue
                g.ints(ty + "/count", ty, s)
                if n > 2:
                    g.ints(ty + "/count", ty, s[::-1])
                    g.ints(ty + "/count", ty, s[n // 3:] + s[:n // 3])
                    # a range but for the last one
                    if s[-1] < mx:
                        g.ints(ty + "/count", ty, s[:-1] + [s[-1] + 1])
                    if n < 40 or n > 250:
                        # a range but for one in the middle
                        g.ints(ty + "/count", ty, s[:n // 2] + s[n // 2 + 1:])
        # how a literal can be written
        for s in ([1, 2, 3], [10, 16, 17], [100, 101], [9, 11, 13, 15], [8, 9, 10, 11, 12]):
            forms = [lambda x: hex(x), lambda x: "0X"[:1] + "x" + "%X" % x, lambda x: bin(x), lambda x: oct(x), lambda x: "%d%s" % (x, ty),
                     lambda x: "%d_%s" % (x, ty), lambda x: "1_0_0"[:0] + "_".join(str(x)) + "_", lambda x: "00%d" % x, lambda x: "0x_%x_%s" % (x, ty), str]
            for f, h in itertools.product(range(len(forms)), repeat=2):
                g.ints(ty + "/forms", ty, s, lits=[forms[(f, h)[i % 2]](x) for i, x in enumerate(s)])
            g.ints(ty + "/forms", ty, s, end=",")
            g.ints(ty + "/forms", ty, s, sep=" ")
            if mn < 0:
                g.ints(ty + "/forms", ty, [-x for x in s])
                for f in range(len(forms)):
                    g.ints(ty + "/forms", ty, [-x for x in s], lits=["-" + forms[f](x) for x in s])
                    g.ints(ty + "/forms", ty, [-x for x in s], lits=["- " + forms[f](x) for x in s])
    # byte literals and the like are literals of type u8, too
    for ty, lits in (("u8", ["b'a'", "b'b'", "b'c'", "b'z'", "b'\\0'", "b'\\xff'", "7"]),):
        val = {"b'a'": 97, "b'b'": 98, "b'c'": 99, "b'z'": 122, "b'\\0'": 0, "b'\\xff'": 255, "7": 7}
        for s in subsets(lits, 1, len(lits)):
            for t in (s, s[::-1]):
                g.ints("u8/bytes", ty, [val[x] for x in t], lits=list(t))
    # keys which are not literals, among literals
    for ty, bits in INTS.items():
        mn, mx = bounds(bits)
        for n in range(1, 6):
            for m in range(1 << n):
                for ks in ([3, 4, 5, 6, 7][:n], [9, 3, 27, 100, 1][:n]):
                    for form in ("{ %s }", "(%s - 1 + 1)", "id(%s)", "<%s>::MAX - %%d" % ty):
                        if m == 0 and form != "{ %s }":
                            continue
                        lits = [str(k) if not m >> i & 1 else form % k if "MAX" in form else form % ("%d%s" % (k, ty)) for i, k in enumerate(ks)]
                        keys = [k if not m >> i & 1 or "MAX" not in form else mx - k for i, k in enumerate(ks)]
                        g.ints(ty + "/exprs", ty, keys, lits=lits)
        # nothing but the named type says what type the keys have
        for n in (1, 2, 3, 4):
            for ks in ([mx - i for i in range(n)], [mn + i for i in range(n)], [mx - 2 * i for i in range(n)]):
                inv = "frozen_map!(%s, %s)" % (ty, ", ".join("%d: v(%d)" % (k, i) for i, k in enumerate(ks)))
                g.cases.setdefault(ty + "/untyped", []).append((inv, "|cx| { cx.tr(1); mc::ck!(%s.len() == %d, \"len()\"); Ok(()) }" % (inv, n)))
    for ty, (mn, mx) in (("usize", (0, (1 << 64) - 1)), ("isize", (-(1 << 63), (1 << 63) - 1))):
        for win in ([mn + i for i in range(6)], [mx - i for i in range(6)]):
            for s in subsets(win, 1, 6):
                g.ints(ty, ty, s)
        for n in (3, 4, 20, 254, 255, 256, 257):
            for step in (1, 7):
                g.ints(ty, ty, [i * step for i in range(n)])


def strings(g, thorough):
    pool = ["", "a", "b", "ab", "ba", "aa", "abc", "xbc", "a\u00e9", "\u00e9", "\u65e5\u672c", "A", "\"\\\n\0", "a rather long key, which is longer than all of the others"]
    for s in subsets(pool, 1, 5 if thorough else 4):
        g.strs("str/pool", s)
    for s in itertools.permutations(pool[:7], 3):
        g.strs("str/order", s)
    for s in itertools.permutations(pool[1:5], 4):
        g.strs("str/order", s)
    for s in itertools.permutations(pool[4:9], 2):
        g.strs("str/order", s)
    words = lambda ab, n: ["".join(w) for w in itertools.product(ab, repeat=n)]
    # all words of one length
    for s in subsets(words("ab", 2), 1, 4):
        g.strs("str/words2", s)
    for s in subsets(words("ab", 3), 3, 8 if thorough else 5):
        g.strs("str/words3", s)
    for s in subsets(words("abc", 2), 3, 5 if thorough else 4):
        g.strs("str/words2", s)
    # of all lengths
    for s in subsets([w for n in range(0, 4 if thorough else 3) for w in words("ab", n)], 3, 5 if not thorough else 4):
        g.strs("str/words", s)
    # words which differ at one place, with all that surrounds it
    for pre, post in itertools.product(["", "x", "xy", "prefix:", "\u00e9", "1234567890123456789012345678901234567890"], ["", "x", "yx", ":suffix", "\u00e9", "1234567890123456789012345678901234567890"]):
        for n in (3, 4, 5, 8):
            mid = ["k", "l", "m", "n", "o", "p", "q", "r"][:n]
            g.strs("str/fixes", [pre + m + post for m in mid])
            g.strs("str/fixes", [pre + m + post for m in mid] + ["other"])
            g.strs("str/fixes", [pre + m + post for m in mid] + [""])
            g.strs("str/fixes", [pre + m + post for m in mid] + [pre + post])
            g.strs("str/fixes", [pre + m * 2 + post for m in mid])
            g.strs("str/fixes", [pre + m + mid[-1 - i] + post for i, m in enumerate(mid)])
            g.strs("str/fixes", [pre * (i % 3) + m + post for i, m in enumerate(mid)])
            g.strs("str/fixes", [pre + m + post * (i % 3) for i, m in enumerate(mid)])
            # of pairwise different lengths
            g.strs("str/fixes", [pre + "m" * i + post for i in range(n)])
            g.strs("str/fixes", [pre + "m" * (i * i + 1) + post for i in range(n)][::-1])
    for n in [*range(1, 21), 63, 64, 65, 127, 128, 254, 255, 256, 257]:
        g.strs("str/count", ["%d" % i for i in range(n)])
        g.strs("str/count", ["%04d" % i for i in range(n)])
        g.strs("str/count", ["%04d" % (7919 * i % 10007) for i in range(n)])
        g.strs("str/count", ["k" * i for i in range(n)])
        g.strs("str/count", ["k%d-suffix" % i for i in range(n)])
    # how a literal can be written
    for s in (["a", "b\"c", "\u00e9"], ["a", "b"], ["x-a", "x-b", "x-c", "x-d"], ["\u00e9a", "\u00e9b", "\u00e9c"], ["1", "22", "333", "4444"]):
        forms = [rs, lambda x: 'r#"%s"#' % x, lambda x: 'r##"%s"##' % x, lambda x: '"' + "".join("\\u{%x}" % ord(c) for c in x) + '"',
                 lambda x: '"' + "".join("\\x%02x" % ord(c) if ord(c) < 128 else c for c in x) + '"',
                 lambda x: '"' + x.replace('"', '\\"') + '\\\n        "']
        for f, h in itertools.product(range(len(forms) - 1), repeat=2):
            g.strs("str/forms", s, lits=[forms[(f, h)[i % 2]](x) for i, x in enumerate(s)])
        g.strs("str/forms", s, end=",")
        g.strs("str/forms", s, sep=" ")
    # keys which are not literals, among literals
    for n in range(1, 5):
        for m in range(1 << n):
            for ks in (["a", "b", "c", "dd"][:n], ["x", "xx", "xxx", "xxxx"][:n], ["pre-1", "pre-2", "pre-3", "pre-4"][:n]):
                for form in ("{ %s }", "concat!(%s, \"\")", "id(%s)"):
                    g.strs("str/exprs", ks, lits=[form % rs(k) if m >> i & 1 else rs(k) for i, k in enumerate(ks)])
    for s in subsets(pool[:8], 1, 4):
        g.strs("str/static", s, ty="&'static str")
    for s in subsets(pool[:6], 1, 4):
        ks = [rs(x) for x in s]
        g.cases.setdefault("String", [])
        inv = "frozen_map!(String, %s)" % ", ".join("String::from(%s): v(%d)" % (k, i) for i, k in enumerate(ks))
        g.cases["String"].append((inv, "by_string!([%s], %s)" % (", ".join(ks), inv)))


def others(g, thorough):
    chars = ["'a'", "'b'", "'c'", "'\\0'", "'\\u{e9}'", "'\\u{10ffff}'", "'z'"]
    for s in subsets(chars, 1, 7):
        g.put("char", "char", list(s), "by_key!(char, ")
    for s in (["true"], ["false"], ["true", "false"], ["false", "true"]):
        g.put("bool", "bool", s, "by_key!(bool, ")
    tup = ["(%d, %d)" % (a, b) for a in range(3) for b in range(2)]
    for s in subsets(tup, 1, 6):
        g.put("tuple", "(u8, u8)", list(s), "by_key!((u8, u8), ")
        g.put("array", "[u8; 2]", [x.replace("(", "[").replace(")", "]") for x in s], "by_key!([u8; 2], ")
    opt = ["None", "Some(0)", "Some(1)", "Some(2)", "Some(7)"]
    for s in subsets(opt, 1, 5):
        g.put("option", "Option<u8>", list(s), "by_key!(Option<u8>, ")
    # an integer type by another name
    for s in subsets([0, 1, 2, 3, 4, 255], 1, 6):
        g.put("alias", "Alias", [str(x) for x in s], "by_key!(u8, ")
        g.put("path", "::std::primitive::u8", [str(x) for x in s], "by_key!(u8, ")
        g.put("parens", "u8", [str(x) for x in s], "by_key!(u8, ", body="{ let m = 5u8; let _ = m; let range = 1..2; let _ = range; (%s) }")


def surroundings(g):
    """The invocation in different surroundings; hand-written values."""
    keysets = {"u8": ["1", "2", "3"], "u16": ["1", "5", "9"], "i64": ["-1", "7"], "char": ["'a'", "'b'", "'c'"], "u32": ["4"]}
    for ty, ks in keysets.items():
        def case(desc, inv, keys=ks, ty=ty):
            g.cases.setdefault("surroundings", []).append((desc, "by_key!(%s, [%s], %s)" % (ty, ", ".join(keys), inv)))

        plain = ", ".join("%s: v(%d)" % (k, i) for i, k in enumerate(ks))
        # values which mention names the expansion might use itself
        for name in ("m", "map", "payload", "entries", "bh", "range", "result", "key", "value", "hasher", "table", "vec", "x", "k"):
            inv = "{ let %s = |i: u32| v(i); frozen_map!(%s, %s) }" % (name, ty, ", ".join("%s: %s(%d)" % (k, name, i) for i, k in enumerate(ks)))
            case(inv, inv)
        # moved values
        inv = "{ %s let r = frozen_map!(%s, %s); Unbox(r.iter().map(|(k, v)| (k.clone(), **v)).collect()) }" % (
            "".join("let b%d = Box::new(v(%d)); " % (i, i) for i in range(len(ks))), ty, ", ".join("%s: b%d" % (k, i) for i, k in enumerate(ks)))
        case(inv, inv)
        # values with control flow, blocks, closures and commas inside
        for form in ("{ let a = %d; v(a) }", "if true { v(%d) } else { 0 }", "match %d { i => v(i) }", "(|i| v(i))(%d)", "[v(%d), 1][0]", "(v(%d), 2).0", "u32::from(v(%d))",
                     "std::convert::identity::<u32>(v(%d))", "v(%d) & !0 | 0", "{ v(%d) }", "unsafe { v(%d) }", "*&v(%d)", "loop { break v(%d) }"):
            inv = "frozen_map!(%s, %s)" % (ty, ", ".join("%s: %s" % (k, form % i) for i, k in enumerate(ks)))
            case(inv, inv)
        # ? and return reach the function the invocation is in
        inv = "(|| -> Option<_> { Some(frozen_map!(%s, %s)) })().unwrap()" % (ty, ", ".join("%s: Some(v(%d))?" % (k, i) for i, k in enumerate(ks)))
        case(inv, inv)
        # an invocation within a value
        inv = "frozen_map!(%s, %s)" % (ty, ", ".join("%s: *frozen_map!(u8, 9: v(%d)).get(&9u8).unwrap()" % (k, i) for i, k in enumerate(ks)))
        case(inv, inv)
        inv = "frozen_map!(%s, %s)" % (ty, ", ".join("%s: frozen_map!(&str, \"a\": 1, \"b\": 2, \"c\": 3, \"dd\": v(%d))[String::from(\"dd\")]" % (k, i) for i, k in enumerate(ks)))
        case(inv, inv)
        for head in ("frozen_map!", "frozen_collections::frozen_map!", "::frozen_collections::frozen_map!"):
            for o, c in ("()", "[]", "{}"):
                inv = "{ %s%s%s, %s%s }" % (head, o, ty, plain, c)
                case(inv, inv)


HEAD = """#![allow(warnings)]
#[path = "../support.rs"]
mod support;
use frozen_collections::frozen_map;
use frozen_collections::traits::len::Len;
use support::{v, Unbox};
type Alias = u8;
fn id<T>(x: T) -> T {
    x
}

fn main() {
    let mut c = mc::Ctx::from_args();
"""


def generate(root, tier, parts):
    """Writes src/bin/gNN.rs; returns {(file, line): description} and the number of cases."""
    g = Gen()
    thorough = tier == "thorough"
    integers(g, thorough)
    strings(g, thorough)
    others(g, thorough)
    surroundings(g)
    # scenarios are cut into pieces which are spread over the binaries
    bins = [[] for _ in range(parts)]
    load = [0] * parts
    pieces = []
    for scn, cs in g.cases.items():
        step = 150
        for i in range(0, len(cs), step):
            pieces.append(("%s.%d" % (scn, i // step), cs[i:i + step]))
    pieces.sort(key=lambda p: -sum(len(c[1]) for c in p[1]))
    for p in pieces:
        at = load.index(min(load))
        bins[at].append(p)
        load[at] += sum(len(c[1]) + 300 for c in p[1])
    where, total = {}, 0
    os.makedirs(os.path.join(root, "src", "bin"), exist_ok=True)
    for b, ps in enumerate(bins):
        name = "g%02d.rs" % b
        out = [HEAD]
        line = HEAD.count("\n") + 1
        for scn, cs in ps:
            out.append("    c.scenario(%s, |c| part_%s(c));\n" % (rs(scn), "".join(ch if ch.isalnum() else "_" for ch in scn)))
            line += 1
        out.append("    c.finish();\n}\n")
        line += 2
        for scn, cs in ps:
            out.append("fn part_%s(c: &mut mc::Ctx) {\n" % "".join(ch if ch.isalnum() else "_" for ch in scn))
            line += 1
            for desc, code in cs:
                assert "\n" not in code
                out.append("    c.case(|| %s.to_string(), %s);\n" % (rs(desc[:3000]), code))
                where[(name, line)] = desc
                line += 1
                total += 1
            out.append("}\n")
            line += 1
        text = "".join(out)
        p = os.path.join(root, "src", "bin", name)
        if not os.path.exists(p) or open(p).read() != text:
            open(p, "w").write(text)
    return where, total


def summary(scenarios):
    """The number of cases per group of scenarios."""
    res = {}
    for k, n in scenarios.items():
        k = k.rsplit(".", 1)[0]
        res[k] = res.get(k, 0) + n
    return dict(sorted(res.items()))
