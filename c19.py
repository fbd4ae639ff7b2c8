"""C19: enumerates setups. Compile time verdicts of option lists and of members are
compared with the documented rules; permutations and wrappings of a setup are
compiled into c19.cpp and run against the plain setup and the reference model."""
import concurrent.futures as cf, itertools, os, re, subprocess, time

# symbol: (text, kind, matched characters)
SYM = {
    "Q": ("ss::quote<'\"'>", "quote", '"'), "Q2": ("ss::quote<'$'>", "quote", "$"),
    "E": ("ss::escape<'\\\\'>", "escape", "\\"), "E2": ("ss::escape<'^','\"'>", "escape", '^"'),
    "T": ("ss::trim<' '>", "trim", " "), "T2": ("ss::trim<'\\t',' ','\\\\'>", "trim", "\t \\"),
    "TL": ("ss::trim_left<' '>", "trim_left", " "), "TL2": ("ss::trim_left<' ','\"'>", "trim_left", ' "'),
    "TR": ("ss::trim_right<' '>", "trim_right", " "), "TR2": ("ss::trim_right<'\\\\',' '>", "trim_right", "\\ "),
    "M": ("ss::multiline", "multiline", ""), "M2": ("ss::multiline_restricted<2>", "multiline", ""),
    "SE": ("ss::string_error", "string_error", ""), "TE": ("ss::throw_on_error", "throw_on_error", ""),
    "IH": ("ss::ignore_header", "ignore_header", ""), "IE": ("ss::ignore_empty", "ignore_empty", ""),
    "X": ("int", "unknown", ""), "X2": ("std::string", "unknown", ""),
    "N": ("ss::escape<'\\\\','\\0'>", "escape", "\\\0"), "N2": ("ss::trim_right<'\\0',' '>", "trim_right", "\0 "),
    "N3": ("ss::trim<' ','\\0'>", "trim", " \0"),
    "M1": ("ss::multiline_restricted<1>", "multiline", ""),
}
TRIMS = ("trim", "trim_left", "trim_right")


def why_rejected(seq):
    """the documented rule which the list breaks, or None"""
    kinds = [SYM[s][1] for s in seq]
    if "unknown" in kinds:
        return "unknown option"
    if any("\0" in SYM[s][2] for s in seq):
        return "NUL as a matcher"
    for k in set(kinds):
        if kinds.count(k) > 1:
            return "duplicate " + k
    if "trim" in kinds and ("trim_left" in kinds or "trim_right" in kinds):
        return "ambiguous trim"
    if "string_error" in kinds and "throw_on_error" in kinds:
        return "string_error and throw_on_error"
    if "multiline" in kinds and not ("quote" in kinds or "escape" in kinds):
        return "multiline without quote or escape"
    chars = {}
    for s in seq:
        k = "trim" if SYM[s][1] in TRIMS else SYM[s][1]
        for c in SYM[s][2]:
            if chars.setdefault(c, k) != k:
                return "overlapping matchers"
    return None


def text(seq):
    return ", ".join(SYM[s][0] for s in seq)


# whole use of parsers and converters; everything the setup allows
USE = r'''
#include "pch.hpp"
#include <vector>
#include <variant>
struct tied_t { std::string a; int b; auto tied() { return std::tie(a, b); } };
struct made_t { made_t() = default; made_t(std::string, int) {} };
template <bool SE, bool TE, bool IH, bool MOD, typename... O> void use() {
    using P = ss::parser<O...>;
    P p{std::string("x")};
    P p2("x", 1, ";");
    (void)p.template get_next<std::string, int>();
    (void)p.template get_object<made_t, std::string, int>();
    (void)p.template get_next<tied_t>();
    (void)p.template get_next<std::tuple<std::string, std::optional<int>>>();
    p.ignore_next();
    for (auto& t : p.template iterate<std::string, int>()) (void)std::get<0>(t);
    for (auto& t : p.template iterate_object<tied_t, std::string, int>()) (void)t.a;
    (void)p.valid(); (void)p.eof(); (void)p.line(); (void)p.position();
    P p3(std::move(p)); p2 = std::move(p3);
    if constexpr (!IH) {
        (void)p2.header(); (void)p2.raw_header(); (void)p2.field_exists("a");
        p2.use_fields("a", std::string("b")); p2.use_fields(std::vector<std::string>{"a"});
    }
    if constexpr (SE) (void)p2.error_msg();
    if constexpr (!TE) {
        (void)p2.template try_next<int>([](int) { return true; }).on_error([] {}).template or_else<std::string>()
            .template or_object<tied_t, std::string, int>([](tied_t&) {}).values();
        (void)p2.template try_object<made_t, std::string, int>().template or_else<int, int>().values();
        if constexpr (SE) (void)p2.template try_next<int>().on_error([](const std::string&) {}).values();
    }
    ss::converter<O...> c, c2(c);
    std::conditional_t<MOD, char*, const char*> line = nullptr;
    (void)c.split(line); (void)c.split(line, ";"); (void)c.template convert<int, std::string>(line, ";;");
    (void)c.template convert<tied_t>(line); (void)c.template convert_object<made_t, std::string, int>(line);
    (void)c.template convert<int>(); (void)c.template convert_object<made_t, std::string, int>();
    (void)c.template convert<int>(c.split(line)); (void)c.valid(); (void)c.unterminated_quote();
    if constexpr (SE) (void)c.error_msg();
    c2 = c; c2 = std::move(c);
}
template <typename... O> struct light { static_assert(sizeof(ss::parser<O...>) + sizeof(ss::converter<O...>) > 0); };
'''


def flags_of(seq):
    k = [SYM[s][1] for s in seq]
    b = lambda v: "true" if v else "false"
    return "%s, %s, %s, %s" % (b("string_error" in k), b("throw_on_error" in k), b("ignore_header" in k), b("quote" in k or "escape" in k))


def use_line(seq, wrap=None):
    inner = text(seq)
    if wrap:
        inner = wrap % inner
    return "template void use<%s%s>();" % (flags_of(seq), ", " + inner if inner else "")


def light_line(seq):
    return "template struct light<%s>;" % text(seq)


class Compiler:
    def __init__(self, run):
        self.run = run
        self.dir = os.path.join(run.tmp, "c19")
        os.makedirs(self.dir, exist_ok=True)
        self.inc = ["-I" + os.path.join(run_repo(), "include"), "-I" + self.dir]
        with open(os.path.join(self.dir, "pch.hpp"), "w") as f:
            f.write("#include <ss/parser.hpp>\n#include <ss/converter.hpp>\n")
        with open(os.path.join(self.dir, "use.hpp"), "w") as f:
            f.write(USE)
        r = subprocess.run(["g++", "-std=c++17", "-w", "-O0", "-x", "c++-header", os.path.join(self.dir, "pch.hpp"),
                            "-o", os.path.join(self.dir, "pch.hpp.gch")] + self.inc[:1], capture_output=True, text=True)
        if r.returncode:
            from checks import CheckError
            raise CheckError("the headers do not compile: " + r.stderr[:3000])
        self.n = itertools.count()
        self.compiles = 0

    def lines(self, lines):
        """compiles the lines in one unit; returns the set of indices with errors"""
        path = os.path.join(self.dir, "u%d.cpp" % next(self.n))
        with open(path, "w") as f:
            f.write('#include "pch.hpp"\n#include "use.hpp"\n' + "\n".join(lines) + "\n")
        r = subprocess.run(["g++", "-std=c++17", "-w", "-O0", "-fsyntax-only", "-fmax-errors=0", "-fno-diagnostics-show-caret", path] + self.inc,
                           capture_output=True, text=True, errors="replace")
        bad = set()
        base = os.path.basename(path)
        stack = None
        for l in r.stderr.splitlines():
            m = re.match(r".*?%s:(\d+):(?:\d+:)?\s+(.*)" % re.escape(base), l)
            if m and int(m.group(1)) >= 3 and ("required from here" in m.group(2) or "error:" in m.group(2)):
                bad.add(int(m.group(1)) - 3)
        self.compiles += 1
        if r.returncode and not bad:
            bad = set(range(len(lines)))
        os.unlink(path)
        return bad, r.stderr

    def accepts(self, line):
        bad, err = self.lines([line])
        return not bad, err


def run_repo():
    return os.environ.get("SSP_REPO", "/repo")


def members():
    """(setup, statement(s), accepted) of members which some setups do not have"""
    pre = {"P": "ss::parser<%s> p{std::string()}; ", "C": "ss::converter<%s> c; "}
    out = []
    setups = [(), ("SE",), ("TE",), ("IH",), ("SE", "IH"), ("TE", "IH"), ("Q",), ("E",), ("Q", "M"), ("IE",), ("Q", "E", "TL", "TR", "M2", "SE", "IE"),
              ("T",), ("TE", "E", "M", "IE"), ("SE", "Q", "T", "IH", "IE"), ("Q", "M1", "IH", "TE")]
    for s in setups:
        k = [SYM[x][1] for x in s]
        se, te, ih, mod = "string_error" in k, "throw_on_error" in k, "ignore_header" in k, "quote" in k or "escape" in k
        for stmt, ok in (("(void)p.header();", not ih), ("(void)p.raw_header();", not ih), ('(void)p.field_exists("a");', not ih),
                         ('p.use_fields("a");', not ih), ("p.use_fields();", not ih), ("(void)p.error_msg();", se),
                         ("(void)p.template try_next<int>().values();", not te), ("(void)p.template try_object<std::string, std::string>();", not te),
                         ("(void)p.template try_next<int>().on_error([] {}).values();", not te),
                         ("(void)p.template try_next<int>().on_error([](const std::string&) {}).values();", not te and se),
                         ("(void)p.template try_next<int>().template or_else<std::string>([](const std::string&) {}).values();", not te),
                         ("(void)p.template get_next<void>();", False), ("(void)p.template get_next<void, void>();", False),
                         ("(void)p.template get_next<void, int>();", True), ("decltype(p) q = p;", False), ("decltype(p) q = std::move(p);", True),
                         ("(void)p.template get_next<std::vector<int>>();", False), ("(void)p.template get_next<ss::ax<int, 1, 2>, ss::ne<std::string>>();", True)):
            out.append((s, "P", stmt, ok))
        for stmt, ok in (("(void)c.error_msg();", se), ('const char* l = ""; (void)c.split(l);', not mod), ('const char* l = ""; (void)c.template convert<int>(l);', not mod),
                         ('char l[] = ""; (void)c.split(l);', True), ('char l[] = ""; (void)c.template convert<int, void>(l, ";");', True),
                         ("(void)c.template convert<void>();", False), ("decltype(c) d = c;", True), ("(void)c.template convert<std::variant<int, std::string>>();", True)):
            out.append((s, "C", stmt, ok))
    res = []
    for i, (s, what, stmt, ok) in enumerate(out):
        # a template, so that "required from" names the line; the statement is instantiated for one setup only
        line = "template <int> void m%d() { %s%s } template void m%d<0>();" % (i, (pre[what] % text(s)).replace("template ", ""), stmt.replace(".template ", "."), i)
        res.append((line, ok, "%s of <%s>: %s" % ("parser" if what == "P" else "converter", text(s), stmt)))
    return res


def valid_setups():
    for q in ((), ("Q",)):
        for e in ((), ("E",), ("E3",)):
            for t in ((), ("T",), ("TL",), ("TR",), ("TL", "TR")):
                for m in ((), ("M",), ("M2",)):
                    for er in ((), ("SE",), ("TE",)):
                        for ih in ((), ("IH",)):
                            for ie in ((), ("IE",)):
                                s = q + e + t + m + er + ih + ie
                                if not why_rejected(s):
                                    yield s


SYM["E3"] = ("ss::escape<'\\\\','^'>", "escape", "\\^")


def matcher_lists(thorough):
    """two matchers, every order of every choice of their characters"""
    chars = " #~" if not thorough else " #P~"
    lists = [c for n in (1, 2, 3) for c in itertools.permutations(chars, n)]
    lit = lambda k, c: "ss::%s<%s>" % (k, ",".join("'%s'" % x for x in c))
    for a in ("quote", "escape"):
        for b in ("escape",) * (a == "quote") + TRIMS:
            for la in lists if a == "escape" else [(c,) for c in chars]:
                for lb in lists:
                    why = "overlapping matchers" if set(la) & set(lb) else None
                    yield "%s, %s" % (lit(a, la), lit(b, lb)), why
    # longer lists, every position of the common character and of NUL
    code = lambda k, c: "ss::%s<%s>" % (k, ",".join("'\\x%02x'" % x for x in c))
    kinds = ("escape",) + TRIMS
    for n in range(2, 7):
        for i in range(n):
            for k in kinds:
                yield code(k, [0 if x == i else 48 + x for x in range(n)]), "NUL as a matcher"
    for n in range(1, 6):
        for m in range(1, 6):
            a, b = list(range(48, 48 + n)), list(range(65, 65 + m))
            for t in TRIMS:
                yield "%s, %s" % (code("escape", a), code(t, b)), None
            for i in range(n):
                for j in range(m):
                    t = TRIMS[(i + j) % 3]
                    yield "%s, %s" % (code("escape", a), code(t, b[:j] + [a[i]] + b[j + 1:])), "overlapping matchers"
                    if n == 1:
                        yield "%s, %s" % (code("quote", a), code(t, b[:j] + [a[i]] + b[j + 1:])), "overlapping matchers"
                        yield "%s, %s" % (code("quote", a), code("escape", b[:j] + [a[i]] + b[j + 1:])), "overlapping matchers"
    # every character
    for c in range(1, 256):
        o, p = (c + 100) % 255 + 1, (c + 128) % 255 + 1
        t = TRIMS[c % 3]
        for l in ([c], [o, c], [c, o]):
            yield "%s, %s" % (code("quote", [c]), code("escape", l)), "overlapping matchers"
            yield "%s, %s" % (code("quote", [c]), code(t, l)), "overlapping matchers"
            yield "%s, %s" % (code("escape", [p, c]), code(t, l)), "overlapping matchers"
        yield "%s, %s, %s" % (code("quote", [c]), code("escape", [o]), code(t, [p])), None


def permuted(thorough):
    """setups with their orders, to be compared at run time"""
    base = ["Q", "E", "T", "TL", "TR", "M", "M1", "SE", "TE", "IH", "IE"]
    groups = []
    for n in (1, 2, 3):
        for c in itertools.combinations(base, n):
            if why_rejected(c):
                continue
            perms = list(itertools.permutations(c))
            if n == 3 and not thorough:
                perms = [c, c[1:] + c[:1], c[2:] + c[:2], c[::-1]] if ("Q" in c or "E" in c) else [c, c[::-1]]
            groups.append((c, perms))
    big = [("Q", "E", "T", "M"), ("Q", "E", "TL", "TR"), ("E", "M1", "IE", "SE")]
    if thorough:
        big += [("Q", "TR", "M1", "IH"), ("Q", "M", "IE", "TE"), ("E", "TL", "M", "IH"), ("Q", "E", "SE", "IE"), ("Q", "E", "T", "M1", "IE")]
    for c in big:
        perms = list(itertools.permutations(c))
        if not thorough:
            perms = perms[::3]
        groups.append((c, [c] + [p for p in perms if p != c]))
    full = ("Q", "E", "TL", "TR", "M1", "SE", "IH", "IE")
    for f in (full, ("Q", "E", "T", "M", "TE", "IE")):
        rot = [f[i:] + f[:i] for i in range(len(f))]
        groups.append((f, rot + [r[::-1] for r in rot]))
    return groups


WRAPS = ["ss::setup<%s>", "std::tuple<%s>"]
NESTED = ["ss::setup<ss::setup<%s>>", "ss::setup<std::tuple<%s>>"]


def gen_header(path, groups):
    with open(path, "w") as f:
        f.write("static vector<group> make_groups() {\n    vector<group> g;\n")
        for c, perms in groups:
            k = [SYM[s][1] for s in c]
            mode = "STR" if "string_error" in k else "THR" if "throw_on_error" in k else "BOOL"
            ih = "true" if "ignore_header" in k else "false"
            alts = [text(p) for p in perms] + [w % text(c) for w in WRAPS] + [w % text(c) for w in (NESTED if len(c) > 2 else [])]
            f.write("    g.push_back({%s, cfg_of(opts<%s>{}), %s, {\n" % (cstr(" ".join(c)), text(c), mode))
            for a in alts:
                f.write("        {%s, &run<ss::parser<%s>, ss::converter<%s>, %s, %s>},\n" % (cstr("<" + a + ">"), a, a, mode, ih))
            f.write("    }});\n")
        f.write("    return g;\n}\n")


def cstr(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


PARTS = 16


def setup_parts(run):
    groups = permuted(run.tier == "thorough")
    n = PARTS if run.tier != "thorough" else 48
    buckets = [[] for _ in range(n)]
    load = [0] * n
    for g in sorted(groups, key=lambda g: -len(g[1])):
        i = load.index(min(load))
        buckets[i].append(g)
        load[i] += len(g[1]) + 3
    run.spec["parts"] = []
    for i, b in enumerate(buckets):
        d = os.path.join(run.tmp, "gen%d" % i)
        os.makedirs(d, exist_ok=True)
        gen_header(os.path.join(d, "gen.hpp"), b)
        run.spec["parts"].append({"src": "c19.cpp", "opt": "-O0", "flags": ["-I" + d], "shards": 2})
    run.extra["setups_run"] = len(groups)
    run.extra["orders_and_wrappings_run"] = sum(load)


def verdicts(run):
    th = run.tier == "thorough"
    comp = Compiler(run)
    syms = [s for s in SYM if s not in ("E3",)]
    cases = []  # (bulk line, confirmation line, accepted, description)
    seqs = []
    for n in (1, 2):
        seqs += list(itertools.product(syms, repeat=n))
    if th:
        seqs += list(itertools.product(syms, repeat=3))
        seqs += [c for c in itertools.combinations(syms, 4)]
    else:
        for c in itertools.combinations_with_replacement([s for s in syms if s not in ("N", "N2", "N3", "X2", "T2")], 3):
            seqs += [c, c[::-1]]
    seqs = list(dict.fromkeys(seqs))
    for s in seqs:
        why = why_rejected(s)
        cases.append((light_line(s), use_line(s), why is None, "setup <%s>%s" % (text(s), ", " + why if why else "")))
    for s in valid_setups():
        cases.append((use_line(s), use_line(s), True, "all members of setup <%s>" % text(s)))
        if len(s) in (2, 5, 7):
            for w in WRAPS:
                cases.append((use_line(s, w), use_line(s, w), True, "all members of setup " + w % text(s)))
    for line, ok, what in members():
        cases.append((line, line, ok, what))
    for s, why in matcher_lists(th):
        line = "template struct light<%s>;" % s
        cases.append((line, line, why is None, "setup <%s>%s" % (s, ", " + why if why else "")))
    wrapped_bad = [s for s in seqs if len(s) == 2 and why_rejected(s)]
    for s in wrapped_bad:
        for w in WRAPS:
            cases.append(("template struct light<%s>;" % (w % text(s)), "template struct light<%s>;" % (w % text(s)), False,
                          "setup %s, %s" % (w % text(s), why_rejected(s))))
    light = [i for i, c in enumerate(cases) if c[0].startswith("template struct")]
    heavy = [i for i, c in enumerate(cases) if not c[0].startswith("template struct")]
    chunks = []
    for ids, size in ((heavy, 40), (light, 100)):
        # accepted and rejected ones apart: errors must not hide others
        for want in (True, False):
            sel = [i for i in ids if cases[i][2] == want]
            n = (len(sel) + size - 1) // size
            chunks += [sel[k::n] for k in range(n)]  # neighbours share instantiations, which are diagnosed once
    doubtful = []

    def bulk(ids):
        bad, _ = comp.lines([cases[i][0] for i in ids])
        return [i for k, i in enumerate(ids) if (k not in bad) != cases[i][2]]
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(bulk, chunks):
            doubtful += r
        # instantiations shared between lines are diagnosed once only: decide these one by one
        found = []

        def single(i):
            ok, err = comp.accepts(cases[i][1])
            if ok != cases[i][2]:
                return i, err
            return None
        doubtful.sort(key=lambda i: not cases[i][2])
        for r in ex.map(single, doubtful):
            if r and len(found) < 5:
                i, err = r
                first = next((l for l in err.splitlines() if "error:" in l), "")
                found.append({"desc": cases[i][3] + (" is accepted by the compiler" if not cases[i][2] else " is rejected by the compiler: " + first[-300:]),
                              "line": cases[i][1], "accepted": cases[i][2]})
    run.extra.update({"compile_verdicts": len(cases), "verdicts_rejected": sum(not c[2] for c in cases), "decided_one_by_one": len(doubtful), "compilations": comp.compiles})
    return found


def explore(run, replay=None):
    if replay and "line" in replay:
        ok, err = Compiler(run).accepts(replay["line"])
        return [replay] if ok != replay["accepted"] else []
    setup_parts(run)
    if replay:
        from checks import CheckError
        run.prepare()
        run.bins = [None] * len(run.spec["parts"])
        run.bins[replay["part"]] = run.compile_part(replay["part"])
        desc, _ = run.confirm({"part": replay["part"], "shard": replay["shard"], "nshards": replay["nshards"], "rc": 0}, replay["case"])
        return [dict(replay, desc=desc)] if desc else []
    t = time.time()
    found = verdicts(run)
    run.extra["verdicts_s"] = round(time.time() - t, 1)
    try:
        run.compile_all()
        run.extra["compiled_after_s"] = round(time.time() - t, 1)
    except Exception:
        if found:
            run.results = []
            return found
        raise
    found += run.explore()
    return found
