"""C21: compiles the lock-step explorer; a form of the library which does not even
compile where the headers do is a difference as well."""
import os, subprocess
from checks import CheckError

PROBE = r'''
#define SSP_DISABLE_FAST_FLOAT
#include PROBED
#include <string>
int main() {
    ss::parser<ss::string_error, ss::quote<'"'>, ss::escape<'\\'>, ss::trim<' '>, ss::multiline> p{std::string("x")};
    (void)p.get_next<int, double, std::string, ss::ax<int, 1>>();
    (void)p.try_next<bool>().or_else<char, std::optional<float>>().values();
    p.use_fields("a");
    ss::parser<ss::throw_on_error, ss::ignore_empty> q("a", 1);
    (void)q.get_next<std::variant<int, ss::int8>>();
}
'''


def probe(run, header):
    d = os.path.join(run.tmp, "probe")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, "p.cpp")
    with open(src, "w") as f:
        f.write(PROBE)
    r = subprocess.run(["g++", "-std=c++17", "-w", "-fsyntax-only", "-I" + os.path.join(repo(), "include"), "-DPROBED=" + header, src],
                       capture_output=True, text=True, errors="replace")
    return r.returncode == 0, r.stderr


def repo():
    return os.environ.get("SSP_REPO", "/repo")


def compiles(run):
    """differences visible without running anything"""
    ok, err = probe(run, "<ss/parser.hpp>")
    if not ok:
        raise CheckError("the headers do not compile: " + err[:2000])
    out = []
    for name, h in (("ssp.hpp", os.path.join(repo(), "ssp.hpp")), ("the regenerated header", os.path.join(run.tmp, "generated", "ssp.hpp"))):
        ok, err = probe(run, '"%s"' % h)
        if not ok:
            first = next((l for l in err.splitlines() if "error" in l), err[:200])
            out.append({"compile": True, "desc": "a program which compiles with the headers does not compile with %s: %s" % (name, first[:300])})
    return out


def explore(run, replay=None):
    try:
        run.prepare()
    except CheckError as e:
        run.results = []
        return [{"compile": True, "desc": str(e)}]
    if replay:
        if replay.get("compile"):
            return compiles(run)
        run.bins = [None] * len(run.spec["parts"])
        run.bins[replay["part"]] = run.compile_part(replay["part"])
        desc, _ = run.confirm({"part": replay["part"], "shard": replay["shard"], "nshards": replay["nshards"], "rc": 0}, replay["case"])
        return [dict(replay, desc=desc)] if desc else []
    found = compiles(run)
    if found:
        run.results = []
        return found
    run.compile_all()
    return run.explore()
