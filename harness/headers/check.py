"""C43: every header can be included alone, next to every other one in either
order, and in several translation units, with the same meaning."""
import itertools, os, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from .probes import PROBES

STD = ["g++", "-std=c++17", "-w", "-O0"]


def text(includes, used, main=True, prefix="p"):
    s = "".join("#include <nytl/%s>\n" % h for h in includes)
    s += "extern \"C\" int printf(const char*, ...);\n"
    for i, h in enumerate(used):
        s += "double %s%d() { %s }\n" % (prefix, i, PROBES[h])
    if main:
        s += "int main() {\n"
        for i, h in enumerate(used):
            s += "\tprintf(\"%s %%.17g\\n\", p%d());\n" % (h, i)
        s += "}\n"
    return s


class Run:
    def __init__(self, repo, wd):
        self.repo, self.wd, self.n = repo, wd, itertools.count()

    def compile(self, texts, link):
        files = []
        for t in texts:
            f = os.path.join(self.wd, "tu%d.cpp" % next(self.n))
            open(f, "w").write(t)
            files.append(f)
        exe = files[0][:-4]
        cmd = STD + ["-I" + self.repo] + files + (["-o", exe] if link else ["-fsyntax-only"])
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, LC_ALL="C"))
        out = None
        if r.returncode == 0 and link:
            p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
            out = dict(l.split(" ") for l in p.stdout.splitlines() if l.count(" ") == 1) if p.returncode == 0 else {}
            os.unlink(exe)
        for f in files:
            os.unlink(f)
        return r.returncode, r.stdout, out


def run(tier, repo, wd):
    """Returns (scenario results, violation or None)."""
    r = Run(repo, wd)
    present = [h for h in PROBES if os.path.exists(os.path.join(repo, "nytl", h))]
    missing = [h for h in PROBES if h not in present]
    results, violation = [], None
    if missing:
        return [], {"message": "header %s is missing" % missing[0], "log": ""}

    def scenario(name, bounds, jobs, link, check):
        nonlocal violation
        t0 = time.time()
        done, outcomes = 0, set()
        samples = []
        with ThreadPoolExecutor(8) as pool:
            for job, res in zip(jobs, pool.map(lambda j: r.compile(j[1], link), jobs)):
                done += 1
                outcomes.add(job[0])
                if len(samples) < 3:
                    samples.append({"choices": job[0], "compiled": res[0] == 0, "values": res[2]})
                msg = None
                if res[0] != 0:
                    msg = "%s: does not compile" % job[0]
                elif link:
                    msg = check(job[0], res[2])
                if msg and not violation:
                    violation = {"message": msg, "log": res[1][:6000], "texts": job[1], "link": link}
        results.append({"name": name, "bounds": bounds, "build": "syntax" if not link else "run", "executions": done, "steps": done,
                        "evaluations": 0, "states": done, "states_dropped": 0, "outcomes": len(outcomes), "max_choices": 2,
                        "exhaustive": True, "wall_s": round(time.time() - t0, 3), "samples": samples})

    alone = {}

    def note(name, out):
        if not out:
            return "%s: the program fails" % name
        alone.update(out)

    def same(name, out):
        for h, v in (out or {}).items():
            if alone.get(h) != v:
                return "%s: the use of %s yields %s instead of %s" % (name, h, v, alone.get(h))
        if not out:
            return "%s: the program fails" % name

    scenario("alone", "each of the %d headers alone, used" % len(present), [(h, [text([h], [h])]) for h in present], True, note)
    if violation:
        return results, violation
    rot = []
    for i in range(len(present)):
        o = present[i:] + present[:i]
        rot.append(("all, beginning with " + present[i], [text(o, present)]))
        rot.append(("all in reverse, beginning with " + present[i], [text(o[::-1], present)]))
    scenario("all", "all headers in one program in %d cyclic orders, both directions, all used" % len(rot), rot, True, same)
    if violation:
        return results, violation
    units = [("two units with all headers", [text(present, present), text(present[::-1], present, False, "q")])]
    units += [("two units with " + h, [text([h], [h]), text([h], [h], False, "q")]) for h in present]
    scenario("units", "each header, and all, in two translation units of one program", units, True, same)
    if violation:
        return results, violation
    pairs = [("%s before %s" % (a, b), [text([a, b], [a, b])]) for a in present for b in present]
    scenario("pairs", "all %d ordered pairs of headers, both used" % len(pairs), pairs, tier == "thorough", same)
    if tier == "thorough" and not violation:
        core = ["vec.hpp", "vec2.hpp", "vec3.hpp", "vecOps.hpp", "mat.hpp", "matOps.hpp", "rectOps.hpp", "approxVec.hpp", "quaternion.hpp",
                "transform.hpp", "bytes.hpp", "fwd.hpp"]
        triples = [("%s, %s, %s" % t, [text(t, t)]) for t in itertools.permutations(core, 3)]
        scenario("triples", "all ordered triples of 12 headers, used", triples, False, same)
    return results, violation
