"""C24: the derive's work and output stay proportionate to the annotated item.

Every growing family of items, and every nesting of up to two (thorough: three) expression or
type forms, is expanded by the real derive at sizes that double; the number of tokens may at most
grow with the item and no item may take longer than a limit an exponential cannot meet."""
import concurrent.futures as cf
import itertools, os, subprocess
from .core import Check, Host, log, MachineryError, clean_env, JOBS
from .growth import ITEMS, EXPRS, TYPES, arg

SIZES = (4, 8, 16, 32, 64, 128)


def chunks(l, n):
    return [l[i::n] for i in range(n)]


def run(tier=None):
    c = Check("C24", "model_checking", tier)
    th = c.thorough
    hosts = [Host("full").build(), Host("min").build()]
    fams = []        # (name, [items of doubling size], linear)
    big = SIZES + ((256, 512, 1024, 2048) if th else (256, 512))
    for k, f in ITEMS.items():
        fams.append(("items/" + k, [f(n) for n in big]))
    shapes = ['#[error("{0:?}")] struct S<T>(%s);', '#[error("m")] struct S<T>(#[source] %s);', 'enum S<T> { #[error("{x}")] A { x: %s }, #[error(transparent)] B(#[from] u8) }']
    nest = (4, 8, 16, 32, 64) if th else (4, 8, 16, 32)
    for r in (1, 2, 3) if th else (1, 2):
        for names in itertools.product(TYPES, repeat=r):
            a, b = "".join(TYPES[x][0] for x in names), "".join(TYPES[x][1] for x in reversed(names))
            for s in shapes[:1] if r == 3 else shapes:
                fams.append(("type/" + " in ".join(names), [s % (a * n + "T" + b * n) for n in nest]))
    for r in (1, 2, 3) if th else (1, 2):
        pool = EXPRS if r < 3 else [k for k in EXPRS if k in ("turbofish", "half turbofish", "cast", "half cast", "qself", "less", "angle", "closure", "typed closure", "returning closure", "pipe", "if", "if if", "match", "if let", "for", "hrtb closure", "return", "let", "label", "range", "unary", "attr", "comma")]
        for names in itertools.product(pool, repeat=r):
            a, b = "".join(EXPRS[x][0] for x in names), "".join(EXPRS[x][1] for x in reversed(names))
            for e in ("b", ".0") if r < 3 else (".0",):
                fams.append(("argument/" + " in ".join(names) + "/" + e, [arg(a * n + e + b * n) for n in nest]))
    c.count(sum(len(f[1]) for f in fams))
    log("[C24] %d families" % len(fams))
    outcomes, total = set(), 0
    slow = 0

    def one(job):
        host, part = job
        lines = [x for _, xs in part for x in xs]
        rows = []
        p = subprocess.run([host.exe, "size"], input="".join(l + "\n" for l in lines), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=clean_env(), timeout=850)
        stuck = None
        for l in p.stdout.split("\n")[:-1]:
            x = l.split("\t")
            if x[0] == "BAD":
                stuck = x[2]
                break
            rows.append((x[0], int(x[1]), int(x[2]), int(x[3])))
        if len(rows) != len(lines) and stuck is None:
            stuck = "the derive ends with %s: %s" % (p.returncode, p.stderr[-300:])
        return rows, stuck
    jobs = [(h, part) for h in hosts for part in chunks(fams, JOBS * 4) if part]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for (host, part), (rows, stuck) in zip(jobs, ex.map(one, jobs)):
            i = 0
            for name, xs in part:
                mine = rows[i:i + len(xs)]
                i += len(xs)
                total += len(mine)
                if len(mine) < len(xs):
                    if stuck:
                        c.direct_violation("%s (%s)" % (name, host.kind), "an item of %d bytes: %s" % (len(xs[len(mine)]), stuck), [], "//@size\n" + xs[len(mine)] + "\n")
                    break
                slow = max([slow] + [r[3] for r in mine])
                if any(r[0] == "P" for r in mine):
                    c.direct_violation("%s (%s)" % (name, host.kind), "the derive panics", [], "//@size\n" + xs[0] + "\n")
                    continue
                # tokens that each token of the item may cost, from the differences at the doublings
                for k in range(1, len(mine) - 1):
                    (s0, a0, b0, _), (s1, a1, b1, _), (s2, a2, b2, _) = mine[k - 1:k + 2]
                    if s0 != s1 or s1 != s2:
                        continue
                    d1, d2 = b1 - b0, b2 - b1        # twice the step: linear growth doubles the difference
                    outcomes.add((name.split("/")[0], s2, b2))
                    if d2 > 3 * max(d1, 0) + 64:
                        c.direct_violation("%s (%s)" % (name, host.kind), "the expansion grows out of proportion: items of %d, %d, %d tokens give %d, %d, %d" % (a0, a1, a2, b0, b1, b2), [], "//@size\n" + "\n".join(xs[k - 1:k + 2]) + "\n")
                        break
    c.cov["traces_validated_against_impl"] += total
    c.cov["distinct_outcomes"] = len(outcomes)
    c.sample(fams[3][1][0])
    c.sample(fams[-1][1][0])
    log("[C24] %d items, the slowest took %d ms" % (total, slow))
    return c.finish(rule="every family at doubling sizes up to 512 (2048); every nesting of one and two (three) type and expression forms up to 32 (64) times, in both builds of syn; tokens grow at most linearly, no item takes more than 20 s",
                    families=len(fams), items=total, slowest_ms=slow)
