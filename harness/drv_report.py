"""Experiments/DisplayResults.py on prepared result stores, run as a script in a scratch directory; its printed lines for TReport (C31)."""
from lib import *
from fractions import Fraction
import itertools, re, runpy, shutil, signal, sqlite3, tempfile
SEEDS = [101, 201, 301, 401, 501, 601, 701, 801, 901, 1001]
STORES = {"ungm": ("run/ungm_final_2.db", "UNGM_EXP", ["Transform", "Seed", "Iter", "Power", "Damping"]),
          "bott": ("log/bott_final_2.db", "BOTT_EXP", ["Transform", "Quantity", "Seed", "Iter", "Power", "Damping"]),
          "l96": ("log/L96_dim_experiment_3.db", "L96_EXP", ["Transform", "Seed", "dim", "Iter", "Power", "Damping"]),
          "iungm": ("log/IEKS_ungm.db", "UNGM_EXP", ["Seed", "Iter"]),
          "ibott": ("log/IEKS_bott.db", "BOTT_EXP", ["Quantity", "Seed", "Iter"]),
          "il96": ("log/IEKS_L96.db", "L96_EXP", ["dim", "Seed", "Iter"])}
QUANT = {"position": "Position (m)", "velocity": "Velocity (m/s)", "angle": "Angular velocity (rad/s)"}
TYPE = {"Transform": "TEXT", "Quantity": "TEXT", "Seed": "INT", "dim": "INT"}
NUM = r"([-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf))"
PAIR = re.compile(NUM + r"\s*\+/-\s*" + NUM)


def grid(rng, sec):
    """settings of the stored runs, the reported ones among them"""
    tr, qs = ["MCT", "UT", "TT"], list(QUANT)
    pw, dm = [1.0, 0.8, 0.6, 0.4, 0.2, 0.1], [1.0, 0.8, 0.2]
    seeds = SEEDS[:rng.choice([2, 3, 5])]
    if sec == "ungm":
        return [tr, seeds, [1, 2, 50], pw, dm]
    if sec == "bott":
        return [tr, qs, seeds, [1, 50], pw, dm]
    if sec == "l96":
        seeds = SEEDS[:rng.choice([5, 7, 10])]
        return [tr[:2], seeds, [5, 10, 20, 40, 100, 200], [0, 1, 9], [1.0, 0.8, 0.1], dm[:2]]
    own = SEEDS if rng.p.random() < .5 else SEEDS[::-1]
    return {"iungm": [own, [10, 49, 50]], "ibott": [qs, own, [10, 50]], "il96": [[5, 10, 20], own, [5, 10]]}[sec]


def fill(rng, top, sec):
    """every group of runs has its own level, the runs in it their own spread, some of them far off"""
    path, table, cols = STORES[sec]
    con = sqlite3.connect(os.path.join(top, path))
    con.execute("CREATE TABLE %s (%s, RMSE REAL, NLL REAL)" % (table, ", ".join("%s %s" % (c, TYPE.get(c, "REAL")) for c in cols)))
    rows, si, level = [], cols.index("Seed"), {}
    combos = list(itertools.product(*grid(rng, sec)))
    if rng.p.random() < .5:
        rng.p.shuffle(combos)
    for k in combos:
        g = k[:si] + k[si + 1:]
        if g not in level:
            level[g] = (rng.p.randrange(1, 4000) / 16, rng.p.randrange(-2000, 4000) / 16)
        a, b = level[g]
        f = 20 if rng.p.random() < .08 else 1
        row = k + (a + f * rng.p.randrange(0, 160) / 16, b + f * rng.p.randrange(-160, 160) / 16)
        rows.append(row)
    con.executemany("INSERT INTO %s (%s, RMSE, NLL) VALUES (%s)" % (table, ", ".join(cols), ", ".join("?" * (len(cols) + 2))), rows)
    con.commit()
    con.close()
    return [dict([(c, x if isinstance(x, str) else q(x)) for c, x in zip(cols, r)] + [("RMSE", q(r[-2])), ("NLL", q(r[-1]))]) for r in rows]


def shown(s):
    """the printed numeral and how far the number it stands for may be from it"""
    if not re.fullmatch(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?", s):
        return {"v": s, "h": "0"}
    m, _, e = s.lower().partition("e")
    d = len(m.partition(".")[2])
    v = Fraction(s)
    h = Fraction(1, 2) * Fraction(10) ** (int(e or 0) - d) + abs(v) * Fraction(1, 10 ** 9) + Fraction(1, 10 ** 9)
    return {"v": num(v), "h": num(h)}


def num(f):
    return str(f.numerator) if f.denominator == 1 else "%d/%d" % (f.numerator, f.denominator)


def parse(text):
    """the sections with their lines"""
    secs, head, quant, ep = {s: [] for s in STORES}, {}, None, 0
    ieks, sec = ["iungm", "ibott", "il96"], None
    n = {"RMSE": 0, "NLL": 0}
    for line in text.splitlines():
        m = re.search(r"Physical quantity:\s*(.+?)\s*$", line)
        if m:
            quant = {v: k for k, v in QUANT.items()}.get(m.group(1), m.group(1))
        m = re.search(r"Trans type:\s*(\w+)", line)
        if m:
            ep += 1
            sec = ["ungm", "bott"][ep - 1] if ep <= 2 else None
            head = {"transform": m.group(1), "quantity": quant or "", "dim": ""}
        m = re.search(r"Dimension:\s*(\d+)", line)
        if m:
            sec, head = "l96", {"transform": "", "quantity": "", "dim": str(int(m.group(1)))}
        ps = PAIR.findall(line)
        if not ps:
            continue
        p = [{"mean": shown(a), "sd": shown(b)} for a, b in ps]
        if len(ps) == 2 and sec:
            m = re.search(r"Power EP\s*\(\s*" + NUM + r"\s*\)", line)
            power = q(float(m.group(1))) if m else "base"
            secs[sec].append({"lab": dict(head, power=power), "rm": p[0], "nl": p[1]})
        elif len(ps) == 1:
            w = "RMSE" if "RMSE" in line else "NLL" if "NLL" in line else None
            if w and n[w] < 3:
                secs[ieks[n[w]]].append({"lab": {"power": "none"}, {"RMSE": "rm", "NLL": "nl"}[w]: p[0]})
                n[w] += 1
    return secs


def play(rng, name):
    top = tempfile.mkdtemp(dir=os.getcwd())
    try:
        os.makedirs(os.path.join(top, "run"))
        os.makedirs(os.path.join(top, "log"))
        tables = {s: fill(rng, top, s) for s in STORES}
        vecs = []
        for kind in range(9):
            k = rng.choice([4, 5, 7, 8, 10])
            x = np.array([rng.p.randrange(-40, 40) / 8 * (rng.choice([1, 1, 1, 1, 8])) for _ in range(k)])
            if kind >= 6:                                  # at the limits, and no spread at all
                a, w = rng.p.randrange(-9, 9) / 4, rng.p.randrange(0, 5) / 2
                x = np.array([a - 1.5 * w, a, a + w / 2, a + w, a + 2.5 * w])
                rng.r.shuffle(x)
            vecs.append((x, None if kind >= 6 or rng.p.random() < .6 else sorted(rng.p.sample(range(k), rng.choice([0, 1, 2])))))
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                os.chdir(os.path.join(top, "run"))
                fd = os.open(os.path.join(top, "out.txt"), os.O_WRONLY | os.O_CREAT)
                os.dup2(fd, 1)
                g, exc = guard(runpy.run_path, os.path.join(REPO, "Experiments", "DisplayResults.py"), run_name="__main__")
                sys.stdout.flush()
                outs = []
                f = (g or {}).get("remove_outliers")
                for x, idx in vecs if callable(f) else []:
                    r, e = guard(f, x.copy()) if idx is None else guard(f, x.copy(), np.array(idx, dtype=int))
                    outs.append({"op": "out", "exc": e, "xs": V(x), "given": idx is not None, "idx": [i + 1 for i in idx or []],
                                 "kept": V(r[1]) if r else [], "removed": [int(i) + 1 for i in r[0]] if r else []})
                with os.fdopen(wr, "w") as o:
                    json.dump({"exc": exc, "outs": outs}, o)
            finally:
                os.kill(os.getpid(), signal.SIGKILL)
        os.close(wr)
        with os.fdopen(rd) as fd:
            t = fd.read()
        os.waitpid(pid, 0)
        r = json.loads(t) if t else {"exc": "died", "outs": []}
        text = open(os.path.join(top, "out.txt")).read()
        secs = parse(text)
        damps = [{"Damping": q(d)} for d in (1.0, 0.8, 0.2)]
        trs = ["MCT", "UT", "TT"]
        hid = {"ungm": damps, "bott": damps, "l96": [{"Damping": q(d), "Transform": t} for d in (1.0, 0.8) for t in trs[:2]], "iungm": [{}],
               "ibott": [{"Quantity": x} for x in QUANT], "il96": [{"dim": str(x)} for x in (5, 10, 20)]}
        ev = []
        for s in STORES:
            need = [{"what": w, "power": p} for w in ("rm", "nl") for p in (["base", "any"] if s in ("ungm", "bott", "l96") else ["any"])]
            ev.append({"op": "section", "sec": s, "exc": r["exc"], "lines": secs[s], "hid": hid[s], "need": need})
        return {"name": name, "tables": tables, "ev": ev + r["outs"]}
    finally:
        shutil.rmtree(top)


def fns(prop, shard, nshards, seed, tier, gen):
    n = 8 if tier == "quick" else 80
    return {"TReport": {"cfg": "Trace.cfg", "chunk": 2, "runs": [play(Rng(seed * 4409 + i), "r%d" % i) for i in my(range(n), shard, nshards)]}}


if __name__ == "__main__":
    main(fns)
