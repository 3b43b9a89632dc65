"""C04: daily screening of raw data by every instrument reader."""
import json

import adapters

TIMES = [-86401, -86400, -3601, -60, -1, 0, 1, 2, 30, 59, 60, 3599, 3600, 43199, 43200, 86340, 86398, 86399, 86400, 86401, 90000, 172800]


def legal(a, files):
    """Restrict to what the raw format of the instrument can express."""
    rows = [r for f in files for r in f]
    if a.single_day:  # times relative to the day given in the units
        days = {r["t"] // 86400 for r in rows}
        if len(days) != 1:
            return False
        d = days.pop()
        if max(r["t"] for r in rows) - d * 86400 <= 25:
            return False  # such a file cannot be told from fraction hours
    if not a.keepable:
        return True
    by_t = {}
    for r in rows:
        by_t.setdefault(r["t"], set()).add(r.get("keep", True))
    return all(len(s) == 1 for s in by_t.values())


def split(a, rng, rows):
    if isinstance(a, adapters.WeatherRadar):
        return a.files_of(rows)
    if not a.multi or len(rows) < 2 or rng.random() < 0.4:
        return [rows]
    n = rng.randrange(2, min(a.max_files, len(rows)) + 1)
    cuts = sorted(rng.sample(range(1, len(rows)), n - 1))
    return [rows[i:j] for i, j in zip([0, *cuts], [*cuts, len(rows)])]


def dense(a, rng, n):
    """n rows, mostly on the date, possibly as many kept rows as gates."""
    step = a.step
    u = rng.random()
    base = [step * ((86400 // step) * i // n) for i in range(n)] if u < 0.5 else [step * x for x in rng.sample(range(86400 // step), n)]
    rows = [{"t": t, "k": 1 + i % 99} for i, t in enumerate(base)]
    if not a.single_day:
        for _ in range(rng.choice([0, 0, 1, 3, n])):
            rows.append({"t": rng.choice([-step, -86400, 86400, 86400 + step * rng.randrange(100), -step * rng.randrange(1, 1000)]),
                         "k": rng.randrange(1, 100)})
    for _ in range(rng.choice([0, 0, 1, 3])):
        r = rng.choice(rows)
        rows.append({"t": r["t"], "k": rng.randrange(1, 100)})
    u = rng.random()
    if u < 0.5:
        rng.shuffle(rows)
    elif u < 0.7:
        rows.sort(key=lambda r: -r["t"])
    elif u < 0.8:  # a late block arrives first
        i = rng.randrange(len(rows))
        rows = rows[i:] + rows[:i]
    if a.keepable:
        bad = {r["t"] for r in rows if rng.random() < 0.1}
        for r in rows:
            if r["t"] in bad:
                r["keep"] = False
    return rows


def run(c):
    rng = c.rng
    res = c.model_check("MCDayScreen", "MCDayScreen.cfg")
    cases = c.cases(res)
    out, folder = str(c.scratch / "out.nc"), str(c.scratch / "raw")
    events, meta = [], []
    n_spec = 0
    only = c.extra.pop("only", None)
    for a in adapters.all_adapters():
        if only and a.name not in only:
            continue
        # behaviours of the specification
        done = 0
        by = {json.dumps([r["t"] for r in x["rows"]]): x for x in cases}
        first = [by[json.dumps(ts)] for ts in ([-1], [86400], [86400, -1], [0], [0, 0], [-1, 0], [86399], [0, 86400, 86399])]
        for b in first + rng.sample(cases, len(cases)):
            if done >= c.n(25 if not a.name.startswith("ws") else 8, 600 if not a.name.startswith("ws") else 150):
                break
            rows = [{"t": a.times(r["t"]), "k": r["k"]} for r in b["rows"]]
            files = split(a, rng, rows)
            if not legal(a, files):
                continue
            done += 1
            events.append(a.event(files, folder, out, rng))
            meta.append({"ins": a.name, "files": files})
        n_spec += done
        # larger days, as many profiles as range gates or size classes
        for i in range(c.n(8 if not a.name.startswith("ws") else 3, 80)):
            n = rng.choice([a.gates, a.gates, 20, 22, 32, 3, 7, 50])
            if i == 0:
                n = a.gates
            rows = dense(a, rng, n)
            if i == 1:  # exactly as many usable rows as gates / classes, shuffled
                n = {"thies": 20, "parsivel": 32, "rd80": 20}.get(a.name, a.gates)
                rows = [{"t": a.step * 7 * j, "k": 1 + j % 99} for j in range(n)]
                rng.shuffle(rows)
            if i == 2:
                n = {"thies": 22}.get(a.name, a.gates)
                rows = [{"t": a.step * 7 * j, "k": 1 + j % 99} for j in range(n)]
                rng.shuffle(rows)
                if not a.single_day:
                    rows[0]["t"] = -a.step
            if a.fine and i > 2 and rng.random() < 0.6:  # profiles within the same second
                for r in rows:
                    r["t"] += rng.choice([0, 0, 0.25, 0.5, 0.75])
                for r in rng.sample(rows, min(len(rows), 4)):
                    rows.append({**r, "t": r["t"] + 0.25, "k": 1 + r["k"] % 99})
            files = split(a, rng, rows)
            if not legal(a, files):
                continue
            events.append(a.event(files, folder, out, rng))
            meta.append({"ins": a.name, "files": files})
    c.sample({k: events[0][k] for k in ("ins", "rows", "status", "time", "vars")})
    c.validate("DayScreenTrace", events, meta=meta)
    c.extra["behaviours_replayed_from_spec"] = n_spec
    c.extra["instruments"] = sorted({e["ins"] for e in events})
    c.assumptions += ["time stamps at the resolution of the raw format",
                      "BASTA, Copernicus and Galileo raw files state one day in their time units and hold only that day"]
