"""Writers of synthetic raw instrument files in the formats the real readers take.

Every text row is a dict with a datetime "t"; numeric fields may be None (missing).
"""
from __future__ import annotations

import datetime

D0 = datetime.datetime(2021, 3, 5)


def _v(x, fmt, missing):
    return missing if x is None else format(x, fmt)


def fd12p(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write("   ".join([
                r["t"].strftime("%d.%m.%Y"), r["t"].strftime("%H:%M:%S"), "FD", "100",
                _v(r.get("vis", 1000), "d", "/////"), "1862", "S", _v(r.get("wawa", 52), "d", "//"), "72", "72",
                _v(r.get("rate", 0.1), ".2f", "//////"), _v(r.get("amount", 0.0), ".2f", "//////"),
                _v(r.get("snow", 0), "d", "////")]) + "\n")


def rain_e_h3(path, rows, cols):
    with open(path, "w", encoding="latin1") as f:
        if cols == 22:
            f.write(";".join(["datetime_utc", "date", "time", "precipitation intensity [mm/h]"] + ["x"] * 18) + "\n")
        for r in rows:
            rate, amount = format(r.get("rate", 0.5), ".3f"), format(r["amount"], ".3f")
            tail = ["0", "9.56", "11.50", "0", "0", "0", "60", "2582", "rain[e]H3", "Lindenberg", "MF", "ACTRIS"]
            if cols == 22:
                row = [r["t"].strftime("%Y-%m-%d %H:%M:%S"), "te:" + r["t"].strftime("%Y.%m.%d"),
                       r["t"].strftime("%H:%M:%S"), rate, amount, *tail, "x", "850383.0067", "1.20", "1.55", "-0.5*9A"]
            else:
                row = [r["t"].strftime("%d.%m.%Y"), r["t"].strftime("%H:%M:%S"), rate, amount, *tail]
            assert len(row) == cols
            f.write(";".join(row) + "\n")


_SIRTA = {
    "Palaiseau": ("Date Time (yyyy-mm-ddThh:mm:ssZ)", "Wind speed (m/s)", "Wind direction (degres)",
                  "Air temperature (C)", "Relative humidity (%)", "Pressure (hPa)", "Precipitation rate (mm/min)",
                  "24-hr cumulated precipitation since 00UT (mm)"),
    "Maïdo Observatory": ("Date Time yyyy-mm-ddThh:mm:ssZ", "Wind direction - average", "Wind speed - maximum value (m/s)",
                          "Wind speed - average (m/s)", "Pressure - average (hPa)", "Relative humidity - maximum value (%)",
                          "Relative humidity - average (%)", "Air temperature - minimum value", "Air temperature - average"),
}
_SIRTA["Bucharest"] = _SIRTA["Palaiseau"]


def sirta(path, rows, site):
    with open(path, "w", encoding="latin-1") as f:
        f.write("# Date created : 2022-01-02\n")
        for i, name in enumerate(_SIRTA[site], 1):
            f.write(f"# Col. {i} : {name}\n")
        for r in rows:
            t = r["t"].strftime("%Y-%m-%dT%H:%M:%SZ")
            ws, wd = _v(r.get("ws", 1.0), ".3f", "NaN"), _v(r.get("wd", 20.0), ".3f", "NaN")
            ta, rh, p = _v(r.get("ta", 5.0), ".3f", "NaN"), _v(r.get("rh", 50.0), ".3f", "NaN"), _v(r.get("p", 1000.0), ".3f", "NaN")
            if site == "Maïdo Observatory":
                cols = [t, wd, ws, ws, p, rh, rh, ta, ta]
            else:
                cols = [t, ws, wd, ta, rh, p, _v(r.get("rate", 0.0), ".4f", "NaN"), _v(r.get("amount", 0.0), ".3f", "NaN")]
            f.write(" ".join(cols) + "\n")


def kenttarova(path, rows):
    head = ("Read time (UTC+2)", "Temp 2m (C)", "Humidity 2m (%)", "Wind speed (m/s)", "Wind dir (deg)",
            "Pressure (hPa)", "Precipitation (?)")
    with open(path, "w") as f:
        f.write(",".join(f'"{h}"' for h in head) + "\n")
        for r in rows:
            t = (r["t"] + datetime.timedelta(hours=2)).strftime("%Y-%m-%d %H:%M:%S")
            f.write(",".join([t, _v(r.get("ta", 5.0), ".3f", ""), _v(r.get("rh", 50.0), ".3f", ""),
                              _v(r.get("ws", 1.0), ".3f", ""), _v(r.get("wd", 20.0), ".3f", ""),
                              _v(r.get("p", 10000.0), ".3f", ""), _v(r.get("rate", 0.0), ".4f", "")]) + "\n")


def laquila(path, rows):
    with open(path, "w") as f:
        f.write("# Location: L_Aquila\n")
        for r in rows:
            f.write(",".join([r["t"].strftime("%Y-%m-%dT%H:%M:%SZ")] + [
                _v(r.get(k, d), ".4f", "") for k, d in
                (("ta", 5.0), ("p", 1000.0), ("rh", 50.0), ("rate", 0.0), ("ws", 1.0), ("wd", 20.0))]) + "\n")


def lampedusa(path, rows):
    with open(path, "w", newline="") as f:
        for r in rows:
            v = lambda k, d: _v(r.get(k, d), ".4f", " ")
            f.write(",".join([r["t"].strftime("%y%m%d %H%M%S"), "VALID", "ICOS", v("ta", 5.0), v("rh", 50.0), " 6.7",
                              v("p", 1000.0), v("ws", 1.0), v("wd", 20.0), " 9.5", " 193", v("rate", 0.0), " 0.0", ""]) + "\n")


def cluj(path, rows):
    with open(path, "w") as f:
        f.write("\t".join(["DateTime", "Precipitation_mm", "WS_azimuth_ms", "WD_azimuth_deg", "Air_temperature_C",
                           "rel_humidity_pct", "air_pressure_hPA", "X"]) + "\n")
        for r in rows:
            v = lambda k, d: _v(r.get(k, d), ".4f", " ")
            f.write("\t".join([r["t"].strftime("%d.%m.%y %H:%M:%S.000"), v("rate", 0.0), v("ws", 1.0), v("wd", 20.0),
                               v("ta", 5.0), v("rh", 50.0), v("p", 1000.0), "x"]) + "\n")


def limassol(path, rows):
    with open(path, "w") as f:
        for i, n in enumerate(["Date Time (yyyy-mm-ddThh:mm:ss)", "Air temperature (°C)", "Wind speed (m/s)",
                               "Relative humidity (%)", "Total precipitation (mm)"], 1):
            f.write(f"# Col. {i} : {n}\n")
        for r in rows:
            v = lambda k, d: _v(r.get(k, d), ".4f", "-")
            f.write(" ".join([r["t"].strftime("%Y-%m-%dT%H:%M:%S"), v("ta", 5.0), v("ws", 1.0), v("rh", 50.0), v("rate", 0.0)]) + "\n")


def hyytiala(path, rows):
    with open(path, "w") as f:
        f.write("# SMEAR\n# Precipitation\n# y m d  minute AaRNRT/mm AaNRT/mm Pa/kPa Ta/dsC RH/pcnt WD/ds WS/(m/s) \n")
        for r in rows:
            t = r["t"]
            v = lambda k, d: _v(r.get(k, d), ".3f", "-99.99")
            f.write(f"{t.year} {t.month:2d} {t.day:2d} {t.hour * 60 + t.minute:4d}   0.0  {v('rate', 0.0)} {v('p', 100.0)} "
                    f"{v('ta', 5.0)} {v('rh', 50.0)} {v('wd', 20.0)} {v('ws', 1.0)}\n")


def granada(path, rows):
    with open(path, "w") as f:
        f.write('"TOA5","CR1000XSeries","CR1000X","23644","x","y","54351","meteo"\n')
        f.write('"TIMESTAMP","RECORD","air_t_Avg","rh_Avg","pressure_Avg","wind_speed_avg","wind_dir_avg","wind_dir_std","rain_Tot"\n')
        f.write('"TS","RN","degC","%","hPa","m/s","Deg","Deg","mm"\n"","","Avg","Avg","Avg","WVc","WVc","WVc","Tot"\n')
        for i, r in enumerate(rows):
            v = lambda k, d: _v(r.get(k, d), ".4f", '"NAN"')
            f.write(f'"{r["t"]:%Y-%m-%d %H:%M:%S}",{i},{v("ta", 5.0)},{v("rh", 50.0)},{v("p", 1000.0)},{v("ws", 1.0)},{v("wd", 20.0)},3,{v("rate", 0.0)}\n')


def galati(path, rows):
    with open(path, "w") as f:
        f.write("TimeStamp,Record,Temperatura,Umiditate_relativa,Presiune_atmosferica,Vizibilitate,Precipitatii,Viteza_vant,Directie_vant\n")
        for i, r in enumerate(rows):
            v = lambda k, d: _v(r.get(k, d), ".4f", "NAN")
            f.write(f'{r["t"]:%Y-%m-%d %H:%M:%S}.000,{i},{v("ta", 5.0)},{v("rh", 50.0)},{v("p", 750.0)},9000,{v("rate", 0.0)},{v("ws", 1.0)},{v("wd", 20.0)}\n')


# site name -> (writer, rain: "counter" | mm per how many seconds a rate unit means | None)
WS_SITES = {
    "Palaiseau": (lambda p, r: sirta(p, r, "Palaiseau"), "counter"),
    "Bucharest": (lambda p, r: sirta(p, r, "Bucharest"), "counter"),
    "Maïdo Observatory": (lambda p, r: sirta(p, r, "Maïdo Observatory"), None),
    "Kenttärova": (kenttarova, 36000),
    "L'Aquila": (laquila, 60),
    "Lampedusa": (lampedusa, 60),
    "Cluj-Napoca": (cluj, 600),
    "Limassol": (limassol, 600),
    "Hyytiälä": (hyytiala, 60),
    "Granada": (granada, 60),
    "Galați": (galati, 60),
}
