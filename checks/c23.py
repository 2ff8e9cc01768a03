"""C23: dates and times by locale, style and zone."""
from .rt import *
import babel, babel.dates, datetime, os, time, zoneinfo
import pytz

ID = "C23"
RULE = ("random dates and datetimes (naive, fixed-offset, zoneinfo and pytz zones, folds and gaps, far past and future, all microseconds) with random "
        "style, zone, locale and host time zone, directly, wrapped, and through DATETIME; oracle: zone arithmetic on the UTC instant (zoneinfo), locale patterns "
        "interpreted from the CLDR data; distinct by (value, options, locale)")
QUICK, THOROUGH = 14000, 250000
NEED = {"dates": 3000, "datetimes": 8000, "naive": 2500, "aware": 4000, "zone_requested": 4000, "zone_names": 800, "both_styles": 2500, "time_only": 2000,
        "date_only": 2500, "default_style": 2000, "fold": 150, "conversions": 8000, "date_shifted_by_zone": 600, "via_function": 2500, "offset_checked": 60, "host_zone_not_utc": 5000}
MIN_NONTRIVIAL = 8000
LOCALES = ["en-US", "en-GB", "de", "fr", "ja", "ar", "ru", "cs", "hi", "pl", "pt", "sv", "fi", "nl", "uk", "he", "zh", "es", "ko", "hu"]
ZONES = ["Europe/Berlin", "America/New_York", "Asia/Kolkata", "UTC", "Pacific/Apia", "Australia/Lord_Howe", "America/St_Johns", "Asia/Tokyo",
         "Pacific/Kiritimati", "Africa/Cairo", "America/Los_Angeles", "Pacific/Chatham", "Etc/GMT+12", "Europe/London"]
STYLES = ["full", "long", "medium", "short"]
UTC = datetime.timezone.utc


def value(r):
    x = r.random()
    y = r.choice([1, 1600, 1970, 1999, 2000, 2021, 2024, 2038, 9998]) if r.random() < .2 else r.randint(1950, 2036)
    mo, d = r.randint(1, 12), r.randint(1, 28)
    if r.random() < .1:
        mo, d = r.choice([(12, 31), (1, 1), (2, 28), (1, 31)])
    if x < .25:
        return ("date", (y, mo, d))
    h, mi, s, us = r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), r.choice([0, 1, 999999, 500000, 123456, r.randrange(10 ** 6)])
    if r.random() < .15:
        h, mi, s = r.choice([(0, 0, 0), (12, 0, 0), (23, 59, 59), (0, 30, 0), (11, 59, 59), (12, 30, 1)])
    if x < .31:
        # the repeated hour
        f, z = r.choice([((2021, 10, 31, 2), "Europe/Berlin"), ((2021, 11, 7, 1), "America/New_York"), ((2021, 10, 31, 1), "Europe/London"),
                         ((2022, 11, 6, 1), "America/Los_Angeles"), ((2022, 11, 6, 1), "America/St_Johns")])
        return ("dt", f + (mi, s, us), (r.choice(["zone", "zone", "pytz"]), z), r.random() < .6)
    if x < .38:
        # around daylight saving changes
        y, mo, d, h = r.choice([(2021, 10, 31, 2), (2021, 3, 28, 2), (2021, 11, 7, 1), (2021, 3, 14, 2), (2022, 4, 3, 1), (2021, 10, 31, 3), (2021, 10, 31, 1)])
    t = r.random()
    tz = None
    if t < .35:
        tz = None
    elif t < .5:
        tz = ("off", r.choice([0, 60, -300, 330, 345, 765, -720, 840, 1, -59, 90]))
    elif t < .85:
        tz = ("zone", r.choice(ZONES))
    else:
        tz = ("pytz", r.choice(ZONES))
    if tz and tz[0] != "off" and not 1971 <= y <= 2036:
        y = 2021
    return ("dt", (y, mo, d, h, mi, s, us), tz, r.random() < .3)


def gen(r, i, tier):
    out = []
    for _ in range(3):
        v = value(r)
        ds = r.choice([None, None] + STYLES)
        ts = r.choice([None, None] + STYLES) if v[0] == "dt" else None
        tz = r.choice([None, None] + ZONES) if r.random() < .7 else None
        if tz and v[0] == "dt" and not 1971 <= v[1][0] <= 2036:
            tz = None
        out.append((v, ds, ts, tz, r.choice(["wrapped", "function", "mixed", "rewrap"])))
    return {"locale": r.choice(LOCALES), "vals": out, "iso": r.random() < .3, "host": r.choice(["UTC", "Asia/Tokyo", "America/New_York", "Pacific/Apia"])}


def native(v):
    if v[0] == "date":
        return datetime.date(*v[1])
    _, f, tz, fold = v
    if tz is None:
        return datetime.datetime(*f, fold=fold)
    if tz[0] == "off":
        return datetime.datetime(*f, tzinfo=datetime.timezone(datetime.timedelta(minutes=tz[1])), fold=fold)
    if tz[0] == "zone":
        return datetime.datetime(*f, tzinfo=zoneinfo.ZoneInfo(tz[1]), fold=fold)
    return pytz.timezone(tz[1]).localize(datetime.datetime(*f), is_dst=not fold)


def expected(v, nat, ds, ts, tz, L):
    """-> text, or (before, after) around a zone name we leave to babel."""
    if v[0] == "date":
        day, clock, aware = nat, None, None
    else:
        a = nat if nat.tzinfo else nat.replace(tzinfo=UTC)
        if tz:
            instant = a.astimezone(UTC)
            local = instant.astimezone(zoneinfo.ZoneInfo(tz))
            aware = instant.astimezone(pytz.timezone(tz))
            assert local.replace(tzinfo=None) == aware.replace(tzinfo=None), (local, aware)
        else:
            local = aware = a
        day, clock = datetime.date(local.year, local.month, local.day), local.replace(tzinfo=None)
    if ds is None and ts is None:
        ds = "medium"
    dtext = babel.dates.format_date(day, ds, locale=L) if ds else None
    ttext = None
    if ts in ("short", "medium"):
        ttext = babel.dates.format_time(clock.time(), ts, locale=L)
    elif ts:
        ttext = babel.dates.format_time(aware, ts, locale=L)      # needs the zone's name
    if dtext is None:
        return ttext
    if ttext is None:
        return dtext
    glue = str(L.datetime_formats[ds]).replace("'", "")
    out, i = [], 0
    while i < len(glue):
        if glue[i:i + 3] in ("{0}", "{1}"):
            out.append(ttext if glue[i + 1] == "0" else dtext)
            i += 3
        else:
            out.append(glue[i])
            i += 1
    return "".join(out)


def run(case, obs):
    # the zone of the machine has no influence
    old = os.environ.get("TZ")
    os.environ["TZ"] = case["host"]
    time.tzset()
    try:
        obs.count("host_zone_not_utc", time.timezone != 0)
        run_(case, obs)
    finally:
        os.environ.pop("TZ")
        if old is not None:
            os.environ["TZ"] = old
        time.tzset()


def run_(case, obs):
    from fluent.runtime.types import fluent_date, FluentDateType
    L = babel.Locale.parse(case["locale"].replace("-", "_"))
    src, plan = "", []
    for m, (v, ds, ts, tz, how) in enumerate(case["vals"]):
        nat = native(v)
        dev = {} if tz is None else {"timeZone": tz}
        st = {k: x for k, x in (("dateStyle", ds), ("timeStyle", ts)) if x is not None}
        if how == "wrapped":
            arg, call = fluent_date(nat, **st, **dev), {}
        elif how == "rewrap":
            arg = fluent_date(fluent_date(nat, dateStyle="full", **dev), **dict({"dateStyle": None}, **st))
            call = {}
        elif how == "function":
            arg, call = (fluent_date(nat, **dev) if dev else nat), st
        else:
            arg = fluent_date(nat, **{k: x for k, x in st.items() if k == "dateStyle"}, **dev)
            call = {k: x for k, x in st.items() if k == "timeStyle"}
        if isinstance(arg, FluentDateType):
            obs.count("conversions")
            obs.check(isinstance(arg, type(nat)) and (isinstance(arg, datetime.datetime) == (v[0] == "dt")), "wrapping changed the kind", value=v)
            obs.check(arg == nat, "the wrapped date is not equal to the value", value=v, got=repr(arg))
            if v[0] == "dt":
                for f in ("year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo", "fold"):
                    obs.check(getattr(arg, f) == getattr(nat, f), "a field was lost: " + f, value=v, got=getattr(arg, f))
                obs.check(arg.tzinfo is nat.tzinfo and arg.utcoffset() == nat.utcoffset(), "the time zone was lost", value=v, got=arg.utcoffset())
                obs.check(arg.replace(tzinfo=UTC).isoformat() == nat.replace(tzinfo=UTC).isoformat(), "fields changed", value=v)
        s = "$d%d" % m
        if how == "function" or call:
            s = "DATETIME($d%d%s)" % (m, "".join(f', {k}: "{x}"' for k, x in call.items()))
            obs.count("via_function")
        src += f"m{m} = {{ {s} }}\nw{m} = on { '{' } {s} {'}'}.\n"
        want = expected(v, nat, ds, ts, tz, L)
        plan.append((m, arg, want, v, ds, ts, tz, s, nat))
        obs.count("dates" if v[0] == "date" else "datetimes")
        if v[0] == "dt":
            obs.count("naive" if v[2] is None else "aware")
            obs.count("zone_requested", tz is not None)
            obs.count("fold", bool(v[2] and v[2][0] == "zone" and v[3] and nat.replace(fold=0).utcoffset() != nat.replace(fold=1).utcoffset()))
            obs.count("zone_names", ts in ("full", "long"))
            if tz:
                a = nat if nat.tzinfo else nat.replace(tzinfo=UTC)
                obs.count("date_shifted_by_zone", a.astimezone(UTC).astimezone(zoneinfo.ZoneInfo(tz)).date() != nat.date())
        obs.count({(1, 1): "both_styles", (0, 1): "time_only", (1, 0): "date_only", (0, 0): "default_style"}[(ds is not None, ts is not None)])
        obs.nontrivial((case["locale"], repr(v), ds, ts, tz))
    b = FluentBundle([case["locale"]], use_isolating=case["iso"])
    b.add_resource(FluentResource(src))
    p, q = ("\u2068", "\u2069") if case["iso"] else ("", "")
    for m, arg, want, v, ds, ts, tz, s, nat in plan:
        before = (repr(nat), arg.isoformat(), repr(getattr(arg, "options", None)))
        for name, w in ((f"m{m}", want), (f"w{m}", f"on {p}{want}{q}.")):
            got, errs = b.format_pattern(b.get_message(name).value, {f"d{m}": arg})
            ctx = dict(value=v, dateStyle=ds, timeStyle=ts, timeZone=tz, expr=s, locale=case["locale"])
            obs.check(not errs, "errors: " + repr(errs), **ctx)
            obs.eq(got, w, "wrong date or time", **ctx)
        obs.check(before == (repr(nat), arg.isoformat(), repr(getattr(arg, "options", None))), "formatting changed the value")
        # an independent reading of the clock, not through babel's patterns
        if ts == "long" and case["locale"] == "en-US" and v[0] == "dt" and tz:
            off = (nat if nat.tzinfo else nat.replace(tzinfo=UTC)).astimezone(zoneinfo.ZoneInfo(tz)).strftime("%z")
            loc = (nat if nat.tzinfo else nat.replace(tzinfo=UTC)).astimezone(zoneinfo.ZoneInfo(tz))
            got, _ = b.format_pattern(b.get_message(f"m{m}").value, {f"d{m}": arg})
            obs.check(f"{loc.hour % 12 or 12}:{loc.minute:02}:{loc.second:02}\u202f{'AM' if loc.hour < 12 else 'PM'}" in got, "wrong clock", got=got, **ctx)
            if off[0] == "-" and off[3:] != "00":
                continue    # babel itself misprints negative offsets that are no whole hours
            obs.check(off in got or "T" in got.split("M ")[-1] or "UTC" in got, "wrong offset", got=got, off=off, **ctx)
            obs.count("offset_checked")
        obs.sample({"value": v, "dateStyle": ds, "timeStyle": ts, "zone": tz, "locale": case["locale"], "text": want})
