"""C20: text, characters, bytes, patterns, emails, domains, UUIDs and addresses have the requested form."""
import ipaddress
import re
import string
import uuid
import warnings
from random import Random
from pyvc.runtime import RT
from hypothesis import strategies as st, provisional as pv
from hypothesis.errors import InvalidArgument, HypothesisException
from rt.draw import draw

CATS = ["Lu", "Ll", "Nd", "P", "Zs", "S", "Cc"]


def attempt(make, seed, edge, n=3, size=5):
    try:
        s = make()
        s.validate()
        if s.is_empty:
            return [("empty", None, None)]
    except InvalidArgument as e:
        return [("refused", e, None)]
    out = []
    for k in range(n):
        try:
            out.append(draw(s, seed + k, edge, size=size))
        except InvalidArgument as e:
            return out + [("refused", e, None)]
    return out


# --- text and bytes
def g_alpha(rng):
    k = rng.choice(["str", "str", "list", "range", "cats", "codec", "exclude", "include", "none", "sampled", "filter", "empty"])
    if k == "str":
        return k, "".join(rng.choice("abcxyz019 é🦊\n\0Z") for _ in range(rng.randint(1, 6)))
    if k == "list":
        return k, [rng.choice("abc123é") for _ in range(rng.randint(1, 4))]
    if k == "range":
        lo = rng.choice([0, 32, 48, 60, 97, 200, 0xD7FE, 0xFFFF])
        return k, (lo, lo + rng.choice([0, 1, 5, 70, 3000]))
    if k == "cats":
        return k, tuple(rng.sample(CATS, rng.randint(1, 3)))
    if k == "codec":
        return k, rng.choice(["ascii", "latin-1", "cp1252", "utf-8"])
    if k == "exclude":
        return k, "".join(rng.sample("abcdef0 é", rng.randint(1, 4)))
    if k == "include":
        return k, ("".join(rng.sample("αβγ09\n", 2)), rng.choice([("Lu",), ("Nd",), ()]))
    return k, None


def alphabet(a):
    import unicodedata
    k, v = a
    cat = lambda c: unicodedata.category(c)
    if k in ("str", "list"):
        return v, lambda c: c in v
    if k == "range":
        return st.characters(min_codepoint=v[0], max_codepoint=v[1]), lambda c: v[0] <= ord(c) <= v[1]
    if k == "cats":
        return st.characters(categories=v), lambda c: any(cat(c).startswith(x) for x in v)
    if k == "codec":
        return st.characters(codec=v), lambda c: enc(c, v)
    if k == "exclude":
        return st.characters(exclude_characters=v, max_codepoint=260), lambda c: c not in v and ord(c) <= 260
    if k == "include":
        return st.characters(categories=v[1], include_characters=v[0]), lambda c: c in v[0] or cat(c) in v[1]
    if k == "sampled":
        return st.sampled_from("qrs"), lambda c: c in "qrs"
    if k == "filter":
        return st.characters(max_codepoint=127).filter(str.isalpha), lambda c: ord(c) <= 127 and c.isalpha()
    if k == "empty":
        return "", lambda c: False
    return None, lambda c: cat(c) != "Cs"


def enc(c, codec):
    try:
        c.encode(codec)
        return True
    except UnicodeEncodeError:
        return False


def g_text(rng):
    mn = rng.choice([0, 0, 0, 1, 2, 5, 20])
    mx = rng.choice([None, None, mn, mn + 1, mn + 4])
    return g_alpha(rng), mn, mx, rng.getrandbits(32), rng.random() < .7, rng.random() < .25


def p_text(a):
    al, mn, mx, seed, edge, twice = a
    A, ok = alphabet(al)
    what = f"text({al}, min_size={mn}, max_size={mx})"

    def make():
        s = st.text(min_size=mn, max_size=mx) if A is None else st.text(A, min_size=mn, max_size=mx)
        return s
    for tag, v, d in attempt(make, seed, edge, size=3 if edge else 5):
        if tag in ("refused", "empty"):
            return f"{what}: {tag} {v}" if al[0] != "empty" or not mn else None
        if tag == "ok" and (type(v) is not str or not mn <= len(v) <= (10**9 if mx is None else mx) or not all(map(ok, v))):
            return f"{what} gave {v!r}"
    if al[0] not in ("str", "list", "empty", "none"):
        for tag, v, d in attempt(lambda: A, seed, edge):
            if tag == "ok" and (type(v) is not str or len(v) != 1 or not ok(v)):
                return f"{al} gave {v!r}"
    for tag, v, d in attempt(lambda: st.binary(min_size=mn, max_size=mx), seed, edge):
        if tag != "ok" or type(v) is not bytes or not mn <= len(v) <= (10**9 if mx is None else mx):
            return f"binary(min_size={mn}, max_size={mx}) gave {tag} {v!r}"
    return None


# --- patterns
def lit(rng, by):
    c = rng.choice("abcABC019_ -" if by or rng.random() < .8 else "éßİıKſσΣςµ\n")
    return re.escape(c)


SETS = [r"\d", r"\w", r"\s", r"\D", r"\W", r"\S", "."]


def g_set(rng, by):
    items = []
    for _ in range(rng.randint(1, 3)):
        k = rng.random()
        if k < .4:
            items.append(lit(rng, by) if rng.random() < .9 else r"\n")
        elif k < .75:
            a, b = sorted([rng.choice("abcxyzABCZ0189"), rng.choice("abcxyzABCZ0189")])
            items.append(f"{a}-{b}")
        elif not by and k < .8:
            items.append("à-ö")
        elif by and k < .8:
            items.append(r"\x80-\xff")
        else:
            items.append(rng.choice(SETS[:6]))
    return "[" + ("^" if rng.random() < .25 else "") + "".join(items) + "]"


def g_re(rng, by, depth, groups):
    "a pattern; groups: list with the number of groups opened before this point that are closed"
    k = rng.random()
    if depth <= 0 or k < .3:
        return lit(rng, by)
    if k < .4:
        return rng.choice(SETS)
    if k < .52:
        return g_set(rng, by)
    if k < .66:
        n = rng.randint(1, 3)
        return "".join(g_re(rng, by, depth - 1, groups) for _ in range(n))
    if k < .74:
        return "(?:" + "|".join(g_re(rng, by, depth - 1, groups) for _ in range(rng.randint(1, 3))) + ("|" if rng.random() < .15 else "") + ")"
    if k < .81:
        groups[0] += 1
        n = groups[0]
        inner = g_re(rng, by, depth - 1, groups)
        name = f"?P<g{n}>" if rng.random() < .3 else ""
        groups[1].append(n)
        return f"({name}{inner})"
    if k < .91:
        q = rng.choice(["*", "+", "?", "{2}", "{1,3}", "{0,2}", "{2,}", "{,2}"]) + rng.choice(["", "", "?", "+"])
        return "(?:" + g_re(rng, by, depth - 1, groups) + ")" + q
    if k < .93 and groups[1]:
        return f"(?:\\{rng.choice(groups[1])})"
    if k < .945 and groups[1]:
        return f"(?({rng.choice(groups[1])}){g_re(rng, by, depth - 2, groups)}|{g_re(rng, by, depth - 2, groups)})"
    if k < .965:
        return rng.choice(["(?=", "(?!", "(?<=", "(?<!"]) + rng.choice([lit(rng, by), g_set(rng, by)]) + ")"
    if k < .985:
        return f"(?{rng.choice(['i', 's', '-i', 'm', 'a' if not by else 'i', 'im'])}:" + g_re(rng, by, depth - 1, groups) + ")"
    return "(?>" + g_re(rng, by, depth - 1, groups) + ")"


def g_pat(rng):
    by = rng.random() < .3
    p = g_re(rng, by, rng.randint(1, 4), [0, []])
    if rng.random() < .35:
        p = rng.choice(["^", r"\A", r"\b", "", r"\B"]) + p + rng.choice(["$", r"\Z", r"\b", "", "$"])
        if rng.random() < .3:
            p += rng.choice([r"\n", "x", r"(?:^a)?", "|b$"])
    flags = 0
    for f in (re.I, re.M, re.S, re.A, re.X):
        if rng.random() < .15:
            flags |= f
    al = None
    if not by and rng.random() < .3:
        al = rng.choice([("str", "abcABC019_ -"), ("str", "abc\n"), ("range", (0, 127)), ("codec", "ascii"), ("cats", ("L", "N")), ("str", "abkK\u212asſ")])
    return by, p, flags, al, rng.random() < .5, rng.getrandbits(32), rng.random() < .7


def p_pat(a):
    by, p, flags, al, full, seed, edge = a
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            rx = re.compile(p.encode() if by else p, flags)
        except (re.error, OverflowError):
            return None
        A, ok = alphabet(al) if al else (None, lambda c: True)
        what = f"from_regex({rx!r}, fullmatch={full}, alphabet={al})"
        from hypothesis.errors import Unsatisfiable
        kw = {} if A is None else {"alphabet": A if isinstance(A, st.SearchStrategy) else st.sampled_from(sorted(set(A)))}
        if isinstance(A, str):
            kw = {"alphabet": st.characters(categories=(), include_characters=A)}
        try:
            got = attempt(lambda: st.from_regex(rx, fullmatch=full, **kw), seed, edge, size=3)
        except SystemError as e:           # a defect of Python's own re module
            if "please report a bug for the re module" in str(e):
                return None
            raise
        for tag, v, d in got:
            if tag in ("refused", "empty"):
                if al is not None or "no elements can be drawn" in str(v) or "it has no values" in str(v):   # repeats of a set no character is in
                    return None
                w = witness(rx, full, by)
                return None if w is None else f"{what} gives nothing ({tag}: {v}), though {w!r} matches"
            if tag != "ok":
                continue
            if type(v) is not (bytes if by else str):
                return f"{what} gave {v!r}"
            if not (rx.fullmatch(v) if full else rx.search(v)):
                return f"{what} gave {v!r}, which does not match"
            if al is not None and not all(map(ok, v)):
                return f"{what} gave {v!r}, outside the alphabet"
    return None


def witness(rx, full, by):
    cs = "abzABCZ019_ -\n\x80\xff" + ("" if by else "éßàöİıΣ")
    cs = [c.encode("latin-1") for c in cs] if by else list(cs)
    m = rx.fullmatch if full else rx.search
    e = b"" if by else ""
    for w in [e] + cs + [a + b for a in cs for b in cs]:
        if m(w):
            return w
    return None


PAIR = ["(?i)k", "(?i:ſ)t", "[^a]", "(?i)[^k]", "^$", "a$\n?", r"\Aa|b\Z", "(a)|b(?(1)c|d)", "(?s).{3}", "(?m)^b$", r"[\w-]+", r"\bfoo\b", "x{2,4}?", "[]a]", r"[\]\\]", "(?x) a b # c", "(a*)*", "(?:a|ab)(?:c|bcd)", "a++b", "(?>a|ab)c"]


# --- identifiers of several kinds
def p_forms(a):
    kind, seed, edge, k = a
    rng = Random(seed)
    if kind == "emails":
        local = set(string.ascii_letters + string.digits + "!#$%&'*+-/=^_`{|}~")
        for tag, v, d in attempt(lambda: st.emails(), seed, edge):
            if tag == "ok":
                l, at, dom = v.rpartition("@")
                if not at or not 1 <= len(l) <= 64 or len(v) > 254 or set(l) - (local | {"."}) or l.startswith(".") or l.endswith(".") or ".." in l or domain_bad(dom, 255, 63):
                    return f"emails() gave {v!r}"
        for tag, v, d in attempt(lambda: st.emails(domains=st.sampled_from(["a.b", "x.org"])), seed, edge):
            if tag == "ok" and v.rpartition("@")[2] not in ("a.b", "x.org"):
                return f"emails(domains=...) gave {v!r}"
    elif kind == "domains":
        ml, me = rng.choice([255, 255, 60, 20, 8, 4]), rng.choice([63, 63, 10, 3, 2, 1])
        for tag, v, d in attempt(lambda: pv.domains(max_length=ml, max_element_length=me), seed, edge):
            if tag == "refused":
                return f"domains({ml}, {me}) was refused"
            if tag == "ok" and domain_bad(v, ml, me):
                return f"domains(max_length={ml}, max_element_length={me}) gave {v!r}: {domain_bad(v, ml, me)}"
    elif kind == "urls":
        for tag, v, d in attempt(lambda: pv.urls(), seed, edge):
            if tag == "ok":
                m = re.fullmatch(r"(https?)://([^/:?#]+)(:\d+)?/([^#]*)(#.*)?", v)
                if not m or domain_bad(m[2], 255, 63) or (m[3] and not 1 <= int(m[3][1:]) <= 65535):
                    return f"urls() gave {v!r}"
                safe = set(string.ascii_letters + string.digits + "$-_.+!*'(),~")
                if re.sub(r"%[0-9A-F]{2}", "", m[4]).strip("".join(safe) + "/") or set(re.sub(r"%[0-9A-F]{2}", "", (m[5] or "#")[1:])) - safe - set("?/"):
                    return f"urls() gave {v!r} with unencoded characters"
    elif kind == "uuids":
        ver, nil = rng.choice([None, 1, 2, 3, 4, 5]), rng.random() < .5
        if ver is not None:
            nil = nil and False
        for tag, v, d in attempt(lambda: st.uuids(version=ver, allow_nil=nil), seed, edge):
            if tag == "ok":
                if type(v) is not uuid.UUID or (v.int == 0 and not nil):
                    return f"uuids(version={ver}, allow_nil={nil}) gave {v!r}"
                if ver is not None and (v.version != ver or v.variant != uuid.RFC_4122):
                    return f"uuids(version={ver}) gave {v!r} of version {v.version}"
    else:
        ver = rng.choice([4, 6])
        bits = 32 if ver == 4 else 128
        net = None
        if rng.random() < .7:
            pl = rng.choice([0, 1, 8, 20, bits - 1, bits, bits - 2])
            x = rng.getrandbits(bits) >> (bits - pl) << (bits - pl)
            net = (ipaddress.IPv4Network if ver == 4 else ipaddress.IPv6Network)((x, pl))
        v_arg = rng.choice([None, ver])
        arg = str(net) if net is not None and rng.random() < .5 else net
        for tag, v, d in attempt(lambda: st.ip_addresses(v=v_arg, network=arg), seed, edge, 5):
            if tag in ("refused", "empty"):
                return f"ip_addresses(v={v_arg}, network={net}): {tag}"
            if tag == "ok":
                if type(v) not in (ipaddress.IPv4Address, ipaddress.IPv6Address) or (net is not None and v not in net) or (v_arg and v.version != v_arg):
                    return f"ip_addresses(v={v_arg}, network={net}) gave {v!r}"
    return None


def domain_bad(v, ml, me):
    from hypothesis.provisional import get_top_level_domains
    parts = v.split(".")
    if len(v) > ml:
        return f"{len(v)} characters long"
    if parts[-1].upper() not in TLDS():
        return f"no such top-level domain as {parts[-1]}"
    for p in parts[:-1]:
        if not re.fullmatch(r"[a-zA-Z]([a-zA-Z0-9-]*[a-zA-Z0-9])?", p) or len(p) > me or p[2:4] == "--":
            return f"bad label {p!r}"
    return None


def TLDS():
    global _T
    try:
        return _T
    except NameError:
        import os
        import hypothesis
        with open(os.path.join(os.path.dirname(hypothesis.__file__), "vendor", "tlds-alpha-by-domain.txt")) as f:
            _T = {l.strip() for l in f if not l.startswith("#")} - {"ARPA"}
        return _T


FORMS = ["emails", "domains", "urls", "uuids", "addresses"]
CHECKS = [
    RT("text", g_text, p_text, n=1500, budget=20, rule="text, characters and binary: alphabet, length, type"),
    RT("patterns", g_pat, p_pat, n=6000, budget=30, rule="from_regex on generated patterns, flags and alphabets: Python's re matches each value",
       cases=[(False, p, 0, al, full, s, True) for p in PAIR for al in (None, ("codec", "ascii")) for full in (False, True) for s in range(3)]),
    RT("forms", lambda rng: (rng.choice(FORMS), rng.getrandbits(32), rng.random() < .6, 0), p_forms, n=1200, budget=20, rule="emails, domains, urls, uuids, ip_addresses have their form"),
]
