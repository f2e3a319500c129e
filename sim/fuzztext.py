"""Random structured texts for the documents users hand to the daemon: values, their JSON and YAML forms, and
mutations of these."""
import json

STR = ["", "x", "text", "ä b", "日本", "1", "1.5", "null", "true", "yes", "~", "2024-01-01", "a: b", "- x", "#c", "'q'",
       '"d"', "\\", "\n", "tab\t", "%", "{{x}}", "$HOME", "x" * 300, "\u2028", "é\u0301", "\ufeff", "\U0001f600", "=", "<<"]


def scalar(r):
    x = r.random()
    if x < 0.45:
        return r.choice(STR)
    if x < 0.6:
        return r.choice([0, 1, -1, 255, 2 ** 31, -2 ** 63, 2 ** 64, 10 ** 30])
    if x < 0.75:
        return r.choice([0.0, 1.5, -2.25, 1e-7, 1e22, 123456.789, 0.1])
    return r.choice([None, True, False])


def value(r, depth=3, keys=None):
    x = r.random()
    if depth <= 0 or x < 0.45:
        return scalar(r)
    if x < 0.65:
        return [value(r, depth - 1, keys) for _ in range(r.choice([0, 1, 2, 3, 6]))]
    out = {}
    for _ in range(r.choice([0, 1, 2, 3, 5])):
        k = r.choice(STR) if keys is None or r.random() < 0.5 else keys(r)
        out[k] = value(r, depth - 1, keys)
    return out


def odd_key(r):
    return r.choice([1, 0, -5, 2.5, True, False, None, 10 ** 20, "1", "None", "true"])


def json_text(r):
    return json.dumps(value(r), ensure_ascii=r.random() < 0.5, indent=r.choice([None, None, 2]),
                      separators=r.choice([None, (",", ":")]))


def yaml_text(r, odd=True):
    import yaml
    v = value(r, 3, odd_key if odd and r.random() < 0.6 else None)
    t = yaml.safe_dump(v, allow_unicode=r.random() < 0.5, default_flow_style=r.choice([None, True, False]),
                       sort_keys=False)
    x = r.random()
    if x < 0.08:
        t = "a: &a %s\nb: *a\nc: [*a, *a]\n" % json.dumps(value(r, 2))
    elif x < 0.12:
        t = "base: &b {x: 1, y: 2}\nd:\n  <<: *b\n  y: 3\n"
    elif x < 0.16:
        t = "d: %s\n" % r.choice(["2024-02-29", "2024-01-01T00:00:00Z", "0o17", "017", "0x1F", "1_000", "12:30:45", ".5",
                                  "on", "off", "!!str 5", "!!float 1", "|\n  lit\n  eral", ">\n  fol\n  ded", ".inf", ".NaN"])
    elif x < 0.19:
        t = "--- \n" + t + "...\n" if r.random() < 0.5 else t + "---\n" + t
    return t


def mutate(r, raw):
    b = bytearray(raw)
    for _ in range(r.choice([1, 1, 2, 5])):
        x = r.random()
        if x < 0.35 and b:
            b[r.randrange(len(b))] = r.choice([0, 9, 10, 13, 34, 39, 44, 58, 91, 93, 123, 125, 127, 128, 0xC3, 0xFF, 0xED,
                                               r.randrange(256)])
        elif x < 0.55 and b:
            del b[r.randrange(len(b)):]
        elif x < 0.7 and b:
            i = r.randrange(len(b))
            j = min(len(b), i + r.randint(1, 12))
            b[i:i] = b[i:j]
        elif x < 0.8:
            b[:0] = b"\xef\xbb\xbf"
        elif x < 0.85:
            b = bytearray(bytes(b).decode("utf-8", "replace").encode(r.choice(["utf-16", "utf-32", "latin-1"]), "replace"))
        elif b:
            i = r.randrange(len(b))
            del b[i:i + r.randint(1, 6)]
    return bytes(b)


def ret(r, hostile):
    """(format, bytes) of return data; hostile: probably broken."""
    fmt = r.choice(["json", "yaml"])
    raw = (json_text(r) if fmt == "json" else yaml_text(r)).encode("utf-8", "surrogatepass")
    return (fmt, mutate(r, raw)) if hostile else (fmt, raw)
