"""Stable names of constructs of the analysed crate."""


def span_file(b):
    s = b["mir"].get("span") or [""]
    return s[0]


def fn_name(m, key):
    b = m["bodies"].get(key)
    if b is None:
        return key
    if "::{closure#" in key:
        parent = key[:key.index("::{closure#")]
        if parent in m["bodies"]:
            return fn_name(m, parent)
    f = span_file(b)
    i = f.find("src/")
    f = f[i:] if i >= 0 else f
    r = b["ref"]
    owner = r.get("recv") or r.get("trait") or ""
    if isinstance(owner, dict):
        owner = owner.get("name") or owner.get("key", "")
    owner = str(owner).split("::")[-1]
    return f"{f}::{owner + '::' if owner else ''}{r['name']}"
