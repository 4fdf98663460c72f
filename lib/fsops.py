"""Which calls change the file system, and which of their operands name the files."""

# callee -> (operation, indices of path operands)
CALLS = {}
for ns in ("std::filesystem::", "boost::filesystem::"):
    CALLS.update({
        ns + "rename": ("rename", 2), ns + "remove": ("remove", 1), ns + "remove_all": ("remove", 1),
        ns + "copy": ("copy", 2), ns + "copy_file": ("copy", 2), ns + "resize_file": ("resize", 1),
        ns + "create_directory": ("create", 1), ns + "create_directories": ("create", 1),
        ns + "create_symlink": ("create", 2), ns + "create_hard_link": ("create", 2),
        ns + "permissions": ("chmod", 1), ns + "last_write_time": ("touch", 1),
    })
CALLS.update({
    "rename": ("rename", 2), "std::rename": ("rename", 2), "unlink": ("remove", 1), "truncate": ("resize", 1),
    "link": ("create", 2), "symlink": ("create", 2), "mkdir": ("create", 1), "rmdir": ("remove", 1),
    "std::fopen": ("fopen", 1), "fopen": ("fopen", 1), "std::freopen": ("fopen", 1), "creat": ("open", 1),
    "chmod": ("chmod", 1), "ftruncate": ("resize", 1),
})
STREAMS = {"std::basic_ofstream", "std::basic_fstream"}
MAPPED = {"boost::iostreams::mapped_file", "boost::iostreams::mapped_file_sink"}


def op(n):
    """(operation, [path operand nodes]) of a call or constructor, or None."""
    if n.get("k") == "ctor":
        cls = _base(n["cls"])
        if cls in STREAMS and n["a"] and not n.get("copy") and not n.get("move"):
            return ("open", [n["a"][0]])
        if cls in MAPPED and n["a"] and not n.get("copy") and not n.get("move"):
            return ("map", [n["a"][0]])
        return None
    if n.get("k") != "call" or not n.get("f"):
        return None
    f = n["f"]
    if f in CALLS:
        o, k = CALLS[f]
        if f.endswith("last_write_time") and len(n["a"]) < 2:
            return None
        if o == "fopen":
            m = n["a"][1] if len(n["a"]) > 1 else None
            if m is not None and m.get("k") == "str" and m["v"][:1] == "r" and "+" not in m["v"]:
                return None
        return (o, n["a"][:k])
    if f in ("remove", "std::remove") and len(n["a"]) == 1:
        return ("remove", n["a"][:1])
    if f in ("open", "open64") and len(n["a"]) >= 2:
        from program import const
        fl = const(n["a"][1])
        if fl is not None and (fl & 3) == 0:
            return None
        return ("open", n["a"][:1])
    if f.split("::")[-1] == "open" and n.get("obj") is not None:
        t = _base((n["obj"].get("t").s if n["obj"].get("t") else ""))
        if t in STREAMS:
            return ("open", n["a"][:1])
        if t in MAPPED:
            return ("map", n["a"][:1])
    return None


def _base(s):
    i = s.find("<")
    return s if i < 0 else s[:i]


def pnorm(t):
    """Strip conversions between a path and its text."""
    while isinstance(t, tuple) and t:
        if t[0] == "call" and t[1].startswith("std::filesystem::path::") and \
                t[1].split("::")[-1] in ("native", "string", "c_str", "u8string", "generic_string") or \
                t[0] == "call" and t[1] in ("std::basic_string::c_str", "std::basic_string::data"):
            t = t[2]
        elif t[0] == "new" and t[1] == "std::filesystem::path" and len(t) > 2:
            t = t[2]
        elif t[0] == "conv" and "path" in t[1]:
            t = t[2]
        elif t[0] in ("call",) and t[1] == "std::move":
            t = t[3]
        else:
            break
    return t
