"""What each check runs: TLC models that print vectors (gen), further models (mc), traces to record."""

ALLKINDS = ["slen", "sdat", "strm", "num", "bool", "b32", "enum", "hist", "cnt", "len", "ai", "term", "size", "guid", "raw", "magic", "ver", "pad"]


def doc(ck, f, b):
    return {"module": "GenDoc", "params": {"ck": ck, "f": f, "b": b}}


def fault(mode, kinds=ALLKINDS, x="full", stable=0, mem=0, hdr=0, every=1, name=None, **kw):
    g = {"module": "GenFault", "name": name or f"GenFault-{mode}{'-hdr' if hdr else ''}",
         "params": {"mode": mode, "kinds": kinds, "x": x, "stable": stable, "mem": mem, "hdr": hdr, "every": every}}
    g.update(kw)
    return g


def gen(module, **params):
    return {"module": module, "params": params or {"none": 0}}


def huge(sel, *gvs, mode="rw", few=0):
    return gen("GenHuge", sel=sel, gvs=list(gvs or ["Default"]), mode=mode, few=few)


def rec(kind, n, thorough=None, **kw):
    return {"kind": kind, "n": n, "thorough": thorough or 15 * n, **kw}


POOL = "Bound: the pool of canonical saves in spec/Families.tla (every property kind in every position, boundary values, nesting, large sizes)."

CHECKS = {
    "C01": {"gen": [doc(["rw", "rwpal"], 0, 1), huge("all")], "record": [rec("roundtrip", 8000)],
            "note": POOL},
    "C02": {"gen": [doc(["wr", "wrpal"], 1, 0), huge("coll", "Default", "Zlib")], "record": [rec("roundtrip", 8000)],
            "note": POOL},
    "C03": {"gen": [doc(["read", "write"], 1, 1), huge("all")], "record": [rec("roundtrip", 8000), rec("layout", 2000)],
            "note": POOL},
    "C04": {"gen": [doc(["read", "write"], 1, 1), fault("tok", ["len", "size", "cnt", "slen", "ai"], x="r"), fault("size", x="r", every=4), huge("all")],
            "record": [rec("roundtrip", 6000), rec("layout", 2000)],
            "note": POOL + " Every size, length and count field of about 700 documents is replaced by boundary and neighbouring values."},
    "C05": {"gen": [fault("tok", x="any", mem=1), fault("byte", x="any", mem=1, every=5), fault("shift", x="any", mem=1, every=4),
                    fault("pair", x="any", mem=1), fault("str", x="any", mem=1), fault("str", x="any", mem=1, hdr=1), fault("tok", x="any", mem=1, hdr=1), fault("byte", x="any", mem=1, hdr=1, every=4), gen("GenBomb"), gen("GenPal", x="any"),
                    doc(["any"], 0, 1), huge("all", "Default", "ZlibTwice", mode="any")],
            "mc": [{"module": "MCReader"}, {"module": "MCReader", "cfg": "MCReaderLive", "tier": "thorough"}],
            "record": [rec("damage", 4000, err="any")],
            "note": "Every token of about 700 documents replaced, inserted or deleted bytes, two fields at a time; each call runs with a memory limit and a hang detector."},
    "C06": {"gen": [gen("GenCut", every=3, pal=40), huge("all", "Default", "Zlib", mode="cut", few=1)], "record": [rec("cut", 6000)],
            "note": POOL + " Every prefix is tried."},
    "C07": {"gen": [gen("GenVer")], "record": [rec("roundtrip", 10000)],
            "note": "All version values around each threshold and every layout that depends on them."},
    "C08": {"gen": [gen("GenHint"), huge("hint", few=1)], "mc": [{"module": "MCReader"}], "record": [rec("hints", 6000)],
            "note": "Hint tables exact, missing, near-miss, superfluous and wrong for every position of an unlabelled struct."},
    "C09": {"gen": [gen("GenHdr"), fault("tok", x="r", hdr=1), fault("byte", x="r", hdr=1, every=4), fault("str", x="r", hdr=1), huge("hdr")],
            "record": [rec("header", 8000)],
            "note": "All header contents of the family, sweeps of every version field, every damaged header byte."},
    "C10": {"gen": [doc(["read", "write"], 1, 1), gen("GenColl"), huge("coll")],
            "record": [rec("layout", 2000), rec("roundtrip", 4000)],
            "known": [{"vector": "known/C10-static-array.json",
                       "what": "known/C10-static-array.json: a top-level static array (one property name stored several times with array_index 0, 1, ...) keeps only its last element"}],
            "note": POOL + " Repeated keys and fields in every arrangement, collections of up to 70000 elements."},
    "C11": {"gen": [gen("GenStr"), fault("tok", ["slen", "sdat", "strm"], x="r", every=2), fault("str", x="r", every=6), huge("str")],
            "record": [rec("string", 3000)],
            "note": "Exhaustive one- and two-byte contents, boundary sequences in both forms, lengths up to the limit and past it."},
    "C12": {"gen": [gen("GenPal", x="r"), doc(["wrpal", "rwpal"], 1, 1), huge("all", "None", "Zlib", "ZlibTwice", few=1)],
            "record": [rec("pal", 6000)],
            "note": POOL + " Containers of every kind and compression level, every kind byte, damaged magic, announced lengths, payloads and checksums."},
    "C13": {"gen": [gen("GenJson"), huge("all", mode="json")],
            "record": [rec("json", 8000)],
            "note": POOL + " Each save has one specified JSON form; non-finite numbers are excluded. Names that coincide with member names of the JSON form, wide number samples."},
    "C14": {"gen": [gen("GenIo"), huge("all", "Default", "Zlib", mode="io", few=1)], "record": [rec("io", 4000)],
            "note": "All scripts of four stream answers (short, interrupted, nothing, failed) at several calls; 29 chunk schedules, every failing operation and every destination limit for each property kind, container and Palworld compression."},
    "C15": {"gen": [doc(["counts"], 1, 1), huge("all", mode="counts")], "record": [rec("counts", 8000)], "note": POOL},
    "C16": {"gen": [gen("GenUnk"), huge("raw")], "record": [rec("unknown", 6000)],
            "note": "Unknown type names, payloads of every size class and positions, between neighbours of every known kind; damaged and unknowable sizes."},
    "C17": {"gen": [fault("tok", x="full"), fault("byte", x="full", every=7), fault("tok", x="full", hdr=1), fault("str", x="full", every=8), fault("str", x="full", hdr=1), gen("GenPal", x="full")],
            "record": [rec("damage", 4000, err="full")],
            "note": "Each damaged input has one exact expected error, value and position."},
    "C18": {"gen": [doc(["stable", "stablepal"], 0, 1), fault("tok", x="r", stable=1), fault("str", x="r", stable=1, every=10), gen("GenStable"), {"module": "GenStable", "cfg": "GenStableSome", "name": "GenStableSome", "params": {"none": 0}}, gen("GenColl"), huge("all")],
            "record": [rec("damage", 3000), rec("layout", 1500)],
            "note": POOL + " The same saves with strings in the encoding the library does not write; repeated properties, custom versions, keys and fields; any end marker; damaged saves that are still accepted."},
    "C19": {"gen": [gen("GenGuid")], "record": [rec("guid", 4000)],
            "note": "All bit positions, byte values and word patterns; texts of every length with every ASCII character in every position, non-ASCII text, separators everywhere."},
    "C20": {"gen": [gen("GenNew")], "record": [rec("build", 10000)],
            "note": "All element kinds x declared types x flags x mixtures, up to three elements exhaustively mixed; the constructed value, its variant and its bytes are compared."},
    "C21": {"gen": [gen("GenEq"), doc(["clone"], 1, 0), huge("all", mode="clone")],
            "record": [rec("session", 1500), rec("equal", 8000)],
            "note": POOL + " Groups of up to 300 properties compared pairwise; all entry orders of three-entry maps, structs and text arguments; larger maps in several orders."},
    "C22": {"gen": [gen("GenEdit"), gen("GenSession")], "mc": [{"module": "MCSession"}], "record": [rec("session", 6000)],
            "note": "Every edit of every kind at every position of the editing family; all histories of up to four calls over two files; random sessions recorded and judged."},
    "C23": {"gen": [gen("GenPart")], "record": [rec("part", 10000, err="full")],
            "note": POOL + " Every prefix of short parts; surrounding bytes; each public reader of the type."},
    "C24": {"gen": [gen("GenCtor")], "record": [rec("make", 10000)],
            "note": POOL + " All constructors and conversions on all leaves of the pool, strings, single-bit numbers; ordered maps of up to four entries exhaustively."},
    "C25": {"gen": [gen("GenQuery")], "record": [rec("version", 8000), rec("header", 3000)],
            "note": "Engine versions with one number below 64 exhaustively; custom-version tables with every value around the numbered versions, near-miss identifiers; all published numbers."},
    "C26": {"gen": [gen("GenIndep")], "mc": [{"module": "MCIndep"}], "record": [rec("threads", 6400, err="full")],
            "note": "Seven catalogues of up to 120 calls (reads, writes, parts, headers, JSON, refused writes; about half of them failing): all ordered pairs in sequence, nested and taking turns in two threads, "
                    "200 repetitions of each followed by all others, random sequences, four threads at once."},
}
