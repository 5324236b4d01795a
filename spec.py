"""What check.py runs for each property: harness, definitions, bounds, assumptions."""
ASSUMPTIONS = [
    "LLVM bitcode produced by clang 18 -O1 from the current /repo headers is executed; other compilers are trusted to give the same meaning to code without undefined behaviour",
    "allocation never fails (malloc failure is not modelled); the memory model is byte precise with bounds, lifetime and initialisation checks",
    "the C/C++ runtime functions (libc, std::string, std::map, iostream formatting) are replaced by models in engine/handlers.hpp and engine/rt.cpp; sample paths are re-run natively as a check of the models",
]
PROPS = {}
def J(src, name, **kw):
    d = dict(src=src, name=name); d.update(kw); return d
import bounds as _b
def P(pid, jobs, bounds, **kw):
    bounds = bounds or _b.bounds(pid)
    PROPS[pid] = dict(jobs=jobs if callable(jobs) else (lambda tier, j=jobs: j), bounds=bounds, **kw)

# long documents: templates with repetitions of lengths around the powers of two up to LONG
STEPS_LONG = 400000000
def SL(name, what, long, **d): return J("scan.cpp", "long_" + name, defs=dict(SET=7, WHAT=what, NX=1, LONG=long, **d), max_steps=STEPS_LONG)
def L(job): job["max_steps"] = STEPS_LONG; return job
P("C01", [J("c01.cpp", "encdec", defs={"PART": 0}), J("c01.cpp", "bytes", defs={"PART": 1}), J("c01.cpp", "seq", defs={"PART": 2})], None)
def c23(encs):
    return [J("c02.cpp", "%s_%d" % (n, p), defs={"ENC": e, "PART": p}) for e, n in encs for p in (0, 1)]
P("C02", c23([(0, "utf16le"), (1, "utf16be")]), None)
P("C03", c23([(2, "ucs2le"), (3, "ucs2be"), (4, "ucs4le"), (5, "ucs4be")]), None)
P("C04", [J("c04.cpp", "decode", defs={"PART": 0}), J("c04.cpp", "encode", defs={"PART": 1}), J("c04.cpp", "index", defs={"PART": 2})], None)
P("C05", [J("c05.cpp", "views_%s" % n, defs={"ENC": e}) for e, n in enumerate("utf8 utf16le utf16be ucs2le ucs2be ucs4le ucs4be isolatin".split())], None)
P("B01", lambda tier: [J("b01.cpp", "buffer", defs={"NOPS": 4 if tier == "quick" else 5}), L(J("b01.cpp", "long", defs={"LONG": 65537, "SPARSE": 1}))], None)
P("B02", lambda tier: [J("b02.cpp", "stack", defs={"NOPS": 4 if tier == "quick" else 5}), L(J("b02.cpp", "long", defs={"LONG": 8193}))], None)
P("I01", lambda tier: [J("i01.cpp", n, defs={"PART": p, "MAXN": 5 if tier == "quick" else 7}) for p, n in enumerate(("iterate", "error", "reader", "stdstream"))] + [L(J("i01.cpp", "long", defs={"PART": 4, "LONG": 65537}))], None)
P("I02", lambda tier: [J("i02.cpp", n, defs={"PART": p, "MAXN": 4 if tier == "quick" else 6}) for p, n in enumerate(("string", "chunk"))] + [L(J("i02.cpp", "long_" + n, defs={"PART": p + 2, "LONG": 65537})) for p, n in enumerate(("string", "chunk"))], None)
P("E01", [J("e01.cpp", n, defs={"PART": p}) for p, n in enumerate(("causes", "types", "states", "errors"))], None)
P("H01", lambda tier: [J("hdr.cpp", "wellformed", defs={"PART": 0, "NSYM": 0, "TIER": tier != "quick" and 1 or 0}), J("hdr.cpp", "arbitrary", defs={"PART": 1, "NSYM": 3 if tier == "quick" else 5}), J("hdr.cpp", "zeros", defs={"PART": 2, "NSYM": 0}), L(J("hdr.cpp", "long", defs={"PART": 5, "NSYM": 0, "LONG": 65537, "SPARSE": 1}))], None)
P("H02", lambda tier: [J("hdr.cpp", "split", defs={"PART": 3, "NSYM": 2 if tier == "quick" else 3}), J("hdr.cpp", "clear", defs={"PART": 4, "NSYM": 3 if tier == "quick" else 5}), L(J("hdr.cpp", "long", defs={"PART": 6, "NSYM": 0, "LONG": 65537, "SPARSE": 1}))], None)
def SC(name, **d): return J("scan.cpp", name, defs=d)
P("S02", lambda tier: [SC(n, SET=k, WHAT="CType", NX=3 if tier == "quick" else 4) for k, n in enumerate(("document", "tags", "skipped", "doctype"))] + [SL("latin1", "CType", 65537)], None)
SETN = ("document", "tags", "skipped", "doctype", "references", "texts", "entities")
def q(tier, a, b): return a if tier == "quick" else b
P("S04", lambda tier: [SC("references", SET=4, WHAT="CText|CErr", NX=q(tier, 2, 3)), SC("utf16", SET=4, WHAT="CText|CErr", NX=2, IN="ref::UTF16LE", OUT="ref::UTF16LE"), SL("latin1", "CText|CErr", 1025)], None)
P("S05", lambda tier: [SC("entities", SET=6, WHAT="CText|CErr", NX=q(tier, 3, 4))], None)
P("S10", lambda tier: [SC(SETN[k], SET=k, WHAT="CErr|CPos", NX=q(tier, 2, 3)) for k in range(5)] + [J("s12.cpp", "iterator", defs=dict(IN=7, OUT=0, ITER=2, SET=0), split_addr=64), SL("latin1", "CErr|CPos", 65537)], None)
P("S08", lambda tier: [SC("%s_%d" % (SETN[k], i), SET=k, WHAT="CPos", NX=q(tier, 2, 3), ITER=i) for k in (0, 1, 2, 3, 5) for i in range(4)]
    + [SC("%s_%s_%d" % (SETN[k], e, i), SET=k, WHAT="CPos", NX=q(tier, 1, 2), ITER=i, IN="ref::" + e) for k in (0, 1, 2, 3, 5) for e, i in (("UTF8", 2), ("UTF16BE", 1), ("UCS4LE", 3), ("UCS2LE", 2))] + [SL("latin1_stream", "CPos", 1025, ITER=3), SL("utf16be_src", "CPos", 1025, IN="ref::UTF16BE", ITER=2), SL("latin1_charp", "CPos", 65537)], None)
P("S03", lambda tier: [SC("latin1_utf8", SET=5, WHAT="CText", NX=q(tier, 2, 3)), SC("latin1_utf16", SET=5, WHAT="CText", NX=q(tier, 2, 3), OUT="ref::UTF16BE"), SC("utf8_utf8", SET=5, WHAT="CText", NX=q(tier, 2, 3), IN="ref::UTF8", HI=127), SC("attributes", SET=1, WHAT="CText", NX=q(tier, 2, 3)), SC("ucs4_latin1", SET=5, WHAT="CText", NX=q(tier, 2, 3), IN="ref::UCS4LE", OUT="ref::LATIN1"), SL("latin1_utf8", "CText", 65537), SL("utf16be_utf16le", "CText", 1025, IN="ref::UTF16BE", OUT="ref::UTF16LE", ITER=1)], None)
ENCN = "utf8 utf16le utf16be ucs2le ucs2be ucs4le ucs4be latin1".split()
OUTSETS = {1: "0,7", 2: "1,2", 4: "3,4", 8: "5,6", 15: "0,1,2,3,4,5,6,7", 5: "7,3,4"}
def EN(i, o, back, **d):
    n = ENCN[i] if i < 100 else "latin%d" % (i - 100)
    return J("enc.cpp", "%s_to_%s" % (n, "_".join(ENCN[int(k)] for k in OUTSETS[o].split(","))), defs=dict(IN=i, OUTSET=o, OUTS=OUTSETS[o], BACK=back, **d))
P("S09", lambda tier: [EN(i, 15, 0) for i in list(range(8)) + [102, 106]] if tier == "quick" else [EN(i, o, 0, NSYMC=2) for i in list(range(8)) + [100 + k for k in range(2, 10)] for o in (1, 2, 4, 8)], None)
P("C06", lambda tier: [EN(i, 5, 1, NSYMC=q(tier, 1, 2)) for i in (0, 1, 6, 105, 109)] + [J("c06.cpp", "encoder", defs={})], None)
def S1(i, it, nx, **d):
    n = ENCN[i] if i < 100 else "latin%d" % (i - 100)
    return J("s01.cpp", "%s%s_%s%s%s" % ("long_" if "LONG" in d else "", n, ("charp", "cstring", "src", "stream")[it], "_fixbuf" if d.get("FIXBUF") else "", "_mask" if d.get("MASK") else ""), defs=dict(IN=i, ITER=it, NX=nx, **d), split_addr=64)
P("S01", lambda tier: [S1(7, 0, q(tier, 4, 6)), S1(0, 1, q(tier, 4, 6)), S1(0, 2, 3), S1(0, 3, 3), S1(7, 2, q(tier, 3, 4), MASK=1), S1(0, 1, 3, FIXBUF=1), S1(102, 1, 3)] + [S1(i, 1 + i % 3, q(tier, 6, 9)) for i in (1, 2, 3, 4)] + [S1(i, 1 + i % 3, q(tier, 9, 13)) for i in (5, 6)] + [L(S1(i, it, 1, LONG=n, **d)) for i, it, n, d in ((7, 0, 65537, {}), (0, 3, 1025, {}), (6, 2, 1025, {}), (7, 1, 4097, dict(FIXBUF=1)))], None)
def S6(name, i, o, st, split, **d): return J("s06.cpp", name, defs=dict(IN=i, OUT=o, SET=st, SPLIT=split, **dict(dict(VIA=0), **d)), split_addr=64)
P("S06", lambda tier: [S6("latin1_%s_split%d" % (n, k), 7, 0, st, k) for st, n in ((0, "markup"), (1, "references")) for k in (0, 1)] + [S6("latin1_long_split%d" % k, 7, 0, 3, k) for k in (0, 1)] + [S6("markup_setsource", 7, 0, 0, 1, VIA=1), S6("markup_mask", 7, 0, 0, 1, MASK=1)]
    + [S6("%s_%s_wide_split%d" % (ENCN[i], ENCN[o], k), i, o, 2, k) for i, o in ((0, 0), (0, 2), (1, 0), (2, 2), (4, 0), (6, 1)) for k in (0, 1)] + ([] if tier == "quick" else [S6("latin1_markup_split2", 7, 0, 0, 2), S6("latin1_references_split2", 7, 0, 1, 2), S6("utf8_wide_split2", 0, 1, 2, 2), S6("utf16le_wide_split2", 1, 0, 2, 2)]) + [L(S6("long_%s_%s" % (ENCN[i], ENCN[o]), i, o, 0, 3, LONG=n)) for i, o, n in ((7, 0, 4097), (0, 1, 257), (2, 0, 257))] + [L(S6("long_setsource", 7, 0, 0, 3, VIA=1, LONG=1025))], None)
P("S07", lambda tier: [J("s07.cpp", "%s_%s_%s%s" % (ENCN[i], ENCN[o], ("markup", "references")[st], "_percall" if pc else ""), defs=dict(IN=i, OUT=o, SET=st, PERCALL=pc), split_addr=64) for i, o, st, pc in ((7, 0, 0, 0), (7, 0, 1, 0), (7, 7, 0, 1), (7, 0, 1, 1), (0, 0, 1, 0), (1, 1, 0, 0), (5, 0, 1, 0))] + [L(J("s07.cpp", "long_%s_%s" % (ENCN[i], ENCN[o]), defs=dict(IN=i, OUT=o, SET=0, PERCALL=pc, LONG=n), split_addr=64)) for i, o, pc, n in ((7, 0, 1, 8193), (1, 0, 0, 1025))], None)
P("S12", lambda tier: [J("s12.cpp", "%s_%s_%s" % (ENCN[i], ENCN[o], ("charp", "cstring", "src")[it]), defs=dict(IN=i, OUT=o, ITER=it, SET=0), split_addr=64) for i, o, it in ((7, 0, 0), (0, 2, 1), (1, 7, 2), (5, 1, 0))] + [L(J("s12.cpp", "long_latin1_utf8", defs=dict(IN=7, OUT=0, ITER=1, SET=0, LONG=4097), split_addr=64))], None)
P("S13", lambda tier: [J("s13.cpp", "%s_%s_%s" % (ENCN[i], ENCN[o], ("fixed", "vector")[b]), defs=dict(IN=i, OUT=o, BUF=b, NX=q(tier, 2, 3)), split_addr=64) for i, o, b in ((7, 0, 0), (7, 0, 1), (0, 7, 0), (1, 1, 0))] + [L(J("s13.cpp", "long_%s_%s" % (ENCN[o], ("fixed", "vector")[b]), defs=dict(IN=7, OUT=o, BUF=b, NX=1, LONG=n), split_addr=64)) for o, b, n in ((0, 0, 1025), (1, 1, 4097))], None)
P("W03", lambda tier: [J("w03.cpp", "%s_%s" % (ENCN[d], ENCN[a]), defs=dict(DOC=d, APP=a, NX=q(tier, 1, 2)), split_addr=64) for d, a in ((0, 0), (1, 7), (7, 2))] + [L(J("w03.cpp", "long_%s_%s" % (ENCN[d], ENCN[a]), defs=dict(DOC=d, APP=a, NX=1, LONG=n, SPARSE=1), split_addr=64)) for d, a, n in ((0, 0, 1025), (1, 7, 257))], None)
S11J = [(100 + 2, 0, 0), (0, 0, 1), (0, 1, 2), (7, 7, 1), (1, 1, 2), (2, 0, 0), (3, 0, 1), (5, 6, 2), (109, 0, 1)]
P("S11", lambda tier: [J("s11.cpp", "%s_%s_%s" % (ENCN[i] if i < 100 else "latin%d" % (i - 100), ENCN[o], ("charp", "cstring", "src")[it]), defs=dict(IN=i, OUT=o, ITER=it, SET=0), split_addr=64) for i, o, it in S11J]
    + [J("s11.cpp", "chunk_%s_%s_%d" % (ENCN[i], ENCN[o], st), defs=dict(IN=i, OUT=o, ITER=2, SET=st, CHUNK=1), split_addr=64) for i, o, st in ((7, 0, 0), (7, 0, 1), (1, 2, 1))] + [L(J("s11.cpp", "long_%s_%s" % (ENCN[i], ENCN[o]), defs=dict(IN=i, OUT=o, ITER=it, SET=0, LONG=n), split_addr=64)) for i, o, it, n in ((0, 1, 2, 1025), (7, 0, 1, 4097))] + [L(J("s11.cpp", "long_chunk_latin1_utf8", defs=dict(IN=7, OUT=0, ITER=2, SET=0, CHUNK=1, LONG=1025), split_addr=64))], None)
WOUT = {1: "0", 2: "1,2", 4: "3,4", 8: "5,6", 16: "7,102,105,107,109", 15: "0,1,2,3,4,5,6"}
def WJ(a, o, nx): return J("w01.cpp", "%s_to_%s" % (ENCN[a], WOUT[o].replace(",", "_")), defs=dict(APP=a, OUTSET=o, OUTS=WOUT[o], NX=nx), split_addr=64)
P("W01", lambda tier: [WJ(a, o, q(tier, 1, 2)) for a in (0, 1, 2, 3, 6, 7) for o in (15, 16)] + [L(J("w01.cpp", "long_%s_to_%s" % (ENCN[a], ENCN[o]), defs=dict(APP=a, OUTSET=b, OUTS=str(o), NX=1, LONG=n), split_addr=64)) for a, o, b, n in ((0, 0, 1, 8193), (7, 2, 2, 1025), (1, 7, 16, 257))], None)
P("W02", lambda tier: [J("w02.cpp", "calls", defs={"NOPS": q(tier, 4, 5), "NOPK": 6}), J("w02.cpp", "copies", defs={"NOPS": q(tier, 3, 4), "NOPK": 8}), L(J("w02.cpp", "deep", defs={"NOPS": 1, "NOPK": 8, "LONG": 257, "SPARSE": 1}))], None)

def PJ(src, name, covers=(), **d):
    kw = dict(covers=list(covers)) if covers else {}
    if src == "a04.cpp" and d.pop("LONG", 0): kw["max_steps"] = 3000000
    if "PREFIX" in d: d["PREFIX"] = '"%s"' % d["PREFIX"]
    return J(src, name, defs=d, **kw)
HITS = ("one result", "several results", "no result")
# large documents and automata (a09.cpp)
def A9(name, part, covers, **d): return L(PJ("a09.cpp", "large_" + name, covers, PART=part, SPARSE=1, **d))
def A1(name, **d): return PJ("a01.cpp", name, HITS, **d)
P("A01", lambda tier: [
    A1("tags", STEPS=1, KINDS=0xf, FINS=0xc7, MAXN=q(tier, 7, 8), OPTS=2), A1("attributes", STEPS=1, KINDS=0xf, FINS=0x39, MAXN=q(tier, 7, 8), OPTS=1),
    A1("disturbed", STEPS=1, KINDS=0xf, FINS=0xc7, MAXN=q(tier, 5, 6), OPTS=46), A1("tags2", STEPS=2, KINDS=0xf, FINS=0xc7, MAXN=q(tier, 6, 7), OPTS=2),
    A1("deep2", STEPS=2, KINDS=0xf, FINS=0x3, MAXN=q(tier, 7, 8), OPTS=2, PREFIX="<<"), A1("conditions", STEPS=2, KINDS=0xf, KINDS2=0x1f0, FINS=0xff, MAXN=q(tier, 7, 8), OPTS=3, PREFIX="<av"),
    A1("condition_first", STEPS=2, KINDS=0xf0, KINDS2=0xf, FINS=0xff, MAXN=q(tier, 7, 8), OPTS=3, PREFIX="<av"), A1("two_conditions", STEPS=2, KINDS=0x1f0, FINS=0x7f, MAXN=q(tier, 8, 9), OPTS=3, PREFIX="<avav"),
    A1("tags3", STEPS=3, KINDS=0xf, FINS=0x3, MAXN=q(tier, 5, 6), OPTS=2, PREFIX="<<"), A1("conditions3", STEPS=3, KINDS=0xf, KINDS2=0x19f, FINS=0x3, MAXN=q(tier, 7, 8), OPTS=3, PREFIX="<av<av"),
    A1("long_names", STEPS=1, KINDS=0x1f, FINS=0xb, MAXN=q(tier, 5, 5), OPTS=3, NLEN=q(tier, 2, 3)), A1("ucs_names", STEPS=1, KINDS=0x5, FINS=0xb, MAXN=4, OPTS=3, ENC=2, WIDECH=1), A1("utf8_names", STEPS=1, KINDS=0x15, FINS=0xb, MAXN=q(tier, 4, 5), OPTS=3, ENC=0, WIDECH=1),
    A1("ucs4_names", STEPS=1, KINDS=0x5, FINS=0xb, MAXN=4, OPTS=3, ENC=5, WIDECH=1), A1("latin_names", STEPS=1, KINDS=0x5, FINS=0xb, MAXN=4, OPTS=3, ENC=7, WIDECH=1),
    A9("tags", 0, HITS, STEPS=1, LONG=q(tier, 129, 257)), A9("tags257", 0, HITS, STEPS=1, LONG=257, FEW=1), A9("tags2", 0, HITS, STEPS=2, LONG=q(tier, 64, 129), FEW=1), A9("steps", 4, ("result", "no result"), LONG=257), A9("names", 6, ("result", "no result"), LONG=65537)], None)
def A2(name, **d): return PJ("a02.cpp", name, () if d["PART"] == 2 else ("several results", "some in range"), **d)
P("A02", lambda tier: [
    A2("one", PART=0, STEPS=1, KINDS=7, FINS=6, MAXN=q(tier, 7, 9), OPTS=2, PREFIX="<x"), A2("nested", PART=0, STEPS=2, KINDS=3, FINS=2, MAXN=q(tier, 9, 10), OPTS=2, PREFIX="<<xx"), A2("two", PART=1, STEPS=1, KINDS=2, FINS=2, MAXN=q(tier, 6, 7), OPTS=2, PREFIX="<"),
    A2("condition", PART=0, STEPS=2, KINDS=0x12, FINS=2, MAXN=q(tier, 8, 9), OPTS=3, PREFIX="<av"), A2("tags", PART=2, STEPS=1, KINDS=1, FINS=1, MAXN=6, OPTS=2), A9("contents", 1, ("several results", "some in range"), LONG=257)], None)
def A3(name, covers=("several expressions match", "several expressions match the same element"), **d): return PJ("a03.cpp", name, covers, **d)
P("A03", lambda tier: [
    A3("two_conditions", NEXPR=2, STEPS=1, KINDS=0x1f, FINS=0x3, MAXN=q(tier, 4, 5), OPTS=3), A3("two_finals", NEXPR=2, STEPS=1, KINDS=0xf, FINS=0x79, MAXN=q(tier, 4, 5), OPTS=3), A3("two", NEXPR=2, STEPS=1, KINDS=0xf, FINS=0x47, MAXN=q(tier, 5, 6), OPTS=2), A3("same_type", NEXPR=2, STEPS=1, KINDS=0xf, FINS=0x47, MAXN=q(tier, 4, 5), OPTS=2, SAMETYPE=1),
    A3("with_index", NEXPR=2, STEPS=1, KINDS=0xf, FINS=0x47, MAXN=q(tier, 5, 6), OPTS=2, RANGED=1), A3("two_steps", NEXPR=2, STEPS=2, KINDS=0x3, KINDS2=0x16, FINS=0x3, MAXN=q(tier, 5, 6), OPTS=3, PREFIX="<"), A3("attributes", NEXPR=2, STEPS=1, KINDS=0x1f0, FINS=0x3f, MAXN=q(tier, 4, 5), OPTS=3, PREFIX="<av"), A3("three", NEXPR=3, STEPS=1, KINDS=0x7, FINS=0x3, MAXN=q(tier, 3, 4), OPTS=2, PREFIX="<"), A9("expressions", 2, ("result",), LONG=1025)], None)
def A4(name, covers=("results",), **d): return PJ("a04.cpp", name, covers, **dict(dict(OPTS=3), **d))
TXT = dict(PART=0, RNG=0, ALT=0, BLANKS=0)
AR = ("accepted", "rejected", "namespace operator")
P("A04", lambda tier: [
    A4("blanks", (), **dict(TXT, STEPS=2, KINDS=0x1f, FINS=0x1b, BLANKS=1, MAXN=0)), A4("texts", **dict(TXT, STEPS=2, KINDS=0x9f, FINS=0x7f, MAXN=q(tier, 3, 4))), A4("events", **dict(TXT, STEPS=2, KINDS=0x9f, FINS=0x1, MAXN=q(tier, 4, 5), OPTS=1)), A4("lists", **dict(TXT, STEPS=1, KINDS=0x7, FINS=0x3, ALT=1, MAXN=q(tier, 3, 4))), A4("index", **dict(TXT, STEPS=1, KINDS=0x2, FINS=0x2, RNG=1, MAXN=q(tier, 4, 5), OPTS=2)),
    A4("all_blanks", **dict(TXT, STEPS=1, KINDS=0x3, FINS=0x3, RNG=1, ALT=1, BLANKS=2, MAXN=2)), A4("one_blank", **dict(TXT, STEPS=1, KINDS=0x9f, FINS=0x7f, RNG=1, BLANKS=1, MAXN=q(tier, 2, 3)))]
    + [A4("wide_%s_%s" % (ENCN[t], ENCN[e]), **dict(TXT, STEPS=1, KINDS=0x15, FINS=0x9, MAXN=q(tier, 2, 3), WIDECH=1, ENC=e, TEXTENC="ref::" + r)) for t, r, e in ((0, "UTF8", 0), (0, "UTF8", 2), (1, "UTF16LE", 0), (6, "UCS4BE", 7), (7, "LATIN1", 7), (3, "UCS2LE", 5))]
    + [A4("value_%s_%s" % (ENCN[t], ENCN[e]), **dict(TXT, STEPS=2, KINDS=0x11, FINS=0x1, MAXN=q(tier, 3, 4), OPTS=1, WIDECH=1, ENC=e, TEXTENC="ref::" + r)) for t, r, e in ((0, "UTF8", 0), (2, "UTF16BE", 0), (1, "UTF16LE", 5), (5, "UCS4LE", 7), (7, "LATIN1", 7))]
    + [A4("arbitrary%d" % k, AR, PART=1, SET=k) for k in range(4)] + [A4("arbitrary1_latin1", AR, PART=1, SET=1, ENC=1, TEXTENC="ref::LATIN1"), A4("arbitrary3_utf16", AR, PART=1, SET=3, TEXTENC="ref::UTF16BE")]
    + [A4("references", ("name", "value"), PART=2, NDIG=4), A4("references_utf16", ("name", "value"), PART=2, NDIG=4, ENC=1), A4("references_ucs4", ("name", "value"), PART=2, NDIG=q(tier, 3, 5), ENC=6)] + [A4("long", ("equal", "different"), PART=3, LONG=1), A9("steps", 5, ("result", "no result"), LONG=257)], None)
def A5(name, cover, **d): return PJ("a05.cpp", name, (cover,), **d)
P("A05", lambda tier: [
    A5("iteration", "result behind a closed element", PART=0, STEPS=1, KINDS=0xf, FINS=0xc7, MAXN=q(tier, 6, 7), OPTS=18), A5("iteration2", "result behind a closed element", PART=0, STEPS=2, KINDS=0xf, FINS=0x47, MAXN=q(tier, 5, 6), OPTS=18), A5("iteration_attributes", "result behind a closed element", PART=0, STEPS=1, KINDS=0x9f, FINS=0x7f, MAXN=q(tier, 5, 6), OPTS=3),
    A5("copies", "result of the copy", PART=1, STEPS=1, KINDS=0xf, FINS=0x47, MAXN=q(tier, 6, 7), OPTS=2), A5("copies_attributes", "result of the copy", PART=1, STEPS=1, KINDS=0xb7, FINS=0x7f, MAXN=q(tier, 5, 6), OPTS=3), A5("copies2", "result of the copy", PART=1, STEPS=2, KINDS=0x7, FINS=0x7, MAXN=q(tier, 5, 6), OPTS=2, PREFIX="<"),
    A5("inserted", "result after the inserted elements", PART=2, STEPS=1, KINDS=0xf, FINS=0x47, MAXN=q(tier, 4, 5), OPTS=2), A5("inserted2", "result after the inserted elements", PART=2, STEPS=2, KINDS=0x7, FINS=0x7, MAXN=q(tier, 4, 5), OPTS=2, PREFIX="<"), A5("inserted_attributes", "result after the inserted elements", PART=2, STEPS=1, KINDS=0x94, FINS=0x26, MAXN=q(tier, 4, 5), OPTS=3, PREFIX="<"), A9("copies", 3, HITS + ("copy",), STEPS=1, LONG=q(tier, 64, 129)), A9("copies257", 3, HITS + ("copy",), STEPS=1, LONG=q(tier, 129, 257), FEW=1)], None)
def A6(name, **d): return PJ("a06.cpp", name, ("results", "no result", "header") if d["STEPS"] else ("no result", "header"), **d)
P("A06", lambda tier: [
    A6("header1", PART=0, STEPS=1, KINDS=0xf, FINS=0xff, MAXN=q(tier, 4, 5), OPTS=3), A6("header2", PART=0, STEPS=2, KINDS=0xf, KINDS2=0x9f, FINS=0xff, MAXN=q(tier, 3, 4), OPTS=3), A6("conditions", PART=0, STEPS=1, KINDS=0xf0, FINS=0x7f, MAXN=q(tier, 4, 5), OPTS=3),
    A6("root1", PART=1, STEPS=1, KINDS=0xf, FINS=0x4f, MAXN=q(tier, 4, 5), OPTS=3), A6("root", PART=1, STEPS=0, KINDS=0xf, FINS=0x1, MAXN=q(tier, 4, 5), OPTS=10)], None)
P("A07", lambda tier: [J("a07.cpp", "%s_%s" % (ENCN[i], ENCN[e]), defs=dict(IN=i, ENC=e), split_addr=64) for i, e in ((0, 0), (2, 0), (7, 7), (7, 1))], None)
P("A08", lambda tier: [PJ("a08.cpp", "%s" % ENCN[e], ("results", "results not fetched"), ENC=e, NEV=q(tier, 2, 3)) for e in ((0, 1) if tier == "quick" else (0, 1, 5))], None)
def R1(name, part, **d): return J("r01.cpp", name, defs=dict(PART=part, SWITCHES=d.pop("SW", 2), **d), covers=["both work"])
P("R01", lambda tier: [R1("scanners_%s_%s_%s" % (a, b, n), 0, IN=i, IN2=j, OUT=o, ITER=it, SW=q(tier, 2, 4)) for a, i, b, j, o, it, n in (("latin2", 102, "latin5", 105, 0, 1, "cstring"), ("utf8", 0, "utf8", 0, 1, 2, "src"), ("utf16be", 2, "utf16be", 2, 7, 3, "stream"), ("utf8", 0, "utf8_latin1", 0, 7, 4, "chunks"))]
    + [R1("printers", 1, IN=7, OUT=0, SW=q(tier, 2, 4)), R1("printers_utf16", 1, IN=1, OUT=5, SW=q(tier, 2, 4)), R1("header_parsers", 2, SW=q(tier, 4, 6)), R1("selectors", 3, ENC=0, SW=q(tier, 2, 3)), R1("automata", 4, ENC=0, SW=q(tier, 2, 4))]
    + [R1("readers_%s" % n, 5, IN=i, IN2=j, SW=q(tier, 2, 4)) for n, i, j in (("utf8", 0, 0), ("utf16le", 1, 1), ("latin", 103, 108))], None)
NOT_APPLICABLE = {}
