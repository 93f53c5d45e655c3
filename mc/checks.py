"""What each property's check explores: harness x configuration lists."""
import copy
from driver import Job
CHECKS = {}
TECHNIQUE = {}
NOTE = {}
NOT_APPLICABLE = {}
def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco

ARITH = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long",
         "float", "double", "long double"]
# every configuration a user may compile with: (tag, overrides)
V3 = ("", dict(opt="-O2"))
CONFIGS = [
    ("O0", dict(opt="-O0")),
    ("Os", dict(opt="-Os")),
    ("sse", dict(opt="-O2", march="x86-64")),
    ("avx", dict(opt="-O2", march="avx")),
    ("avx512", dict(opt="-O2", march="x86-64-v4")),
    ("fallback", dict(opt="-O2", mode="fallback")),
    ("clang", dict(opt="-O2", cxx="clang++")),
    ("clang-fallback", dict(opt="-O1", cxx="clang++", mode="fallback")),
]
C = dict([V3] + CONFIGS)

class Jobs(list):
    def cxx17(self):
        """thorough: a C++17 twin of every job of these properties that runs the library's own simd types"""
        for j in [j for j in self if j.mode == "fallback" and j.std == "gnu++20" and "VIRMC_CT=1" not in j.defs and j.kind == "run"]:
            k = copy.copy(j)
            k.std = "gnu++17"
            self.append(k)
    def add(self, src, cfg="", std="gnu++20", name="", **kw):
        """kw: VIRMC_ macros without the prefix, in lower case; opt/march/mode/cxx/extra/kind/... override the config"""
        c = dict(C[cfg]); c["std"] = std
        for k in ("opt", "march", "mode", "cxx", "extra", "kind", "timeout", "pattern"):
            if k in kw:
                c[k] = kw.pop(k)
        defs = [f"VIRMC_{k.upper()}={v}" for k, v in kw.items()]
        tag = ",".join(f"{k}={v}" for k, v in kw.items())
        self.append(Job(name or f"{src}:{tag}:{cfg}", f"{src}.cpp", defs=defs, **c))

SPLIT = ("char", "signed char", "unsigned char")          # wide registers: one policy per translation unit

def sets(t, s):
    return list(range(10, 16)) if s == 0 and t in SPLIT else [s]

def algorithm(src, tier, types, structs, std="gnu++20", deep=("float", "char"), more=None):
    """all element types with the core policies, `deep` types with every policy set, a small policy set in every other
    configuration; thorough: everything with everything"""
    J = Jobs()
    allt = types + structs
    if tier == "thorough":
        for t in allt:
            for s in (0, 1, 2, 3, 4, 5, 7):
                for ss in sets(t, s):
                    J.add(src, "", std, t=t, set=ss)
            for cfg, _ in CONFIGS:
                for s in ([0, 1, 2, 3, 4, 5] if t in ("float", "short", "P3<float>") and cfg not in ("O0", "Os") else [0]):
                    for ss in sets(t, s):
                        J.add(src, cfg, std, t=t, set=ss)
    else:
        for t in allt:
            for ss in sets(t, 0):
                J.add(src, "", std, t=t, set=ss)
        for t in deep:
            for s in range(1, 6):
                J.add(src, "", std, t=t, set=s)
        J.add(src, "", std, t=deep[0], set=7, opt="-O1")
        for cfg, _ in CONFIGS:
            for t in [x for x in ("float", "short", "P3<float>") if x in allt][:3 if cfg in ("sse", "avx512", "fallback") else 1]:
                J.add(src, cfg, std, t=t, set=6)
    return J

ALG_BOUNDS = ("every range length from 0 to two unrolled chunks plus two registers plus 3 (and the neighbourhood of the "
              "auto_prologue threshold, and 2^31-1, 2^31+33, 2^32+65 elements), every start offset of an element within 64 bytes, policies: {plain} and all "
              "prefer_size / unroll_by / prefer_aligned / auto_prologue / assume_matching_size combinations named in "
              "alg.h; element types and compiler configurations as listed")

@check("C01")
def c01(tier, scratch):
    J = algorithm("for_each", tier, ARITH if tier == "thorough" else ["float", "double", "char", "short", "int",
                  "unsigned long", "long double"], ["P3<float>", "P2<double>", "Mixed"] +
                  (["P2<float>", "P3<double>", "P2<short>", "P3<int>"] if tier == "thorough" else []))
    J.add("huge", algo=1)
    J.add("for_each", t="P3<float>", set=6, opt="-O1", extra=["-D__clang_major__=17"])
    # structs inside of structs
    for t, cfg in (("Wrap<float>", ""), ("Nest<float>", ""), ("Nest<short>", "fallback"), ("Nest3<double>", "")):
        J.add("for_each", cfg, t=t, set=6, opt="-O1")
        if tier == "thorough":
            for s in range(6):
                J.add("for_each", cfg, t=t, set=s, opt="-O1")
            for c, _ in CONFIGS:
                if c not in ("O0", cfg):
                    J.add("for_each", c, t=t, set=6)
    J.add("for_each", std="c++20", t="float", set=6, opt="-O1")
    if tier != "thorough":
        for s in (10, 11, 12):        # 64 elements per simd: the other half of the jump tables
            J.add("for_each", "avx512", t="char", set=s, opt="-O1")
    if tier == "thorough":
        for cfg in ("avx512", "sse", "fallback", "clang"):
            J.add("huge", cfg, algo=1, timeout=900)
    return dict(jobs=J, bounds=ALG_BOUNDS, oracle="multiset of element numbers handed to the callable == {0..n-1}, lanes "
                "consecutive, memory after == scalar loop, sentinels around the range untouched")

@check("C02")
def c02(tier, scratch):
    J = algorithm("transform", tier, ARITH if tier == "thorough" else ["float", "double", "char", "short", "int",
                  "unsigned long", "long double"], [], std="gnu++23")
    for t, o, t2 in (("float", "int", "float"), ("char", "double", "char"), ("double", "float", "int"),
                     ("short", "short", "float"), ("int", "char", "int"), ("unsigned long", "float", "short")):
        for s in (range(6) if tier == "thorough" else [0]):
            J.add("transform", std="gnu++23", t=t, out=o, t2=t2, set=s)
    J.add("huge", algo=2)
    if tier != "thorough":
        for s in (10, 12):
            J.add("transform", "avx512", std="gnu++23", t="char", set=s, opt="-O1")
        for t, cfg in (("P3<float>", ""), ("Mixed", ""), ("P2<double>", "fallback"), ("P2<short>", ""),
                       ("Nest<float>", ""), ("Nest3<double>", "fallback")):
            J.add("transform_struct", cfg, t=t, set=6, opt="-O1")
        J.add("transform_struct", "", t="P2<float>", set=13, opt="-O0")
    else:
        for t in ("P3<float>", "P2<float>", "Mixed", "P2<double>", "P3<double>", "P2<short>", "P3<int>",
                  "Nest<float>", "Nest<short>", "Nest3<double>"):
            for s in range(6):
                J.add("transform_struct", "", t=t, set=s, opt="-O1")
            for cfg, _ in CONFIGS:
                J.add("transform_struct", cfg, t=t, set=6)
    if tier == "thorough":
        for cfg in ("avx512", "sse", "fallback", "clang"):
            J.add("huge", cfg, algo=2, timeout=900)
    return dict(jobs=J, bounds=ALG_BOUNDS + "; one to three inputs, same and different value types, in-place and "
                "distinct output", oracle="scalar std::transform; returned iterator; sentinels")

@check("C03")
def c03(tier, scratch):
    J = Jobs()
    base = ["float", "double", "short", "int", "unsigned long", "char"]
    if tier == "thorough":
        for t in ARITH:
            for s in (0, 1, 2, 3, 4, 5, 7):
                for ss in sets(t, s):
                    J.add("reduce", t=t, set=ss)
            for cfg, _ in CONFIGS:
                for ss in sets(t, 0):
                    J.add("reduce", cfg, t=t, set=ss)
        combos = [("char", "int", "char"), ("short", "long", "int"), ("float", "double", "float"), ("float", "float", "double"),
                  ("int", "double", "short"), ("P2<float>", "double", "short")]
    else:
        for t in base:
            for ss in sets(t, 0):
                J.add("reduce", t=t, set=ss)
        for s in range(1, 6):
            J.add("reduce", t="float", set=s)
        J.add("reduce", t="float", set=7, opt="-O1")
        for cfg, _ in CONFIGS:
            J.add("reduce", cfg, t="float", set=6)
        J.add("reduce", "fallback", t="short", set=6)
        combos = [("char", "int", "char"), ("float", "double", "float"), ("int", "double", "short"), ("P2<float>", "double", "short")]
    for t, a, t2 in combos:
        for s in (range(6) if tier == "thorough" else [6]):
            J.add("reduce", t=t, acc=a, t2=t2, set=s)
    J.add("huge", algo=3)
    if tier != "thorough":
        J.add("reduce", "avx512", t="char", set=12, opt="-O1")
    if tier == "thorough":
        for cfg in ("avx512", "sse", "fallback", "clang"):
            J.add("huge", cfg, algo=3, timeout=900)
    return dict(jobs=J, bounds=ALG_BOUNDS + "; unary and binary transforms, accumulator type equal to or different from "
                "the element type", oracle="sum over all elements in arithmetic that is exact for the enumerated values "
                "(each element weighted so that any omission or duplication changes the sum)")

@check("C04")
def c04(tier, scratch):
    J = algorithm("count_if", tier, ARITH if tier == "thorough" else ["float", "double", "char", "short", "int",
                  "unsigned long"], ["P2<float>", "P2<double>"])
    J.add("huge", algo=4)
    if tier != "thorough":
        for s in (10, 11):
            J.add("count_if", "avx512", t="char", set=s, opt="-O1")
    if tier == "thorough":
        for cfg in ("avx512", "sse", "fallback", "clang"):
            J.add("huge", cfg, algo=4, timeout=900)
    return dict(jobs=J, bounds=ALG_BOUNDS + "; every match pattern of ranges up to 11 elements, every single-deviation "
                "pattern of the longer ones", oracle="number of set positions in the enumerated pattern")

@check("C05")
def c05(tier, scratch):
    J = Jobs()
    types = ["float", "int", "char", "unsigned char", "P3<float>", "Mixed"]
    asan = dict(opt="-O1", extra=["-fsanitize=address"])
    if tier == "thorough":
        types = ARITH + ["P3<float>", "P2<float>", "P2<double>", "P3<double>", "Mixed"]
        for t in types:
            for s in (0, 1, 2, 3, 4, 5, 7):
                for ss in sets(t, s):
                    J.add("memory", t=t, set=ss)
            J.add("memory", t=t, set=6, **asan)
            for cfg, _ in CONFIGS:
                J.add("memory", cfg, t=t, set=6)
        for s in range(1, 6):
            J.add("memory", t="float", set=s, **asan)
    else:
        for t in types:
            for ss in sets(t, 0):
                J.add("memory", t=t, set=ss)
        for s in range(1, 6):
            J.add("memory", t="float", set=s)
        J.add("memory", t="float", set=7, opt="-O1")
        for t in ("float", "char", "P3<float>"):
            J.add("memory", t=t, set=6, **asan)
        for cfg, _ in CONFIGS:
            J.add("memory", cfg, t="float", set=6)
        J.add("memory", "sse", t="P3<float>", set=6)
        J.add("memory", t="Nest<float>", set=6, opt="-O1")
        J.add("memory", "fallback", t="Wrap<float>", set=6, opt="-O1")
        J.add("memory", "avx512", t="char", set=10, opt="-O1")
        J.add("memory", "fallback", t="short", set=6)
    for mode in ("stdlib", "fallback"):
        for cxx in ("g++", "clang++"):
            J.append(Job(f"memory_ct:{mode}:{cxx}", "memory_ct.cpp", kind="syntax", opt="-O0", mode=mode, cxx=cxx))
    return dict(jobs=J, bounds=ALG_BOUNDS + "; ranges flush with an inaccessible page on either side, inputs in read-only "
                "pages, AddressSanitizer variant at every element offset; 12 iterator and 9 range types accepted or rejected",
                oracle="no fault, no sanitizer report, no changed byte outside of the output range")

@check("C06")
def c06(tier, scratch):
    J = Jobs()
    types = ["float", "short", "double"]
    if tier == "thorough":
        types = ARITH[:-1]
        for t in types:
            for s in range(6):
                for ss in sets(t, s):
                    J.add("policy", t=t, set=ss)
            for cfg, _ in CONFIGS:
                for ss in sets(t, 0):
                    J.add("policy", cfg, t=t, set=ss)
    else:
        for t in types:
            J.add("policy", t=t, set=0)
            J.add("policy", t=t, set=5)
        for s in range(1, 5):
            J.add("policy", t="float", set=s)
        for cfg, _ in CONFIGS:
            J.add("policy", cfg, t="float", set=6)
    mon = dict(opt="-O0", extra=["-include", "aligned.h"])
    if tier == "thorough":
        for src in ("for_each", "transform", "reduce", "count_if"):
            for t in types:
                for s in (0, 4, 5, 7):
                    for ss in sets(t, s):
                        J.add(src, t=t, set=ss, std="gnu++23", **mon)
            for cfg in ("sse", "avx", "avx512"):
                for t in ("char", "float", "short"):
                    J.add(src, cfg, t=t, set=6, std="gnu++23", **mon)
    else:
        for src, t, s, cfg in (("for_each", "short", 4, ""), ("for_each", "float", 5, ""), ("for_each", "char", 12, "avx512"),
                               ("transform", "short", 4, ""), ("transform", "float", 7, ""), ("transform", "char", 12, "avx512"),
                               ("reduce", "short", 4, ""), ("reduce", "float", 5, ""), ("reduce", "char", 12, "avx512"),
                               ("count_if", "double", 4, "sse")):
            J.add(src, cfg, t=t, set=s, std="gnu++23", **mon)
    for k in range(4):
        J.append(Job(f"policy_reject:{k}", "policy_reject.cpp", defs=[f"VIRMC_K={k}"], kind="reject", opt="-O0"))
    return dict(jobs=J, bounds=ALG_BOUNDS, oracle="the sizes, counts, alignments of the arguments each call receives; every promise of alignment "
                "that a load or store makes (monitored) holds for its address; the "
                "trap on a size that is not a multiple with assume_matching_size; rejected modifier arguments")

@check("C07")
def c07(tier, scratch):
    J = Jobs()
    types = ["float", "char", "double", "int", "short"] if tier != "thorough" else [t for t in ARITH if t != "long double"]
    for t in types:
        J.add("consteval", t=t, opt="-O0", maxn=40)
        J.add("consteval", "fallback", t=t, opt="-O0", maxn=40)
        if tier == "thorough":
            for cfg in ("sse", "avx512", "clang-fallback"): # libstdc++'s simd is not constexpr with clang
                J.add("consteval", cfg, t=t, opt="-O0", maxn=40)
    return dict(jobs=J, bounds="for_each, transform, transform_reduce, count_if over every length 0..40 at compile time, "
                "with the policies named in consteval.cpp", oracle="the same algorithm as a scalar loop")

@check("C08")
def c08(tier, scratch):
    J = Jobs()
    types = ["float"] if tier != "thorough" else ARITH
    for t in types:
        for p in range(6):
            J.add("permute", t=t, part=p, opt="-O1")
            J.add("permute", "fallback", t=t, part=p, opt="-O1")
    for t in ("short", "char", "unsigned long"):
        for p in (0, 3) if tier != "thorough" else ():
            J.add("permute", t=t, part=p, opt="-O1")
    for cfg in ("sse", "avx512", "clang", "O0") if tier != "thorough" else C:
        for t in ("float",) if tier != "thorough" else ("float", "short", "double"):
            for p in range(6) if tier == "thorough" else (0, 3):
                J.add("permute", cfg, t=t, part=p, **(dict(extra=["-fbracket-depth=1024"]) if "clang" in cfg else {}))
    for p in (0, 1) if tier != "thorough" else range(6):      # the branches of older compilers, and strict ISO mode
        J.add("permute", t="float", part=p, opt="-O1", extra=["-D__clang_major__=17"])
        if p < 1 or tier == "thorough":
            J.add("permute", "fallback", t="float", part=p, opt="-O1", extra=["-D__clang_major__=17"])
            J.add("permute", "clang", t="float", part=p, opt="-O1", extra=["-fbracket-depth=1024", "-U__clang_major__", "-D__clang_major__=17"])
        J.add("permute", std="c++20", t="float", part=p, opt="-O1")
    return dict(jobs=J, bounds="every predefined permutation with every template argument in [-2n-1, 2n+1] (|n| where n > "
                "16), vectors of 1, 2, 3, 4, 8, 12 and the native number of elements, results of 1..16 elements; all 6^2 index "
                "functions on 2 elements, all 4^4 on 4 elements, all 8^3 on 3 elements including negative, zero and uninit "
                "indexes; element values pairwise distinct; also in constant evaluation where the library allows it",
                oracle="index arithmetic on the sequence of distinct element values")

@check("C09")
def c09(tier, scratch):
    J = Jobs()
    for t in ["float", "short", "char", "double", "int"] if tier != "thorough" else ARITH:
        J.add("permute", t=t, part=9, opt="-O1")
        J.add("permute", "fallback", t=t, part=9, opt="-O1")
    for cfg in ("sse", "avx512", "clang", "O0") if tier != "thorough" else C:
        for t in ("float",) if tier != "thorough" else ("float", "short", "char"):
            J.add("permute", cfg, t=t, part=9)
    return dict(jobs=J, bounds="every offset 0 .. 4n+1 (2n+2 where n > 16), 1 to 4 vectors, vectors of 1, 2, 3, 4 and the "
                "native number of elements, pairwise distinct values; masks: every content of masks of up to 6 elements",
                oracle="element i of the result is element i + offset of the concatenation, zero behind its end")

@check("C10")
def c10(tier, scratch):
    J = Jobs()
    types = ["float", "double", "short"] if tier != "thorough" else ARITH
    for t in types:
        for p in range(8) if tier == "thorough" or t != "double" else range(6):
            J.add("simdize", t=t, part=p, opt="-O1" if p < 6 else "-O0")
            if tier == "thorough" or t == "float":
                J.add("simdize", "fallback", t=t, part=p, opt="-O1" if p < 6 else "-O0")
            if tier == "thorough" and t != "long double":        # (libstdc++ cannot evaluate these at compile time)
                J.add("simdize", t=t, part=p, opt="-O0", ct=1)
    for cfg in ("sse", "avx512", "clang", "O0") if tier != "thorough" else C:
        for t in ("float",) if tier != "thorough" else ("float", "short", "double"):
            for p in range(8):
                if tier == "thorough" or p in (0, 3):
                    J.add("simdize", cfg, t=t, part=p)
    for t, cfg in (("float", ""),) if tier != "thorough" else (("float", ""), ("float", "fallback"), ("short", ""), ("double", "clang")):
        for p in (8, 9):
            J.add("simdize", cfg, t=t, part=p, opt="-O0")
    for cfg in ("",) if tier != "thorough" else ("", "fallback", "sse", "clang"):
        for p in (0, 1, 2):
            J.add("shapes", cfg, part=p, opt="-O0")
    if tier != "thorough":
        for p in (0, 3):
            J.add("simdize", t="char", part=p, opt="-O1")
    for p in (0, 2, 3) if tier != "thorough" else range(6):
        J.add("simdize", t="float", part=p, opt="-O1", extra=["-D__clang_major__=17"])
        J.add("simdize", std="c++20", t="float", part=p, opt="-O1")
        if tier == "thorough":
            J.add("simdize", "clang", t="float", part=p, opt="-O1", extra=["-U__clang_major__", "-D__clang_major__=17"])
    return dict(jobs=J, bounds="every struct and tuple shape in simdize.cpp (1 to 7 members, equal and mixed sizes, in both "
                "orders) at the widths listed there and the default width; every subset of lanes written; every element index of every member; every struct type of up to three leaves in shapes.cpp", oracle="array-of-structs of distinct values, one per "
                "(element, member)")

@check("C11")
def c11(tier, scratch):
    import gen
    J = Jobs()
    def add(kind, lo, hi):
        path = f"{scratch}/reflect_{kind}_{lo}.cpp"
        gen.reflect(kind, lo, hi, path)
        J.append(Job(f"reflect:{kind}:{lo}..{hi - 1}", path, opt="-O0", march="x86-64-v3"))
        if tier == "thorough":
            J.append(Job(f"reflect:{kind}:{lo}..{hi - 1}:clang", path, opt="-O0", cxx="clang++"))
            J.append(Job(f"reflect:{kind}:{lo}..{hi - 1}:23", path, opt="-O2", std="gnu++23"))
    if tier == "thorough":
        for kind in ("same", "mixed", "bytes", "rich", "const", "vol", "std", "odd"):
            for lo in range(0, 51, 3):
                add(kind, lo, min(lo + 3, 51))
    else:
        for lo in range(0, 51, 4):
            add("bytes", lo, min(lo + 4, 51))
        for kind in ("same", "mixed"):
            for lo, hi in ((0, 6), (6, 10), (10, 13)):
                add(kind, lo, hi)
        for kind in ("rich", "const", "vol", "std", "odd"):
            add(kind, 0, 10)
        add("rich", 24, 26); add("mixed", 31, 32); add("rich", 49, 51)
    for p in (0, 1):
        J.append(Job(f"reflect_ctor:{p}", "reflect_ctor.cpp", opt="-O0", defs=[f"VIRMC_PART={p}"]))
    return dict(jobs=J, bounds="every number of members 0..50, with equal, mixed, class, pointer, enumeration, const and "
                "volatile member types, 0..3 empty base classes, members inherited from one base, std::tuple/array/pair; "
                "every member index; lvalue/const/rvalue access" + ("" if tier == "thorough" else " (quick: 0..50 with one "
                "member type, the other shapes up to 12 members)"),
                oracle="the generated list of members: number, type, address, value")

@check("C12")
def c12(tier, scratch):
    J = Jobs()
    for t in ("float", "char", "double", "short") if tier != "thorough" else ARITH:
        J.add("bitset", t=t, bits=16)
        J.add("bitset", "fallback", t=t, bits=16)
    for cfg in ("", "fallback", "clang-fallback"):
        J.add("bitset", cfg, "gnu++17", t="float", bits=12, opt="-O0")
    for cfg, _ in CONFIGS:
        for t in (("float", "char") if tier != "thorough" else ARITH):
            J.add("bitset", cfg, t=t, bits=16 if tier != "thorough" else 20)
    return dict(jobs=J, bounds="masks of 1..32 elements and every native/compatible mask; all 2^n contents up to 16 "
                "elements, above that every content with at most two elements deviating from all-set/all-clear",
                oracle="bit i of the bitset/integer is element i of the mask and back")

@check("C13")
def c13(tier, scratch):
    J = Jobs()
    for t in ("float", "short", "double", "char") if tier != "thorough" else ARITH:
        for p in (0, 1, 2):
            J.add("resize", t=t, part=p, opt="-O1")
            if t == "float" or tier == "thorough":
                J.add("resize", "fallback", t=t, part=p, opt="-O1")
        if t != "long double":
            J.add("resize", t=t, part=0, ct=1, opt="-O0")
    for cfg in ("", "fallback"):
        for p in (0, 1):
            J.add("resize", cfg, "gnu++17", t="float", part=p, opt="-O0")
    for cfg in ("sse", "avx512", "clang", "O0") if tier != "thorough" else C:
        for p in (0, 1, 2):
            J.add("resize", cfg, t="float", part=p)
    return dict(jobs=J, bounds="every pair of source and destination width in resize.cpp (1..17, 32, native), pairwise "
                "distinct values; masks: every content up to 8 elements; also in constant evaluation",
                oracle="leading elements kept in order, zero/false behind the source's end; result types")

@check("C14")
def c14(tier, scratch):
    J = Jobs()
    fl = ("float", "double", "long double")
    for t in ("float", "double", "int", "char", "unsigned long", "long double", "short") if tier != "thorough" else ARITH:
        for p in (0, 1) if t in fl else (0,):
            J.add("bits", t=t, part=p)
            if t in ("float", "double") or tier == "thorough":
                J.add("bits", "fallback", t=t, part=p)
    for cfg in ("", "fallback"):
        for p in (0, 1):
            J.add("bits", cfg, "gnu++17", t="float", part=p, opt="-O0")
    for cfg, _ in CONFIGS:
        for t in (("float",) if tier != "thorough" else ARITH):
            for p in (0, 1) if t in fl else (0,):
                J.add("bits", cfg, t=t, part=p)
    return dict(jobs=J, bounds="every ordered pair of the value alphabet in bits.cpp (zeros, units, extremes, subnormals, "
                "infinities, NaN, alternating bit patterns) in every lane, for every width listed; every pair of types of "
                "equal object size", oracle="the same operation on the bit patterns of the scalar elements")

@check("C15")
def c15(tier, scratch):
    import gen
    J = Jobs()
    for p in range(4):
        for cfg in ("O0", "clang"):
            for std in ("gnu++20", "gnu++23"):
                if tier == "thorough" or std == "gnu++20" or p == 1:
                    J.add("cw", cfg, std, part=p, opt="-O0", march="x86-64")
        path = f"{scratch}/lit{p}.cpp"
        gen.literals(p, path)
        J.append(Job(f"literals:{p}", path, opt="-O0", march="x86-64"))
        if tier == "thorough":
            J.append(Job(f"literals:{p}:clang", path, opt="-O0", march="x86-64", cxx="clang++"))
    for k in range(len(gen.REJECTED_LITERALS)):
        path = f"{scratch}/rej{k}.cpp"
        gen.reject_literal(k, path)
        J.append(Job(f"literal_reject:{gen.REJECTED_LITERALS[k]}", path, kind="reject", opt="-O0", march="x86-64"))
    return dict(jobs=J, bounds="every unary and binary operator x every ordered pair of the value alphabet in cw.cpp "
                "(bool, all integer types, floats, enums, class types, member pointers, functions); every integer literal "
                "spelling of ~400 values in base 2, 8, 10, 16 with and without separators; 12 literals to reject",
                oracle="the operator applied to the plain values, and its type")

FB = "fallback"
CHARS = ["wchar_t", "char16_t", "char32_t"]
SMALLT = ["signed char", "unsigned char", "char"]

@check("C16")
def c16(tier, scratch):
    J = Jobs()
    if tier == "thorough":
        for t in ARITH + ["long long", "unsigned long long"] + CHARS:
            for p in range(4):
                J.add("ops", FB, t=t, part=p, ct=1)
            for p in range(3):
                J.add("ops", FB, t=t, part=p, opt="-O0")
                J.add("ops", "clang-fallback", t=t, part=p, ct=1)
                J.add("ops", FB, t=t, part=p, opt="-O3", march="x86-64")
    else:
        for t in ("signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "float", "double"):
            for p in range(3):
                J.add("ops", FB, t=t, part=p, opt="-O1", ct=1)
        for t in ("char", "long double", "unsigned long long", "long long"):
            J.add("ops", FB, t=t, part=0, opt="-O0", ct=1)
        for t in ("float", "short"):
            J.add("ops", "clang-fallback", t=t, part=1)
        J.add("ops", FB, t="char16_t", part=0, opt="-O0")
        J.add("ops", FB, t="wchar_t", part=2, opt="-O0")
        for t, p in (("float", 0), ("short", 1), ("int", 2)):
            J.add("ops", FB, "gnu++17", t=t, part=p, opt="-O0")
    if tier == "thorough":
        J.cxx17()
    return dict(jobs=J, bounds="every unary, binary, compound, shift, increment and comparison operator; operand pairs: all 2^16 "
                "pairs of 8-bit types, all pairs of the boundary alphabet of wider types (powers of two and neighbours, "
                "extremes, subnormals, infinities, NaN, ...); simd-simd, simd-scalar, scalar-simd; the scalar ABI and "
                "fixed_size<1,2,3,4,5,7,8,12,16,31,32> (thorough: all of 1..32); run time and constant evaluation",
                oracle="the scalar operator on each element, converted to the value type; pairs whose scalar result is undefined are skipped")

@check("C17")
def c17(tier, scratch):
    J = Jobs()
    if tier == "thorough":
        for t in ARITH + ["long long", "unsigned long long"] + CHARS:
            for p in range(3):
                J.add("loads", FB, t=t, part=p)
                J.add("loads", FB, t=t, part=p, opt="-O0")
                J.add("loads", "clang-fallback", t=t, part=p)
    else:
        for t in ("signed char", "unsigned short", "int", "unsigned long", "float", "double", "long double"):
            J.add("loads", FB, t=t, part=0, opt="-O1")
            J.add("loads", FB, t=t, part=1, opt="-O1" if t == "float" else "-O0")
        for t in ("float", "short"):
            J.add("loads", FB, t=t, part=2, opt="-O0")
        J.add("loads", "clang-fallback", t="float", part=0)
        J.add("loads", FB, t="char32_t", part=1, opt="-O0")
        J.add("loads", FB, "gnu++17", t="float", part=1, opt="-O0")
    if tier == "thorough":
        J.cxx17()
    return dict(jobs=J, bounds="broadcasts of every value of every convertible arithmetic type (boundary alphabet), generators, every element "
                "reference; loads and stores of every pair of value type and memory type, every alignment flag, ranges flush with inaccessible "
                "pages and read-only sources, 64 guard bytes around stores; the scalar ABI and fixed_size<1,2,3,4,7,8,16,31,32>",
                oracle="static_cast of each element; untouched bytes around the destination")

WIDTHS = "the scalar ABI and fixed_size<1,2,3,4,7,8,16,31,32>"

@check("C18")
def c18(tier, scratch):
    J = Jobs()
    if tier == "thorough":
        for t in ARITH:
            for p in range(2):
                J.add("where", FB, t=t, part=p, full=12)
                J.add("where", "clang-fallback", t=t, part=p)
                J.add("where", FB, t=t, part=p, opt="-O0")
    else:
        for t in ("float", "int", "signed char", "unsigned short", "unsigned long"):
            J.add("where", FB, t=t, part=0, opt="-O0" if t != "int" else "-O1")
        for t in ("float", "short", "long double"):
            J.add("where", FB, t=t, part=1, opt="-O0" if t != "float" else "-O1")
        J.add("where", FB, "gnu++17", t="float", part=0, opt="-O0")
        J.add("where", FB, t="char16_t", part=0, opt="-O0")
    if tier == "thorough":
        J.cxx17()
    return dict(jobs=J, bounds="all masks of up to 8 elements (thorough: 12), above that at most two deviations from all/none, prefixes, "
                "suffixes, periodic patterns; every compound operator x {simd, scalar, int, aliased, rvalue} operand, increments, unary minus, "
                "masked loads/stores of several memory types with the first/last selected element flush with an inaccessible page, "
                "where(mask, mask), where(bool, scalar); operands that would trap in elements not selected; " + WIDTHS,
                oracle="the scalar operator on selected elements, identity on the others; untouched bytes")

@check("C19")
def c19(tier, scratch):
    J = Jobs()
    if tier == "thorough":
        for t in ARITH:
            J.add("maskops", FB, t=t, full=12)
            J.add("maskops", FB, t=t, opt="-O0")
            J.add("maskops", "clang-fallback", t=t)
    else:
        for t in ("float", "char", "double", "unsigned short"):
            J.add("maskops", FB, t=t, opt="-O1" if t == "float" else "-O0")
        J.add("maskops", "clang-fallback", t="int", opt="-O0")
        J.add("maskops", FB, "gnu++17", t="float", opt="-O0")
    if tier == "thorough":
        J.cxx17()
    return dict(jobs=J, bounds="all contents of masks of up to 8 elements (thorough: 12) and all pairs of them, deviations/prefixes/periodic "
                "patterns above; every element write; loads/stores at every alignment flag flush with inaccessible pages; the scalar ABI and "
                "fixed_size<1,2,3,4,5,7,8,12,16,31,32>; plain bool; constant evaluation", oracle="bit arithmetic on the integer of the content")

@check("C20")
def c20(tier, scratch):
    J = Jobs()
    if tier == "thorough":
        for t in ARITH:
            for p in range(3):
                J.add("hreduce", FB, t=t, part=p, full=12 if p == 0 else 10)
                J.add("hreduce", "clang-fallback", t=t, part=p)
                J.add("hreduce", FB, t=t, part=p, opt="-O0")
    else:
        for t in ("float", "signed char", "int", "unsigned long", "double", "unsigned short"):
            J.add("hreduce", FB, t=t, part=0, opt="-O0")
        J.add("hreduce", FB, t="signed char", part=2, opt="-O0")
        J.add("hreduce", FB, t="char32_t", part=0, opt="-O0")
        for t in ("float", "short"):
            J.add("hreduce", FB, t=t, part=1, opt="-O0")
            J.add("hreduce", FB, t=t, part=2, opt="-O0")
        J.add("hreduce", FB, t="float", part=0, opt="-O1")
        J.add("hreduce", FB, "gnu++17", t="float", part=0, opt="-O0")
        J.add("hreduce", FB, "gnu++17", t="short", part=1, opt="-O0")
    if tier == "thorough":
        J.cxx17()
    return dict(jobs=J, bounds="all widths 1..32 and the scalar ABI; all masks of up to 8 elements (thorough: 10..12), deviations/prefixes/periodic "
                "patterns above; plus, multiplies, bit_and, bit_or, bit_xor, generic lambdas; values: distinct powers of two (rotated), "
                "the boundary alphabet with extremes and infinities at every position; NaN and infinity in elements not selected",
                oracle="scalar fold over the selected elements; the identity element for the empty selection")

@check("C21")
def c21(tier, scratch):
    J = Jobs()
    if tier == "thorough":
        for t in ARITH:
            for p in range(4):
                J.add("splitcat", FB, t=t, part=p, opt="-O1")
                J.add("splitcat", "clang-fallback", t=t, part=p)
    else:
        for t in ("float", "unsigned char", "double", "long double"):
            for p in range(3):
                J.add("splitcat", FB, t=t, part=p, opt="-O1" if t == "float" else "-O0")
        J.add("splitcat", "clang-fallback", t="short", part=1, opt="-O0")
        for p in (0, 1):
            J.add("splitcat", FB, "gnu++17", t="float", part=p, opt="-O0")
    if tier == "thorough":
        J.cxx17()
    return dict(jobs=J, bounds="every composition of 1..5 (thorough: 1..7) elements into parts plus 21 partitions of up to 32; every number of equal parts "
                "listed in splitcat.cpp; values of the boundary alphabet, rotated; all mask contents up to 6 resp. 8 elements; round trips",
                oracle="index arithmetic on the sequence of values; the documented result types")

@check("C22")
def c22(tier, scratch):
    J = Jobs()
    if tier == "thorough":
        for t in ARITH + ["long long", "unsigned long long"] + CHARS:
            for p in range(4):
                J.add("casts", FB, t=t, part=p)
                J.add("casts", "clang-fallback", t=t, part=p)
                if t not in CHARS or p < 3:      # (libstdc++ 13 converts fixed_size<31> of wchar_t with misaligned loads)
                    J.add("casts", t=t, part=p, opt="-O1")
        for cfg in ("sse", "avx", "avx512"):
            for t in ARITH:
                for p in (0, 2):
                    if not (cfg == "avx512" and p == 2 and "char" in t):     # libstdc++ has no fixed_size<64>
                        J.add("casts", cfg, t=t, part=p)
    else:
        for t in ARITH + ["long long", "unsigned long long"] + CHARS:
            J.add("casts", FB, t=t, part=0, opt="-O0")
        for t in ("float", "int", "unsigned char", "unsigned long"):
            J.add("casts", FB, t=t, part=1, opt="-O0")
            J.add("casts", FB, t=t, part=2, opt="-O0")
        for t in ("float", "short"):
            J.add("casts", t=t, part=1, opt="-O0")
        J.add("casts", t="float", part=2, opt="-O0")
        J.add("casts", "avx", mode="fallback", t="int", part=2, opt="-O0")
        J.add("casts", "clang-fallback", t="double", part=0, opt="-O0")
        for p in (0, 1, 2):
            J.add("casts", FB, "gnu++17", t="float", part=p, opt="-O0")
    if tier == "thorough":
        J.cxx17()
    return dict(jobs=J, bounds="every ordered pair of the 17 vectorizable value types (without char8_t) x {scalar, fixed_size<1,2,3,8>} (thorough: also 16, 31): availability of "
                "implicit conversion, broadcast, simd_cast, static_simd_cast, mixed operators; every value of 8-bit types, boundary alphabet of the "
                "others; ABI conversions of widths 1..31; masks with all contents up to 8 elements; vir::cvt and vir::static_simd_cast with both implementations",
                oracle="static_cast of each element; an independent definition of value-preserving conversion")

@check("C23")
def c23(tier, scratch):
    J = Jobs()
    nc = dict(extra=["-ffp-contract=off"])
    if tier == "thorough":
        for t in ("float", "double", "long double"):
            for p in range(4):
                J.add("math", FB, t=t, part=p, wide=1, **nc)
                J.add("math", FB, t=t, part=p, opt="-O0", **nc)
                J.add("math", "clang-fallback", t=t, part=p, wide=1, **nc)
        for t in ARITH[:-3]:
            J.add("math", FB, t=t, part=0, wide=1, **nc)
    else:
        for t in ("float", "double"):
            for p in range(4):
                J.add("math", FB, t=t, part=p, opt="-O1" if t == "float" else "-O0", **nc)
        for p in (0, 3):
            J.add("math", FB, t="long double", part=p, opt="-O0", **nc)
        for t in ("signed char", "unsigned char", "short", "int", "unsigned long"):
            J.add("math", FB, t=t, part=0, opt="-O0", **nc)
        J.add("math", "clang-fallback", t="float", part=0, opt="-O0", **nc)
        for p in range(4):
            J.add("math", FB, "gnu++17", t="float", part=p, opt="-O0", **nc)
    if tier == "thorough":
        J.cxx17()
    return dict(jobs=J, bounds="every math function of the fallback; unary: all 56 boundary values in every element; binary: all 56^2 pairs and every "
                "simd/scalar/int argument mix; ternary: all 13^3 triples and every simd/scalar argument mix; frexp/modf/remquo/ldexp outputs; "
                "min/max/minmax/clamp/abs for integers; the scalar ABI and fixed_size<1,3,8> (thorough: 1,2,3,4,8,16,31,32)",
                oracle="the std function on each element, bit for bit (NaN as NaN)")

@check("C24")
def c24(tier, scratch):
    J = Jobs()
    for p in (0, 1):
        for mode in ("fallback", "stdlib") if p == 1 else ("fallback",):
            for o in ("-O1",) if tier != "thorough" else ("-O0", "-O1", "-O2", "-Os"):
                for cxx in ("g++",) if tier != "thorough" else ("g++", "clang++"):
                    J.append(Job(f"precond:default:{p}:{mode}{o}{cxx}", "precond.cpp", opt=o, mode=mode, cxx=cxx, defs=[f"VIRMC_PART={p}"]))
                    for l in range(6):
                        if tier == "thorough" or mode == "fallback" or l > 3:
                            J.append(Job(f"precond:{l}:{p}:{mode}{o}{cxx}", "precond.cpp", opt=o, mode=mode, cxx=cxx,
                                         defs=[f"VIRMC_PART={p}", f"VIRMC_LEVEL={l}", f"VIR_CHECK_PRECONDITIONS={l}"]))
    if tier != "thorough":
        for l in (2, 4, 5):
            for p in (0, 1) if l == 5 else (0,):
                J.append(Job(f"precond:{l}:{p}:clang", "precond.cpp", opt="-O1", mode="fallback", cxx="clang++",
                             defs=[f"VIRMC_PART={p}", f"VIRMC_LEVEL={l}", f"VIR_CHECK_PRECONDITIONS={l}"]))
    J.append(Job("precond:default:0:clang", "precond.cpp", opt="-O1", mode="fallback", cxx="clang++", defs=["VIRMC_PART=0"]))
    for k in range(7):
        for l in (None, 0, 1, 2, 3, 4, 5) if tier == "thorough" or k in (0, 5) else (None, 2, 5):
            d = [f"VIRMC_K={k}"] + ([] if l is None else [f"VIR_CHECK_PRECONDITIONS={l}"])
            err = l is None or l % 2 == 1
            J.append(Job(f"precond_ct:{k}:{'default' if l is None else l}", "precond_ct.cpp", opt="-O2", mode="fallback", defs=d,
                         kind="reject" if err else "warn", pattern="precondition failure"))
    return dict(jobs=J, bounds="levels 0..5 and the default; every subscript 0..N+2 and 6 huge ones of simds and masks of widths 1, 2, 3, 8, 31, 32, "
                "find_first_set/find_last_set of the empty and every single-element mask, assume_matching_size with every length up to three registers plus one "
                "in every algorithm, each in its own process; compile-time-known violations of 7 kinds", oracle="holds: no effect; violated: nothing promised (0, 1), trap without "
                "output (2, 3, default), message naming the violated values and abort (4, 5); compile-time error (odd, default) or warning (even)")

@check("C25")
def c25(tier, scratch):
    J = Jobs()
    o = dict(opt="-O0")
    targets = ("sse", "avx", "", "avx512")
    if tier == "thorough":
        for m in ("fallback", "stdlib"):
            for cxx in ("g++", "clang++"):
                for cfg in targets:
                    for p in (0, 1):
                        J.add("traits", cfg, mode=m, cxx=cxx, part=p, name=f"traits:{p}:{m}:{cxx}:{cfg}", **o)
        for t in ARITH + ["long long", "unsigned long long", "wchar_t"]:
            J.add("traits", FB, part=2, t=t, **o)
            J.add("traits", "clang-fallback", part=2, t=t, **o)
            J.add("traits", part=2, t=t, **o)
            J.add("traits", "avx512", mode="fallback", part=2, t=t, **o)
    else:
        for cfg in targets:
            J.add("traits", cfg, mode="fallback", part=1, name=f"traits:1:fallback:{cfg}", **o)
        J.add("traits", FB, part=0, **o)
        J.add("traits", "", part=0, **o)
        J.add("traits", "clang-fallback", part=1, **o)
        J.add("traits", "clang", part=0, **o)
        for t in ("float", "char", "long double"):
            J.add("traits", FB, part=2, t=t, **o)
    return dict(jobs=J, bounds="every trait and concept on 666 types (18 vectorizable types, bool, enums, classes, tags, flags, simds, masks, each with pointers, references, "
                "arrays, function and member types); every value type x {scalar, native, compatible, fixed_size<1..32>}: member types, sizes, deduce, rebind to 14 types, "
                "resize to 1..32; targets SSE, AVX, AVX2, AVX-512", oracle="the table of facts each probe type is listed with; register sizes of the target")

@check("C26")
def c26(tier, scratch):
    J = Jobs()
    for cxx in ("g++", "clang++"):
        for std in ("gnu++17", "gnu++20", "gnu++23") if tier == "thorough" else ("gnu++17", "gnu++20"):
            J.add("misc", "", std, cxx=cxx, part=1, name=f"version:{cxx}:{std}")
    if tier == "thorough":
        for t in ARITH + ["long long", "unsigned long long"]:
            for cfg in ("", "sse", "avx512", "fallback", "clang", "clang-fallback"):
                J.add("misc", cfg, part=0, t=t, opt="-O0")
                for o in ("-O0", "-O2"):
                    J.add("misc", cfg, part=2, t=t, max=32, opt=o)
    else:
        for t in ARITH:
            J.add("misc", FB, part=0, t=t, opt="-O0")
        for t in ("float", "char"):
            J.add("misc", "", part=0, t=t, opt="-O0")
        J.add("misc", "", part=2, t="float", max=9)
        J.add("misc", FB, part=2, t="float", max=9)
        J.add("misc", FB, part=2, t="short", max=9, opt="-O0")
        J.add("misc", "clang-fallback", part=2, t="double", max=9)
    return dict(jobs=J, bounds="iota_v of 12 (14) value types x {scalar, native, compatible, fixed_size<1..32>} and std::array/arrays of 0..33, 127, 300 elements; all ordered pairs "
                "of 1685 versions with components from a 13-value alphabet x 6 relations; fake_modify/fake_read with every width",
                oracle="static_cast<T>(i); lexicographic order of (major, minor, patchlevel); the value before the call")

@check("C27")
def c27(tier, scratch):
    J = Jobs()
    F = dict(extra=["-fwrapv", "-ffp-contract=off"])
    thorough = tier == "thorough"
    for t in ARITH:
        for a in (0, 1, 2, 3):
            if thorough or a == 0 or t in ("float", "int", "unsigned char"):
                J.add("product", FB, opt="-O1", t=t, abi=a, depth=3, **F)
        if thorough:
            for n in (1, 2, 4, 5, 7, 8, 16, 17, 32):
                J.add("product", FB, opt="-O1", t=t, abi=0, n=n, depth=3, **F)
            # (without SSE4.1, libstdc++ 13 loses the sign of zero in trunc)
            J.add("product", "avx" if t in ("float", "double") else "sse", mode="fallback", opt="-O1", t=t, abi=2, depth=3, **F)
            if "char" not in t:     # libstdc++ has no fixed_size<64>
                J.add("product", "avx512", mode="fallback", opt="-O1", t=t, abi=2, depth=3, **F)
            J.add("product", FB, t=t, abi=0, depth=2, n=6, opt="-O0", **F)
            J.add("product", FB, t=t, abi=0, depth=4, n=2, **F, timeout=900)
    if not thorough:
        J.add("product", "avx512", mode="fallback", opt="-O1", t="float", abi=2, depth=2, **F)
        J.add("product", "sse", mode="fallback", opt="-O1", t="short", abi=2, depth=2, **F)
        J.add("product", FB, opt="-O1", t="double", n=32, abi=0, depth=2, **F)
        J.add("product", FB, opt="-O1", t="float", n=1, abi=0, depth=3, **F)
    return dict(jobs=J, bounds="all sequences of up to 3 (thorough: also 4) of 111 operations from 6 initial states; 12 value types; "
                "scalar, native, compatible and fixed_size<1..32> as listed; operations whose result the TS leaves undefined or unspecified are disabled in the states concerned",
                oracle="libstdc++'s std::experimental::simd executing the same sequence in lock step: all registers, masks and memory equal after every step")

@check("C28")
def c28(tier, scratch):
    import gen, os
    from driver import REPO
    headers = sorted(h for h in os.listdir(os.path.join(REPO, "vir")) if h.endswith(".h"))
    known = [h for h in headers if h in gen.USES]
    J = Jobs()
    def prog(name, order, use, kind="syntax", std="gnu++20", after=(), **kw):
        path = os.path.join(scratch, f"h{len(J)}.cpp")
        lang = int(std[-2:])
        gen.header_program(order, path, lang, [h for h in use if h in gen.USES], after=after)
        d = ["VIRMC_FALLBACK"] if kw.get("mode") == "fallback" else []
        if kw.pop("dropin", False):
            d.append("VIR_SIMD_TS_DROPIN")
        J.append(Job(name, path, std=std, kind=kind, opt="-O0", defs=d, **kw))
    V = lambda h: "vir/" + h
    modes = [(m, c) for m in ("fallback", "stdlib") for c in ("g++", "clang++")]
    stds = ("gnu++17", "gnu++20", "gnu++23", "c++17", "c++20", "c++23")
    STD = ["compare", "version", "bit", "ranges", "algorithm", "cmath", "bitset", "array", "concepts", "tuple", "limits", "functional"]
    thorough = tier == "thorough"
    for m, c in modes:
        for s in stds:
            if thorough or s in ("gnu++20", "c++17") or (m, c) == ("fallback", "g++"):
                for h in headers:
                    prog(f"single:{h}:{m}:{c}:{s}", [V(h)], [h], std=s, mode=m, cxx=c)
    for m, c in modes:
        for s in (("gnu++20", "c++23", "gnu++17") if thorough else ("gnu++20",)):
            for a in headers:
                if thorough or (m, c) == ("fallback", "g++"):
                    for b in headers:
                        prog(f"pair:{a}:{b}:{m}:{c}:{s}", [V(a), V(b)], dict.fromkeys([a, b]), std=s, mode=m, cxx=c)
                elif m == "stdlib" and c == "g++":
                    rest = [h for h in headers if h != a]
                    prog(f"first:{a}:{m}:{c}:{s}", [V(a)] + list(map(V, rest)), headers, std=s, mode=m, cxx=c)
    for a in headers:
        for s in STD if thorough else ["compare", "ranges"]:
            for st in ("gnu++17", "gnu++20") if s not in ("compare", "ranges", "bit", "concepts") else ("gnu++20",):
                prog(f"std:{s}:{a}:{st}", [s, V(a)], [a], std=st, mode="fallback")
                prog(f"std:{a}:{s}:{st}", [V(a)], [a], std=st, mode="fallback", after=[s])
    for c in ("g++", "clang++"):
        for s in ("gnu++17", "gnu++20", "gnu++23") if thorough else ("gnu++20",):
            path = os.path.join(scratch, f"dropin-{c}-{s}.cpp")
            open(path, "w").write("#include <vir/simd.h>\nnamespace stdx = std::experimental;\nstatic_assert(stdx::is_simd_v<stdx::simd<float>> and vir::stdx::is_simd_v<stdx::simd<float>>);\n"
                "static_assert(std::is_same_v<stdx::native_simd<float>, vir::stdx::native_simd<float>>);\nint f(stdx::simd<int> x) { return stdx::reduce(x + 1) + int(stdx::any_of(x > 1)); }\n")
            J.append(Job(f"dropin:{c}:{s}", path, std=s, kind="syntax", opt="-O0", mode="fallback", cxx=c, defs=["VIR_SIMD_TS_DROPIN"]))
            for h in headers:
                prog(f"dropin:{h}:{c}:{s}", [V(h)], [h], std=s, mode="fallback", cxx=c, dropin=True)
    # several translation units with different inclusion orders in one program
    for m, c in modes:
        for s in ("gnu++17", "gnu++20", "gnu++23") if thorough else ("gnu++20",):
            lang = int(s[-2:])
            tags, srcs = [], []
            rot = headers[5:] + headers[:5]
            for tag, order in (("_forward", headers), ("_backward", headers[::-1]), ("_rotated", rot), ("_again", headers)):
                p = os.path.join(scratch, f"tu{tag}-{m}-{c}-{s}.cpp")
                gen.header_program(list(map(V, order)), p, lang, [h for h in order if h in gen.USES], tag)
                tags.append(tag); srcs.append(p)
            mp = os.path.join(scratch, f"main-{m}-{c}-{s}.cpp")
            gen.header_main(tags, mp)
            J.append(Job(f"link:{m}:{c}:{s}", mp, std=s, opt="-O0", mode=m, cxx=c, extra=srcs, defs=["VIRMC_FALLBACK"] if m == "fallback" else []))
    return dict(jobs=J, bounds="every header alone in 6 language modes x 2 implementations x 2 compilers; every ordered pair of headers (quick: fallback with g++; libstdc++: every "
                "header first, followed by all others); every pair of a header with standard headers before and after; VIR_SIMD_TS_DROPIN; four translation units with different orders linked and run",
                oracle="compiles; uses of the header's API have the stated types and results")

@check("C29")
def c29(tier, scratch):
    J = Jobs()
    if tier == "thorough":
        for t in ARITH[:-1] + ["P3<float>", "P2<double>", "Mixed"]:
            for s in range(6):
                for ss in sets(t, s):
                    J.add("throwing", t=t, set=ss)
            for cfg, _ in CONFIGS:
                J.add("throwing", cfg, t=t, set=6)
        for t in ARITH:
            J.add("throwing", "fallback", t=t, generators=1, opt="-O0")
            J.add("throwing", "clang-fallback", t=t, generators=1, opt="-O0")
    else:
        o = dict(opt="-O0")
        for s in (1, 3, 4, 5, 6):
            J.add("throwing", t="float", set=s, **o)
        J.add("throwing", t="float", set=6, opt="-O2")
        J.add("throwing", t="P3<float>", set=6, **o)
        J.add("throwing", t="Mixed", set=6, **o)
        J.add("throwing", t="short", set=6, **o)
        J.add("throwing", t="char", set=14, **o)
        J.add("throwing", "fallback", t="float", set=6, **o)
        J.add("throwing", "fallback", t="double", set=5, **o)
        J.add("throwing", "clang", t="float", set=6, **o)
        J.add("throwing", "fallback", t="int", generators=1, **o)
    return dict(jobs=J, bounds="every algorithm x every length up to one unrolled chunk plus one register plus 2 x 2 to 3 alignments x policies: an exception thrown in every single call of every callable, "
                "before and after it modified its arguments; fallback simds of 1..32 elements: a throw in every call of generators and reduction operators",
                oracle="the thrown object arrives at the caller, the callable is not called again, every element is unchanged or complete, memory around it is untouched")

TSAN = ["-fsanitize=thread", "-nodefaultlibs", "-Wl,--no-as-needed", "-lstdc++", "-lm", "-lgcc_s", "-lgcc", "-lc"]

@check("C30")
def c30(tier, scratch):
    J = Jobs()
    fp = dict(extra=TSAN)
    if tier == "thorough":
        for t in ARITH[:-1] + ["P3<float>", "P2<double>", "Mixed"]:
            for s in range(6):
                for ss in sets(t, s):
                    J.add("shared", t=t, set=ss, part=0, **fp)
            for cfg in ("sse", "avx512", "fallback", "O0"):
                J.add("shared", cfg, t=t, set=6, part=0, **fp)
            J.add("shared", t=t, set=6, part=1, preempt=4, timeout=900)
            J.add("shared", "fallback", t=t, set=6, part=1, preempt=4, timeout=900)
            J.add("shared", "clang", t=t, set=6, part=1, preempt=3, timeout=900)
        for t in ARITH:
            if "char" not in t:     # libstdc++ has no fixed_size<64>: no concat
                J.add("shared", t=t, part=2, **fp)
            J.add("shared", "fallback", t=t, part=2, **fp)
        for s in (0, 3, 4, 5):
            J.add("shared", t="float", set=s, part=1, preempt=3, timeout=900)
    else:
        o = dict(opt="-O1")
        for t, cfg, s in (("float", "", 6), ("float", "", 3), ("float", "", 4), ("float", "", 5), ("P3<float>", "", 6), ("short", "", 6), ("char", "", 14),
                          ("double", "fallback", 6), ("Mixed", "fallback", 6), ("float", "avx512", 6)):
            J.add("shared", cfg, t=t, set=s, part=0, **o, **fp)
        for t, cfg, s, k in (("float", "", 6, 3), ("float", "fallback", 6, 3), ("P3<float>", "", 6, 3), ("int", "clang", 6, 2), ("double", "", 3, 2), ("short", "", 5, 2)):
            J.add("shared", cfg, t=t, set=s, part=1, preempt=k, **o)
        for t in ("float", "unsigned char", "int"):
            J.add("shared", "fallback", t=t, part=2, **o, **fp)
        J.add("shared", "", t="float", part=2, **o, **fp)
    return dict(jobs=J, bounds="part 0: every access of every algorithm call for every length up to one unrolled chunk plus two registers plus 2 x every alignment; part 2: of 23 operations on simds and masks of "
                "5 types; part 1: every ordered pair of six algorithms on adjacent ranges of up to 9 lengths, all interleavings of their callbacks with at most 3 (thorough: 4) preemptions",
                oracle="no write outside of the output argument and the stack of the call; results of both calls as if executed alone")

UB = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_DEBUG_UB"]
MSAN = ["-fsanitize=memory", "-fno-sanitize-memory-param-retval", "-D_GLIBCXX_ASSERTIONS"]

@check("C31")
def c31(tier, scratch):
    J = Jobs()
    thorough = tier == "thorough"
    s = dict(opt="-O0", extra=UB)
    m = dict(opt="-O0", extra=MSAN)
    def parts(h):
        return {"ops": (0, 1, 2), "loads": (0, 1, 2), "where": (0, 1), "hreduce": (0, 1, 2), "splitcat": (0, 1), "casts": (0, 1, 2),
                "math": (0, 1, 2, 3), "permute": (0, 1, 2, 9), "simdize": (0, 1, 2, 3, 4), "resize": (0, 1), "bits": (0, 1)}.get(h, (None,))
    def add(h, cfg, how, t, part=None, **kw):
        if part is not None:
            kw["part"] = part
        if h == "bitset":
            kw["bits"] = 8
        if h == "math":
            how = dict(how, extra=how["extra"] + ["-ffp-contract=off"])
        J.add(h, cfg, "gnu++23" if h in ALG else "gnu++20", t=t, **kw, **how)
    ALG = ("for_each", "transform", "reduce", "count_if", "throwing")
    if thorough:
        for h in ("ops", "loads", "where", "maskops", "hreduce", "splitcat", "casts", "math"):
            for t in ("signed char", "unsigned short", "int", "unsigned long", "float", "double"):
                if h == "math" and t not in ("float", "double"):
                    continue
                for p in parts(h):
                    for cfg, how in (("fallback", s), ("clang-fallback", s), ("clang-fallback", m)):
                        add(h, cfg, how, t, p)
        for h in ("permute", "simdize", "resize", "bits", "bitset"):
            for t in ("char", "int", "float", "double"):
                for p in parts(h):
                    if h == "permute" and p == 9 and t == "char":
                        continue
                    # multiplication of chars overflows inside of libstdc++
                    for cfg, how in (("", s),)[h == "simdize" and p == 4 and t == "char":] + ( ("fallback", s), ("clang-fallback", s), ("clang-fallback", m)):
                        add(h, cfg, how, t, p)
        for h in ALG:
            for t in ("char", "short", "float", "double"):
                for st in (0, 4, 5, 6, 7):
                    for ss in sets(t, st):
                        add(h, "", s, t, set=ss)
                for cfg, how in (("sse", s), ("avx512", s), ("fallback", s), ("clang-fallback", m)):
                    add(h, cfg, how, t, set=6)
            if h in ("for_each", "throwing"):
                for t in ("P3<float>", "Mixed", "P2<double>"):
                    for cfg, how in (("", s), ("fallback", s), ("avx512", s), ("clang-fallback", m)):
                        add(h, cfg, how, t, set=6)
    else:
        for h, t, p in (("ops", "int", 0), ("ops", "unsigned short", 1), ("ops", "float", 1), ("loads", "float", 0), ("loads", "short", 0), ("loads", "short", 1),
                        ("where", "float", 0), ("maskops", "int", None), ("hreduce", "float", 0), ("hreduce", "int", 1), ("splitcat", "float", 0),
                        ("splitcat", "float", 1), ("casts", "float", 0), ("casts", "int", 2), ("math", "float", 0), ("math", "float", 1), ("math", "float", 2),
                        ("permute", "float", 0), ("permute", "float", 2), ("resize", "float", 0), ("bits", "float", 1)):
            add(h, "fallback", s, t, p)
        for h, t, p in (("ops", "float", 0), ("loads", "float", 0), ("loads", "short", 1), ("hreduce", "float", 0), ("splitcat", "float", 0), ("splitcat", "float", 1),
                        ("casts", "float", 0), ("casts", "float", 2), ("math", "float", 0), ("math", "float", 1), ("permute", "float", 0), ("permute", "float", 1),
                        ("simdize", "float", 0), ("simdize", "float", 3), ("resize", "float", 0), ("bits", "float", 0)):
            add(h, "clang-fallback", m, t, p)
        for h, t, p in (("permute", "float", 1), ("simdize", "float", 1), ("simdize", "short", 3), ("resize", "float", 1), ("bits", "double", 1), ("bitset", "float", None)):
            add(h, "", s, t, p)
        for h, t, st, cfg, how in (("for_each", "float", 6, "", s), ("for_each", "P3<float>", 6, "", s), ("for_each", "Mixed", 6, "clang-fallback", m),
                                   ("transform", "short", 6, "", s), ("reduce", "float", 6, "clang-fallback", m), ("reduce", "float", 12, "", s),
                                   ("count_if", "float", 12, "", s), ("throwing", "float", 6, "fallback", s)):
            add(h, cfg, how, t, set=st)
    return dict(jobs=J, bounds="the spaces of the harnesses for C01..C04, C08, C10, C12..C14, C16..C23 and C29 walked once more under AddressSanitizer and "
                "UndefinedBehaviorSanitizer, and with the fallback under MemorySanitizer, with the assertions of the standard library enabled",
                oracle="no report of a sanitizer, no assertion of the standard library, in addition to the oracle of each harness")
TECHNIQUE["C31"] = "bounded-exhaustive exploration of the real code under monitors for undefined behaviour (address, undefined, memory sanitizers, library assertions)"

@check("C32")
def c32(tier, scratch):
    J = Jobs()
    types = ["float", "int", "char", "double"]
    if tier == "thorough":
        types = ARITH + ["P3<float>", "P2<double>", "Mixed", "Nest<float>"]
        for t in types:
            for ss in sets(t, 0):
                J.add("iters", t=t, set=ss, std="gnu++23", opt="-O1")
            for cfg, _ in CONFIGS:
                J.add("iters", cfg, t=t, set=6, std="gnu++23", opt="-O1")
        for s in range(1, 6):
            J.add("iters", t="float", set=s, std="gnu++23", opt="-O1")
    else:
        for s in (10, 11, 12, 13, 14, 15):
            J.add("iters", t="float", set=s, std="gnu++23", opt="-O0" if s % 2 else "-O1")
        J.add("iters", "fallback", t="short", set=6, opt="-O1")
        J.add("iters", "clang", t="P3<float>", set=6, std="gnu++23", opt="-O0")
        J.add("iters", t="Mixed", set=6, std="gnu++23", opt="-O0")
        J.add("iters", "sse", t="char", set=11, std="gnu++23", opt="-O1")
    # clang++ diagnoses pointers that leave their array in constant expressions
    for t in types if tier == "thorough" else ("float", "short"):
        if t in ARITH and t != "long double":
            J.add("consteval", "clang-fallback", t=t, opt="-O0", maxn=40)
    return dict(jobs=J, bounds=ALG_BOUNDS + "; iterators that check every move, dereference and comparison", oracle="no iterator moves "
                "out of, or is dereferenced outside of, its range; constant evaluation by clang++ with pointers; results as in C01..C04")
TECHNIQUE["C32"] = "bounded-exhaustive exploration of the real code under a monitor: iterators that check every operation"

TECHNIQUE["C29"] = "exhaustive fault injection: an exception at every call of every callable on the real code"
TECHNIQUE["C30"] = "stateless model checking of the real code: all callback interleavings of two calls up to a preemption bound under a controlled scheduler; all memory accesses monitored"
TECHNIQUE["C27"] = TECHNIQUE.get("C27", "explicit-state breadth-first search of the product of both implementations")
