"""Generates harness sources whose enumeration is over types, which C++ cannot enumerate by itself."""
KINDS = {
    "same": ["int"],
    "mixed": ["char", "double", "short", "float", "long", "bool", "unsigned", "unsigned char"],
    "bytes": ["char"],
    "rich": ["Inner", "E", "int*", "Nested", "Arr", "long double", "Pair"],
    "const": ["const int", "float"],
    "vol": ["volatile int", "double"],
}
BASES = {0: "", 1: " : B0", 2: " : B0, B1", 3: " : B0, B1, B2"}

def reflect(kind, lo, hi, path):
    o = ['#include "reflect.h"', "struct B0 {}; struct B1 {}; struct B2 {};"]
    calls = []
    def emit(name, types, decl, arr=False, tuples=True, member="s."):
        n = len(types)
        o.append(decl)
        a = ", ".join(f"(const void*)&{member}m{i}" for i in range(n))
        calls.append(f"""  {{ mc::context = "{name}";
    {name} s{{{', '.join(init(types, decl))}}};
    const void* const p[] = {{{a + ', ' if n else ''}nullptr}};
    using W = Want<{', '.join([name] + types)}>;
    W::get(s, reinterpret_cast<const void* const (&)[{n + 1}]>(p));""" +
            (f"\n    W::tuples(s, p, 0);" if tuples else "") +
            f"""
    static_assert(not gettable<{n}, {name}&>);
    static_assert(pairable<{name}&> == {'true' if n == 2 else 'false'});
    static_assert(pair_ref_able<{name}&> == {'true' if n == 2 else 'false'}); }}""")
    def init(types, decl):
        r = ["{}"] * decl.split("{")[0].count("B")
        vals = [f"value<std::remove_cv_t<{t}>>({k + 1})" for k, t in enumerate(types)]
        if "Base_" in decl:
            return ["{" + ", ".join(vals) + "}"] if vals else ["{}"]
        return r + vals
    cyc = KINDS.get(kind)
    for n in range(lo, hi):
        types = [cyc[i % len(cyc)] for i in range(n)] if cyc else []
        mem = " ".join(f"{t} m{i};" for i, t in enumerate(types))
        if cyc:
            emit(f"S_{n}", types, f"struct S_{n} {{ {mem} }};", tuples=kind not in ("vol",))
            if kind in ("same", "mixed"):
                for b in (1, 2, 3):
                    emit(f"S{b}b_{n}", types, f"struct S{b}b_{n}{BASES[b]} {{ {mem} }};")
                if n:
                    o.append(f"struct Base_{n} {{ {mem} }};")
                    emit(f"D_{n}", types, f"struct D_{n} : Base_{n} {{}};")
    if kind == "std":
        for n in range(lo, hi):
            types = [KINDS["mixed"][i % 8] for i in range(n)]
            calls.append(f"""  {{ mc::context = "std::tuple of {n}";
    std::tuple<{', '.join(types)}> s{{{', '.join(f'value<{t}>({k + 1})' for k, t in enumerate(types))}}};
    const void* const p[] = {{{''.join(f'&std::get<{i}>(s), ' for i in range(n))}nullptr}};
    using W = Want<{', '.join(['decltype(s)'] + types)}>;
    W::get(s, p); W::tuples(s, p, 0); }}
  {{ mc::context = "std::array of {n}";
    std::array<short, {n}> s{{{', '.join(str(k + 1) for k in range(n))}}};
    const void* const p[] = {{{''.join(f'&s[{i}], ' for i in range(n))}nullptr}};
    using W = Want<{', '.join(['decltype(s)'] + ['short'] * n)}>;
    W::get(s, p); W::tuples(s, p, 0); }}""")
        calls.append("""  { mc::context = "std::pair";
    std::pair<int, Inner> s{1, {2, 3}};
    const void* const p[] = {&s.first, &s.second, nullptr};
    using W = Want<decltype(s), int, Inner>;
    W::get(s, p); W::tuples(s, p, 0); }""")
    if kind == "odd":
        for n in range(lo, hi):
            # bit-fields and arrays: only the number of members (arrays also struct_get)
            o.append(f"struct F_{n} {{ {' '.join(f'unsigned m{i} : {1 + i % 3};' for i in range(n))} }};")
            calls.append(f'  {{ mc::context = "F_{n}"; Want<{", ".join([f"F_{n}"] + ["unsigned"] * n)}>::size(); }}')
            o.append(f"struct A_{n} {{ {' '.join(f'short m{i}[{1 + i % 3}];' for i in range(n))} }};")
            tl = ", ".join([f"A_{n}"] + [f"short[{1 + i % 3}]" for i in range(n)])
            calls.append(f"""  {{ mc::context = "A_{n}"; A_{n} s{{}};
    const void* const p[] = {{{''.join(f'&s.m{i}, ' for i in range(n))}nullptr}};
    Want<{tl}>::get(s, p); }}""")
            if n:
                o.append(f"struct AD_{n} : A_{n} {{}};")
                calls.append(f"""  {{ mc::context = "AD_{n}"; AD_{n} s{{}};
    const void* const p[] = {{{''.join(f'&s.m{i}, ' for i in range(n))}nullptr}};
    Want<A{'D' + tl[1:]}>::get(s, p); }}""")
        o.append("""struct Priv { private: int a, b; }; struct NonAgg { int a; NonAgg(int); }; union U { int i; float f; };
static_assert(not vir::reflectable_struct<int>); static_assert(not vir::reflectable_struct<int&>);
static_assert(not vir::reflectable_struct<Priv>); static_assert(not vir::reflectable_struct<NonAgg>);
static_assert(not vir::reflectable_struct<int*>); static_assert(not vir::reflectable_struct<void>);
static_assert(not vir::reflectable_struct<E>);""")
    # constant evaluation
    o.append("""struct CT { int a; double b; char c; };
static_assert([] { CT s{1, 2, 'c'}; vir::struct_get<1>(s) = 7; std::get<0>(vir::to_tuple_ref(s)) = 4;
  return vir::to_tuple(s) == std::tuple(4, 7., 'c'); }());
static_assert(vir::struct_get<2>(CT{1, 2, 'x'}) == 'x');""")
    o.append("int main() { mc::init();\n" + "\n".join(calls) + "\n  return mc::finish(); }")
    open(path, "w").write("\n".join(o) + "\n")

if __name__ == "__main__":
    import sys
    reflect(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])

def literals(part, path):
    """every spelling of the enumerated integer literals; the type is the smallest signed type that holds the value"""
    vals = set(range(0, 300)) | {10**k + d for k in range(1, 20) for d in (-1, 0, 1)}
    for b in (7, 8, 15, 16, 31, 32, 63, 64):
        vals |= {2**b + d for d in (-2, -1, 0, 1, 2)}
    vals |= {0x123456789abcdef, 0xfedcba9876543210, 0o1234567012345, 12345678901234567890, 0xa0b1c2d3e4f5}
    vals = sorted(v for v in vals if 0 <= v < 2**64)
    def typ(v):
        return ("(signed char)" if v < 2**7 else "short" if v < 2**15 else "int" if v < 2**31 else "long" if v < 2**63
                else "(unsigned long long)")
    def seps(s, k):
        # a separator after every k digits from the right
        r = []
        for i, c in enumerate(reversed(s)):
            if i and i % k == 0:
                r.append("'")
            r.append(c)
        return "".join(reversed(r))
    o = ['#include "mc.h"', "#include <vir/constexpr_wrapper.h>", "using namespace vir::literals;",
         "template <auto Want, typename Got> void lit(const char* s, Got) { mc::context = s; mc::at(\"literal\");",
         "  MC_CHECK((std::is_same_v<std::remove_cv_t<Got>, vir::constexpr_wrapper<Want>>), \"value or type\");",
         "  MC_CHECK(Got::value == Want, \"value\"); mc::step(); mc::ok(); }", "int main() { mc::init();"]
    for v in vals:
        sp = {0: [str(v), seps(str(v), 3), seps(str(v), 1)],
              1: [f"0x{v:x}", f"0X{v:X}", f"0x{seps(f'{v:X}', 4)}", f"0x00{v:x}", f"0x{seps(f'{v:x}', 1)}"],
              2: [f"0{v:o}" if v else "0", f"00{v:o}", f"0'{seps(f'{v:o}', 3)}"],
              3: [f"0b{v:b}", f"0B{v:b}", f"0b{seps(f'{v:b}', 8)}", f"0b000{v:b}"]}[part]
        for s in dict.fromkeys(sp):
            t = typ(v)
            w = f"{t}({v}ull)" if t.startswith("(") else f"{t}({v}ull)"
            o.append(f'  lit<{w}>("{s}_cw", {s}_cw);')
    o.append("  return mc::finish(); }")
    open(path, "w").write("\n".join(o) + "\n")

REJECTED_LITERALS = ["18446744073709551616", "99999999999999999999999", "0x10000000000000000", "02000000000000000000000",
                     "0b1" + "0" * 64, "1.5", "1e3", "0x1p3", "340282366920938463463374607431768211456",
                     "36893488147419103232", "0x1'0000'0000'0000'0001", "18446744073709551617"]

def reject_literal(k, path):
    open(path, "w").write(f"""#include <vir/constexpr_wrapper.h>
using namespace vir::literals;
#ifdef VIRMC_BAD
auto x = {REJECTED_LITERALS[k]}_cw;
#else
auto x = 18446744073709551615_cw;
#endif
""")

# --- C28: headers -----------------------------------------------------------------------------------------------
# What a user may rely on after including just that header: (minimal language version, code).  Every snippet is a
# function that returns the number of deviations; the static assertions decide at compile time where possible.
USES = {
 "simd_version.h": (17, """
  static_assert(vir::simd_version == vir::simd_version_t{VIR_SIMD_VERSION_MAJOR, VIR_SIMD_VERSION_MINOR, VIR_SIMD_VERSION_PATCHLEVEL});
  static_assert(vir::simd_version >= vir::simd_version_t{0, 4, 0} and vir::simd_version_t{0, 4, 0} < vir::simd_version_t{1, 0, 0});
#if __cplusplus >= 202002L
  static_assert((vir::simd_version_t{1, 2, 3} <=> vir::simd_version_t{1, 2, 4}) < 0);
#endif
  return 0;"""),
 "simd.h": (17, """
  namespace stdx = vir::stdx;
  using V = stdx::fixed_size_simd<float, 4>;
  static_assert(stdx::is_simd_v<V> and not stdx::is_simd_mask_v<V> and stdx::simd_size_v<float, typename V::abi_type> == 4);
#ifdef VIRMC_FALLBACK
  static_assert(V(3)[1] == 3.f and sizeof(V) == 16);
#endif
  V v([](int i) { return float(i); });
  where(v > 1, v) += 2;
  return stdx::reduce(v + v) != 20 or stdx::popcount(v > 1) != 2 or stdx::hmax(v) != 5;"""),
 "detail.h": (17, "  return 0;"),
 "constexpr_wrapper.h": (20, """
  using namespace vir::literals;
  static_assert(VIR_HAVE_CONSTEXPR_WRAPPER);
  static_assert(std::is_same_v<decltype(vir::cw<1> + vir::cw<2>), vir::constexpr_wrapper<3>> and 0x10_cw == 16);
  return 0;"""),
 "simd_benchmarking.h": (20, """
  static_assert(VIR_HAVE_SIMD_BENCHMARKING);
  int x = 1; vir::stdx::fixed_size_simd<float, 4> v = 3;
  vir::fake_modify(x, v); vir::fake_read(x, v);
  return x != 1 or v[2] != 3;"""),
 "simd_bit.h": (17, """
  namespace stdx = vir::stdx;
  const auto r = vir::simd_bit_cast<stdx::simd<unsigned>>(stdx::simd<float>(1.f));
  return r[0] != 0x3f800000u;"""),
 "simd_bitset.h": (17, """
  namespace stdx = vir::stdx;
  using M = stdx::fixed_size_simd_mask<float, 4>;
  M m(false); m[1] = true; m[3] = true;
  return vir::to_bitset(m).to_ulong() != 10 or stdx::any_of(vir::to_simd_mask<float, 4>(std::bitset<4>(0)));"""),
 "simd_cast.h": (17, """
  namespace stdx = vir::stdx;
  using M = stdx::fixed_size_simd_mask<float, 4>;
  M m(false); m[2] = true;
  const auto r = vir::static_simd_cast<stdx::fixed_size_simd_mask<int, 4>>(m);
  return not r[2] or r[1];"""),
 "simd_concepts.h": (20, """
  static_assert(VIR_HAVE_SIMD_CONCEPTS);
  static_assert(vir::any_simd<vir::stdx::simd<float>> and vir::any_simd_mask<vir::stdx::simd_mask<float>> and not vir::any_simd<float>
                  and vir::vectorizable<int> and not vir::vectorizable<bool> and vir::simd_abi_tag<vir::stdx::simd_abi::scalar>);
  return 0;"""),
 "simd_cvt.h": (20, """
  static_assert(VIR_HAVE_SIMD_CVT);
  namespace stdx = vir::stdx;
  const stdx::fixed_size_simd<float, 4> v = 2.f;
  const stdx::fixed_size_simd<int, 4> i = vir::cvt(v);
  return i[3] != 2;"""),
 "simd_execution.h": (20, """
  static_assert(VIR_HAVE_SIMD_EXECUTION);
  float a[11] = {}; for (int i = 0; i < 11; ++i) a[i] = float(i);
  vir::for_each(vir::execution::simd, a, [](auto& x) { x = x + 1; });
  return a[0] != 1 or a[10] != 11 or vir::reduce(vir::execution::simd, a, 0.f) != 66
           or vir::count_if(vir::execution::simd, a, [](auto x) { return x > 5; }) != 6;"""),
 "simd_float_ops.h": (17, """
  namespace stdx = vir::stdx;
  using namespace vir::simd_float_ops;
  const stdx::simd<float> a = -3.f, b = -0.f;
  const auto r = a & b;
  return r[0] != 0 or (a ^ b)[1] != 3.f;"""),
 "simd_iota.h": (20, """
  static_assert(VIR_HAVE_SIMD_IOTA);
  using V = vir::stdx::fixed_size_simd<int, 5>;
  static_assert(vir::iota_v<int[4]>[3] == 3 and vir::iota_v<std::array<int, 4>>[3] == 3);
  return vir::iota_v<V>[4] != 4;"""),
 "simd_permute.h": (20, """
  static_assert(VIR_HAVE_SIMD_PERMUTE);
  using V = vir::stdx::fixed_size_simd<int, 5>;
  const V v([](int i) { return i; });
  return vir::simd_permute(v, vir::simd_permutations::reverse)[0] != 4 or vir::simd_shift_in<2>(v)[0] != 2;"""),
 "simd_resize.h": (17, """
  using V = vir::stdx::fixed_size_simd<int, 5>;
  const V v([](int i) { return i; });
  const auto r = vir::simd_resize<3>(v);
  static_assert(decltype(r)::size() == 3);
  return r[2] != 2 or vir::simd_size_cast<vir::stdx::fixed_size_simd<int, 6>>(v)[4] != 4;"""),
 "simdize.h": (20, """
  static_assert(VIR_HAVE_SIMDIZE);
  struct P { float x, y; };
  using PV = vir::simdize<P, 4>;
  P p[4] = {{0, 1}, {2, 3}, {4, 5}, {6, 7}};
  PV v(p, vir::stdx::element_aligned);
  return get<0>(v)[2] != 4 or get<1>(v)[3] != 7;"""),
 "struct_reflect.h": (20, """
  static_assert(VIR_HAVE_STRUCT_REFLECT);
  struct P { float x; int y; };
  static_assert(vir::struct_size_v<P> == 2 and std::is_same_v<vir::struct_element_t<1, P>, int>);
  P p{1, 2};
  return vir::struct_get<1>(p) != 2;"""),
}

def header_program(order, path, std, use, tag="", main=False, after=()):
    """a translation unit that includes the headers of `order` (in that order) and uses those of `use`; `after` go last"""
    o = [f"#include <{h}>" for h in order]
    ident = lambda h: h.replace(".", "_")
    for h in use:
        lang, code = USES[h]
        if std >= lang:
            o.append(f"static int use_{ident(h)}()\n{{{code}\n}}")
    o += [f"#include <{h}>" for h in after]
    used = [h for h in use if std >= USES[h][0]]
    o.append(f"int virmc_all{tag}()\n{{\n  return 0{''.join(f' + use_{ident(h)}()' for h in used)};\n}}")
    open(path, "w").write("\n".join(o) + "\n")

def header_main(tags, path):
    o = ['#include "mc.h"'] + [f"int virmc_all{t}();" for t in tags] + ["int main()\n{\n  mc::init();\n  mc::context = \"all translation units linked together\";"]
    for i, t in enumerate(tags):
        o.append(f'  mc::at("{t}", {i}); MC_CHECK(virmc_all{t}() == 0, "unexpected results"); mc::step(); mc::ok();')
    o.append("  return mc::finish();\n}")
    open(path, "w").write("\n".join(o) + "\n")
