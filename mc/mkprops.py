"""Source of properties.jsonl (python3 mc/mkprops.py rewrites it)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
EX = "vir/simd_execution.h"
IC = ["inputs", "configurations"]

prop("C01", "for_each with a simd policy visits every element exactly once",
     "For every range, for_each with a simd execution policy hands every element of the range to the callable exactly once, in "
     "simds of consecutive elements, and nothing else. After the call memory holds what the same callable applied element by element "
     "would have left, including for structs, and elements the callable did not modify are unchanged.",
     IC, "all range lengths, start alignments, element types (arithmetic and simdizable structs), policy modifier combinations",
     "The tests run a handful of lengths at one alignment with a few policies; the prologue/unrolled/main/epilogue boundaries "
     "are a function of length x alignment x width x unroll factor.",
     [EX, "vir/simdize.h"], [("prologue / unrolled body / main loop / halving epilogue", EX), ("load/store proxies of structs", "vir/simdize.h")])
prop("C02", "transform with a simd policy equals the scalar transform",
     "For all input ranges, transform with a simd execution policy writes f(x_i) (or f(x_i, y_i)) to output element i for every i of the input "
     "range, writes nothing else, and returns the iterator one past the last element written. This holds for equal and different "
     "value types of inputs and output, for in-place transforms, and for every policy modifier.",
     IC, "all range lengths, alignments of input and output, value type combinations, policies",
     "Tests use few lengths; iterators are advanced separately for each input and output in every loop part.",
     [EX], [("transform_const_iterators / vectorizable ranges", EX), ("iterator advance in each loop part", EX)])
prop("C03", "transform_reduce and reduce with a simd policy combine each element once",
     "For every range, reduce and transform_reduce with a simd execution policy yield the reduction of the initial value and all (transformed) elements, "
     "each combined exactly once, in the type of the initial value. For empty ranges the result is the initial value.",
     IC, "all range lengths, alignments, value and accumulator types, unary/binary transforms, policies",
     "A wrong identity element, a dropped remainder, or a doubly counted element shows up for particular lengths only.",
     [EX], [("accumulation of partial results", EX), ("final reduction of unrolled accumulators and epilogue", EX)])
prop("C04", "count_if with a simd policy returns the number of matches",
     "For every range and predicate, count_if with a simd execution policy returns the number of elements for which the predicate is true.",
     IC, "all lengths, all match patterns, alignments, policies, element types",
     "Tests use one pattern; counts depend on which loop part a match lies in and on the width of the counter.",
     [EX], [("popcount accumulation per loop part", EX)])
prop("C05", "Algorithms and struct loads never touch memory outside the given range",
     "No algorithm with a simd execution policy reads or writes any byte outside of its argument ranges, and none writes to a range it only "
     "reads (for_each with a callable that does not modify its argument included). The same holds for loading and storing simdized structs. Only ranges of contiguous elements are accepted.",
     IC, "all range lengths and alignments, ranges flush with inaccessible pages on either side, read-only inputs, all policies",
     "An out-of-bounds access to mapped memory is invisible to a value-comparing test.",
     [EX, "vir/simdize.h"], [("loop bounds", EX), ("interleaved load/store", "vir/simdize.h")])
prop("C06", "Execution policy modifiers have exactly their documented effect",
     "Each policy modifier changes only what it documents: prefer_size sets the width, unroll_by the number of simds per call of the "
     "unrolled part, prefer_aligned and auto_prologue lead to aligned accesses, assume_matching_size means no epilogue and traps if the range's "
     "size does not match. Modifiers compose in any order, keep earlier settings, and invalid arguments are rejected at compile time.",
     IC, "all sequences of modifiers up to the library's maximum, all lengths and alignments",
     "Tests check results only, not the sequence of calls the modifiers promise.",
     [EX], [("simd_policy flags", EX)])
prop("C07", "Algorithms give the same results in constant expressions",
     "Every algorithm with a simd execution policy that is usable in constant expressions yields at compile time what the scalar algorithm yields.",
     IC, "all lengths, policies, element types evaluated at compile time", "Tests barely evaluate algorithms at compile time, which is a separate path.",
     [EX], [("consteval paths", EX)])
prop("C08", "Permutations move every element to its documented place",
     "For every simd and index function, element i of the result of a permutation is the element the index function names, counted from the end for "
     "negative indexes, zero where zero is requested; the predefined permutations (duplicate even/odd, swap neighbours, broadcast, broadcast "
     "first/last, reverse, rotate, shift) do as documented for all of their arguments. This holds for all widths including resizing permutations.",
     IC, "all index functions of small simds, all template arguments, all widths", "Tests cover few permutations of native simds; special-cased shuffles exist per width and value size.",
     ["vir/simd_permute.h"], [("simd_permute and simd_permutations", "vir/simd_permute.h")])
prop("C09", "simd_shift_in shifts the concatenation of its arguments",
     "For every offset, simd_shift_in yields elements offset .. offset+size-1 of the concatenation of its arguments, with zeros behind the end. For a negative offset, the positions -size .. -1 denote the elements of the first argument once more, and everything before them is zero.",
     IC, "all offsets, numbers of arguments, widths, value types", "Tests use few offsets on few widths.",
     ["vir/simd_permute.h"], [("simd_shift_in", "vir/simd_permute.h")])
prop("C10", "A simdized struct behaves like a struct of arrays",
     "simdize turns a struct or tuple of arithmetic types into a type whose members are simds of the corresponding values. Loading from a contiguous "
     "sequence of structs, storing, element access, element assignment, construction and comparison treat (element i, member k) as the k-th member of the i-th "
     "struct, without touching any other value; default widths, size and resize are as documented.",
     IC, "all shapes of structs in bounds, all widths, all elements and members", "Tests know few struct shapes; loads and stores are special-cased per member sizes and number of members.",
     ["vir/simdize.h"], [("simd_tuple load/store/interleave", "vir/simdize.h"), ("simdize type computation", "vir/simdize.h")])
prop("C11", "Struct reflection sees the members, their types, order and identity",
     "For every aggregate within the documented limits, struct_size is its number of data members and struct_element, struct_get, to_tuple, "
     "to_tuple_ref, to_pair and to_pair_ref refer to exactly those members in declaration order, with their types and value category, by reference where "
     "documented.",
     ["inputs", "programs"], "all numbers of members up to the limit, kinds of member types, base class arrangements", "The number of members is a template-generated case table; tests use few entries.",
     ["vir/struct_reflect.h"], [("brace-initialisability search, structured bindings", "vir/struct_reflect.h")])
prop("C12", "Mask <-> bitset conversions are exact and inverse to each other",
     "For every mask, to_bitset maps element i to bit i, and to_simd_mask maps bit i back to element i, for all widths and ABIs; the two functions are inverse to each other.",
     IC, "all mask contents, widths, ABIs", "Tests try few contents.", ["vir/simd_bitset.h"], [("to_bitset/to_simd_mask", "vir/simd_bitset.h")])
prop("C13", "simd_resize and simd_size_cast keep leading elements and zero-fill",
     "For every simd or mask and target width, resizing keeps the leading elements in order and value-initializes new ones; size casts change the width "
     "(and only the width) of the type.",
     IC, "all pairs of widths, ABIs, value types", "Tests cover few pairs of widths.", ["vir/simd_resize.h"], [("simd_resize/simd_size_cast", "vir/simd_resize.h")])
prop("C14", "simd_bit_cast and floating-point bit operators act on object representations",
     "simd_bit_cast preserves all bits of simds and the values of masks for every pair of types of equal size and is rejected for others; &, |, ^ on "
     "floating-point simds yield the bitwise result on the representation of every element.",
     IC, "all value pairs of the alphabet, widths, ABIs, pairs of types", "Tests use few values and native simds.",
     ["vir/simd_bit.h", "vir/simd_float_ops.h", "vir/detail.h"], [("bit_cast", "vir/detail.h"), ("operators", "vir/simd_float_ops.h")])
prop("C15", "constexpr_wrapper operators and literals compute what the plain values compute",
     "For all operands, every operator, call and subscript on constexpr_wrapper objects yields a wrapper (or plain value) of exactly the value and type that the plain operands "
     "yield. Every integer literal with the cw suffix has the value of the same literal without suffix, in the smallest documented type, and unrepresentable or non-integer "
     "literals are rejected.",
     ["inputs", "programs"], "all operators x operand pairs of the alphabet, all literal spellings in bounds", "Tests sample operators and literals.",
     ["vir/constexpr_wrapper.h"], [("operators", "vir/constexpr_wrapper.h"), ("literal parser", "vir/constexpr_wrapper.h")])
FB = ["vir/simd.h"]
prop("C16", "Fallback simd operators act on each element like the scalar operator",
     "In the fallback implementation every unary, binary, compound, shift, increment and comparison operator of simd yields in every element what the same operator yields on the scalar elements "
     "(converted to the value type), and modifies nothing else.",
     IC, "all 8-bit operand pairs, the boundary alphabet of wider types, all widths and both ABIs", "Tests run few values, and every operator is written separately for the scalar and the fixed_size ABI.",
     FB, [("simd<T, scalar>, simd<T, fixed_size<N>>", "vir/simd.h")])
prop("C17", "Fallback simd construction, loads, stores and element access are exact",
     "In the fallback implementation broadcasts, generators, loads, stores and element references move exactly the elements they name, converting each value like a static_cast, for every "
     "alignment flag and memory type; masked-out or surrounding memory is neither read nor written.",
     IC, "all widths, value and memory type pairs, offsets, element indexes", "Tests use few widths and types.", FB, [("copy_from, copy_to, generator, smart reference", "vir/simd.h")])
prop("C18", "where-expressions affect exactly the selected elements",
     "In the fallback implementation every operation on where(mask, object) applies to the elements for which the mask is true and to no other; masked loads and stores access only the memory of selected elements; "
     "where on arithmetic types or bool behaves likewise.",
     IC, "all masks, operators, widths, simd and mask objects", "Tests use few masks.", FB, [("where_expression, const_where_expression", "vir/simd.h")])
prop("C19", "Mask operations and mask reductions match their definition",
     "In the fallback implementation the operators of simd_mask are element-wise, loads and stores exact, and all_of, any_of, none_of, some_of, popcount, find_first_set and find_last_set return what their definition says for every mask "
     "(and for plain bool).",
     IC, "all mask contents up to the bound, all widths", "Tests use few masks.", FB, [("simd_mask and reductions", "vir/simd.h")])
prop("C20", "Fallback simd reductions combine each selected element once",
     "In the fallback implementation reduce, hmin and hmax (plain and masked) return the reduction over exactly the (selected) elements, the identity element for an empty selection, including infinities and extreme values.",
     IC, "all masks, value rotations including extremes, all widths, all binary operations", "Tests use few masks and values.", FB, [("reduce, hmin, hmax, masked variants", "vir/simd.h")])
prop("C21", "Split and concat preserve all elements in order",
     "In the fallback implementation split and concat on simds and masks (variadic and array forms) yield exactly the elements of the arguments in order, and concat undoes split.",
     IC, "all partitions of widths in bounds, all value types", "Tests use few partitions.", FB, [("split, concat", "vir/simd.h")])
prop("C22", "Conversions keep every value and are only implicit where documented",
     "In the fallback implementation simd_cast, static_simd_cast, to_fixed_size, to_native, to_compatible and converting constructors convert each element like the scalar conversion and never change the number of elements. "
     "Implicit conversions and simd_cast are available only where the conversion is value-preserving and rejected otherwise; the extended vir casts accept and convert as documented.",
     IC, "all pairs of value types x widths x ABIs, all values of 8-bit types and boundary values of wider ones", "Tests compile few pairs; rejection is never observed at run time.", FB + ["vir/simd_cvt.h"], [("casts and constructor constraints", "vir/simd.h"), ("cvt", "vir/simd_cvt.h")])
prop("C23", "Fallback math functions equal the std function on every element",
     "In the fallback implementation every math function, classification function and min/max/minmax/clamp/abs overload yields in every element what the std function yields for the corresponding scalars, also for the outputs returned through pointers "
     "(frexp, modf, remquo) and mixed arguments.",
     IC, "the full floating-point boundary alphabet (zeros, subnormals, infinities, NaN, huge, ties) in every argument, all widths", "Tests call few functions with few values; each function is a separate macro instantiation.", FB, [("math overloads", "vir/simd.h")])
prop("C24", "Precondition checks fire exactly when violated, at the selected level",
     "For every precondition checking level, a violated precondition of the library leads to the documented reaction (nothing assumed away unless requested, trap, message and abort) and a satisfied precondition has no effect; the default is to trap.",
     ["inputs", "configurations"], "all levels, all preconditions, violated and satisfied, compile-time-known and run-time", "Tests never violate a precondition and use one level.",
     ["vir/detail.h", "vir/simd_execution.h", "vir/simd.h"], [("vir_simd_precondition levels", "vir/detail.h")])
prop("C25", "Type traits, concepts, ABI tags and widths describe the types truthfully",
     "For every type, the traits and concepts (is_simd, is_simd_mask, is_abi_tag, is_simd_flag_type, simd_size, memory_alignment, rebind/resize, deduce, vir concepts) are true exactly for the types they describe; "
     "native widths follow the target's register size and compatible/native/fixed_size have the documented sizes.",
     ["inputs", "programs", "configurations"], "all value types x ABI tags x widths, all targets", "Tests probe single types on one target.",
     ["vir/simd.h", "vir/simd_concepts.h", "vir/simd_version.h"], [("traits", "vir/simd.h"), ("concepts", "vir/simd_concepts.h")])
prop("C26", "iota constants, version comparison and benchmark support do what they say",
     "The iota constant of every simd or array type holds 0, 1, 2, ... in order; the version integer orders versions as documented, development versions included; benchmark support "
     "functions keep every value unchanged.",
     ["inputs", "programs"], "all widths and value types; all version triples in bounds", "Tests check single instances.",
     ["vir/simd_iota.h", "vir/simd_version.h", "vir/simd_benchmarking.h"], [("iota_v", "vir/simd_iota.h"), ("version", "vir/simd_version.h"), ("fake_modify/fake_read", "vir/simd_benchmarking.h")])
prop("C27", "The fallback is interchangeable with the standard library implementation",
     "Every sequence of operations on simds and masks gives the same observable results whether the fallback or the standard library's std::experimental::simd is used.",
     ["histories", "configurations"], "all operation sequences up to the depth bound from several initial states", "Tests build both but compare each with few fixed expectations, never sequences.",
     FB, [("all of the fallback", "vir/simd.h")])
prop("C28", "Every header is self-contained and independent of inclusion order",
     "Every public header compiles on its own and in any order with any other, with either implementation, any supported language mode and either compiler, and has the same meaning in any order.",
     ["programs", "configurations"], "all headers, ordered pairs of headers, language modes, implementations", "Tests include each header in a fixed order.",
     ["vir/*.h"], [("include guards and feature macros", "vir/simd.h")])
prop("C29", "Exceptions thrown by callables reach the caller and leave memory consistent",
     "When a callable passed to an algorithm with a simd execution policy throws, in whichever of its calls, the exception arrives at the caller unchanged and the callable is not called again; every element of the "
     "written range then either is unchanged or holds the complete result for that element, nothing else is written. The same holds for generators and reduction operators passed to fallback simds.",
     ["fault_sequences", "inputs"], "a fault at every call of every callable, all lengths and alignments in bounds", "Tests never throw.",
     ["vir/simd_execution.h", "vir/simd.h"], [("all algorithms", "vir/simd_execution.h"), ("generator constructors, reduce", "vir/simd.h")])
prop("C30", "No hidden state: nested and concurrent calls do not influence each other",
     "The result of an algorithm or simd operation depends on its arguments only, and a call writes nothing but its output argument: calls on disjoint data that are in flight at the same time, from several threads or nested in a "
     "callable, in any interleaving, yield what each yields alone, also for the same instantiation and for adjacent ranges.",
     ["schedules", "inputs"], "all interleavings of the callbacks of two calls up to a preemption bound; every memory access of every call", "Tests run one call at a time.",
     ["vir/simd_execution.h", "vir/simdize.h", "vir/simd.h"], [("all algorithms", "vir/simd_execution.h")])
prop("C31", "Calls with valid arguments have defined behaviour throughout",
     "With satisfied preconditions no function of the library executes undefined behaviour on the way to its result: no access outside of objects or after their lifetime, no misaligned access, "
     "no use of a value that was never set, no overflow, invalid shift, invalid conversion or out-of-range subscript in the library's own code. Exempt are elements requested as uninitialized and "
     "element operations that are undefined for the scalars themselves.",
     ["inputs", "configurations"], "every input of the spaces of the other properties, with either implementation", "Undefined behaviour often yields the expected result in the tested configuration.",
     ["vir/simd.h", "vir/simd_execution.h", "vir/simdize.h", "vir/simd_permute.h", "vir/detail.h"], [("fallback implementation", "vir/simd.h"), ("algorithms", "vir/simd_execution.h"), ("simdize", "vir/simdize.h")])
prop("C32", "Algorithms keep iterators within the given range",
     "On valid arguments no algorithm with a simd execution policy moves an iterator (or pointer) before the begin or past the end of its range, dereferences one at the end, or compares "
     "iterators of different ranges, whatever the length of the range, empty ranges and ranges shorter than a simd included: the algorithms can be used with checked iterators "
     "(e.g. the standard library's debug mode) and in constant expressions of compilers that diagnose such moves.",
     IC, "all lengths, alignments, policies, iterator and range overloads, several ranges per call", "Tests use unchecked iterators, for which a move out of the range goes unnoticed.",
     [EX], [("loop conditions", EX), ("zip_view overload", EX)])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    open(out, "w").write("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
