#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (only checks whose harness exists are claimed)."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = 'include/opt/option.hpp'
P = []
def p(id, title, statement, over, quant, why, mech, observe, na=None, note='', files=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, mech=mech, observe=observe, na=na, note=note, files=files or [H]))

p('C01', 'Spare bit patterns round-trip and never collide with each other',
  'For every type whose spare bit patterns the library (or the documented PADDING, enum or traits interface) uses to encode emptiness, writing each of the advertised levels into an object with arbitrary previous contents makes exactly that level read back, also after the object is overwritten with another level. A default-constructed or reset option of such a type reads as empty no matter what bytes its storage held before, at every nesting depth.',
  ['inputs'], 'all garbage byte contents of the storage, all levels 0..max_level-1, for every builtin and user-described type family',
  'The tests check a few levels on zeroed or freshly constructed objects; the level encodings are bit tricks over every byte pattern and every level (up to 2^51 of them).',
  [('option_traits / internal_option_traits get_level and set_level', 'option.hpp: internal_option_traits'), ('option constructor and reset', 'option.hpp: option_base')], ['option_traits<T>::get_level/set_level', 'option<T>::has_value'])
p('C02', 'No valid value of a type is ever mistaken for an empty state',
  'For every type for which options are stored without a separate flag, no valid value of the type reads as empty: an option holding any valid value (every bit pattern the type can validly have, including null and extreme values, NaNs, infinities and negative zero that arise from arithmetic, invalid-looking but legal pointers, all string lengths and all members) reports that it has a value.',
  ['inputs'], 'every valid object representation of every supported type family (2^8 .. 2^128 patterns)',
  'Tests store a dozen literals; the claim is about every valid bit pattern of the type.',
  [('niche selection', 'option.hpp: internal_option_traits for bool, pointers, floating point, enums, references, string, vector, unique_ptr, pairs, arrays, aggregates')], ['option<T>::has_value', 'option_traits<T>::get_level'])
p('C03', 'Nested options distinguish every level of emptiness and keep the payload',
  'An option of an option (to any depth, including options inside pairs, tuples and arrays, and options of references) distinguishes "empty", "holds an empty option" and "holds a value"; construction, assignment, swap, take, reset, emplace, filter, map and or_else move between all those states without ever changing another level or the payload. Flattening is engaged exactly when every level is engaged and then yields the innermost value.',
  ['inputs', 'histories'], 'every pair of nesting states, every payload value, every transition operation, depths 2 to 6',
  'Tests walk a few hand-picked nested states; the encodings of the levels share one niche and the interactions multiply with depth, type and operation.',
  [('nested level encoding', 'option.hpp: internal_option_traits<opt::option<T>, ...>'), ('flatten', 'option.hpp: flatten')], ['has_value at every level', 'payload', 'opt::flatten'])
p('C04', 'Zero size overhead where promised, and no write outside the option',
  'An option of a type with spare states has exactly the size and alignment of the type itself, also when nested as deep as spare states allow, and otherwise adds at most one alignment unit. No operation on an option ever changes a byte outside it: adjacent objects, array neighbours and data members placed next to it (or in its tail) keep their contents.',
  ['inputs', 'histories'], 'all surrounding byte contents, all start states, every mutating operation, every supported type family',
  'Tests compare sizeof for some types and never look at neighbouring memory.',
  [('storage layout', 'option.hpp: option_base / option_destruct_base'), ('level writes', 'option.hpp: set_level of every traits class')], ['sizeof/alignof', 'guard bytes around the object'])
p('C05', 'A stored value is returned unchanged by every accessor',
  'Whatever way a value enters an option (any constructor, assignment, emplace, swap, take, make_option), the option then has a value and every accessor, in every const and reference qualification, refers to one and the same object holding exactly that value. Copying, moving and value_or yield that same value.',
  ['inputs', 'histories'], 'every payload value, 22 ways in, every way out, every supported type family and every combination of trivial and non-trivial special members',
  'Tests use a handful of literals per type; bit-level niche code can corrupt individual values (sign bits, NaN payloads, high pointer bits) that no literal hits.',
  [('construction/assignment paths', 'option.hpp: option_base, option_copy_*_base, option::operator='), ('accessors', 'option.hpp: get, operator*, value, ...')], ['has_value', 'all accessors'])
p('C06', 'Engaged/empty behaves as a simple state machine under all histories',
  'Across any sequence of operations (construct, assign from value, option or none, emplace, try_emplace, reset, take, take_if, swap, filter, or_else, value_or and the operators), has_value and the contained value always equal those of a plain (flag, value) model. In particular try_emplace and |= never disturb a present value, reset, take and none-assignment always empty it, moving from an option leaves it engaged, and self-assignment changes nothing.',
  ['histories', 'inputs'], 'every sequence of two operations out of 31 (three in the thorough tier) from every start state, with all operands symbolic, for every supported type family',
  'Unit tests run single fixed sequences; the state space of operation sequences, operand states and per-type implementations is far larger.',
  [('state transitions', 'option.hpp: option_base::construct/reset/assign and class option')], ['has_value', 'get'])
p('C07', 'Every contained object is constructed and destroyed exactly once',
  'Over any history, an option constructs its contained object before use, never constructs over a live one, destroys it exactly once when it is emptied, overwritten or goes out of scope, never touches it after destruction, and never leaks it or the resources it owns. Assignment between two engaged options assigns rather than destroys, and moving constructs from an rvalue.',
  ['histories', 'inputs'], 'every sequence of operations and operand states up to the bound, for payloads that track construction, destruction, address and self-references, and for owning library types',
  'The tests count objects in a few fixed scenarios only.',
  [('lifetime management', 'option.hpp: option_destruct_base, option_copy_base.., construct_at, destroy_at')], ['construction/destruction counts', 'object identity', 'heap balance'])
p('C08', 'A throwing operation leaves the option in a consistent state',
  'If an element operation (constructor, copy, move, assignment, conversion, predicate or callback) throws during an option operation, the exception reaches the caller, nothing is leaked or destroyed twice, and every option involved is left consistent: it reports a value only if it really holds a live one. A failed emplace, construction or assignment into an empty option leaves it empty; a failed assignment or callback on an engaged option leaves it engaged.',
  ['fault_sequences', 'inputs', 'histories'], 'a throw at every tracked element operation of every option operation, in every operand state',
  'Tests contain almost no throwing payloads; the fault position multiplies every operation and type implementation.',
  [('construct/assign ordering', 'option.hpp: option_base::construct/assign, emplace, swap, map')], ['has_value', 'live object counts', 'exception'])
p('C09', 'Callbacks run exactly once on the contained value, or not at all',
  'map, and_then, or_else, map_or, map_or_else, filter, has_value_and, inspect, take_if and zip_with invoke the supplied callable exactly once with the contained value when their condition for calling it holds, and never otherwise; the result is exactly what the callable returned (wrapped as documented) or the documented fallback. This holds for every const and reference qualification, for member pointers and move-only callables, and the option itself is changed only by take_if (which empties it exactly when the predicate holds).',
  ['inputs', 'programs'], 'every option state and value, every callback outcome, all four value-category overloads, every payload type family',
  'Tests fix both the option and the callback for a few overloads.',
  [('monadic operations', 'option.hpp: namespace impl::option and the member overloads')], ['callback call count and arguments', 'result', 'source option afterwards'])
p('C10', 'Comparisons agree with the ordering "empty is less than any value"',
  'Comparing two options, an option with none, or an option with a plain value (on either side, and across different value types) gives exactly the result of comparing the contained values when both are present and otherwise of treating the empty option as less than every value and equal to another empty one. For totally ordered value types this makes the relations mutually consistent, symmetric and transitive, nested options included.',
  ['inputs'], 'all states and values of two or three operands, all six relations, mixed types, incomparable values (NaN)',
  'Tests check a small table of literals.',
  [('comparison operators', 'option.hpp: operator== .. operator>=')], ['result of each relation'])
p('C11', 'The operators | & ^ and |= select exactly the documented operand',
  'a|b is a if a has a value and otherwise b (for b an option or a plain value), a&b is b if a has a value and otherwise empty, a^b is the only engaged operand or empty, and a|=b assigns b only if a is empty and returns a. This holds for every combination of lvalue and rvalue operands; lvalue operands are never modified and rvalue operands are moved from, not copied.',
  ['inputs'], 'all states and values of both operands, all value-category overloads, every payload type family',
  'Tests use a few literals on selected overloads.',
  [('operators', 'option.hpp: operator|, operator|=, operator&, operator^')], ['result', 'both operands afterwards', 'copy/move counts'])
p('C12', 'Hashing is consistent with the contained value and with equality',
  'The hash of an engaged option equals the hash of its contained value (of the referenced address for reference options), all empty options of a type hash to one and the same value, and options that compare equal hash equal. The hash does not depend on how the option reached its state or on bytes that are not part of the value.',
  ['inputs', 'histories'], 'all values and all ways of reaching an empty or engaged state, for all hashable payload families',
  'Tests hash a few literals; stale bytes after a reset or niche levels can only be excluded over all values.',
  [('hash specializations', 'option.hpp: std::hash<opt::option<...>>')], ['std::hash result'])
p('C13', 'Options of references rebind and never write through the reference',
  'An option of an lvalue or rvalue reference refers to exactly the object it was last bound to; construction, assignment, emplace, swap, reset, take and conversion from other reference options change only what it is bound to and never read or modify the referred objects. Its accessors all yield that object itself, with constness of the option not affecting the referred object, and map, filter, value_or and the other operations act on it without copying it unless documented.',
  ['histories', 'inputs'], 'all bindings to several objects with symbolic contents, every operation sequence up to the bound, lvalue, const, rvalue, polymorphic-base and reference_wrapper sources',
  'Tests use one or two objects and fixed sequences.',
  [('reference storage', 'option.hpp: option_base for references (reference_option)'), ('reference branches', 'option.hpp: operator=, get, ref_to_ptr')], ['address of the referred object', 'contents of all candidate objects'])
p('C14', 'Element lookup returns exactly the element, or empty when absent',
  'at(container, i) refers to element i exactly when i is smaller than the size (for every index value, including the largest), at_front and at_back refer to the first and last element exactly when the container is not empty, and lookup refers to the mapped value or the key exactly when the key is present. The results refer to the elements in the container itself for lvalues, carry constness, take the value from containers that return proxies or prvalues, and the container is never modified.',
  ['inputs'], 'all indices (64 bit), container sizes 0 to 4, all element and key values, several container families',
  'Tests use small literal containers and in-range or slightly out-of-range indices.',
  [('at, at_front, at_back, lookup', 'option.hpp')], ['engaged/empty', 'address and value of the element', 'container contents'])
p('C15', 'Tuple, variant, zip, unzip and flatten helpers are exact',
  'zip and zip_with are engaged exactly when all their operands are, with the values in order; unzip splits an engaged option into engaged options of the same elements and an empty one into empty ones; get on an option of a tuple, pair or array refers to that element exactly when the option is engaged, and get on a variant refers to the alternative exactly when it is the active one. Each works for lvalue, const and rvalue arguments (rvalues are moved, lvalues are left unchanged), by index or by type.',
  ['inputs', 'programs'], 'all engagement patterns and values of up to four operands, all alternatives, all value categories, all index/type selections of the listed shapes',
  'Tests sample a few patterns; engagement patterns multiply with positions and value categories.',
  [('zip, zip_with, unzip, get, variant get', 'option.hpp')], ['engagement and values of the results', 'sources afterwards'])
p('C16', 'Empty options are never dereferenced silently',
  'value and value_or_throw on an empty option throw opt::bad_access in every build mode and qualification, and never throw on an engaged option. With debug checks enabled, unchecked access (get, *, ->), moving an iterator of an empty option away from its position or dereferencing it, and an assignment that would turn an engaged option into an empty one are reported through the verification hook and never continue with a bogus value; on valid uses the hook never fires.',
  ['inputs', 'configurations'], 'all states, values, qualifications and build modes for every payload type family',
  'Tests check two throwing calls; death tests for debug checks are few.',
  [('throw_bad_access, OPTION_VERIFY', 'option.hpp')], ['exception type', 'trap', 'normal results'])
p('C17', 'User-declared niches (traits, sentinel, member, enforce, PADDING) work',
  'With a user-declared set of sentinel values, a sentinel comparator/setter, a designated member, an enforced niche, the sentinel traits base, a PADDING member, a custom traits specialization or tuple-like type, an option of such a type stores and returns every non-sentinel value unchanged and reports it as present, with no size overhead. Storing a value equal to a sentinel reads as the corresponding empty level, and nesting is possible exactly as deep as sentinels are declared.',
  ['inputs', 'histories'], 'all underlying values, all levels, one to four sentinels, every listed wrapper',
  'Tests instantiate each wrapper once with one or two literal values.',
  [('sentinel, sentinel_f, member, enforce', 'option.hpp'), ('sentinel_option_traits, PADDING', 'option.hpp: internal_option_traits')], ['has_value', 'stored value', 'sizeof'])
p('C18', 'Options of enumerations keep every declared value',
  'For an enumeration whose emptiness is encoded in spare enumeration values (found automatically, by a SENTINEL, SENTINEL_START or SENTINEL_END enumerator, or by a flag), every declared enumerator (and for flag-like enumerations every combination of the declared bits) is stored and returned unchanged and reported as present, and all advertised empty levels are distinct from those values. This holds for every underlying type, signed or unsigned, including enumerators at the limits of the type.',
  ['inputs', 'configurations'], 'all enumerator values of a family of enumerations over 8 to 64-bit signed and unsigned underlying types, all levels',
  'Tests check has_value for a few enumerators of a few enumerations.',
  [('enum niches', 'option.hpp: internal_option_traits for enums')], ['has_value', 'value', 'get_level'])
p('C19', 'Conversions between option types and from values preserve state and value',
  'Constructing or assigning an option from an option of another type, option_cast, make_option, as_option, from_nullable and construction from in-place arguments or initializer lists yield an option that is engaged exactly when the source is (when the pointer is non-null, when the value is not a spare state), holding exactly the converted value; the target previous state never matters. Lvalue sources are left unchanged and rvalue sources are moved from.',
  ['inputs', 'histories'], 'all source and target states and values, all conversions between the listed types, both value categories',
  'Tests convert a few literals, mostly into fresh targets.',
  [('converting constructors and assignments', 'option.hpp: option(const option<U>&) ...'), ('helpers', 'option.hpp: option_cast, make_option, as_option, from_nullable')], ['has_value', 'value', 'source afterwards'])
p('C20', 'Swap exchanges states and values completely',
  'Swapping two options, by member, by the free function or by std::swap, of the same or of mutually convertible types, exchanges exactly their states and values in all four engagement combinations, and swapping twice or with itself restores the original. No object is leaked, duplicated or left behind, and reference options exchange what they refer to without touching the referred objects.',
  ['inputs', 'histories'], 'all four state combinations, all values, every payload type family, same-type and cross-type swaps',
  'Tests check few types and literals.',
  [('swap', 'option.hpp: option::swap, opt::swap')], ['both options afterwards', 'object counts'])
p('C21', 'Iteration visits exactly the contained value',
  'Iterating an option (range-for, begin/end, const or not, nested, or through the random-access operations) visits the contained object exactly once if there is one and nothing otherwise; all iterator arithmetic, indexing and comparisons agree with those of a range of length one or zero. Iterators refer to the object itself, so writes through them change the option value and nothing else.',
  ['inputs'], 'both states, all values, all pairs of positions, every iterator operation',
  'Tests use begin/end on a few literals.',
  [('option_iterator, begin, end', 'option.hpp')], ['visited objects', 'iterator relations'])
p('C22', 'Operations on lvalues never modify them; rvalues are moved, not copied',
  'Every non-mutating operation on an lvalue or const option leaves it bit-for-bit equal in state and value and never moves from the contained object. The same operation on an rvalue option moves the contained object exactly where it yields or forwards it and makes no copies, so it works with move-only types.',
  ['inputs', 'programs'], 'every operation in each value category, all states and values, copy/move counting payloads and move-only payloads',
  'Tests rarely count copies or look at the source afterwards.',
  [('forwarding', 'option.hpp: static_cast<option&&>(*this), get() &&')], ['copy/move counts', 'source afterwards'])
p('C23', 'Stream helpers write the value or the fallback, nothing else',
  'Streaming an option through the io helper outputs exactly the contained value when present and otherwise nothing (or exactly the supplied fallback), and reading through it reads exactly once into the contained value when present and otherwise into the fallback. The option state never changes and the stream itself is returned.',
  ['inputs'], 'both states, all values and fallbacks, const and non-const options, single and nested',
  'Tests compare a few strings.',
  [('io', 'option.hpp: impl::io_helper1/2')], ['calls made on the stream', 'option afterwards'])
p('C24', 'Fallback accessors return the value if present, else exactly the fallback',
  'value_or, value_or_construct (arguments, initializer list or aggregate), map_or and map_or_else return the contained (or mapped) value when present and otherwise exactly the fallback built from the given arguments; the fallback is not evaluated, moved from or constructed when a value is present. This holds in every value category and for move-only and aggregate types.',
  ['inputs'], 'both states, all values and fallbacks, all overloads, every payload type family',
  'Tests use a few literals per overload.',
  [('value_or, value_or_construct, map_or, map_or_else', 'option.hpp')], ['result', 'fallback afterwards', 'construction counts'])
p('C25', 'Composite types lend a member niche without disturbing other members',
  'When an option of a pair, tuple, array, complex number, aggregate or polymorphic class stores its emptiness inside one of the members, engaging, modifying through, and emptying the option never corrupts any member: after every operation each member of an engaged option has exactly the value last written to it, modifying one member in place never changes the option state or another member, and members that are themselves options keep their own state independent of the outer one.',
  ['inputs', 'histories'], 'all member values, in-place modification of any member, for pairs, tuples, arrays, nested aggregates up to 16 members and polymorphic classes',
  'Tests build one value of a few composite types.',
  [('member niches', 'option.hpp: internal_option_traits for pair, tuple, array, complex, reflectable and polymorphic types')], ['has_value', 'every member'])
p('C26', 'The compile-time interface contract (noexcept, explicit, SFINAE, triviality)',
  'Overload participation, explicitness, noexcept and triviality of the special members follow the documented conditions on the value type for every instantiation.',
  ['programs', 'configurations'], 'every instantiation of the templates', 'Tests check a list of instantiations with static_assert; the claim quantifies over all types.',
  [('enable_if conditions', 'option.hpp: check_*')], ['type traits'],
  na='The property is about which programs the C++ type checker accepts and what its type traits evaluate to; it leaves no trace in executable IR, so there is nothing to execute symbolically or hand to a solver (only enumeration of instantiations is possible).')
p('C27', 'Every documented operation is usable in constant expressions',
  'Every operation documented as constexpr can be evaluated at compile time with the same result as at run time for types without a bit-level niche.',
  ['programs'], 'every constant expression over the interface', 'Tests evaluate a list of constant expressions.',
  [('constexpr functions', 'option.hpp')], ['constant evaluation'],
  na='Constant evaluation is performed by the compiler front end, not by the generated code; the run-time half of the statement is covered by the other properties, the compile-time half cannot be encoded for a solver from IR.')

def claimed(id): return bool(glob.glob(os.path.join(ROOT, 'harness', id + '_*.cpp')))
def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for x in P:
            if len(x['title']) > 80: raise SystemExit(x['title'])
            f.write(json.dumps(dict(id=x['id'], title=x['title'], statement=x['statement'], quantifier=dict(over=x['over'], text=x['quant']),
                why_tests_cant=x['why'], anchors=dict(files=x['files'], mechanism=[dict(name=n, where=w) for n, w in x['mech']], observe_at=x['observe'], hook_needed=None))) + '\n')
    checks = [dict(property=x['id'], quick_cmd='python3-vt check.py ' + x['id'], thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + x['id'],
        technique='symbolic execution of the LLVM IR compiled from /repo/include, assertions decided by z3 (bounded, exhaustive over paths and inputs), counterexamples replayed natively',
        level='model_checking',
        level_note='Holds for every symbolic input, operand state and operation choice within the bounds printed in the evidence file, for the listed instantiations and build configurations on x86-64 with clang 18 / libstdc++ 13. Trusts clang, the IR executor (cross-checked: every explored path model is replayed on a native build and compared) and z3. ' + x['note'])
        for x in P if claimed(x['id'])]
    na = [dict(property=x['id'], reason=x['na'] or 'check under construction') for x in P if not claimed(x['id'])]
    m = dict(version=1, setup_cmd='python3-vt check.py --selftest', checks=checks, not_applicable=na,
        notes='No hooks are needed in /repo: harnesses instantiate the public header directly. quick = every-change check, thorough = deeper bounds and more build configurations.')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
main()
