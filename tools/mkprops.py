#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that ids, titles and statements stay in one place)."""
import json, os
A = 'include/bitlib/bit-algorithms/'
I = 'include/bitlib/bit-iterator/'
V = 'include/bitlib/bit-containers/bit_vector.hpp'
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe or [], 'hook_needed': None}})


RNG = ('every word type (8, 16, 32 and 64 bit), every content of the words, every start position, length and alignment of the '
       'ranges, with no bound on the length')
RT = ('The tests draw a handful of random container sizes and a few fixed alignments per word type; the algorithms branch on the '
      'alignment of every end point, on whether the range lies in one word, and on the length modulo the word size, and the '
      'combination space (alignment x alignment x length x contents) is unbounded.')

p('C01', 'copy and move transfer exactly the source bits and touch nothing else',
  'After copying (or moving) a bit range to a destination, bit i of the destination range equals the original bit i of the source '
  'range for every i, including when both ranges lie in the same storage and the destination starts before the source or at it. Every bit outside '
  'the destination range keeps its value, and the returned iterator is the destination start advanced by the length of the range.',
  ['inputs'], RNG, RT, [A + 'copy.hpp', A + 'move.hpp', A + 'bit_algorithm_details.hpp'],
  [('align destination, whole-word loop, trailing blend', A + 'copy.hpp'), ('partial word read', A + 'bit_algorithm_details.hpp')])
p('C02', 'copy_backward transfers exactly the source bits and touches nothing else',
  'After a backward copy of a bit range to the range ending at the given destination end, bit i of the destination range equals the '
  'original bit i of the source for every i, including when both lie in the same storage and the destination ends after the source. '
  'Every bit outside the destination range keeps its value and the returned iterator is the beginning of the destination range.',
  ['inputs'], RNG, RT, [A + 'copy_backward.hpp', A + 'bit_algorithm_details.hpp'],
  [('align destination end, whole-word loop, leading blend', A + 'copy_backward.hpp')])
p('C03', 'fill sets exactly the bits of the range',
  'After filling a bit range with a value every bit in the range has this value, and every bit of the underlying words that is not '
  'in the range is unchanged.',
  ['inputs'], RNG, RT, [A + 'fill.hpp'], [('leading blend, word fill, trailing blend', A + 'fill.hpp')])
p('C04', 'find returns the first matching bit or the end',
  'Searching a bit range for a value returns an iterator to the lowest position in the range whose bit has this value, or the end of the range '
  'if there is none, and changes nothing; bits outside the range never influence the result.',
  ['inputs'], RNG, RT, [A + 'find.hpp'], [('partial first word, whole-word scan, partial last word with trailing zero count', A + 'find.hpp')])
p('C05', 'count returns the number of matching bits of the range',
  'Counting a value in a bit range returns exactly the number of positions in the range holding that value, for both values and any '
  'range, and changes nothing; the two counts add up to the length of the range.',
  ['inputs'], RNG, RT, [A + 'count.hpp', A + 'libpopcnt.h', I + 'bit_details.hpp'],
  [('partial words masked, whole words summed', A + 'count.hpp'), ('population count kernel', A + 'libpopcnt.h')])
p('C06', 'equal is true exactly when all corresponding bits agree',
  'Comparing two bit ranges of the same length, at any pair of alignments, returns true if and only if bit i of the first equals bit '
  'i of the second for every i; bits outside the ranges never influence the result and nothing is changed.',
  ['inputs'], RNG, RT, [A + 'equal.hpp', A + 'bit_algorithm_details.hpp'], [('align, word compare, trailing compare', A + 'equal.hpp')])
p('C07', 'reverse mirrors the range in place',
  'After reversing a bit range of length n, bit i of the range equals the original bit n-1-i for every i, and every bit outside the '
  'range is unchanged; reversing twice restores the original content.',
  ['inputs'], RNG, RT, [A + 'reverse.hpp', A + 'shift.hpp', I + 'bit_details.hpp'],
  [('word reversal with bit swap, then shift into place', A + 'reverse.hpp')])
p('C08', 'shift_left moves the surviving bits down and stays inside the range',
  'After shifting a bit range of length d left by n (0 < n < d), bit i equals the original bit i+n for every i < d-n and the returned '
  'iterator is the start advanced by d-n; for n <= 0 nothing changes and the end is returned, for n >= d the start is returned. '
  'No bit outside the range changes and the vacated bits are unspecified.',
  ['inputs'], RNG + ', every shift amount', RT, [A + 'shift.hpp', A + 'bit_algorithm_details.hpp'],
  [('single word, small, word-aligned and funnel-shift cases', A + 'shift.hpp')])
p('C09', 'shift_right moves the surviving bits up and stays inside the range',
  'After shifting a bit range of length d right by n (0 < n < d), bit i+n equals the original bit i for every i < d-n and the '
  'returned iterator is the start advanced by n; for n <= 0 nothing changes and the start is returned, for n >= d the end is returned. '
  'No bit outside the range changes and the vacated bits are unspecified.',
  ['inputs'], RNG + ', every shift amount', RT, [A + 'shift.hpp', A + 'bit_algorithm_details.hpp'],
  [('single word, align last, word-aligned and funnel-shift cases', A + 'shift.hpp')])
p('C10', 'rotate brings the middle bit to the front cyclically',
  'After rotating a bit range [first,last) about n_first, bit i equals the original bit (i + (n_first-first)) modulo the length, for every '
  'n_first in [first,last], and no bit outside the range changes; the returned iterator is first advanced by the distance from n_first to last.',
  ['inputs'], RNG + ', every rotation point', RT, [A + 'rotate.hpp', A + 'copy.hpp', A + 'shift.hpp', A + 'swap_ranges.hpp'],
  [('within one word, through a temporary word, and by repeated swaps', A + 'rotate.hpp')])
p('C11', 'swap_ranges exchanges the two ranges bit by bit',
  'After swapping two non-overlapping bit ranges of the same length, each holds the original bits of the other in order, also when they '
  'share a word, no bit outside the two ranges changes, and the returned iterator is the start of the second range advanced by the length.',
  ['inputs'], RNG, RT, [A + 'swap_ranges.hpp', I + 'bit_details.hpp'], [('aligned and unaligned word exchange', A + 'swap_ranges.hpp')])
p('C12', 'transform writes the operator applied to the corresponding source bits',
  'After a unary or binary bitwise transform of one or two source ranges into a destination range, destination bit i equals the operator '
  'applied to the source bits i, for every operator that acts bit by bit on words. No bit outside the destination changes and the returned '
  'iterator is the destination start advanced by the length.',
  ['inputs', 'programs'], RNG + ', every bitwise operator of one or two arguments', RT,
  [A + 'transform.hpp', A + 'bit_algorithm_details.hpp'], [('align destination, whole-word loop, trailing blend', A + 'transform.hpp')])
p('C13', 'bit iterator and bit pointer arithmetic behaves like integers',
  'Bit iterators and bit pointers over a word array form a linear sequence: adding or subtracting any signed offset, incrementing, '
  'decrementing and indexing reach exactly the bit that many places away, differences and bit::distance give the exact signed number of bits '
  'between two positions, and all comparisons agree with the sign of that difference.',
  ['inputs'], 'every word type, every position, every signed offset that stays inside the address space',
  'Tests step through a few hundred positions; the wrap between words, negative offsets and offsets near multiples of the word size '
  'over the whole signed range are sampled at best.',
  [I + 'bit_iterator.hpp', I + 'bit_pointer.hpp', I + 'bit_reference.hpp', A + 'bit_algorithm_details.hpp'],
  [('normalised word/position arithmetic', I + 'bit_iterator.hpp'), ('normalised word/position arithmetic', I + 'bit_pointer.hpp')])
p('C14', 'a bit reference reads and writes only its own bit',
  'Reading through a bit reference gives the addressed bit; every mutating operation on it (assignment, set, reset, flip, compound logic, swap and exchange) leaves '
  'that bit with the documented value and leaves every other bit of memory unchanged; bit values follow the same one-bit logic.',
  ['inputs'], 'every word type, word content, position and operand value',
  'Tests exercise a few positions and words; the operations compute masks and blends from the position and need all positions x all contents.',
  [I + 'bit_reference.hpp', I + 'bit_value.hpp'], [('mask based read-modify-write', I + 'bit_reference.hpp')])
p('C15', 'word-level bit primitives match their mathematical definition',
  'Population count, leading and trailing zero count, byte swap, bit reversal, field extract, deposit and extract under mask, blend, '
  'field exchange, double-word shift, add with carry, subtract with borrow and widening multiply return exactly the mathematically defined '
  'result for every operand in their documented domain and every word width.',
  ['inputs'], 'every operand value in the domain of each primitive, for 8, 16, 32 and 64 bit words, in every compiled variant (builtin and generic)',
  'The primitives are only used indirectly by the tests on a few operands; the domain is 2^128 pairs and includes edge amounts (0, word size).',
  [I + 'bit_details.hpp'], [('builtin wrappers and generic bit-twiddling versions', I + 'bit_details.hpp')])
p('C16', 'partial-word reads and writes at any bit offset are exact',
  'Reading up to a word of bits at an arbitrary bit position yields exactly those bits in order, and writing up to a word of bits at an '
  'arbitrary position stores exactly those bits and leaves all neighbouring bits unchanged, also when the field straddles two words; '
  'the second word is accessed only when the field reaches into it.',
  ['inputs'], 'every word type, word content, position and field length from 1 to the word size',
  'Tests reach the straddling and non-straddling cases on a few values only; out-of-range neighbour access and wrong masks need specific position/length pairs.',
  [A + 'bit_algorithm_details.hpp'], [('offset split across two words', A + 'bit_algorithm_details.hpp')])
p('C17', 'algorithms access only the words of their ranges and have no undefined behaviour',
  'When given valid ranges, no bit algorithm, bit iterator or bit vector operation reads or writes a word that holds no bit of one of its ranges, shifts by the operand '
  'width or more, divides by zero, violates an internal assertion, reads uninitialised storage or fails to terminate.',
  ['inputs'], RNG + '; every combination for which the call is valid',
  'The sanitizer build observes only executed inputs: an access one word past the end happens for particular alignments and lengths only.',
  [A, I], [('alignment case splits that guard every access to the last word', A)])
p('C18', 'every bit_vector constructor yields exactly the requested bit sequence',
  'Constructing a bit vector from a count, a count and value, a bit range, a range or list of bools or words, a string of 0 and 1 characters '
  '(others ignored), or another bit vector yields a vector whose size and bits are exactly the requested sequence, independent of the source afterwards.',
  ['inputs'], 'every count, content, alignment and word type, with no bound on the length',
  'Tests construct a few sizes; sizes around word multiples, source alignments and very large counts are not covered.',
  [V], [('word count rounding and element initialisation', V)])
p('C19', 'bit_vector modifiers act as on an abstract bit sequence',
  'From any reachable state, push_back, pop_back, insert (one bit, repeated bit, range), erase (one, range), resize (with and without value), clear, '
  'element writes and assignments change the abstract bit sequence exactly as the same operation on a sequence container would, with newly created bits equal to the '
  'given value or zero, returned iterators designating the documented element, and storage always large enough for the size.',
  ['inputs', 'histories'], 'every reachable state (hence every history), argument and word type, with no bound on the length',
  'Tests run short fixed histories on small vectors; leftover bits in partially used words depend on the history, and storage growth rounding on the size.',
  [V, A + 'shift.hpp', A + 'fill.hpp', A + 'copy.hpp'], [('words_for(size) storage invariant and shift based insert/erase', V)])
p('C20', 'bit_vector observers agree with the sequence; checked access and capacity',
  'size, empty, element access, front, back, data and iterators describe the same sequence; at() throws out_of_range exactly for positions not below the size; '
  'reserve and shrink_to_fit never change the sequence and after reserve(n) the capacity is at least n bits.',
  ['inputs', 'histories'], 'every reachable state, position, capacity request and word type',
  'Tests check a few positions in small vectors; capacity rounding and the boundary position depend on the size modulo the word width and on huge sizes.',
  [V], [('bounds check, word count rounding', V)])
p('C21', 'text rendering and parsing of bits is faithful',
  'Rendering a bit vector as text yields its bits in order as 0 and 1 characters with only separators between them, so parsing the '
  'text back gives the same sequence; rendering a single bit value or reference yields exactly one character and parsing accepts exactly 0 and 1.',
  ['inputs'], 'every bit sequence of every length and word type',
  'Tests compare a few short strings.',
  [V, I + 'bit_value.hpp', I + 'bit_reference.hpp'], [('character loop with group separators', V)])
p('C22', 'the SIMD build computes the same results as the scalar build',
  'With SIMD support compiled in (BITLIB_HWY), shift_left, shift_right, fill, find and transform (and everything built on them) produce bit for bit '
  'the results required of the scalar build, and access no memory outside the words of their ranges, for any storage alignment.',
  ['inputs', 'configurations'], 'every range, shift amount, word type and address alignment of the storage',
  'The vector loops run only for ranges longer than a dozen vectors at particular alignments; tests sample few of these.',
  [A + 'shift.hpp', A + 'fill.hpp', A + 'find.hpp', A + 'transform.hpp'], [('vector main loops with scalar prologue and epilogue', A + 'shift.hpp')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
