"""which contracts decide which property, and how a failed obligation is replayed on the real code"""
ALGW = (8, 16, 32, 64)

COMMON = [
    'clang 18 -O1 -disable-llvm-passes translates the C++17 source to LLVM IR faithfully; LLVM inlining, SROA, early-cse and instsimplify preserve meaning',
    'engine/*.py: symbolic execution of the IR, verification-condition generation, loop-contract inference (its output is checked, not trusted), bit-level projection and linear-arithmetic translation',
    'z3, cvc5 (unsat answers)',
    'libstdc++ algorithms and iterators are not trusted: they are inlined and verified as part of the function',
]
ASSUME = [
    'word arrays have at most 2^56 words; bit positions, distances and offsets are therefore below 2^62 and 64-bit index arithmetic does not wrap (checked where the code computes, assumed for the inputs)',
    'storage: distinct arrays do not overlap and contain no aliases other than the ones the task states (same-storage variants are separate tasks)',
    'extraction drops: debug info, noexcept/exception tables of calls that cannot throw, constexpr on functions returning std::string (overlay, text only), alignment of word accesses',
    'iterator type: bit_iterator over std::vector<W>::iterator, W in uint8_t, uint16_t, uint32_t, uint64_t',
]

FUNC_KINDS = ('post', 'pre', 'exception', 'loop')
SAFE_KINDS = ('memory', 'pre', 'shift', 'variant', 'assert', 'arith', 'exception', 'loop')

# property -> (title words, tasks, native searches [(program, op)])
PROPS = {
    'C01': dict(tasks=['copy', 'copy_overlap', 'move', 'move_overlap'], native=[('alg', 'copy'), ('alg', 'move')]),
    'C02': dict(tasks=['copy_backward', 'copy_backward_overlap'], native=[('alg', 'copy_backward')]),
    'C03': dict(tasks=['fill'], native=[('alg', 'fill')]),
    'C04': dict(tasks=['find'], native=[('alg', 'find')]),
    'C05': dict(tasks=['count'], native=[('alg', 'count')]),
    'C06': dict(tasks=['equal'], native=[('alg', 'equal')]),
    'C08': dict(tasks=['shift_left', 'shift_left_nonpositive'], native=[('alg', 'shift_left')]),
    'C09': dict(tasks=['shift_right', 'shift_right_nonpositive'], native=[('alg', 'shift_right')]),
    'C07': dict(tasks=['reverse', 'bitswap', 'shift_left', 'shift_left_nonpositive', 'shift_right', 'shift_right_nonpositive'], native=[('alg', 'reverse')]),
    'C10': dict(tasks=['rotate', 'rotate_via_raw', 'rotate_inverse', 'shift_left', 'shift_left_nonpositive', 'shift_right', 'shift_right_nonpositive',
                       'swap_ranges', 'swap_ranges_same_after', 'swap_ranges_same_before', 'get_word', 'write_word'],
                native=[('alg', 'rotate')]),
    'C11': dict(tasks=['swap_ranges', 'swap_ranges_same_after', 'swap_ranges_same_before'], native=[('alg', 'swap_ranges')]),
    'C15': dict(tasks=['popcnt', 'popcnt_generic', 'lzcnt', 'lzcnt_generic', 'tzcnt', 'tzcnt_generic', 'bextr', 'bextr_generic', 'pdep', 'pdep_generic',
                       'pext', 'pext_generic', 'byteswap', 'byteswap_generic', 'bitswap', 'bitblend_mask', 'bitblend', 'bitexch_mask', 'bitexch',
                       'bitexch_offset', 'shld', 'shrd', 'addcarry', 'addcarry_generic', 'subborrow', 'subborrow_generic', 'mulx', 'mulx_generic'],
                kinds=FUNC_KINDS + ('shift', 'memory', 'variant'), native=[('prim+san', 'all')],
                trusted=['meaning of the clang builtins (clz, ctz, popcount, bswap, addcarryx, subborrow) as LLVM documents them']),
    'C16': dict(tasks=['get_word', 'write_word'], native=[('alg', 'copy'), ('alg', 'rotate')]),
    'C12': dict(tasks=['transform_unary', 'transform_unary_inplace', 'transform_not', 'transform_binary', 'transform_binary_inplace'],
                native=[('alg', 'transform1'), ('alg', 'transform2')]),
}
IT = [t + '_' + k for t in ('iter_steps', 'iter_relations') for k in ('vi', 'ci', 'wp')]
PROPS['C13'] = dict(tasks=IT + ['pointer_steps', 'pointer_relations', 'iter_mixed', 'iter_convert', 'iter_mask'], kinds=FUNC_KINDS + ('memory', 'shift', 'assert'),
                    native=[('iter', 'arith')])
PROPS['C14'] = dict(tasks=['ref_ops', 'ref_pairs', 'ref_swaps', 'value_ops'], kinds=FUNC_KINDS + ('memory', 'shift', 'assert'), native=[('iter', 'refs')])
VECTOR = ['std::vector<W> members (constructors, destructor, assignment, push_back, pop_back, clear, resize, assign, reserve, shrink_to_fit, swap) by contract: '
          'documented effect on size and content, storage moved exactly when the capacity is exceeded, a request of 2^60 bits or more throws']
BITALG = ['bit::shift_left, shift_right, fill, copy by the contracts that C08, C09, C03, C01 prove (their preconditions are obligations here)']
VK = FUNC_KINDS + ('memory', 'shift', 'assert', 'variant')
VASSUME = ['a bit_vector object is an arbitrary word vector with at least as many bits as length_ says (the class invariant, an obligation after every member)',
           'the constructors that take a bit range, a range of bools or a string ask std::vector for one word per bit; they are only required to succeed when that many words are available']
PROPS['C18'] = dict(tasks=['vec_construct', 'vec_construct_list', 'vec_construct_bools', 'vec_construct_string'], kinds=VK, native=[('vec', 'construct'), ('vec', 'huge')],
                    trusted=VECTOR + BITALG, assume=VASSUME)
PROPS['C19'] = dict(tasks=['vec_push_pop', 'vec_insert', 'vec_erase', 'vec_resize', 'vec_assign', 'shift_left', 'shift_left_nonpositive', 'shift_right', 'shift_right_nonpositive', 'fill', 'copy'],
                    kinds=VK, native=[('vec', 'modify'), ('vec', 'huge')], trusted=VECTOR, assume=VASSUME)
PROPS['C20'] = dict(tasks=['vec_observe', 'vec_capacity'], kinds=VK, native=[('vec', 'observe'), ('vec', 'huge')], trusted=VECTOR, assume=VASSUME)
PROPS['C21'] = dict(tasks=['text_debug_string', 'text_round_trip', 'vec_construct_string', 'text_put', 'text_get'], kinds=VK, native=[('vec', 'text')],
                    trusted=VECTOR + ['std::string (construction from a literal, += of a character or literal, move, destruction) by contract: length and characters',
                                      'stream calls by contract: sentry, widen (identity), rdbuf, sbumpc, sputbackc, setstate (without stream exceptions), operator<<(ostream, char)'],
                    assume=VASSUME[:1] + ['character type char, classic widen; exceptions() of the stream is not enabled', 'the compiler proof covers debug_string without constexpr (clang rejects constexpr std::string in C++17)'])
PROPS['C17'] = dict(tasks=sorted({t for p in PROPS.values() for t in p['tasks']}), kinds=SAFE_KINDS,
                    native=[('alg+san', 'all'), ('prim+san', 'all'), ('iter+san', 'all'), ('vec+san', 'all'), ('vec+san', 'text')])
NOT_APPLICABLE = {}

import prim
import iter
import rotraw
import vec
import text
