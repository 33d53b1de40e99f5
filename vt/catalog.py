#!/usr/bin/env python3
"""Source of /verif/properties.jsonl and /verif/MANIFEST.json (run this file to rewrite both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CATALOG = []


def P(id, title, statement, over, qtext, why, files, mech, note, state=(), observe=()):
    CATALOG.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note,
                        state=state, observe=observe))


I = 'code/include/swoc/'
S = 'code/src/'

P('C01', 'Memory handed out by a MemArena is safe to use for its whole lifetime',
  'Every span or object obtained from a memory arena has exactly the requested size and alignment, lies inside memory the arena owns, and overlaps no other '
  'allocation of the same arena (nor the unallocated remnant) until the arena is cleared, discarded, or a freeze is released. The content of an allocation, including '
  'localized strings and objects constructed in the arena, never changes except by its owner. Freezing keeps every earlier allocation intact until the thaw.',
  ['histories', 'inputs'], 'all sequences of alloc / alloc aligned / make / localize / require / reserve / freeze / thaw / discard / move, of all sizes and alignments',
  'Unit tests allocate a handful of fixed sizes; overlap needs particular sizes relative to the remaining block, alignment padding, a freeze at a particular point, or a static first block.',
  [I + 'MemArena.h', S + 'MemArena.cc'],
  [('bump allocation in the active block list', S + 'MemArena.cc MemArena::require / make_block'), ('alignment padding', I + 'MemArena.h MemArena::alloc(n, align)'),
   ('generations', S + 'MemArena.cc MemArena::freeze / thaw')],
  'TLC explores the arena specification exhaustively for small blocks; conformance is per executed trace (seeded random histories), under AddressSanitizer. Trusts the harness projection of addresses.',
  state=[('blocks', 'active and frozen block lists with the allocated prefix', I + 'MemArena.h')], observe=['span address, size, content after every call', 'contains()', 'remnant()'])
P('C02', 'MemArena lifecycle and accounting are exact',
  'An arena reports as its size, allocated size, remaining space and reserved bytes exactly what follows from the calls made. Frozen generations stay readable and are released exactly once by thaw, '
  'every block is released exactly once over the arena life (never the static block), moves transfer everything and leave the source empty and usable, and destructors of objects made through the arena\'s unique pointers run exactly once.',
  ['histories'], 'all sequences of alloc, freeze, thaw, clear, discard, require, move construction / assignment and destruction, with and without a static block',
  'Leaks, double release and wrong accounting show only after multi-step histories (freeze, allocate, move, thaw) that the tests do not sample; no test counts releases.',
  [I + 'MemArena.h', S + 'MemArena.cc'],
  [('freeze / thaw / clear / discard', S + 'MemArena.cc'), ('move operations', S + 'MemArena.cc MemArena(MemArena&&), operator=')],
  'As C01, plus interposed block release: blocks are counted at allocation and release in the harness process.',
  state=[('generations', 'active and frozen sizes', I + 'MemArena.h')])
P('C03', 'FixedArena recycles objects without ever sharing one',
  'An object made by a fixed arena is constructed from its arguments, is distinct from every other live object of the arena, and stays unchanged until destroyed. '
  'Destroying runs the destructor exactly once and makes that memory available for a later make. Clearing the arena forgets the free list together with the memory.',
  ['histories'], 'all interleavings of make, destroy and clear',
  'Tests make a few objects and destroy them in one order; an object handed out twice needs destroy / clear / make orders not sampled.',
  [I + 'MemArena.h'], [('intrusive free list', I + 'MemArena.h FixedArena::make / destroy / clear')],
  'Exhaustive small model in TLC; traces of seeded histories validated event by event under AddressSanitizer.')
P('C04', 'DiscreteRange is exact interval algebra over its metric',
  'Membership, emptiness, comparison, subset, intersection, hull, adjacency, edge relationships and the relationship of two ranges are those of the sets of values the ranges denote. '
  'This holds for every pair of ranges, including empty, singleton, maximal, and ones that touch the minimum or maximum of the metric.',
  ['inputs'], 'all pairs of ranges over any discrete metric (integers and addresses), including both ends of the metric',
  'Tests use a few hand picked pairs; the errors sit at the metric limits and between adjacent, nested and empty cases.',
  [I + 'DiscreteRange.h'], [('comparison operators and relationship()', I + 'DiscreteRange.h class DiscreteRange')],
  'The specification enumerates a finite metric completely, and the code is run on all pairs over a small metric with both limits plus random pairs over wide metrics.')
P('C05', 'DiscreteSpace behaves as a map from values to colors',
  'After any history of mark, fill, erase, blend and clear, looking up a value gives exactly the color of the last operations that affect it, and nothing for values not covered. '
  'Stored ranges are disjoint, ordered, never empty, cover exactly the colored values, and count / iteration / bounds lookups agree with that. Ranges that touch the ends of the metric are no exception.',
  ['histories', 'inputs'], 'all sequences of mark / fill / erase / blend over all ranges and colors, and all lookups after each',
  'Tests sample a few sequences; correctness depends on how a new range overlaps the left and right neighbors, their colors and the coalescing already done.',
  [I + 'DiscreteRange.h'], [('mark / fill / erase / blend', I + 'DiscreteRange.h class DiscreteSpace'), ('tree and list of nodes', S + 'RBTree.cc')],
  'TLC proves map semantics of the stored range representation for a small metric exhaustively; every event of recorded histories is validated, with complete lookup tables after each.',
  state=[('map', 'value -> color', I + 'DiscreteRange.h')])
P('C06', 'IPSpace maps every address to its last assigned payload',
  'An IP space maps each IPv4 and IPv6 address to the payload given by the sequence of mark, fill, erase and blend calls; the two families never affect each other. '
  'Iteration (forward, backward, per family), counts, find and range intersection all show the same map in order, IPv4 before IPv6.',
  ['histories', 'inputs'], 'all sequences of operations over all IPv4 and IPv6 ranges, including ranges ending at the first or last address',
  'Tests load fixed lists; errors need particular overlap sequences, 64 bit word boundaries in IPv6 ranges, or mixed family iteration.',
  [I + 'IPRange.h', I + 'DiscreteRange.h'], [('paired sub spaces', I + 'IPRange.h class IPSpace'), ('mixed iterators', I + 'IPRange.h IPSpace::const_iterator')],
  'Two composed instances of the DiscreteSpace specification; traces over windows of addresses at the family limits and word boundaries.')
P('C07', 'networks() partitions a range into the fewest networks',
  'Iterating the networks of an address range yields disjoint networks in ascending order whose union is exactly the range, each one as wide as possible, so that their number is minimal. '
  'Empty ranges yield none, and the sequence is the same for every way of iterating and for the typed, generic and view forms of the range.',
  ['inputs'], 'all IPv4 and IPv6 ranges, including those at the first and last address',
  'The tests walk a handful of ranges; there are 2^64 IPv4 and 2^256 IPv6 ranges and errors appear at particular bit patterns and the top of the address space.',
  [I + 'IPRange.h', S + 'swoc_ip.cc'], [('widening / narrowing mask search', S + 'swoc_ip.cc IP4Range::NetSource, IP6Range::NetSource')],
  'The cover definition is shown minimal by exhaustive search for all ranges of a small width (TLC); each recorded sequence is compared with it.')
P('C08', 'IPRangeSet contains exactly the addresses marked',
  'A range set contains an address if and only if some marked range contains it since the last clear, for both families. '
  'Its count and iteration give the minimal ordered list of disjoint, non adjacent ranges.',
  ['histories', 'inputs'], 'all sequences of mark / fill / clear and all queries',
  'Tests mark a few ranges; coalescing and family separation depend on the history.',
  [I + 'IPRange.h'], [('set over IPSpace', I + 'IPRange.h class IPRangeSet')],
  'As C06 with a single color.')
P('C09', 'Address text: exactly the valid texts parse, and printing is canonical',
  'Loading text as an IPv4, IPv6 or generic address succeeds exactly for valid texts and yields the address denoted; on failure the result is the documented cleared or invalid value. '
  'Printing gives the canonical form (RFC 5952 compression for IPv6), which parses back to the same address; the fill, hex, case and family format options give their documented text. No input reads outside the text.',
  ['inputs'], 'all texts, and all addresses with every format option',
  'Tests hold a fixed list of texts; parsers fail on unlisted malformed or boundary texts and printers on particular zero runs.',
  [S + 'swoc_ip.cc', S + 'bw_ip_format.cc', I + 'bwf_ip.h'], [('parsers', S + 'swoc_ip.cc IP4Addr::load, IP6Addr::load, IPAddr::load'), ('formatters', S + 'bw_ip_format.cc')],
  'A TLA+ grammar is the oracle; TLC shows parse(print(a)) = a over a structured address set; random and mutated texts from exact size heap blocks are validated. Octal / hex IPv4 octets follow the parser documentation; a few unspecified forms are left free.')
P('C10', 'Addresses are ordered fixed width numbers',
  'Addresses of one family compare, increment, decrement, shift, mask and combine as unsigned 32 or 128 bit numbers, and all families are totally ordered as invalid, IPv4, IPv6. '
  'Conversion to and from socket addresses, network order, bytes and the other address types loses nothing. Classification (loopback, multicast, link local, private, any) is that of the assigned blocks for every class that offers it.',
  ['inputs'], 'all addresses, pairs of addresses, mask widths and shift counts',
  'Tests check a few values; word and quad boundaries, cross family order and the various conversion paths are not covered.',
  [I + 'IPAddr.h', I + 'swoc_ip_util.h', S + 'swoc_ip.cc', I + 'IPEndpoint.h'], [('comparison and arithmetic', I + 'IPAddr.h'), ('masks', S + 'swoc_ip.cc IPMask'), ('classification', I + 'swoc_ip_util.h')],
  'Limb arithmetic is proven against integers for a small width by TLC; recorded operations on boundary biased addresses are compared with it.')
P('C11', 'Ranges and networks: text, membership and masks are exact',
  'Text of the forms address, address-address and address/width loads as exactly the addresses it denotes, other text fails and leaves an invalid range or network. '
  'A range contains an address only of its own family between its bounds, a network is its masked address through the last address under the mask, and full and compact printing denote the same range again.',
  ['inputs'], 'all texts, all ranges with all addresses, all addresses with all masks',
  'Tests use a short list of ranges; family mix ups, over wide masks and stale content after failure escaped them.',
  [I + 'IPRange.h', S + 'swoc_ip.cc', S + 'bw_ip_format.cc'], [('range and network loading', S + 'swoc_ip.cc'), ('membership', I + 'IPRange.h')],
  'As C09 with the range and network grammar.')
P('C12', 'Services and socket endpoints hold exactly the address and port given',
  'After any sequence of assignments, parses, conversions and invalidations a service or endpoint has exactly the last address and port assigned, in every accessor and byte order, and its size and family match. '
  'Parsing accepts exactly address, address:port and bracketed forms with port 0 to 65535, and a failed parse never leaves a mix of old and new content. Services are ordered by address, then port.',
  ['histories', 'inputs'], 'all sequences of assignments and parses over all addresses, ports and texts',
  'Tests assign once and look; stale ports, stale families and byte order errors need sequences and asymmetric ports.',
  [I + 'IPSrv.h', I + 'IPEndpoint.h', S + 'swoc_ip.cc'], [('assignments', I + 'IPSrv.h'), ('parsing', S + 'swoc_ip.cc IPEndpoint::tokenize, IPSrv::load')],
  'Stateful trace specification; every accessor is compared after every step.')

try:
    from catalog2 import more
    more(P, I, S)
except ImportError:
    pass


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for c in CATALOG:
            anchors = dict(files=c['files'], mechanism=[dict(name=a, where=b) for a, b in c['mech']])
            if c['state']:
                anchors['state'] = [dict(name=a, meaning=b, where=w) for a, b, w in c['state']]
            if c['observe']:
                anchors['observe_at'] = list(c['observe'])
            anchors['hook_needed'] = None
            assert len(c['title']) <= 80, c['title']
            f.write(json.dumps(dict(id=c['id'], title=c['title'], statement=c['statement'], quantifier=dict(over=c['over'], text=c['qtext']),
                                    why_tests_cant=c['why'], anchors=anchors)) + '\n')
    checks = []
    for c in CATALOG:
        checks.append(dict(property=c['id'], quick_cmd=f"python3 vt/run.py {c['id']} --tier quick", thorough_cmd=f"python3 vt/run.py {c['id']} --tier thorough",
                           evidence_file=f"evidence/{c['id']}.json", technique='TLA+ specification checked with TLC; traces recorded from the real code validated against it by TLC',
                           level='model_checking', level_note=c['note']))
    m = dict(version=1, setup_cmd='python3 vt/setup.py', checks=checks, not_applicable=[],
             notes='No hooks are needed in /repo: everything is observed through the public interface. TLA+ with TLC; see DESIGN.md.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
