"""Catalog entries C13 and up."""


def more(P, I, S):
    P('C13', 'Text view extraction never loses, invents or reaches past characters',
      'Every operation on a text view (prefix, suffix, remove, split, take, trim, clip, substring, stepping) leaves the view and returns a view exactly as documented for its selector: a count, a character, a set of characters or a predicate. '
      'Results always lie inside the view before the call. Splitting and taking lose only the single delimiter, and leave things alone or give everything when there is no delimiter, so tokenizing any text terminates and yields its exact pieces.',
      ['inputs', 'histories'], 'all texts (including nul and high bytes), all selectors, all sequences of extractions',
      'Tests tokenize a few strings; the errors are at empty views, leading or trailing delimiters, counts past the end and the suffix variants, in one of several overloads.',
      [I + 'TextView.h', S + 'TextView.cc'], [('prefix / suffix family', I + 'TextView.h class TextView'), ('trim family', I + 'TextView.h trim, ltrim, rtrim, clip')],
      'The view is an interval of a fixed text in the specification; TLC shows the piece laws for all short texts. Every method on every short text plus random histories is validated, in exact size heap blocks under AddressSanitizer.',
      observe=['offset and length of the view and of the returned view'])
    P('C14', 'Text to number conversion is exact, clamped, and reports what it parsed',
      'Converting text to an integer gives the exact value of the longest run of digits of the base, after optional white space, sign and (only if the base is 0) base prefix, and clamps at the limits of the type in either direction instead of wrapping. '
      'An unusable base or a text without digits gives zero with nothing parsed, and otherwise the parsed extent is exactly the text used. Floating point text gives the value to within one unit in the last place.',
      ['inputs'], 'all texts in all bases',
      'Tests convert short lists; overflow in one base, a letter digit, a sign combination, a prefix in an explicit base or a large exponent is not among them.',
      [I + 'TextView.h', S + 'TextView.cc'], [('svtoi, svtou, svto_radix', S + 'TextView.cc'), ('svtod', S + 'TextView.cc')],
      'Exact big number arithmetic in TLA+ is the oracle (checked against integers by TLC). "1e" with no exponent digits, a bare base prefix and white space after a sign are left open.')
    P('C15', 'Comparing and searching views is consistent with their content',
      'Comparison of views is the byte order of their full content (a proper prefix comes first), case insensitive comparison is the same of the text folded to lower case, and all of the functions, operators, functors and hashes agree with that, whatever bytes are in the views. '
      'Starts with / ends with tests, character sets, transformed views and stream output (width, alignment, fill) depend on exactly the characters of the view.',
      ['inputs'], 'all pairs of texts including nul and high bytes',
      'Tests compare plain words; nul and high bytes, prefixes and views that are not nul terminated are not covered.',
      [I + 'TextView.h', I + 'string_view_util.h', S + 'string_view_util.cc'], [('memcmp, strcmp, strcasecmp for views', S + 'string_view_util.cc'), ('starts_with, ends_with, functors', I + 'TextView.h')],
      'TLC shows the comparison is a total order on all triples of short texts; recorded comparisons are compared with it.')
    P('C16', 'Buffer writers never overrun, and account for everything written',
      'A fixed or local buffer writer stores exactly the bytes written, in order, up to its capacity; it never touches a byte past it and drops the rest. Extent counts everything written, size what is stored, and the error state means exactly that something was dropped. '
      'Commit, discard, restrict, restore, copy inside the buffer, sub writers on the unused part, moves and detaching change content, extent and capacity exactly as documented, so restoring restricted space always leaves room for that many more bytes.',
      ['histories', 'inputs'], 'all sequences of writer operations on buffers of every size, including none',
      'Tests use large buffers; overruns and miscounts need output that ends at, before or past the capacity in combination with restrict, discard or copy.',
      [I + 'BufferWriter.h'], [('write / commit / copy', I + 'BufferWriter.h class FixedBufferWriter'), ('restrict / restore', I + 'BufferWriter.h class FixedBufferWriter')],
      'Exhaustive small model in TLC; the whole physical buffer is compared after every recorded operation. Restoring more than was restricted is excluded, as documented.',
      state=[('buffer', 'physical bytes, capacity, extent', I + 'BufferWriter.h')])
    P('C17', 'Arena writers never lose text and never disturb the arena',
      'Output to an arena writer, written, printed or committed in any pieces, is never clipped: the content is always the exact text so far, in the unallocated remnant of the arena, and can be kept by allocating its length. '
      'A commit that does not fit reports so after making room. Earlier allocations of the arena are never changed, whatever growth is needed.',
      ['histories'], 'all sequences of writes, prints, commits, discards and allocations in arenas of any block size',
      'Tests write one long text; growth in the middle of a formatted item or right at the end of a block is not sampled.',
      [I + 'ArenaWriter.h', S + 'ArenaWriter.cc', I + 'bwf_base.h'], [('growth', S + 'ArenaWriter.cc ArenaWriter::realloc'), ('retry of formatting', I + 'bwf_base.h BufferWriter::print_nfv')],
      'Composition of the writer and arena specifications; traces validated under AddressSanitizer. Capacity restriction on an arena writer is not covered.')
    P('C18', 'Format strings are parsed exactly and bind the right arguments',
      'Printing a format string gives its literal text (doubled braces are one brace) with each specifier replaced by the field for its argument: unnamed specifiers take the arguments in order counting only unnamed ones, a number takes that argument, any other name is looked up in the name binding in use, and a bad index or unknown name gives its documented marker. '
      'A malformed format string or style throws std::invalid_argument. Printing text directly, from a preparsed Format, into a fixed or arena writer or with bwprint / bwappend to a string gives the same output, clipped to the space but with the extent counting all of it; '
      'each field is filled to the minimum width by its fill and alignment and clipped to the maximum width.',
      ['inputs'], 'all format strings, styles, argument lists, name bindings and output sizes',
      'Tests print several dozen formats; the errors are in a combination of style elements, a name that looks like a number, or output that ends inside a field.',
      [I + 'bwf_base.h', S + 'bw_format.cc', I + 'BufferWriter.h'], [('format parsing', S + 'bw_format.cc Spec::parse, Format::TextViewExtractor::parse'), ('printing loop', I + 'bwf_base.h BufferWriter::print_nfv'), ('field adjustment', S + 'bw_format.cc Adjust_Alignment')],
      'The grammar and the field rules are a specification whose laws TLC checks for every short format text; recorded output is compared byte for byte. Text that follows a complete style is ignored by the library and by the specification. A style "=" or "0" on text, and widths with precision zero, are left open.')
    P('C19', 'Values are formatted as their type and style require',
      'Integers of every type, including the extreme values, print exactly in base 2, 8, 10 or 16 with sign, radix lead and fill where the style puts them. Floating point prints correctly rounded at the precision asked, integral values without a fraction. '
      'Text is truncated by precision, mapped by s / S and dumped by x / X; pointers (null has its own forms), booleans, characters, memory spans, hex dumps, patterns, errno and error codes, dates, bit sets, exceptions, durations, atomics and conditional or nested text print exactly their documented form, in as much of it as fits.',
      ['inputs'], 'all values of the supported types with all styles, into all buffer sizes',
      'Tests print a handful of values; extremes, a fraction with leading zeros, carries in rounding and style combinations are not among them.',
      [S + 'bw_format.cc', I + 'bwf_base.h', I + 'bwf_ex.h', I + 'bwf_std.h'], [('Format_Integer', S + 'bw_format.cc'), ('Format_Float', S + 'bw_format.cc'), ('wrappers', I + 'bwf_ex.h')],
      'Digits come from exact big number arithmetic in TLA+; arbitrary doubles are checked against the exact value with a tolerance of the double arithmetic (2^-11 units in the last place up to 9 places). Subnormal values are excluded (printed as a word), and dates are checked in GMT with the default format.')
    P('C22', 'A Lexicon maps names and values both ways, consistently',
      'A lexicon knows exactly the (value, name) pairs defined in it: a name, in any case, maps to the one value it was defined for, a value maps to its first (primary) name, also when formatted, and no name is ever defined for two values. '
      'Defining a name twice throws and changes nothing already defined, and an unknown name or value gives the default (value or handler) in force, or std::domain_error if there is none. '
      'Names are copied on definition, also survive a move of the lexicon, and iterating by names or by values visits every pair (every primary name) exactly once, in either direction.',
      ['histories', 'inputs'], 'all sequences of definitions, changes of defaults, look ups, moves and iterations',
      'Tests define one static list and look names up; a duplicate differing in case, a second name, a default handler, a move or growth of the tables is not combined.',
      [I + 'Lexicon.h'], [('definition', I + 'Lexicon.h Lexicon::define'), ('look up and defaults', I + 'Lexicon.h Lexicon::operator[]'), ('iteration', I + 'Lexicon.h Lexicon::const_iterator')],
      'TLC checks bijectivity on primaries for all short histories; recorded histories including names held in storage that is overwritten after the call are validated. Iteration order is not specified.',
      state=[('defs', 'definitions in order, with defaults', I + 'Lexicon.h')])
    P('C23', 'An intrusive list is always exactly the sequence of its elements',
      'After any sequence of insertions, removals, splices, splits, moves and iterations on intrusive lists, each list holds exactly the elements put in it and not taken out, in the documented order, the same forwards and backwards, with the right count, head and tail; '
      'elements taken out have null links and no list shares an element. Every operation returns the documented element, iterator or list.',
      ['histories'], 'all sequences of list operations on several lists',
      'Tests use lists of a few elements; removal at the ends, of a range, of everything, or splitting at 0 or past the size corrupts a link that only a later backward walk sees.',
      [I + 'IntrusiveDList.h'], [('insertion and removal', I + 'IntrusiveDList.h insert_before / insert_after / erase'), ('splitting and splicing', I + 'IntrusiveDList.h take_prefix / split_suffix / append')],
      'The specification is checked by TLC for all histories over few elements; every recorded step compares both walks, count and the raw links of all elements. Links of elements dropped by clear() are not specified.',
      state=[('lst', 'sequence of elements of each list', I + 'IntrusiveDList.h')])
    P('C24', 'An intrusive hash map finds exactly its elements, whatever its buckets',
      'An intrusive hash map holds exactly the elements inserted and not erased: finding a key gives an element with it if there is one, a range for a key has exactly the elements with that key, adjacent and in the order documented, and iteration visits each element once. '
      'That holds whatever the collisions, number of buckets, expansions (by policy or explicit), erasures of elements, ranges and keys, apply with self removal, and moves. The table expands exactly when the policy and limit require.',
      ['histories', 'inputs'], 'all sequences of operations with any hash function and expansion policy',
      'Tests insert distinct words with one policy; wrong bucket boundaries need colliding keys, duplicates and erasure at the edge of a bucket before a look up.',
      [I + 'IntrusiveHashMap.h'], [('bucket maintenance', I + 'IntrusiveHashMap.h IntrusiveHashMap::insert / erase'), ('expansion', I + 'IntrusiveHashMap.h IntrusiveHashMap::expand')],
      'The specification has no buckets, only order and a number of buckets for the expansion rule; the harness uses hash functions with heavy collisions. Growth past the largest prime of the table is not covered.',
      state=[('ord', 'elements in iteration order', I + 'IntrusiveHashMap.h')])
    P('C25', 'A memory span always denotes exactly the memory it was cut from',
      'A span made from an array, container, range or other span denotes exactly those elements. Prefixes, suffixes, sub spans, removal, clipping, alignment and rebinding to another element type give exactly the documented part of that memory, never anything outside it; a rebind that does not divide it throws. '
      'Comparison of spans is comparison of their bytes, and fill, copy, apply, make and destroy touch exactly the elements they should, wherever source and target end.',
      ['histories', 'inputs'], 'all sequences of span operations with spans of every element type',
      'Tests use spans of characters and a few integers; a confusion of elements with bytes, or a count past the end, needs a wider element type or an empty remainder.',
      [I + 'MemSpan.h'], [('sub spans', I + 'MemSpan.h MemSpan::prefix, suffix, subspan, clip_prefix'), ('void spans', I + 'MemSpan.h MemSpan<void>, MemSpan<void const>'), ('content', I + 'MemSpan.h memcmp, memcpy, memset')],
      'A span is an interval of a byte memory in the specification, whose laws TLC checks for all operation sequences on a small memory; recorded operations on spans of 1 to 8 byte elements are validated, with the whole memory after every write. The sign of memcmp of a proper prefix and the location of an empty sub span past the end are left open.',
      observe=['offset, elements and bytes of every span, the memory'])
    P('C26', 'A Vectray is exactly a sequence, inside the object while it fits',
      'A Vectray holds exactly the elements added and not removed, in order, the same through iteration, index, front / back, data and spans, constant or not; elements are constructed properly aligned, and destroyed exactly once, in the same object they were constructed in. '
      'Copies, moves (also from another static size, or to another allocator), assignment, growth and adding an element of the container to itself keep the values, and an addition or reservation that fails by an exception leaves the elements as they were. While there are never more elements than the static size no memory is allocated, otherwise memory is from the allocator of the container.',
      ['histories'], 'all sequences of add, remove, assign, copy, move, reserve over containers of several static sizes and element types, any construction or allocation failing',
      'Tests add a few integers to one container; double destruction, misplaced elements or lost values need elements with destructors, a change to dynamic storage at the right moment, and copies or moves around it.',
      [I + 'Vectray.h'], [('static and dynamic storage', I + 'Vectray.h Vectray::transfer, FixedStore'), ('adding elements', I + 'Vectray.h Vectray::push_back, emplace_back'), ('move and copy', I + 'Vectray.h Vectray constructors')],
      'TLC checks that the storage (cells in the object or a vector) implements the sequence for all histories of two small containers; recorded histories of elements that track their addresses, over allocators that tag their memory, are validated; constructions and allocations fail at random. Values of elements moved from, of a container after a failed assignment, and the allocator after an assignment or a move from another static size are left open.',
      state=[('box', 'sequence of elements, storage kind, allocator of each container', I + 'Vectray.h')])
    P('C27', 'Scalar arithmetic is exact, and rounds only where and as asked',
      'The value of a scalar is its count times its scale, and that is what is output, with the label. Conversion to a scalar of another scale is exact if it is implicit, and otherwise the nearest multiple in the direction asked (up or down), for negative values too. '
      'Sums, differences, products, increments and comparison of scalars of any two scales are those of their values, in a scale that represents both; quotients are exact for the same sign.',
      ['inputs', 'histories'], 'all counts, pairs of scales (multiples, divisors and relatively prime) and rounding directions',
      'Tests convert positive values between a few scales; negative values, scales without a common multiple, values already a multiple and big counts are not covered.',
      [I + 'Scalar.h'], [('conversion', I + 'Scalar.h Scalar::assign, detail scale_conversion_round_up / down'), ('round_up / round_down', I + 'Scalar.h'), ('comparison', I + 'Scalar.h operator <')],
      'TLC checks the rounding and common scale laws for ranges of values and scales; recorded histories over scalars of eight scales, and single conversions of 64 bit counts against exact big number arithmetic, are validated. Overflow and the rounding of quotients of mixed sign are left open.',
      state=[('c', 'count of each scalar', I + 'Scalar.h')])
    P('C21', 'Errata keep every annotation; severity, status and delivery follow from them',
      'An Errata has the annotations added to it, in order, those below the filter severity excepted, each with its own text, severity and nesting level, also those of other errata noted; its severity is the maximum set or noted, and the status of errata and Rv follows from it and the failure threshold. '
      'Moves transfer all of it and leave nothing behind, and what is not moved away is delivered, once and as a whole, to every registered sink when the errata goes out of scope. The text printed has every annotation, severity name, code, indent and glue as configured.',
      ['histories'], 'all sequences of construction, note, copy, move, sink, clear over errata and Rv with any severity configuration',
      'Tests build a few errata with the default severities and look at the output; lost or duplicated annotations and wrong severities depend on filters, on merging into (non) empty errata and on text longer than an arena block.',
      [I + 'Errata.h', S + 'Errata.cc'], [('notes', S + 'Errata.cc Errata::note_s, note_localized'), ('merging', I + 'Errata.h Errata::note(self_type)'), ('sinks', S + 'Errata.cc Errata::sink'), ('output', S + 'Errata.cc Errata::write')],
      'TLC explores all operation sequences of small errata against the laws of severity, filter and delivery; recorded histories over 6 errata (2 in Rv) with random configuration are validated, every observable and the delivered and printed text. The status of an errata in which only text settings were changed is left open.',
      state=[('er', 'annotations, severity, code, texts of each errata', I + 'Errata.h Errata::Data'), ('res', 'value of each Rv', I + 'Errata.h Rv')])
    P('C28', 'Path composition and decomposition are a consistent algebra of path texts',
      'Joining appends with exactly one separator, an absolute path replaces, an empty one changes nothing, so joining is associative; the file name is the part past the last separator and the parent the part before it, so that joining both is the path again. A path is absolute or relative, never both, and paths are equal, with the same hash, exactly if their texts are, '
      'whatever they were made from, including themselves. The temporary directory is the first one the environment names.',
      ['inputs', 'histories'], 'all texts of paths, and sequences of joins, decomposition, moves and assignment',
      'Tests join a few literals; joining a path with itself, repeated or trailing separators, and empty operands are exceptional inputs.',
      [I + 'swoc_file.h', S + 'swoc_file.cc'], [('join', S + 'swoc_file.cc path::operator/='), ('parts', S + 'swoc_file.cc path::parent_path, filename, relative_path'), ('equality', I + 'swoc_file.h operator ==')],
      'TLC checks the laws for all texts to 6 bytes; recorded histories of path registers are validated. The parent of a path without separator is left open.',
      state=[('reg', 'texts of the paths', I + 'swoc_file.h path')])
    P('C29', 'File operations do to the file tree exactly what they say, and report it',
      'Directory creation makes exactly the missing directories, copy makes the destination byte for byte the source (in a directory, under the name of the source) or reports an error, removal removes the target only, remove_all exactly the tree below it, never anything through a symbolic link, and counts it; nothing else in the file system changes. '
      'The error code is set exactly if the operation failed, whatever it was before, and status, the predicates, sizes, times, load, absolute, canonical and current_path report the actual file system. No file descriptor is leaked, closed twice or lost by moves.',
      ['histories', 'fault_sequences'], 'all file trees with directories, files, links, modes, all paths into them, and failures of the operations (permission, loops, full device, size limits)',
      'Tests use one small tree without links or errors; what is removed or overwritten through links, on partial failure, or with a stale error code shows only in such trees.',
      [S + 'swoc_file.cc', I + 'swoc_file.h'], [('removal', S + 'swoc_file.cc remove, remove_all'), ('copy', S + 'swoc_file.cc copy'), ('creation', S + 'swoc_file.cc create_directory, create_directories'), ('information', S + 'swoc_file.cc status, canonical, absolute'), ('descriptors', I + 'swoc_file.h unique_fd')],
      'A file system specification (path resolution with links, permissions, and each operation), whose laws TLC checks on all small trees; recorded histories on a scratch tree of an unprivileged user are validated with a scan of the whole tree after every operation. What is removed by remove_all if some of it can not be removed is left open (only what is below the target, and it is counted).',
      state=[('fs', 'nodes with kind, content, mode, target', 'the file system')])
    P('C20', 'The tree behind the spaces stays a balanced search tree with correct node data',
      'After any sequence of insertions, removals, replacements and rotations, a red black tree holds exactly its nodes in their order, with consistent links, no red node below a red one and the same number of black nodes on every path, so that it is never deeper than twice the logarithm of its size. '
      'Data a subclass keeps about the tree below each node through the structure hook is correct for every node afterwards, and each operation returns the new root; a removed or replaced node is referred to by no other. '
      'Hence finding, marking, filling and erasing a range in a discrete space of n ranges takes a number of comparisons that grows with the logarithm of n, in whatever order the ranges were added and removed.',
      ['histories'], 'all sequences of insertion, removal, replacement, rotation at any place; spaces of thousands of ranges built in any order',
      'Tests look up values, which a tree out of balance or with stale node data also answers; each case of the rebalancing needs its own shape of tree.',
      [I + 'RBTree.h', S + 'RBTree.cc', I + 'DiscreteRange.h'], [('insertion', S + 'RBTree.cc RBNode::rebalance_after_insert'), ('removal', S + 'RBTree.cc RBNode::remove, rebalance_after_remove'), ('structure hook', S + 'RBTree.cc RBNode::rotate, ripple_structure_fixup'), ('use', I + 'DiscreteRange.h DiscreteSpace::insert_before, insert_after, remove, find')],
      'The specification has only the order; every recorded tree must be a valid red black tree of it. TLC checks for all histories over few keys that known insertion and removal algorithms meet it and that every such tree is shallow. Nodes removed are released, so that a reference left is a crash. Costs are comparisons of the metric for up to 4000 ranges, against a bound with a constant factor of some three over the present ones.',
      state=[('order', 'nodes of the tree in order', I + 'RBTree.h RBNode')])
    P('C30', 'A scoped change is undone when the scope ends, however it ends',
      'While a let scope is open its variable has the value given, and when the scope ends, also by an exception and with other scopes nested inside, the variable has the value it had before, whatever was assigned meanwhile, for types that can be copied or only moved and for a value that is the variable itself. If the scope can not be set up the variable is not changed. '
      'A visitor combined from lambdas (vary) calls the one for the type at hand, and type lists contain exactly their types.',
      ['histories', 'fault_sequences'], 'all nestings of scopes over variables of several types, with exceptions at any point',
      'Tests change one integer in one scope; exceptions, aliases and failing copies are not in them.',
      [I + 'swoc_meta.h'], [('scoped value', I + 'swoc_meta.h let'), ('visitor', I + 'swoc_meta.h vary'), ('type list', I + 'swoc_meta.h type_list, is_any_of')],
      'TLC checks the scope discipline for all histories over two variables; recorded histories over eight variables (int, std::string, std::unique_ptr, a type whose copies fail) are validated. Move assignments that throw are not covered.',
      state=[('val', 'values of the variables', I + 'swoc_meta.h let'), ('open', 'open scopes and the values saved', I + 'swoc_meta.h let')])
    P('C31', 'The FNV hashes are the FNV-1a hashes of exactly the bytes given',
      'The 32 and 64 bit hash of a text is the published FNV-1a value of its bytes, whatever the bytes are and however the text is split into updates, directly, through a transformed view, or immediate. '
      'Clearing starts again from the initial value, copies are independent, and finalizing changes nothing.',
      ['inputs', 'histories'], 'all byte strings and ways to split them',
      'No test compares a hash to its published value, and bytes past 127 or split updates are not used.',
      [I + 'ext/HashFNV.h'], [('32 bit', I + 'ext/HashFNV.h Hash32FNV1a::update'), ('64 bit', I + 'ext/HashFNV.h Hash64FNV1a::update')],
      'The specification computes FNV-1a on octets; TLC checks it against published values and for splitting; recorded histories of two hashes of each size are validated. Transforms to values wider than a byte are not covered.',
      observe=['the hash value after every operation'])
