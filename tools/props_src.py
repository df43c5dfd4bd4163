WHY_ENUM = "Unit tests compare a handful of code points; the guarantee quantifies over all 1,114,112 code points (and every path through the decoder)."

prop("T01", "UTrie2 lookup follows the format for every code point and every trie",
     "For any well-formed UTrie2 (any contents, header values and initial value) and any non-negative integer, a lookup returns exactly the value that the "
     "UTrie2 format stores for that code point: through the BMP index, the lead-surrogate block, the supplementary two-level index, the high value from "
     "highStart up to and including U+10FFFF, and the error value above U+10FFFF.",
     "all code points 0..10FFFF and all larger integers; all index arrays and header values",
     "Tests look up a few properties of assigned characters; block boundaries (D800, DC00, FFFF, highStart, 10FFFF) and other tries are not reached.",
     ["UnicodeData/Utrie2.py"], [("UTrie2.indexFromCodePoint", "UnicodeData/Utrie2.py"), ("UTrie2.get", "UnicodeData/Utrie2.py")],
     observe=["UTrie2.get"])

prop("T03", "Code point trie (UCPTrie) lookup follows the format for every code point",
     "For any well-formed UCPTrie of fast or small type, with 8-, 16- or 32-bit values, a lookup of any non-negative integer returns exactly the value the "
     "format stores: the ASCII and fast paths, the three-level index with 16-bit and with packed 18-bit data offsets, the high value and the error value.",
     "all code points and larger integers; all index and data arrays; both trie types; every highStart",
     "The only trie reachable in tests is one fast 16-bit trie, and the module that uses it cannot even be imported without ICU's data file.",
     ["UnicodeData/CPTrie.py"], [("CPTrie.get / cpIndex / internalSmallIndex", "UnicodeData/CPTrie.py")], observe=["CPTrie.get"])

prop("T02", "Enumerating a UTrie2 yields exactly the maximal ranges of its map",
     "For any well-formed UTrie2, start and limit, the enumerator yields contiguous ranges in ascending order that cover [start, limit) exactly, every code point of a "
     "range has the range's value (after the value function, with its arguments, when one is given), lead-surrogate code points included, neighbouring ranges have "
     "different values, and the enumeration terminates, whichever blocks are shared, null or beyond highStart.",
     "arrangements of up to 3 (thorough 4) blocks around every boundary of the format, all stored values, windows aligned and not aligned to blocks",
     "Tests enumerate the one shipped trie over a few windows; sharing and alignment of blocks decide which shortcut the enumerator takes.",
     ["UnicodeData/Utrie2.py"], [("UTrie2.enumerator", "UnicodeData/Utrie2.py")], observe=["UTrie2.enumerator"])

prop("T04", "Enumerating a code point trie yields exactly the maximal ranges of its map",
     "For any well-formed UCPTrie of either type, start and limit, the enumerator yields contiguous ranges in ascending order that cover [start, limit) exactly with the "
     "stored values, neighbouring ranges have different values, and the enumeration terminates: with shared, overlapping and null blocks, without null blocks, with packed "
     "18-bit block offsets, across the step from the linear to the multi-stage part and beyond highStart.",
     "arrangements of up to 4 blocks around every boundary of the format, all stored values, windows aligned and not aligned to blocks",
     "No test enumerates such a trie unless ICU's data file is present, and then only two tries of one type.",
     ["UnicodeData/CPTrie.py"], [("CPTrie.enumerator", "UnicodeData/CPTrie.py")], observe=["CPTrie.enumerator"])

prop("T05", "A serialized code point trie is loaded faithfully",
     "For any serialized UCPTrie, the loaded object has exactly the type, value width, lengths, null offsets (with their high bits) and highStart that the header records, "
     "and looking up any code point returns the value that the serialized index and data arrays hold for it.",
     "all bytes and lengths of a well-formed serialization; both types; the three value widths; every code point",
     "The serialized form is only read from ICU's data file, which is absent; tests never reach the loader.",
     ["UnicodeData/CPTrie.py"], [("CPTrie.createFromData", "UnicodeData/CPTrie.py")], observe=["CPTrie.createFromData"])

prop("P01", "General category and the character-class predicates are right everywhere",
     "For every code point the general category is the 5-bit category recorded for it, and each character-class predicate (lower, upper, title, digit, hex digit, "
     "alpha, alnum, base, control, ISO control, space variants, blank, print, graph, punctuation, identifier start/part/ignorable, and the POSIX and Java "
     "variants) is true exactly for the categories and special code points that ICU documents.",
     "every code point 0..10FFFF, every predicate", WHY_ENUM,
     ["UnicodeData/CharProps.py", "UnicodeData/GeneralCategories.py", "UnicodeData/Characters.py"],
     [("category masks and predicates", "UnicodeData/CharProps.py"), ("GC_*_MASK", "UnicodeData/GeneralCategories.py")], observe=["UnicodeData.CharProps"])

prop("P02", "Age, script, block, width and break properties decode the vectors correctly",
     "For every code point, age, script (including Common, Inherited and the first code of a script-extension list), block, East Asian width, line, sentence, word and "
     "grapheme break classes and the decomposition type equal the bit fields that the property vector records for it; above U+10FFFF the script is invalid.",
     "every code point, every field accessor", WHY_ENUM,
     ["UnicodeData/CharProps.py", "UnicodeData/uprops_h.py"], [("...FromVecIndex accessors", "UnicodeData/CharProps.py"), ("UPROPS_*_MASK/SHIFT", "UnicodeData/uprops_h.py")],
     observe=["UnicodeData.CharProps"])

prop("P03", "Numeric type, numeric value and digit value decode every encoding",
     "For every code point, and for every property word whether or not today's data uses it, the numeric type is none, decimal, digit or numeric according to the "
     "encoded range, the numeric value is exactly the encoded integer, fraction, power-of-ten (up to 10^20; larger ones are subject to floating-point rounding) or base-60 value (None when there is none), and the digit value is the "
     "decimal digit or -1.",
     "every code point and every 16-bit property word", "Tests sample a few digits and fractions; the encoding has eight ranges with their own boundaries.",
     ["UnicodeData/CharProps.py", "UnicodeData/uprops_h.py", "UnicodeData/uchar_h.py"], [("numericValueFromProps, numericTypeFromProps, digitValue", "UnicodeData/CharProps.py")],
     observe=["UnicodeData.CharProps"])

prop("P04", "Binary properties read exactly the addressed bit, and nothing else",
     "For every code point, bit number and column, a binary property lookup returns the addressed bit of the code point's property vector, False for bit numbers that do "
     "not exist, and raw column access returns 0 for columns that do not exist; the named predicates (alphabetic, white space, emoji and its relatives) address the bits "
     "assigned to them.",
     "every code point x every bit number x every column", WHY_ENUM,
     ["UnicodeData/CharProps.py", "UnicodeData/uprops_h.py"], [("getBinaryProp, getUnicodeProperties", "UnicodeData/CharProps.py")], observe=["UnicodeData.CharProps"])

prop("B01", "Bidi class, joining type, bracket type and bidi flags decode correctly",
     "For every code point the bidi class, joining type, paired-bracket type, mirrored flag, bidi-control flag and join-control flag equal the corresponding fields of "
     "the code point's bidi word.",
     "every code point, every accessor", WHY_ENUM, ["UnicodeData/BidiProps.py"], [("masks and shifts", "UnicodeData/BidiProps.py")], observe=["UnicodeData.BidiProps"])

prop("B02", "Mirror and paired-bracket mappings resolve deltas and the mirror table",
     "For every code point the mirrored code point is the code point plus the signed 3-bit delta, or, when the delta is the escape value, the partner recorded in the "
     "mirror table (the code point itself when absent); the paired bracket is that mirror for brackets and the code point itself otherwise.",
     "every code point; every 16-bit word for the delta", WHY_ENUM, ["UnicodeData/BidiProps.py", "UnicodeData/Utilities.py"],
     [("getMirrorFromProps", "UnicodeData/BidiProps.py"), ("arithmeticShift", "UnicodeData/Utilities.py")], observe=["UnicodeData.BidiProps"])

prop("B03", "Joining group lookup covers exactly the two recorded ranges",
     "For every code point the joining group is the entry recorded for it in the first or second joining-group array, and No_Joining_Group outside both ranges.",
     "every code point", WHY_ENUM, ["UnicodeData/BidiProps.py"], [("getJoiningGroup", "UnicodeData/BidiProps.py")], observe=["UnicodeData.BidiProps"])

prop("C01", "Simple case mappings follow the case data for every code point",
     "For every code point the simple lower, upper and title mappings equal the signed delta or the exception slot (single or double width, positive or negative delta, "
     "title falling back to upper) that the case data records, and the code point itself when nothing applies.",
     "every code point", WHY_ENUM, ["UnicodeData/CaseProps.py", "UnicodeData/Utilities.py"], [("toLower, toUpper, toTitle, getSlotValue", "UnicodeData/CaseProps.py")],
     observe=["UnicodeData.CaseProps"])

prop("C02", "Full case mappings follow the case data for every code point",
     "For every code point the full lower, upper and title mappings equal the unconditional special mapping, the recorded multi-character string of that kind, or the simple "
     "mapping when there is neither.",
     "every code point", WHY_ENUM, ["UnicodeData/CaseProps.py"], [("toFullLower, toUpperOrTitle", "UnicodeData/CaseProps.py")], observe=["UnicodeData.CaseProps"])

prop("N01", "Full and raw decompositions follow the normalization data",
     "For every code point, and for any well-formed normalization data, the decomposition is None, the algorithmic mapping (followed by the mapping of its result), the Hangul "
     "decomposition, or the recorded mapping with surrogate pairs combined; the raw decomposition additionally honours the raw-mapping encodings.",
     "every code point over the NFC tables; every code point, threshold and table contents (mappings of at most 2, thorough 3, units) over unknown data",
     "The module cannot be imported without ICU's data file, so its tests do not run at all in a clean checkout.",
     ["UnicodeData/Normalizer2.py"], [("getDecomposition, getRawDecomposition, stringFromData", "UnicodeData/Normalizer2.py")], observe=["Normalizer2.getDecomposition", "Normalizer2.getRawDecomposition"])

prop("N02", "Hangul syllables decompose arithmetically",
     "Every precomposed Hangul syllable decomposes into its two or three jamo by the standard's arithmetic, and its raw decomposition is the LV syllable plus the trailing "
     "jamo when there is one, the two jamo otherwise.",
     "all 11,172 syllables", "No test of this module can run without ICU's data file.", ["UnicodeData/Normalizer2.py"],
     [("hangulDecomposition, rawHangulDecomposition", "UnicodeData/Normalizer2.py")], observe=["Normalizer2.getDecomposition"])

prop("S01", "Surrogate arithmetic and bit helpers are exact over their whole domain",
     "Surrogate and noncharacter predicates hold exactly on their ranges, combining and splitting surrogate pairs are inverse bijections onto U+10000..U+10FFFF, signed "
     "top-field extraction is two's complement for every word and field width, the highest set bit is exact for all 64-bit values, and code lists format as "
     "comma-separated upper-case hexadecimal of at least four digits.",
     "every 32-bit value (predicates), every pair, every supplementary code point, every word/field width, every 64-bit value", "Tests use a few sample values.",
     ["UnicodeData/Utilities.py"], [("isSurrogate.., charFromSurrogates, surrogatesFromChar, arithmeticShift, highBit, listOfCodes", "UnicodeData/Utilities.py")],
     observe=["UnicodeData.Utilities"])

USET = ["UnicodeData/UnicodeSet.py"]
USTATE = [("list", "the boundary list: strictly increasing code points, even positions start ranges, terminated by 0x110000", "UnicodeData/UnicodeSet.py")]
NOTE_U = ("Sets are boundary lists whose values are unconstrained symbols (every gap, adjacency and end position); the number of boundaries per set is enumerated up to the "
          "bound named in the property. " + NOTE_EQ)

prop("U01", "UnicodeSet bulk operations compute exactly the set algebra",
     "For any two sets, addAll/union/|/|=, retainAll/intersection/&/&=, removeAll/difference/-/-= and complementAll/symmetric_difference/^/^= yield exactly the union, "
     "intersection, difference and symmetric difference of the members, with adjacent ranges merged and no empty ranges, including sets that reach U+10FFFF.",
     "all pairs of sets with up to 4 boundaries each (thorough 6): every relative position and coincidence of range ends",
     "Tests try a few hand-written pairs; every way in which range ends can touch, nest and coincide is a separate path of the merge loops.",
     USET, [("_addList, _retainList, _exclusiveOrList", "UnicodeData/UnicodeSet.py")], over=("inputs", "history"), state=USTATE, observe=["UnicodeSet.getRanges"], note=NOTE_U)

prop("U02", "Point, range and whole-set mutators change exactly the requested members",
     "For any set and any integer arguments (values below 0 count as 0, values above U+10FFFF as U+10FFFF), add, remove, retain, complement, addRange, removeRange, "
     "retainRange, complementRange, complement(range), complement(), clear and the constructors leave exactly the members that the operation names; an empty range changes nothing "
     "(retainRange: leaves nothing), and the result has adjacent ranges merged and no empty ranges.",
     "all sets of up to 6 boundaries (thorough 9), all integer arguments",
     "The merge, extend and insert cases of add depend on how the argument touches its neighbours and on both ends of the code space; tests cover a few of them.",
     USET, [("add, addRange, removeRange, retainRange, complementRange, complement, clear, __init__", "UnicodeData/UnicodeSet.py")], over=("inputs", "history"), state=USTATE,
     observe=["UnicodeSet.getRanges"], note=NOTE_U)

prop("U03", "Set equality and the printed form depend on the members alone",
     "Two sets are equal (== true, != false) exactly when they contain the same code points, and the printed form lists exactly the set's boundaries in ascending order.",
     "all pairs of sets with up to 4 boundaries each (thorough 5)", "Equality must hold between sets built by different histories; tests compare a few.",
     USET, [("__eq__, __ne__, __str__", "UnicodeData/UnicodeSet.py")], over=("inputs", "history"), state=USTATE, observe=["UnicodeSet.__eq__", "UnicodeSet.__str__"], note=NOTE_U)

prop("U04", "Membership answers agree with the set's ranges",
     "For any set, contains(c) and `c in set` are true exactly for the members (false above U+10FFFF), and contains(range) and `range in set` are true, for a non-empty range, "
     "exactly when every code point of the range is a member.",
     "all sets of up to 9 boundaries (thorough 16), every non-negative code point and every non-empty range", "A binary search with end-point shortcuts: every position of the probe relative to every boundary matters.",
     USET, [("_findCodePoint, contains, __contains__", "UnicodeData/UnicodeSet.py")], state=USTATE, observe=["UnicodeSet.contains"], note=NOTE_U)

prop("U05", "Size, ranges, indexing and iteration enumerate the members in order",
     "For any set, size() is the number of members, getRangeCount/Start/End and getRanges list its maximal ranges in order, indexOf and charAt are inverse of each other and count members in "
     "ascending order (None outside), and iteration yields every member once, ascending.",
     "all sets of up to 8 boundaries (thorough 12) and all arguments; iteration for range and gap widths 1..3 at every position",
     "Off-by-one errors appear only at particular range ends and at U+10FFFF.",
     USET, [("size, getRange*, indexOf, charAt, __iter__", "UnicodeData/UnicodeSet.py")], state=USTATE, observe=["UnicodeSet.indexOf", "UnicodeSet.charAt", "UnicodeSet.__iter__"], note=NOTE_U)

prop("U06", "Operations leave operands untouched, share no state and support chaining",
     "Non-mutating operations and the copying constructor never change their operands and return sets that share no mutable state with them; in-place operations never change or retain "
     "the operand; an operation of a set with itself gives the algebraic result; every mutator returns the receiver.",
     "all sets of up to 2 boundaries (thorough 3) in every operation, followed by a mutation of each participant", "Aliasing shows only in a later mutation of the other object.",
     USET, [("union, intersection, difference, symmetric_difference, __init__, *All", "UnicodeData/UnicodeSet.py")], over=("inputs", "history"), state=USTATE, observe=["UnicodeSet.getRanges"], note=NOTE_U)

DATA_T = "abstract interpretation to closed forms over the source's tables; exhaustive enumeration of the forms against a Unicode 13 snapshot (static)"
DATA_NOTE = ("Every code point 0..10FFFF that Unicode 13.0 assigns, and the defaults of unassigned ones where an independent source records them; values that no "
             "independent source confirms are left open and counted in the evidence. Trusts /verif/oracle/ucd13.json (built from Java 17's and perl's own Unicode "
             "databases, not from this repository).")
WHY_DATA = "The tables hold some 60,000 words; tests read the values of a handful of characters, so a wrong word elsewhere is invisible to them."

prop("P05", "Enumerated and numeric character properties equal Unicode 13.0 everywhere",
     "For every code point, the general category, age, script, block, East Asian width, line, sentence, word and grapheme break classes, decomposition type, numeric type "
     "and numeric value that CharProps reports are those of Unicode 13.0 (encoded with ICU's codes).",
     "every code point 0..10FFFF, every accessor", WHY_DATA,
     ["UnicodeData/CharProps.py", "UnicodeData/CharPropsData.py", "UnicodeData/Utrie2.py"], [("propsTrie, propsVectors tables", "UnicodeData/CharPropsData.py")],
     observe=["UnicodeData.CharProps"], technique=DATA_T, note=DATA_NOTE)

prop("P06", "Binary character properties equal Unicode 13.0 everywhere",
     "For every code point and every binary property of the property vectors (White_Space, Dash, Hyphen, ... Prepended_Concatenation_Mark, the emoji properties and "
     "Extended_Pictographic) CharProps reports exactly the code points that Unicode 13.0 lists.",
     "every code point 0..10FFFF, every binary property bit with a name in Unicode", WHY_DATA,
     ["UnicodeData/CharProps.py", "UnicodeData/CharPropsData.py"], [("propsVectors columns 1 and 2", "UnicodeData/CharPropsData.py")],
     observe=["UnicodeData.CharProps"], technique=DATA_T, note=DATA_NOTE)

prop("B04", "Bidi, joining, mirroring and bracket data equal Unicode 13.0 everywhere",
     "For every code point the bidi class (including the defaults of unassigned blocks), joining type and group, mirrored, bidi-control and join-control flags, mirror image, "
     "paired bracket and bracket type that BidiProps reports are those of Unicode 13.0.",
     "every code point 0..10FFFF, every accessor", WHY_DATA,
     ["UnicodeData/BidiProps.py", "UnicodeData/BidiPropsData.py"], [("bidi trie, mirrors, jgArray tables", "UnicodeData/BidiPropsData.py")],
     observe=["UnicodeData.BidiProps"], technique=DATA_T, note=DATA_NOTE)

prop("C03", "Simple and full case mappings equal Unicode 13.0 everywhere",
     "For every code point the simple and the full (locale-independent, context-free) lower, upper and title case mappings that CaseProps reports are those of Unicode 13.0.",
     "every code point 0..10FFFF, all six mappings", WHY_DATA,
     ["UnicodeData/CaseProps.py", "UnicodeData/CasePropsData.py"], [("case trie, exceptions table", "UnicodeData/CasePropsData.py")],
     observe=["UnicodeData.CaseProps"], technique=DATA_T, note=DATA_NOTE)

prop("N03", "Canonical decompositions equal Unicode 13.0 everywhere",
     "For every code point the full canonical decomposition equals its NFD form in Unicode 13.0 and the raw decomposition equals its Decomposition_Mapping (None when it has none).",
     "every code point 0..10FFFF", "The module cannot be imported here (ICU's data file is missing), so none of its tests run; and they sample.",
     ["UnicodeData/Normalizer2.py", "UnicodeData/Norm2NFCData.py", "UnicodeData/CPTrie.py"], [("NFC trie and extra data", "UnicodeData/Norm2NFCData.py")],
     observe=["Normalizer2.getDecomposition", "Normalizer2.getRawDecomposition"], technique=DATA_T, note=DATA_NOTE)

FILE_NOTE = "The other properties of this repository start from loaded tables; this one starts from the bytes of the file."
FILE_WHY = ("ICU's data file is not part of this checkout, so the tests of the modules that read it cannot run; and they could only sample one file, while "
            "the code must place every item by the offsets that a file happens to record.")
FILE_T = "abstract interpretation of the module over a file with unknown bytes, compared with the format's definition"

prop("D01", "ICUData finds every item and returns exactly its bytes",
     "For every ICU data file, ICUData reports for every item the table of contents names (by the name after the package prefix) the offset that the table records relative to the "
     "header, the item's header fields with the values stored there, the bytes of every slice asked for and the characters of a string up to its NUL; the order of requests does not "
     "matter and no file stays open afterwards.",
     "every data file (header length, number and order of entries, names, offsets, contents), every request order", FILE_WHY,
     ["UnicodeData/ICUDataFile.py"], [("ICUData", "UnicodeData/ICUDataFile.py")], observe=["UnicodeData.ICUDataFile.ICUData"], technique=FILE_T, note=FILE_NOTE)

prop("D02", "Layout properties are read from the tries of ulayout.icu",
     "For every ulayout.icu and every code point getInPC, getInSC and getVO return the value of the first, second and third of the code point tries that lie between the ends recorded "
     "in its indexes.",
     "every file (number of indexes, trie sizes, trie and value types, contents), every code point", FILE_WHY,
     ["UnicodeData/LayoutProps.py", "UnicodeData/CPTrie.py", "UnicodeData/ICUDataFile.py"], [("getInPC, getInSC, getVO", "UnicodeData/LayoutProps.py")],
     observe=["UnicodeData.LayoutProps"], technique=FILE_T, note=FILE_NOTE)

prop("N04", "Normalization data loaded from a file is taken from the places the file records",
     "A Normalizer2 created from NFKC or NFKC_Casefold file data uses that package's own thresholds, trie and extra data, read from where the file's indexes say they are, so that trie "
     "values and decompositions are the ones the file defines.",
     "every file (indexes, trie form, contents), both packages, every code point for trie values, every ASCII code point for decompositions", FILE_WHY,
     ["UnicodeData/Normalizer2.py", "UnicodeData/CPTrie.py", "UnicodeData/ICUDataFile.py"], [("Normalizer2.createFromFileData", "UnicodeData/Normalizer2.py")],
     observe=["UnicodeData.Normalizer2"], technique=FILE_T, note=FILE_NOTE)

prop("M01", "Compressed character names expand to the names the tokens spell",
     "For every unames.icu a character's name is the expansion of its stored bytes: a byte beyond the token table or with the literal token stands for itself, a lead byte and the next "
     "one make a two-byte token, any other token stands for its NUL-terminated string, and a literal semicolon ends the name.",
     "every token table, token strings and name bytes, for every sequence of up to 4 (quick: 3) kinds of tokens", FILE_WHY,
     ["UnicodeData/CharNames.py", "UnicodeData/ICUDataFile.py"], [("Tokens.expandString", "UnicodeData/CharNames.py")],
     observe=["UnicodeData.CharNames.CharNames.getCharName"], technique=FILE_T, note=FILE_NOTE)

prop("M02", "A character's name is looked up in its own group and line",
     "For every unames.icu the stored name of a character is the string at the place that its group's offset and the variable-width lengths of the lines before it determine, with the "
     "length stored for its line; a character of no group has no name.",
     "every group number, group offset, length values (in many sequences of one- and two-nibble lengths) and text; every character over up to 8 groups", FILE_WHY,
     ["UnicodeData/CharNames.py"], [("Group.expandGroupLengths", "UnicodeData/CharNames.py"), ("CharNames.getGroup", "UnicodeData/CharNames.py")],
     observe=["UnicodeData.CharNames.CharNames.getCharName"], technique=FILE_T, note=FILE_NOTE)

prop("M03", "Algorithmic names, name fields and extended names are composed as defined",
     "A character of an algorithmic range is named by the range's prefix and its code point in hexadecimal, or by the prefix and the element each factor selects, for the standard and "
     "extended choices, and has no other name; the alias, Unicode 1.0 and ISO comment are the fields after the 3rd, 1st and 2nd semicolon of the stored name, empty when there are too "
     "few; every other code point's extended name is <category-XXXX> with its own category.",
     "every range bound, prefix, element text and character; every stored name of up to 6 bytes; every code point", FILE_WHY,
     ["UnicodeData/CharNames.py", "UnicodeData/CharProps.py", "UnicodeData/Utilities.py"],
     [("AlgorithmicRange", "UnicodeData/CharNames.py"), ("Group.expandName", "UnicodeData/CharNames.py"), ("CharNames.getCharCatName", "UnicodeData/CharNames.py")],
     observe=["UnicodeData.CharNames.CharNames.getCharName"], technique=FILE_T, note=FILE_NOTE)

prop("M04", "Iterating over names yields every named character once; lookup inverts it",
     "nameIterator yields exactly the characters that have a name of the given choice, each once and with the name getCharName gives it, wherever groups and algorithmic ranges lie "
     "relative to each other; charFromName returns the character with the given name and FFFFFFFF when there is none.",
     "many placements of groups and ranges (ranges inside, across and between groups), every name text", FILE_WHY,
     ["UnicodeData/CharNames.py"], [("CharNames.nameIterator", "UnicodeData/CharNames.py"), ("CharNames.charFromName", "UnicodeData/CharNames.py")],
     observe=["UnicodeData.CharNames.CharNames.nameIterator"], technique=FILE_T, note=FILE_NOTE)

UCD = ["UnicodeData/CharacterData.py", "UnicodeData/UCDProperties.py"]
UCD_T = "abstract interpretation of the record constructors over elements with attribute texts of unknown characters (static)"
UCD_NOTE = ("The attribute under scrutiny is a text of unknown characters of a bounded length (unknown digits where it is a number); every other attribute of the char element and its "
            "group holds a different value. Trusts the attribute semantics of UAX #42 as written in /verif/specs/ucd.py.")
UCD_WHY = "The UCD XML files are not in the repository, so none of the tests builds a record; the classes read some 120 attributes."

prop("X01", "Text and number fields of a UCD record hold their XML attribute",
     "For every char element and its group, each text or number field of CharacterData and its parts (code point, name, combining class, general category, numeric value, script, "
     "extensions, block, break, joining, width, quick-check, Indic ... classes) is the value of its own attribute: the char element's if present, else the group's, else empty; '#' in a "
     "name is the code point, underscores of blocks and joining groups are spaces, extensions are split at spaces, numeric values are exact, NaN is None.",
     "every field, every attribute text up to 4 characters, every number form that Unicode uses, attribute in the element, in the group or in neither", UCD_WHY,
     UCD + ["UnicodeData/BidiProperties.py", "UnicodeData/DecompProperties.py", "UnicodeData/IndicProperties.py"],
     [("CharacterData.__init__, getNumericValue", "UnicodeData/CharacterData.py"), ("getCharProperty", "UnicodeData/UCDProperties.py")],
     observe=["UnicodeData.CharacterData.CharacterData"], technique=UCD_T, note=UCD_NOTE)

prop("X02", "Boolean fields of a UCD record are true exactly for Y",
     "For every char element and its group, each of the boolean fields of CharacterData and its parts (bidi, case, decomposition, emoji and the 40 binary properties) is true exactly "
     "when its own attribute, taken from the char element if present and else from the group, is Y, whatever the other attributes hold.",
     "every boolean field, every attribute text up to 2 characters, attribute in the element, in the group or in neither", UCD_WHY,
     UCD + ["UnicodeData/BinaryProperties.py", "UnicodeData/CaseProperties.py"],
     [("propsList", "UnicodeData/BinaryProperties.py"), ("getBooleanProperty", "UnicodeData/UCDProperties.py")],
     observe=["UnicodeData.CharacterData.CharacterData"], technique=UCD_T, note=UCD_NOTE)

prop("X03", "Mapping fields of a UCD record are the characters the attribute lists",
     "For every char element and its group, each case mapping and folding is the string of the listed code points, the character itself where the attribute is '#' or missing; "
     "decompositions and closures are that string or None where '#' or missing (NFKC_CF: '#' is the character); the mirrored glyph and paired bracket are the listed code point or the "
     "character's own.",
     "every mapping field, every code point of 4 to 6 digits, sequences of up to 3 (thorough 5) code points, attribute in the element, in the group or in neither", UCD_WHY,
     UCD + ["UnicodeData/CaseProperties.py", "UnicodeData/DecompProperties.py", "UnicodeData/BidiProperties.py"],
     [("getCodePointsProperty", "UnicodeData/UCDProperties.py"), ("dmToString", "UnicodeData/DecompProperties.py")],
     observe=["UnicodeData.CharacterData.CharacterData"], technique=UCD_T, note=UCD_NOTE)

prop("P07", "Name dictionaries map every code to its Unicode short name",
     "For every enumerated property (bidi class, block, decomposition type, width, general category, breaks, Hangul syllable type, Indic categories, joining group and type, numeric type, "
     "script, vertical orientation) the name dictionary gives every ICU code the short property value name of the Unicode Character Database (underscores as spaces where the package "
     "writes them so), in every module that offers such a dictionary.",
     "every code of the 17 properties, all 32 dictionaries", "Some dictionaries no test reads, of the others tests look up a few codes.",
     ["UnicodeData/UCDTypeDictionaries.py", "UnicodeData/Scripts.py", "UnicodeData/Blocks.py", "UnicodeData/Boundaries.py", "UnicodeData/JoiningTypesAndGroups.py",
      "UnicodeData/GeneralCategories.py", "UnicodeData/LayoutTypes.py", "UnicodeData/CharDirection.py", "UnicodeData/EastAsianWidth.py", "UnicodeData/DecompositionType.py"],
     [("the dictionaries", "UnicodeData/UCDTypeDictionaries.py")], observe=["UnicodeData.UCDTypeDictionaries"],
     technique="interpretation of module-level code to constants, compared entry by entry with a table confirmed by independent sources (static)",
     note="Trusts /verif/oracle/names13.json (confirmed by perl's property value aliases; scripts without characters by ISO 15924).")

prop("P08", "Named constants have the values of ICU's headers",
     "Every named constant of the translated ICU headers (uchar_h, uscript_h, uprops_h, ucase_h), of the bidi property layout (UBIDI_...) and of the enumeration modules (general categories and their masks, scripts, blocks, "
     "bidi classes, breaks, joining, layout, widths, decomposition types, characters) is the integer that ICU 69 gives it, aliases equal what they name, and U_MASK(x) is the mask of bit x.",
     "all 2,174 constants", "Nearly all constants are used by callers only; no test reads them.",
     ["UnicodeData/uchar_h.py", "UnicodeData/uscript_h.py", "UnicodeData/uprops_h.py", "UnicodeData/ucase_h.py", "UnicodeData/GeneralCategories.py", "UnicodeData/Scripts.py",
      "UnicodeData/Blocks.py", "UnicodeData/Boundaries.py", "UnicodeData/JoiningTypesAndGroups.py", "UnicodeData/LayoutTypes.py", "UnicodeData/CharDirection.py",
      "UnicodeData/EastAsianWidth.py", "UnicodeData/DecompositionType.py", "UnicodeData/Characters.py", "UnicodeData/BidiProps.py"],
     [("all constants", "UnicodeData/uchar_h.py")], observe=["UnicodeData.uchar_h"],
     technique="interpretation of module-level code to constants, compared name by name with a table of ICU's values (static)",
     note="Trusts /verif/oracle/icu_constants.json.")

prop("E01", "Lookups do not depend on what was looked up before",
     "The answer of a character lookup (CharProps, BidiProps, CaseProps, Utilities, the raw normalization data of a Normalizer2 and trie look-ups) does not depend on lookups made before it, "
     "nor on what a caller did to the list or dictionary it got; enumerations of one trie, and iterations of one UnicodeSet, that are under way at the same time do not disturb each other.",
     "every lookup, every code point now and before, every way two enumerations or iterations advance within the given steps",
     "A test asks a few questions in one order, each once; a stale cache needs a particular earlier question.",
     ["UnicodeData/CharProps.py", "UnicodeData/BidiProps.py", "UnicodeData/CaseProps.py", "UnicodeData/Utilities.py", "UnicodeData/Normalizer2.py", "UnicodeData/Utrie2.py", "UnicodeData/UnicodeSet.py"],
     [("the lookups", "UnicodeData/CharProps.py"), ("UTrie2.enumerator", "UnicodeData/Utrie2.py"), ("UnicodeSet.__iter__", "UnicodeData/UnicodeSet.py")],
     observe=["UnicodeData.CharProps", "UnicodeData.BidiProps", "UnicodeData.CaseProps"], over=["inputs", "history"],
     technique="effect analysis on the abstract interpretation of each lookup (writes that outlive the call, shared answers), with the equivalence of second and first lookup where there are any (static)",
     note="Answers that are shared tuples or strings are harmless. Enumerations are followed for up to 14 ranges, iterations for up to 10 members.")
