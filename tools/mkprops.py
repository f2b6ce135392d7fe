#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay editable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,title
    P.append(d)
ST="pkg/storage/"; DG="pkg/dag/"; IX="internal/index/"
p("S01","Composite identifiers pack and unpack without loss",
  "Combining an upper and a lower part into a 16- or 32-bit identifier and splitting it again returns exactly the two parts, and splitting any identifier and recombining its parts returns the identifier. Hence two identifiers are equal exactly when both their parts are, and the numeric value is upper*2^k+lower.",
  ["inputs"],"every pair of parts (2^16 and 2^32 pairs) and every identifier value",
  "The tests sample a table of about a dozen values per function; no finite table covers 2^32 values.",
  [ST+"id16.go",ST+"id32.go"],[("Combine8/Upper/Lower",ST+"id16.go"),("Combine16/Upper16/Lower16/Uint32",ST+"id32.go")])
p("S02","Identifier sets sort canonically and compare exactly",
  "Sorting a set (of 8- or 16-bit identifiers) rearranges its elements in place into ascending order, losing, inventing and duplicating none, and touches nothing outside the set. Two sets compare equal exactly when they have the same length and the same elements at the same positions; comparing changes neither.",
  ["inputs"],"every pair of sets of any length and contents",
  "Tests compare a handful of short sets; equality must hold for every length and for a difference at any position.",
  [ST+"set8.go",ST+"set16.go"],[("Sort, Less, Swap, Len",ST+"set8.go"),("EqualTo",ST+"set16.go")])
p("S03","A stored set reads back identical, in the documented layout",
  "Writing a set of 8- or 16-bit identifiers that fits its length prefix emits exactly the big-endian length followed by the big-endian elements in order and reports exactly that many bytes; reading those bytes back yields an equal set, reports the same count and consumes nothing beyond them. A set too long for its length prefix is refused with an error instead of being written with a wrapped length.",
  ["inputs"],"every set of any length and contents, followed by any further bytes in the stream",
  "Tests round-trip a few sets of up to a few elements; boundary lengths (0, 255, 256, 65535, 65536) and trailing data are never sampled.",
  [ST+"set8.go",ST+"set16.go"],[("WriteTo",ST+"set8.go"),("ReadFrom",ST+"set16.go")])
p("S04","Reading a set never invents data and never hides an I/O failure",
  "When reading a set reports success, every byte of the announced length and elements was really delivered by the source, whether the source delivers them at once or in pieces; if the source ends or fails earlier, reading reports an error. When writing a set reports success, the sink accepted every byte.",
  ["inputs","fault_sequences"],"every byte stream, every truncation point, every way a reader may split or fail its reads, every point at which a sink may fail",
  "Tests read complete in-memory buffers only; short, split and failing reads and writes are not exercised.",
  [ST+"set8.go",ST+"set16.go"],[("ReadFrom/WriteTo error handling",ST+"set8.go"),("ReadFrom/WriteTo error handling",ST+"set16.go")])
p("S05","Set tables hand out stable unique identifiers (find-or-append)",
  "Indexing a set in a table returns the identifier of the equal set already stored, in whatever order its elements were given, or appends it (sorted) under the next free identifier; that identifier then retrieves exactly that set for as long as the table lives, and no earlier identifier ever changes its meaning. Distinct sets never share an identifier: a full table or an empty set is refused by a panic, never by reusing an identifier.",
  ["histories","inputs"],"every sequence of Index calls on a table, every set, every table size up to capacity",
  "Tests index a few sets into a fresh table; uniqueness and stability quantify over all histories and sizes including the capacity boundary.",
  [ST+"table8.go",ST+"table16.go"],[("Index: sort, find or append",ST+"table8.go"),("Find, Get",ST+"table16.go")],
  [("table contents","stored sets: sorted, pairwise distinct; position = identifier",ST+"table8.go")])
p("S06","Set collections address every set by size and position",
  "Indexing a set in a collection returns an identifier whose upper part is the set length minus one and whose lower part is its identifier among sets of that length; the identifier retrieves exactly that set from then on, equal sets get equal identifiers, different sets different ones, and identifiers handed out earlier keep their meaning.",
  ["histories","inputs"],"every sequence of Index calls with sets of any admissible length",
  "Only Collection8x8 has a small test; Collection16 has none. Growth by several columns at once and interleaved lengths need all histories.",
  [ST+"collection8.go",ST+"collection16.go"],[("Index: column growth + table index",ST+"collection8.go"),("Get/Find",ST+"collection16.go")])
p("S07","Lookups in tables and collections are total and read-only",
  "Finding a set or fetching an identifier in a table or collection never panics and never modifies anything: a stored set is found under its identifier, anything not stored (an empty set, a set longer than any stored one, an identifier out of range) is reported as not found.",
  ["inputs"],"every table or collection contents and every set or identifier argument, present or absent",
  "Tests look up a few present and absent items; a lookup with a set longer than every stored one is never tried.",
  [ST+"table8.go",ST+"table16.go",ST+"collection8.go",ST+"collection16.go"],[("Find/Get bounds checks",ST+"collection8.go"),("Find/Get",ST+"table16.go")])
p("D01","Tag names encode to exactly four bytes and decode back",
  "A tag name encodes to exactly four bytes: its own bytes when it is four bytes long, four spaces when it is empty or the empty-name marker; a name of any other length is refused with an error and writes nothing. Decoding four bytes yields the name with those bytes, four spaces yielding the empty-name marker; any other number of bytes is refused and leaves the name unchanged.",
  ["inputs"],"every string of any length and bytes; every byte slice",
  "Tests use a few ASCII names; lengths 0-8, multi-byte characters and names beginning with spaces are not covered.",
  [DG+"name.go"],[("MarshalBinary/UnmarshalBinary",DG+"name.go"),("BinaryReadFrom/BinaryWriteTo",DG+"name.go")])
p("D02","Tags and the tag index read back exactly as written",
  "Writing a tag emits parent name then own name, and writing a tag index emits a count byte followed by its tags in order; reading this back yields the same tags at the same identifiers with empty names in canonical form, consuming exactly those bytes. A tag or index that cannot be represented (bad name length, more than 255 tags) is refused with an error.",
  ["inputs"],"every tag and every tag index of any size, followed by any further stream contents",
  "Tests round-trip single short examples; order, every count up to the prefix limit and trailing data are not covered.",
  [DG+"tag.go",DG+"idx.go",DG+"name.go"],[("Tag.BinaryWriteTo/BinaryReadFrom",DG+"tag.go"),("Idx.BinaryWriteTo/BinaryReadFrom",DG+"idx.go")])
p("D03","Reading tag data never invents data and never hides a failure",
  "When reading a tag name, a tag or a tag index reports success, all of its bytes were really delivered by the source, in one piece or several; a source that ends or fails earlier makes the read report an error. When writing reports success, the sink accepted every byte.",
  ["inputs","fault_sequences"],"every byte stream, truncation point, splitting of reads, and failure position of source or sink",
  "Tests read complete in-memory buffers only.",
  [DG+"name.go",DG+"tag.go",DG+"idx.go"],[("BinaryReadFrom error paths",DG+"idx.go"),("BinaryReadFrom",DG+"name.go")])
p("D04","The tag index assigns each name one stable identifier",
  "Asking for a tag's identifier returns the one already assigned to that name, whatever parent is given, or appends the tag, with an empty parent replaced by the empty-name marker, under the next free identifier. Identifiers never change or get reused: each keeps retrieving the same tag, different names have different identifiers, and a full index refuses a new name by a panic.",
  ["histories","inputs"],"every sequence of Index calls, every name and parent, every index size up to capacity",
  "Tests add a few tags; stability, first-registration-wins for the parent, and capacity quantify over all histories.",
  [DG+"idx.go",DG+"tag.go"],[("Index/Find/Get/Len",DG+"idx.go"),("NewTag",DG+"tag.go")],
  [("index contents","tags with pairwise distinct names; position = identifier",DG+"idx.go")])
p("D05","Tag lookups are total and read-only",
  "Finding a tag by name or fetching one by identifier never panics and never changes the index: a known name yields its identifier and a known identifier yields its tag, anything else is reported as not found.",
  ["inputs"],"every index contents and every name or identifier",
  "Tests probe a few present and absent names; identifiers at and beyond the end for every size are not covered.",
  [DG+"idx.go"],[("Find, Get",DG+"idx.go")])
p("D06","New tags and new tag indexes normalise parents and keep order",
  "Creating a tag or a tag index from given tags replaces an empty parent by the empty-name marker and keeps everything else: names, non-empty parents, number and order of tags. The tags passed in are not modified, and later changes to the caller's list do not affect the index.",
  ["inputs"],"every list of tags",
  "Tests use short fixed lists.",
  [DG+"idx.go",DG+"tag.go"],[("NewIndex",DG+"idx.go"),("NewTag",DG+"tag.go")])
p("X01","An added word is found again and spells itself",
  "After adding a word, looking up that word (from its string or its runes) succeeds and returns the very node the addition returned, and that node's word is the text of the runes that were added (of a string holding invalid UTF-8: with every invalid byte replaced by U+FFFD). Adding an already present word returns the same node and adds nothing; adding an empty word is refused with an error and changes nothing.",
  ["histories","inputs"],"every sequence of additions of any words over any runes, and every word looked up afterwards",
  "The package's tests add a few words to a small index and do not even build offline; the guarantee quantifies over all words and histories.",
  [IX+"idx.go",IX+"items.go",IX+"node.go"],[("AddRunes/AddString/AddToNode",IX+"idx.go"),("NewChild",IX+"items.go"),("FetchRunes/FetchFromItem",IX+"idx.go"),("Word",IX+"node.go")],
  [("items + children maps","node id -> (parent, letter); children map is its exact inverse",IX+"idx.go")])
p("X02","Words never added as a path are reported missing",
  "Looking up a sequence of runes that is not the path of any node yields an error and no node, whatever node or word is asked for, and a lookup, hit or miss, never adds, removes or changes nodes, words or tags.",
  ["histories","inputs"],"every index reachable by additions and every rune sequence",
  "Tests look up a few known words; absence must hold for every non-path.",
  [IX+"idx.go"],[("FetchRunes/FetchFromItem/FetchItemFromParent",IX+"idx.go")])
p("X03","Growing the index never disturbs existing nodes",
  "Adding words only appends nodes: the identifier, parent, letter, word and tag sets of every existing node stay what they were, a new node's identifier is greater than its parent's, and the node count grows by exactly the number of new prefixes.",
  ["histories","inputs"],"every sequence of additions, across every internal growth step",
  "Growth steps happen at sizes the tests never reach.",
  [IX+"idx.go",IX+"items.go"],[("NewChild growth",IX+"items.go"),("AddToNode",IX+"idx.go")])
p("X04","Tag sets attach to exactly one word and read back",
  "Attaching a list of known tags to a word makes that word report one more tag set with exactly those tags, in identifier order, unless it already had it, while the tag sets of every other word stay unchanged. Attaching a list with an unknown tag is refused with an error and changes nothing; an empty list attaches nothing.",
  ["histories","inputs"],"every sequence of attachments to any words with any tag lists",
  "Tests attach one or two tag sets; independence between words sharing interned sets needs all histories.",
  [IX+"node.go",IX+"tagset_index.go",IX+"variant_idx.go",IX+"variant_def.go"],[("AddTagSet/TagSets",IX+"node.go"),("TagSetIndex.Index",IX+"tagset_index.go"),("VariantsIndex.Index",IX+"variant_idx.go"),("TagSetIDCollection.Add",IX+"variant_def.go")])
p("X05","The word count equals the number of words carrying tags",
  "The number of indexed words reported equals the number of nodes that carry at least one tag set: it grows by one exactly when a word receives its first tag set and is unaffected by anything else. The node count equals the number of distinct non-empty prefixes added.",
  ["histories"],"every sequence of additions, attachments and reloads",
  "Tests check the counter in one scenario.",
  [IX+"node.go",IX+"idx.go"],[("wordsCount in AddTagSet/rebuildChildrenIndex",IX+"node.go"),("NodesCount",IX+"idx.go")])
p("X06","Interned tag sets keep their identifiers",
  "Registering a tag set returns the identifier of the equal registered set, in whatever order the tags were given, or appends it under a new one; every identifier handed out keeps retrieving exactly that set in ascending order, different sets have different identifiers, and finding or fetching something never registered reports not found without panicking or changing anything. A table that is full refuses by a panic instead of reusing an identifier.",
  ["histories","inputs"],"every sequence of registrations of tag sets of any size up to 65536, every lookup",
  "Tests cover a few short sets; they do not build offline.",
  [IX+"tagset_index.go",IX+"tagset_table.go",IX+"tagset_def.go",IX+"tagset_id.go"],[("TagSetIndex.Index/Find/Get",IX+"tagset_index.go"),("TagSetTable.Index/Find/Get",IX+"tagset_table.go")])
p("X07","Collections of tag sets grow without side effects and intern stably",
  "Adding a tag set identifier to a collection yields a sorted collection with exactly that element more, or an equal collection when already present, and never alters the original. Interning a collection returns a non-zero identifier that keeps retrieving exactly that collection, equal collections share it and different ones do not; identifier zero stands for the empty collection only.",
  ["histories","inputs"],"every collection, every identifier, every sequence of interning calls",
  "Tests cover a few short collections and do not build offline.",
  [IX+"variant_def.go",IX+"variant_table.go",IX+"variant_idx.go",IX+"variant_id.go"],[("Add/Has",IX+"variant_def.go"),("VariantsIndex.Index/Get/Find",IX+"variant_idx.go"),("VariantsTable.Index/Find/Get",IX+"variant_table.go")])
p("X08","Every section of the compiled index reads back as written",
  "Each part of the compiled index - tag sets, tag set tables, collections, node items - is written as its count followed by its elements in order, and reading it back yields an equal part consuming exactly those bytes, also when other data follows. What cannot be represented (a one- or two-byte count that would wrap) is refused with an error.",
  ["inputs"],"every tag set, table, collection and item list of any size and contents",
  "Tests round-trip small samples; counts at prefix boundaries and trailing data are not covered.",
  [IX+"tagset_def.go",IX+"tagset_table.go",IX+"tagset_index.go",IX+"variant_def.go",IX+"variant_table.go",IX+"variant_idx.go",IX+"item_def.go",IX+"items.go"],
  [("BinaryWriteTo/BinaryReadFrom pairs",IX+"tagset_table.go"),("Item codec",IX+"item_def.go")])
p("X09","A saved index loads back equivalent",
  "Writing an index and reading the bytes into a fresh index yields an index with the same tags at the same identifiers (an empty parent name reads back as \"----\"), the same nodes with the same words and tag sets, the same word and node counts, and in which every lookup gives the same result as before, including for words never added.",
  ["histories","inputs"],"every index reachable by additions, attachments and tag registrations",
  "The one test saves a tiny index; the rebuilt lookup structure must agree for every index and every lookup.",
  [IX+"idx.go",IX+"items.go"],[("BinaryWriteTo/BinaryReadFrom",IX+"idx.go"),("rebuildChildrenIndex",IX+"idx.go")])
p("X10","A damaged or truncated index file is refused",
  "Reading an index reports success only if every byte of all four sections was really delivered and every section carries its expected marker; a truncated, failing or mislabelled source yields an error, and a sink that fails at any point makes writing report an error.",
  ["inputs","fault_sequences"],"every byte stream, truncation point, splitting of reads and failure position",
  "Tests never truncate or corrupt the file.",
  [IX+"idx.go"],[("section markers and error paths",IX+"idx.go")])
p("X11","Optimizing the index never changes what it answers",
  "Optimizing removes unused collections only: every word keeps exactly the tag sets it had, every lookup gives the same result, and the word and node counts stay the same.",
  ["histories"],"every index reachable by additions and attachments",
  "One test optimizes one small index.",
  [IX+"idx.go"],[("Optimize",IX+"idx.go")])
p("X12","Unknown node and tag identifiers are answered with errors",
  "Asking the index for a node, a tag set or the variants of an identifier that was never handed out yields an error (or an empty or not-found answer), never a panic, and changes nothing.",
  ["inputs","histories"],"every reachable index and every identifier value",
  "Tests ask for a few existing identifiers.",
  [IX+"idx.go",IX+"node.go",IX+"items.go"],[("Get/TagSet/Variants bounds",IX+"idx.go"),("Items.Get",IX+"items.go")])
p("X13","Index operations always release their locks",
  "Every index operation, whether it succeeds or fails, leaves the index unlocked when it returns and never waits for a lock it already holds, so a failed save or load does not block the next call.",
  ["histories","fault_sequences"],"every operation, every error path",
  "Tests never continue to use an index after a failed save or load.",
  [IX+"idx.go",IX+"items.go"],[("mu.Lock/defer Unlock",IX+"idx.go"),("items.mu",IX+"items.go")])
p("P01","Dictionary attributes and tag lists are read faithfully",
  "Looking up an attribute by name returns the value of the first attribute with that local name, or an error if there is none; an integer attribute additionally must be a valid integer. A word form's tag list is the tags of its categories in order, none lost or added.",
  ["inputs"],"every attribute list and every category list",
  "There are no tests for these helpers.",
  ["pkg/opencorpora/xmlutils.go","pkg/opencorpora/form_item.go","pkg/opencorpora/category_list.go"],[("getAttr/GetString",'pkg/opencorpora/xmlutils.go'),("GetTagsFromSet",'pkg/opencorpora/form_item.go'),("GrammemeNames",'pkg/opencorpora/category_list.go')])
p("P02","Searching lemmata returns exactly the lemmas of the word",
  "Searching a lemma list for a word returns copies of exactly those lemmas whose base form equals the word, in list order, skipping missing entries, and changes nothing.",
  ["inputs"],"every lemma list and every word",
  "There are no tests for it.",
  ["pkg/opencorpora/lemma_list.go","pkg/opencorpora/lemmata.go"],[("Search",'pkg/opencorpora/lemma_list.go')])
p("P03","The dictionary parser tracks its position in the document exactly",
  "While a dictionary is parsed, elements are dispatched by their full path: an element at a path that is not part of the dictionary format is refused with an error, and after a start/end pair of a known element the parser is back exactly where it was, whether or not the element's own processing failed.",
  ["inputs","histories"],"every sequence of start, data and end events",
  "There are no tests of the parser.",
  ["pkg/opencorpora/parser.go"],[("ProcessStartElement/ProcessEndElement",'pkg/opencorpora/parser.go')])
p("P04","Every word form of a parsed lemma is indexed with its tags",
  "When a lemma ends, each of its forms is added to the index with the lemma's categories followed by the form's own, in order; an error from the index stops the parse with an error, and a configured lemma limit stops it exactly at that lemma.",
  ["inputs","histories"],"every lemma with any number of forms and categories",
  "There are no tests of the parser.",
  ["pkg/opencorpora/parser.go"],[("onDictionaryLemmataLemma",'pkg/opencorpora/parser.go')])
p("P05","A failed compilation never passes for a compiled index",
  "Saving the compiled index reports success only if the complete index was written and the file closed without error; on any error the incomplete file is removed and the error reported. Parsing a dictionary never panics out of the loader: it returns an error instead.",
  ["fault_sequences","crash_points"],"every failure position of create, write and close",
  "There are no tests of the loader.",
  ["pkg/opencorpora/loader.go"],[("SaveIndex",'pkg/opencorpora/loader.go'),("ParseUpdate recover",'pkg/opencorpora/loader.go')])
p("P06","Update decisions follow the local and remote state",
  "An update is required when no downloaded file exists or when the remote copy is newer than it, and not otherwise; errors in contacting the remote site are reported, and a forced recompile proceeds from what is available locally.",
  ["configurations","fault_sequences"],"every combination of local files, remote answers and errors",
  "There are no tests of the loader.",
  ["pkg/opencorpora/loader.go"],[("IsUpdateRequired",'pkg/opencorpora/loader.go'),("Update",'pkg/opencorpora/loader.go')])
p("G01","Grammeme errors report their own text and their cause",
  "The text of a grammeme error is its formatted message, followed by a colon, a space and the text of the wrapped error when there is one.",
  ["inputs"],"every message and every wrapped error",
  "There are no tests of this package.",
  ["internal/grammemes/errors.go"],[("Error.Error, WrapErrorf, NewErrorf",'internal/grammemes/errors.go')])
p("G02","Data file paths stay under the domain's data directory",
  "The data directory of a domain is that domain's name joined as a path below the common data directory '.data', and a data file's path is its name joined below the domain's directory (names that climb out with '..' are joined lexically, like path.Join does). Creating a domain's data directory reports success only when that directory is in place.",
  ["inputs"],"every domain and file name",
  "There are no tests of this package.",
  ["pkg/common/utils.go"],[("DomainDataPath/DomainFilePath",'pkg/common/utils.go')])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(d,ensure_ascii=False)+"\n" for d in P))
print(len(P))
