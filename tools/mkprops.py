import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p("S01","Id sets are written in one exact layout and read back unchanged",
 "Writing any set of 8-bit ids of at most 255 elements, or of 16-bit ids of at most 65535 elements, emits exactly its element count (one byte, respectively two bytes big-endian) followed by the ids in their current order, and reports exactly the number of bytes emitted. Reading those bytes into any set variable, empty or not, yields the same sequence, reports the same byte count and consumes not one byte more, so sets written one after another read back in order, and a set read or copied from that variable before keeps its content. A set with more elements than its count field can express is refused with an error.",
 ["inputs"],"every set of either width, including empty, boundary-length and over-long ones, every sequence of sets on one stream and every previous content of the target",
 "The existing tests write and read five short literal sets per width, one set per stream, into an empty target; no length near 255, 256, 65535 or 65536 and no adjacent data is ever tried.",
 ["pkg/storage/set8.go","pkg/storage/set16.go"],[("WriteTo/ReadFrom","pkg/storage/set8.go, pkg/storage/set16.go")],
 observe=["bytes produced","reported counts","decoded set"])
p("S02","Truncated, chunked or failing set streams are never mistaken for good data",
 "Reading a set from a stream that ends or fails before the announced elements have all arrived returns an error, and how the stream splits the bytes into pieces (including delivering the last bytes together with end-of-file) never changes the outcome, the decoded set, the count or how much is consumed. Writing a set to a destination that fails or accepts only part of the bytes, at any byte, returns an error and never reports more bytes than the destination accepted. In both directions an error from the other side is never turned into success and nothing panics.",
 ["inputs","fault_sequences"],"every set, every truncation point, every way of chunking the stream and every byte at which the reader or writer fails",
 "Tests read from in-memory buffers only and cut the data at one place per width, on an element boundary.",
 ["pkg/storage/set8.go","pkg/storage/set16.go"],[("error paths of WriteTo/ReadFrom","pkg/storage/set8.go, pkg/storage/set16.go")])
p("S03","Sorting and comparing id sets obey their laws",
 "Sorting a set puts it in ascending order in place, keeping exactly the same ids with the same multiplicities, and sorting again changes nothing. Two sets compare equal exactly when they have the same length and the same id at every position (nil and empty sets are equal), so two sets hold the same ids exactly when their sorted forms compare equal; comparing changes neither set. The length, element-order and exchange primitives agree with this: the order is strict on ids and an exchange swaps just those two positions.",
 ["inputs"],"every pair of sets of either width, including duplicates, permutations, prefixes, nil and sets differing in a single position or bit",
 "Tests compare a handful of literal pairs of at most five elements and sort five literal sets.",
 ["pkg/storage/set8.go","pkg/storage/set16.go"],[("sort.Interface implementation, EqualTo","pkg/storage/set8.go, pkg/storage/set16.go")])
p("S04","Equal-size set registries hand out one stable id per distinct set",
 "After any sequence of registrations, a registry of equal-length sets (8-bit or 16-bit) has given distinct sets distinct ids, numbered from 0 in order of first registration, and has given the same id again to a set holding the same ids in any order; no later registration changes what an earlier id refers to. Retrieving an id returns the registered set in ascending order, searching for a set in ascending order finds exactly the id it was given, and an unknown id or unregistered set is reported as not found without changing the registry. Registering an empty set is refused by panicking, and so is a new set when every id of the id width is taken, while sets already registered keep their ids.",
 ["histories"],"every sequence of register, search and retrieve operations, including permuted and repeated sets, sets sharing prefixes and registries filled to their last id",
 "Tests register one set into an empty table and search four hand-made tables; no history, no reordering and no full table is tried.",
 ["pkg/storage/table8.go","pkg/storage/table16.go"],[("sort-then-find-then-append registration","pkg/storage/table8.go, pkg/storage/table16.go")])
p("S05","Mixed-size set collections keep one stable id per distinct set",
 "After any sequence of registrations of sets of any mixture of lengths, a collection (8-bit or 16-bit) has given every distinct set its own id whose upper half is the set's length minus one and whose lower half numbers the sets of that length from 0 in order of first registration; the same ids in another order get the same id, and no id ever changes meaning. Retrieving an id returns the registered set in ascending order and searching for a set in ascending order finds exactly its id, while empty sets, unregistered sets of any length (longer than everything registered included) and unassigned ids are reported as not found, without panicking and without changing the collection. Registering an empty set, a new set of a length whose ids are used up, or a set of a length the id cannot express is refused by panicking and disturbs nothing registered before.",
 ["histories"],"every sequence of register, search and retrieve operations over sets of mixed lengths, including lengths never seen, empty sets, ids in unassigned rows and columns, and exhausted lengths",
 "Tests register single sets of up to four elements into an empty collection and never search for a set longer than the stored ones.",
 ["pkg/storage/collection8.go","pkg/storage/collection16.go","pkg/storage/table8.go","pkg/storage/table16.go"],[("column per set length, id composed of column and row","pkg/storage/collection8.go, pkg/storage/collection16.go")])
p("S06","Composed ids split and combine without loss",
 "Combining an upper and a lower id into one of twice the width and taking it apart again returns exactly the two halves, and taking any composed id apart and combining the halves returns it unchanged, for 8+8 and for 16+16 bits. The composed value equals upper * 2^width + lower, so distinct pairs give distinct ids and ids order by upper half first. Conversions to plain integers keep the value.",
 ["inputs"],"all 65536 16-bit ids and pairs of 8-bit ids exhaustively; 32-bit ids and pairs of 16-bit ids generated with bit-boundary bias",
 "Tests check five 16-bit and three 32-bit literals.",
 ["pkg/storage/id8.go","pkg/storage/id16.go","pkg/storage/id32.go"],[("Combine8/Upper/Lower, Combine16/Upper16/Lower16","pkg/storage/id16.go, pkg/storage/id32.go")])

p("S07","Sets and registries are independent of one another",
 "What is done with one set, collection or registry never changes or depends on another one that does not share its data: however operations on separate sets and registries are interleaved, down to the single pieces in which they are read and written, each gives the results, contents and bytes it gives alone. Separate ones may be used by separate goroutines at the same time, without data races and with the same results.",
 ["histories","schedules"],"every group of up to five histories over separate sets and registries, of related content or not, in every order of their steps, and at the same time",
 "No existing test uses two registries or streams alternately, or any from several goroutines.",
 ["pkg/storage/set8.go","pkg/storage/set16.go","pkg/storage/table8.go","pkg/storage/table16.go","pkg/storage/collection8.go","pkg/storage/collection16.go"],
 [("codecs without shared buffers","pkg/storage/set8.go, pkg/storage/set16.go"),("state held per registry","pkg/storage/table8.go, pkg/storage/table16.go, pkg/storage/collection8.go, pkg/storage/collection16.go")])
p("D01","The grammar tag registry keeps one stable id per tag name",
 "After any sequence of registrations and lookups, ids are numbered in order of first registration, a tag name keeps the id and the parent it was first registered with whatever parent later registrations name, and different names have different ids; a missing parent is recorded as the no-parent marker '----'. Lookup by name finds exactly the registered names, compared exactly, lookup by id returns exactly the recorded tag, anything else is reported as not found, and lookups change nothing. A registry built from a list keeps that list's order, filling missing parents, without altering the list, and a new name is refused by panicking once all 256 ids are in use.",
 ["histories"],"every sequence of register, find and get operations over names that collide, differ in case or length, are empty or non-ASCII, up to and beyond 256 tags",
 "Tests register at most two new names into registries of at most two tags; no repeated name with a new parent, no full registry.",
 ["pkg/dag/idx.go","pkg/dag/tag.go"],[("find-or-append registration","pkg/dag/idx.go Index/Find/Get"),("parent defaulting","pkg/dag/idx.go NewIndex, pkg/dag/tag.go NewTag")])
p("D02","Grammar tags have one exact binary form and read back unchanged",
 "A tag name is written as exactly its 4 bytes, the empty name and the marker '----' as 4 spaces, and 4 spaces read back as '----'; a tag is written as its parent then its name, and a tag registry as a one-byte count then its tags in order. Reading back what was written yields the same tags in the same order with the same ids (empty names as '----'), into any target whatever it held before, and consumes exactly the bytes written, so data that follows stays intact, as does a registry copied from the target before; the bytes a name was encoded to or decoded from belong to the caller, who may overwrite them without changing any name. A name that is not empty and not exactly 4 bytes long, or a registry of more than 255 tags, cannot be expressed and is refused with an error, at every level.",
 ["inputs"],"every 4-byte name including arbitrary and non-ASCII bytes and near-blank names, names of other lengths, every registry of 0 to 300 tags, and every position on a shared stream",
 "Tests cover four names, two tags and registries of up to two tags; no name close to blank, no registry near the count limit, no writing of a whole registry.",
 ["pkg/dag/name.go","pkg/dag/tag.go","pkg/dag/idx.go"],[("MarshalBinary/UnmarshalBinary, BinaryReadFrom/BinaryWriteTo","pkg/dag/name.go, pkg/dag/tag.go, pkg/dag/idx.go")])
p("D03","Damaged tag data and failing streams are reported, never half-accepted",
 "Reading a tag name, tag or tag registry from data that ends early, at any byte, or from a stream that fails, returns an error, and splitting the same bytes into other pieces never changes the outcome. Writing one to a destination that fails or accepts only part of the bytes, at any byte, returns an error. Decoding a name from a byte string that is not exactly 4 bytes long is an error, and nothing panics.",
 ["inputs","fault_sequences"],"every registry, every truncation point, every chunking and every byte at which the reader or writer fails",
 "Tests truncate one registry at one place and use in-memory buffers only; no failing reader or writer is ever used.",
 ["pkg/dag/name.go","pkg/dag/tag.go","pkg/dag/idx.go"],[("error propagation in BinaryReadFrom/BinaryWriteTo","pkg/dag/*.go")])
p("D04","Path resolution splits a path losslessly and reports whether it exists",
 "Resolving any path returns a directory, a base name and an extension that, put together, are exactly the absolute clean form of the path; the directory ends in a separator and the extension is empty or starts with the last dot of the final element. It reports an error exactly when nothing exists at that path (or it cannot be examined), still returning the parts, and it creates or changes nothing.",
 ["inputs"],"relative and absolute paths, dots, double dots, repeated separators, dotfiles, several dots, non-ASCII names; existing files, directories, missing entries and paths through a file",
 "No test covers this code.",
 ["pkg/dag/utils.go"],[("ResolveFilePath","pkg/dag/utils.go")])
p("D05","Tag sets and child maps render to text completely and in order",
 "The text of a tag set is its tag names in order joined by commas, and the text of a tag or tag name is the name itself. The text of a map from letters to node ids or nodes lists every entry exactly once (letter and its value) when it has fewer than ten entries and otherwise states the number of entries. Rendering never changes what is rendered and never fails, for any letters including unusual ones.",
 ["inputs"],"every tag set and every letter map from empty to beyond ten entries, with arbitrary letters",
 "No test renders a tag set or a map.",
 ["pkg/dag/tagset.go","pkg/dag/map.go","pkg/dag/tag.go"],[("String methods","pkg/dag/tagset.go, pkg/dag/map.go")])
p("D06","Tag registries are independent of one another and of the lists they came from",
 "What is done with one tag registry, or while one is read or written, never changes or depends on another one: however operations on separate registries are interleaved, down to the single pieces in which they, tags and names are read and written, each gives the results, contents and bytes it gives alone. Registries made from one and the same list of tags stay separate, and the list stays as it was. Separate ones may be used by separate goroutines at the same time, without data races.",
 ["histories","schedules"],"every group of up to five histories over separate registries, tags and names, made from separate lists or one, in every order of their steps, and at the same time",
 "No existing test uses two registries alternately, makes two from one list, or uses any from several goroutines.",
 ["pkg/dag/idx.go","pkg/dag/tag.go","pkg/dag/name.go"],
 [("NewIndex copies the list","pkg/dag/idx.go"),("codecs without shared buffers","pkg/dag/idx.go, pkg/dag/tag.go, pkg/dag/name.go")])
p("P01","Data paths of a domain are predictable, and creating them touches nothing else",
 "The data path of a domain is the domain name joined to the common data path, and the path of a domain file is the file name joined to that, both relative to the working directory and in clean form. Creating a domain's data path makes that directory exist with all its parents, succeeds when it already exists without disturbing what is in it, creates nothing else, and reports an error when something that is not a directory is in the way. It never panics.",
 ["inputs","configurations"],"every domain and file name including nested, dotted and non-ASCII ones, in working directories where the path is absent, partly present, present with content or obstructed",
 "No test covers this code.",
 ["pkg/common/utils.go"],[("DomainDataPath, DomainFilePath, MakeDomainDataPath","pkg/common/utils.go")])

p("I01","A word lookup returns exactly the tag sets recorded for that word",
 "After any sequence of adding words and attaching tag sets, looking a word up succeeds exactly when that sequence of letters is an added word or a beginning of one, and returns exactly the distinct tag sets attached to that word, each with exactly the tags it was attached with (as registered, parents included), and none for a mere beginning. What other words were added or tagged, and in what order, makes no difference; attaching a tag set already attached changes nothing, an unregistered tag name is refused with an error and changes nothing, and attaching no tags at all records nothing. Looking up or adding an empty word is an error.",
 ["histories"],"every interleaving of adding words (shared prefixes, Cyrillic and other letters, permuted order), registering tags, attaching tag sets and looking words up",
 "The repository's own index tests add a few words without tags and cannot even be built offline; no tag set is ever looked up after it was attached, and no history mixes words sharing beginnings.",
 ["internal/index/idx.go","internal/index/node.go","internal/index/items.go","internal/index/tagset_index.go","internal/index/variant_idx.go"],
 [("letter tree with per-node collection id","internal/index/idx.go AddToNode/FetchFromItem"),("collection replacement on attach","internal/index/node.go AddTagSet/TagSets")],
 state=[("items","nodes of the letter tree","internal/index/items.go"),("childrenMap","letter to child id per node","internal/index/idx.go")])
p("I02","The letter tree is consistent: nodes, words, children and counts agree",
 "After any history, the nodes are exactly the distinct non-empty beginnings of the added words, numbered from 1 without gaps in order of creation, and the node count says how many there are; the word of a node spells the letters from the root to it, and reaching a node by id, by string, by letters, or letter by letter from any ancestor gives the same node. The children of a node are exactly the letters that extend it, mapped to the right nodes, and the word count is the number of words having tag sets. Node ids never change, ids out of range are refused with an error, and describing any node as text never fails and yields valid text containing its word's letters.",
 ["histories"],"every history of additions from the root and from inner nodes, and every node and id afterwards",
 "Existing index tests check node counts of a few short word lists and cannot be built offline; ids, children and words are never cross-checked.",
 ["internal/index/idx.go","internal/index/items.go","internal/index/node.go","internal/index/item_def.go"],
 [("id allocation","internal/index/items.go NewChild"),("children map","internal/index/idx.go GetChildrenIDMap/GetChildrenMap")])
p("I03","A saved and reloaded index is the same index, and stays usable",
 "Writing any index and reading it back, into a new or an already used index, gives an index that answers everything the same: every word and non-word lookup, tag sets, tags and parents, node ids, words and children, node and word counts, tag set and collection ids. Writing it again produces the same bytes. The reloaded index can be extended further and then behaves exactly as the original would when extended the same way.",
 ["histories"],"every history of additions, then write/read (repeated, or into an index with other content), then further additions",
 "No existing test writes or reads a whole index; element codecs are tested on small literals and cannot be built offline.",
 ["internal/index/idx.go","internal/index/items.go","internal/index/item_def.go","internal/index/tagset_index.go","internal/index/variant_idx.go"],
 [("BinaryWriteTo/BinaryReadFrom","internal/index/idx.go"),("children rebuild on load","internal/index/idx.go rebuildChildrenIndex")])
p("I04","Optimising an index loses nothing and removes only what no word uses",
 "Optimising an index changes no answer: every lookup, word, node id, children, count, tag and tag set stays exactly as before, and the index can be extended, saved and reloaded afterwards as if it had not been optimised. Afterwards every stored collection of tag sets is used by some word, and optimising again changes nothing. This holds at any point of any history, on new and reloaded indexes alike.",
 ["histories"],"every history of additions with optimisation, saving and reloading interleaved anywhere",
 "No existing test optimises an index.",
 ["internal/index/idx.go"],[("Optimize: keep used collections, renumber and rewrite nodes","internal/index/idx.go")])
p("I05","The compiled index file follows one exact layout",
 "A written index is exactly: section 'TD' with a one-byte count of tags and parent and name of each; section 'TI' with the tag sets grouped by size, section 'CD' with the collections of tag sets grouped by size; and section 'ID' with the nodes, each as parent, own id, letter and collection id; all section names zero-terminated, all numbers big-endian with fixed widths (set groups 32-bit count, sets per group 16-bit, tags per set 8-bit; collection groups 8-bit, collections per group 32-bit, sets per collection 8-bit with 32-bit ids; 32-bit node count including the unused node 0, 32-bit node fields). Any valid file of that layout loads, and yields exactly the words, tags and tag sets it encodes, and an index read from a longer stream consumes exactly its own bytes. Content that does not fit a count field is refused with an error when written, never written as something else.",
 ["inputs","histories"],"every index reachable by a history, against an independent encoder and decoder of the layout; generated files; contents at and over each count limit",
 "Layout is tested only for single small elements, and not at any limit; the tests cannot be built offline.",
 ["internal/index/idx.go","internal/index/items.go","internal/index/item_def.go","internal/index/tagset_def.go","internal/index/tagset_table.go","internal/index/tagset_index.go","internal/index/variant_def.go","internal/index/variant_table.go","internal/index/variant_idx.go","pkg/dag/idx.go"],
 [("BinaryWriteTo/BinaryReadFrom of every element","internal/index/*.go")])
p("I06","A truncated or mislabelled index file, or a failing disk, is always reported",
 "Loading an index from data cut short at any byte, from data whose section names are wrong or out of order, or from a stream that fails at any byte returns an error, never a partly loaded index reported as good, and how the stream splits the bytes never changes the outcome. Writing an index to a destination that fails or accepts only part of the bytes, at any byte, returns an error. Neither ever panics or hangs.",
 ["inputs","fault_sequences"],"every index, every truncation point, every section-name damage, every chunking and every failing byte in either direction",
 "No existing test damages index data or makes a reader or writer fail.",
 ["internal/index/idx.go","internal/index/items.go","internal/index/item_def.go"],[("section checks and error propagation","internal/index/idx.go")])
p("I07","Tag set and collection registries of the index keep one stable id per content",
 "After any sequence of registrations, a registry of tag sets or of tag-set collections has given each distinct content, in whatever order its members are named, exactly one id that never changes meaning: tag set ids combine (length - 1) with a per-length number from 0, collection ids combine the length with a per-length number from 0, and an empty collection is always id 0. Searching finds exactly what was registered, retrieval returns the members in ascending order, the lists of known ids name exactly the ids in use, and the size is their number; unknown ids and contents are not found, with no change to the registry. A new content of a length whose ids are used up is refused by panicking, never given another's id.",
 ["histories"],"every history of registrations and searches over tag sets and collections of mixed lengths, permuted, repeated and up to exhausted id ranges",
 "Existing tests register single items or look at prefilled literals and cannot be built offline.",
 ["internal/index/tagset_index.go","internal/index/tagset_table.go","internal/index/tagset_def.go","internal/index/tagset_id.go","internal/index/variant_idx.go","internal/index/variant_table.go","internal/index/variant_def.go","internal/index/variant_id.go"],
 [("table per length, id composed of table and row","internal/index/tagset_index.go, internal/index/variant_idx.go")])
p("I08","Lookups change nothing and are safe from many goroutines at once",
 "Looking words up (by string, letters or node id, found or not), reading tag sets, words, children and counts never changes the index: the written form and every later answer stay the same. Any number of goroutines may do so at once on the same index, built in memory or loaded from a file, without data races or crashes, and each gets the same answers as if it were alone.",
 ["schedules","histories"],"every index and every concurrent mixture of lookups, under the race detector",
 "No existing test looks anything up from more than one goroutine, or compares an index before and after lookups.",
 ["internal/index/idx.go","internal/index/node.go"],[("read-only lookup path","internal/index/idx.go FetchFromItem/GetChildrenMap")])
p("I09","Tag sets and collections compare, extend and serialise exactly",
 "A tag set or collection is written as a one-byte count followed by its members (one byte, respectively four bytes big-endian each) and reads back unchanged into any variable, consuming exactly its own bytes and leaving what was copied from that variable before as it was; byte counts reported are exact; one of more than 255 members is refused with an error, and truncated data is refused at any byte. Equality is equality of length and of every position, membership is exact, and adding a member gives a sorted collection with that member and all previous ones exactly once, leaving the original as it was. Groups of them are written with their own counts and read back in order in the same way, and a group too large for its count field is refused.",
 ["inputs"],"every tag set and collection of 0 to 300 members, every group including empty ones and limits, every truncation point and chunking",
 "Existing tests use small literals and cannot be built offline; no limit, truncation or aliasing is tried.",
 ["internal/index/tagset_def.go","internal/index/tagset_table.go","internal/index/variant_def.go","internal/index/variant_table.go"],[("codecs, EqualTo, Has, Add","internal/index/tagset_def.go, internal/index/variant_def.go")])

p("I10","An index file of any content is refused or gives an index that works",
 "Loading an index from bytes of any content whatsoever ends, without crashing, and takes memory only in proportion to the bytes actually there, however large the numbers written in them. A file is refused with an error if it refers to what it does not hold: a tag set with an unknown tag, a collection with an unknown tag set, a node with an unknown collection, without root, under another number than its place in the file, with a parent that does not precede it, or with the same parent and letter as another. Whatever does load answers every lookup, of every word and of every node by number, without crashing or running forever.",
 ["inputs"],"every sequence of bytes, in particular every index file with any of its numbers, bytes or bits changed, and bytes removed, inserted or repeated",
 "No existing test reads an index file that is not exactly as written, and none of this can be built offline.",
 ["internal/index/idx.go","internal/index/items.go","internal/index/item_def.go","internal/index/tagset_index.go","internal/index/variant_table.go","internal/index/node.go"],
 [("BinaryReadFrom of the index and its parts, checkReferences","internal/index/idx.go, internal/index/items.go"),("Word: the way up to the root","internal/index/node.go")])

p("I11","Indexes are independent of one another and of what they are given",
 "What is done with one index never changes or depends on another one: however operations on separate indexes (adding words and tag sets, looking up, optimising, saving, loading) are interleaved, down to the single pieces in which they are read and written, each answers and saves as it does alone, and nodes kept from it still answer the same. Separate indexes may be used by separate goroutines at the same time, without data races. Letters, tag names and data given to an index are not changed by it and stay the caller's: altering them afterwards changes nothing in the index, and neither does altering the tag sets and child maps it returned.",
 ["histories","schedules"],"every group of up to four histories over separate indexes, with related words and tags or not, in every order of their steps, and at the same time; every history in which everything given and taken is written over",
 "No existing test uses two indexes, and none of this can be built offline.",
 ["internal/index/idx.go","internal/index/node.go","internal/index/items.go","internal/index/tagset_index.go","internal/index/variant_idx.go"],
 [("state held per index","internal/index/idx.go"),("tag sets and child maps built per call","internal/index/node.go, internal/index/idx.go")])
p("O01","Compiling a dictionary yields exactly the words and tags it lists",
 "For any well-formed OpenCorpora dictionary, compiling it and loading the result gives an index in which every form of every lemma is found with exactly the tag sets listed for it (the lemma's tags together with the form's own), accumulated over all lemmas containing that form, and nothing else is found; the tags are the dictionary's grammemes with their parents, in order. Restrictions, links, link types, comments, processing instructions, whitespace, attribute order and the way text is escaped or split make no difference. Compiling the same dictionary again gives the same file. The dictionary compiled is the file named, and the index goes to the file named, wherever in reach these are and whatever the data directory holds.",
 ["inputs"],"every dictionary built from generated grammemes, lemmas and forms, in every equivalent spelling of the XML",
 "No existing test parses a dictionary; the only loader tests need the network and cannot be built offline.",
 ["pkg/opencorpora/parser.go","pkg/opencorpora/loader.go","pkg/opencorpora/form_item.go","internal/index/idx.go"],
 [("path-driven element handlers","pkg/opencorpora/parser.go"),("ParseUpdate, SaveIndex, LoadIndex","pkg/opencorpora/loader.go")])
p("O02","A broken dictionary is reported and never replaces a good compiled index",
 "Compiling a dictionary that is truncated at any byte, not well-formed, empty, has unknown elements, lacks a required attribute or holds other text where a number is due, uses an undefined tag, defines a tag whose non-empty name is not four bytes long, or has too many tags returns an error, whatever the point at which the damage shows. It does not panic, and it leaves an index compiled before exactly as it was and creates none where there was none. A missing dictionary is reported as an error in the same way.",
 ["inputs","fault_sequences"],"every generated dictionary with every kind and place of damage, with and without a previously compiled index",
 "No existing test parses a damaged dictionary.",
 ["pkg/opencorpora/parser.go","pkg/opencorpora/loader.go"],[("handler errors","pkg/opencorpora/parser.go"),("index saved only after a successful parse","pkg/opencorpora/loader.go ParseUpdate")])
p("O03","Unpacking a download gives the exact dictionary or an error, never half of one",
 "Unpacking a downloaded archive succeeds exactly when the archive is a complete, undamaged bzip2 stream, and then the unpacked dictionary is byte for byte the packed one, replacing any previous one entirely. A missing, truncated or damaged archive is reported as an error and leaves no partly unpacked dictionary that a later run would take for a good one. The archive itself is never changed.",
 ["inputs","fault_sequences"],"every payload, several bzip2 block sizes and concatenated streams, every truncation point and damaged bit, with and without a previous dictionary",
 "The only unpacking test needs a real download and cannot be built offline.",
 ["pkg/opencorpora/loader.go"],[("UnpackUpdate","pkg/opencorpora/loader.go")])
p("O04","An update is required exactly when the server has something newer",
 "Asked whether an update is required, the loader answers yes without contacting the server when nothing has been downloaded; otherwise yes exactly when the server answers 200 with a Last-Modified date later than the local file's or unreadable, and no when that date is not later or absent. An unreachable server, any other status, or a local file that cannot be examined is an error and never a yes. Asking changes no file and never panics.",
 ["inputs","configurations","fault_sequences"],"every combination of local file state and time, server status, presence, format and value of the date, and network failure",
 "The only such test contacts the real server and cannot be built or run offline.",
 ["pkg/opencorpora/loader.go"],[("IsUpdateRequired","pkg/opencorpora/loader.go")])
p("O05","An update ends with an index of the newest dictionary, or a reported failure",
 "Over any history of updates with network, server, archive and disk failures (any operation on files failing) at any point: when an update reports success, a compiled index exists and holds exactly the dictionary last offered and fetched; when it reports failure, the previous compiled index is still there, unchanged and loadable. A failure never leaves a partial or wrong download or dictionary behind that a later update would take for current, so the first update run after the failures stop always succeeds and ends up with the server's dictionary. Forcing recompiles from what is already there without downloading it again when nothing is newer, and falls back to the downloaded archive when the server cannot be asked; a failed update which has fetched nothing keeps that archive unless it is damaged. All of this holds however the dates of the dictionaries published compare to the times of the local files, and when downloading, unpacking and compiling have been done one by one in between.",
 ["histories","fault_sequences"],"every sequence of updates, forced or not, with server content and dates changing and every request failing by status, refused connection, cut body or damaged archive",
 "No existing test runs an update against anything but the real server, and none can be built offline.",
 ["pkg/opencorpora/loader.go"],[("Update: check, download, unpack, compile","pkg/opencorpora/loader.go")],
 state=[("downloaded archive, unpacked dictionary, compiled index","the three files whose presence and times steer the next update","pkg/opencorpora/loader.go")])
p("O06","A failed save of a compiled index is reported and leaves no damaged index",
 "Saving an index to a file either reports success and leaves a complete file from which the same index loads, or reports an error and leaves no partly written index under that name, whatever byte the disk fills up at or however the destination is obstructed. Saving changes no answer of the index being saved, so saving can be repeated. Loading reports an error for a missing, unreadable, incomplete or invalid file (one with references to nothing, for example), however far reading it got.",
 ["inputs","fault_sequences"],"every index, every byte at which writing fails, destinations in missing directories, on directories and over existing files",
 "No existing test saves an index to a file.",
 ["pkg/opencorpora/loader.go"],[("SaveIndex, LoadIndex","pkg/opencorpora/loader.go")])
p("O07","The loader touches only its own three files in its data directory",
 "Whatever it is asked to do and however it fails, a loader reads and writes only the downloaded archive, the unpacked dictionary and the compiled index in its data directory, creating that directory when needed; it creates, changes or removes nothing anywhere else, in particular not in the working directory when another data directory was chosen. Every path it uses follows the directory it was given at creation or afterwards, an empty one meaning the default directory. After a failed or finished operation no other (temporary) files are left behind.",
 ["histories","configurations"],"every data directory (nested, relative, missing, default) and every history of loader operations, succeeding and failing",
 "No existing test looks at what files operations create.",
 ["pkg/opencorpora/loader.go","pkg/common/utils.go"],[("filePath and friends","pkg/opencorpora/loader.go")])
p("O08","Queries on an in-memory dictionary return exactly the matching entries",
 "Searching a lemma list returns exactly the lemmas whose base form is the given word, in list order, with their content intact, skipping absent entries. The tag names taken from a word form or category list are exactly its categories in order (absent ones of a form skipped), and a grammeme's tag has its name and its parent, or the no-parent marker when it has none. Attribute lists give the first attribute of the name asked for, numbers as decimal integers, and an error for missing attributes or other text; none of this changes the dictionary, and texts of entries list every part in order. Every query answers for the entries as they are at that time, and what an earlier query returned stays as it was and belongs to the caller.",
 ["inputs"],"every lemma list, form, category list, grammeme and attribute list, including absent lemmas and absent categories of forms, duplicates and unusual text",
 "Existing tests check the text of a category only, and cannot be built offline.",
 ["pkg/opencorpora/lemma_list.go","pkg/opencorpora/lemmata.go","pkg/opencorpora/form_item.go","pkg/opencorpora/category_list.go","pkg/opencorpora/grammeme_item.go","pkg/opencorpora/xmlutils.go"],[("Search, GetTagsFromSet, GrammemeNames, Tag, Attr","pkg/opencorpora/*.go")])
p("O09","An update killed at any moment leaves nothing a later update takes for good",
 "If the process is killed at any moment of an update from a server offering a good archive, the downloaded archive, the unpacked dictionary and the compiled index are afterwards each still the previous one or a complete new one, or absent if there was none; none is ever partly written, and nothing outside the data directory changes. The next update, forced or not, whether or not the server has something newer by then, succeeds and ends with an index of exactly the dictionary on the server. The one after that downloads nothing and leaves that index. Killed while the server offers a damaged archive or one of no dictionary, the files are likewise whole (that archive may be there, or none); a later update may fail, which leaves the previous index, but never succeeds without the dictionary then on the server, and succeeds once something newer is published. All of this holds however the dates of the dictionaries published compare to the times of the local files.",
 ["crash_points","histories"],"every moment of every update in every history: before and in the middle of every operation on files, with any of the three files present, missing or outdated beforehand",
 "No existing test runs an update, none is ever interrupted, and none looks at what the next one makes of what was left.",
 ["pkg/opencorpora/loader.go"],[("Update, DownloadUpdate, UnpackUpdate, SaveIndex: what is written where, and what a later update takes for current","pkg/opencorpora/loader.go")],
 state=[("downloaded archive, unpacked dictionary, compiled index","the three files whose presence and times steer the next update","pkg/opencorpora/loader.go")])
p("O10","Data directories are independent of one another",
 "Loaders of separate data directories do not influence each other: unpacking, compiling, saving and loading in one directory gives the same files and the same index, whatever is done in others before, in between or at the same time from other goroutines, without data races. An index loaded stays what it is when its directory gets another dictionary, and loading after that gives the new one.",
 ["histories","schedules"],"every group of up to four directories with up to three dictionaries each, related to one another or not, in every order of their steps, and at the same time",
 "No existing test uses two directories or loads twice, and none of this can be built offline.",
 ["pkg/opencorpora/loader.go","pkg/opencorpora/parser.go","internal/index/idx.go"],
 [("state held per loader and parser","pkg/opencorpora/loader.go, pkg/opencorpora/parser.go")])
p("C01","The query console survives any input line and reports what the index holds",
 "Whatever sequence of lines is typed, the query console answers each and stays running until told to exit or the input ends, then exits with status 0; no line makes it crash. A typed word is answered with every tag set the index holds for it or with not found, and a request for a tag, tag set, collection or node shows exactly what the index holds under that name or number, for every existing one, and reports an error for a number or name that does not exist, including negative and huge ones. A console started without a loadable index, or told to reload one that cannot be loaded, exits with a failure status.",
 ["inputs","histories"],"every compiled index and every sequence of lines: words, commands with right, wrong, missing, extra, negative, huge, hexadecimal and non-numeric arguments",
 "The console has no tests and cannot be built offline.",
 ["cmd/opencorpora_test/main.go","internal/index/idx.go","internal/index/variant_idx.go"],[("processInput and the command handlers","cmd/opencorpora_test/main.go")])
p("C02","The update command's exit status tells whether the index is up to date",
 "The update command exits with 0 exactly when the update succeeded and a loadable compiled index of the dictionary is in the default data directory of its working directory, and otherwise with a non-zero status, leaving a previous index untouched. By default it rebuilds the index from what was downloaded before even if nothing is newer; with forcing switched off it leaves an up-to-date index alone and builds a missing one. Asking for help changes nothing and exits with 0.",
 ["configurations","fault_sequences"],"every combination of flags, files present beforehand and server behaviour",
 "The command has no tests and cannot be built offline.",
 ["cmd/opencorpora_update/main.go","pkg/opencorpora/loader.go"],[("main","cmd/opencorpora_update/main.go")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
