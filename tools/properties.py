TESTS = "The existing tests pin a few golden files and hand written cases; "
EXPL = "Exhaustive within the stated bounds on the real code; trusts the independent reference model in harness/ref and harness/checks. "

prop("C01", "A resource set is a faithful map from (type, id, language) to data",
 "After any sequence of adding, replacing and deleting resources (deleting is setting nil data), interleaved with any observations, Get, Count, Walk, WalkType and the written object all show exactly the resources of a plain map keyed by type, id and language: the last data set for each key, nothing stale, nothing missing, nothing twice. Deleting something that does not exist changes nothing, and an invalid identifier (zero id, empty name, name containing NUL) is refused with an error and changes nothing. Empty non-nil data is a resource of its own, and ids, names and languages are compared exactly (case sensitive, an id never equals a name).",
 ["histories", "inputs"], "Every sequence of Set/replace/delete/observe operations up to a depth over small key sets, plus pairs of edge-case keys",
 TESTS + "caches (ordered keys) make the outcome depend on the order of operations and observations, and only a few orders are tested.",
 ["winres.go", "rsrc.go", "id.go"], [("set/delete invalidate the cached orders", "winres.go: ResourceSet.set, ResourceSet.delete"), ("lazy ordering", "rsrc.go: typeEntry.order, resourceEntry.order")],
 EXPL + "Keys: two or three types, ids and languages per history, depth 4-6; volume sets up to 3000 resources.",
 state=[("orderedKeys", "cached order of resources and languages", "rsrc.go: typeEntry, resourceEntry")], observe=["Get", "Count", "Walk", "WalkType", "WriteObject"])

prop("C02", "Output depends only on the content of the set, in canonical order",
 "Two resource sets with the same resources produce byte identical objects and patched executables, whatever the order in which resources were added, replaced or deleted, whatever was observed in between, and however often they are written. Walk, WalkType and the written directory list resources in the order that the PE format requires: types, then resources, then languages; names before ids, names in ascending case sensitive order of their UTF-16 code units, ids and languages in ascending numeric order.",
 ["histories", "inputs"], "All insertion orders of small sets with observations and detours in between, pairs of identifiers, large shuffled sets",
 TESTS + "Go maps iterate in random order, so a missing sort shows only for some contents, histories and runs.",
 ["rsrc.go", "id.go", "winres.go"], [("ordering", "rsrc.go: order; id.go: lessThan"), ("name table", "rsrc.go: prepare")],
 EXPL + "Sets of up to 5 keys in all orders.", observe=["WriteObject", "WriteToEXE", "Walk", "WalkType"])

prop("C03", "WriteObject produces a valid, linkable COFF object holding exactly the set",
 "For every resource set and architecture (386, amd64, arm, arm64), WriteObject either returns an error or writes a well formed COFF object with the right machine type and one .rsrc section: header sizes, offsets and counts agree with the file, every resource data entry has exactly one image-relative relocation of the architecture's type against the section symbol, and nothing overlaps or is misaligned. After linking at any address, a strict reader finds exactly the resources of the set with their exact data. Sets that do not fit the format (name longer than 65535 UTF-16 units, more than 65535 entries in one directory or relocations, 4 GB or more) and unknown architectures are refused with an error instead of being written truncated.",
 ["inputs", "configurations"], "All combinations, within bounds, of identifiers, name lengths, data sizes, counts and architectures, up to the limits of the format",
 TESTS + "they compare golden files made by the library itself for a handful of contents, so boundary sizes, counts and names are not reached.",
 ["coff.go", "rsrc.go", "winres.go"], [("layout", "rsrc.go: write, prepare, fullSize, dirSize"), ("relocations, symbol", "coff.go: writeObject, writeRelocTable, writeSymbol"), ("limits", "rsrc.go: checkLimits")],
 EXPL + "Checked by an independent COFF and resource directory parser.", observe=["WriteObject"])

prop("C04", "What is written to an executable is what is loaded back",
 "For every resource set and every valid executable that WriteToEXE accepts, LoadFromEXE on the result returns exactly the resources of the set, with identical identifiers, languages and data. LoadFromEXE also returns exactly the resources of executables whose resource section was laid out by other tools (data, names and tables in any valid order, alignment and position, shared or repeated names, padding, unsorted entries). The written set itself is not changed, and the position of the reader before the call does not matter.",
 ["inputs", "configurations", "histories"], "All combinations, within bounds, of executable layouts, foreign resource layouts, identifiers, data sizes, and load/modify/write/load histories",
 TESTS + "they load a few real executables made by a few compilers.",
 ["rsrc.go", "exe.go", "winres.go"], [("reader", "rsrc.go: read, walk, readDirTable, readName, readData"), ("section lookup", "exe.go: extractRSRCSection")],
 EXPL + "Resource sections are built by an independent builder in 32 styles.", observe=["LoadFromEXE", "WriteToEXE"])

prop("C05", "Loading a single type gives exactly the resources of that type",
 "LoadFromEXESingleType returns exactly the resources that LoadFromEXE returns for that type, and nothing else, except that asking for icon groups also gives all icon images and asking for cursor groups also gives all cursor images, so that the groups are usable. The RT_ constants designate the standard types of the platform. A type that is absent gives an empty set, and type zero is refused.",
 ["inputs"], "All subsets of a mix of special and look-alike types, in own and foreign layouts, queried for every type",
 TESTS + "they query a few types of one executable.",
 ["rsrc.go", "winres.go"], [("type filter", "rsrc.go: ResourceSet.read"), ("zero type", "winres.go: LoadFromEXESingleType")],
 EXPL, observe=["LoadFromEXESingleType"])

prop("C06", "Patching an executable preserves everything that is not a resource",
 "For every valid executable that WriteToEXE accepts, the result keeps the DOS stub, every header field unrelated to resources, the data, characteristics and size of every other section, and every byte that follows the sections, unchanged. Other sections stay at their virtual address, except that the relocation section may move when it directly follows .rsrc and is last; data directories, the COFF symbol table pointer and the certificate pointer keep designating the same content.",
 ["inputs", "configurations"], "All combinations, within a deviation bound, of section arrangements, PE32/PE32+, alignments, gaps, overlays, symbol tables, signatures, header room, old and new resource sizes",
 TESTS + "they patch about ten real executables; most combinations of section order, alignment, growth and overlay are never exercised.",
 ["exe.go"], [("layout decisions", "exe.go: preparePEWriter, requiresNewSection, updateHeaders"), ("copying", "exe.go: writeEXE")],
 EXPL + "Executables are built and re-read by an independent PE builder/parser. Slack after section headers is not considered content.", observe=["WriteToEXE"])

prop("C07", "A patched executable is a valid image whose resource directory is exact",
 "For every valid executable that WriteToEXE accepts, the result is a structurally valid image: aligned, in bounds, non overlapping sections in memory and in the file, SizeOfImage and SizeOfInitializedData that match the sections, headers that do not run into data. The resource directory entry designates one section, with the exact size of the new content and zero padding, and a strict reader finds exactly the new resources there.",
 ["inputs", "configurations"], "Same space as C06, plus every new resource size around alignment boundaries",
 TESTS + "they compare checksums of a few patched files; growth across alignment boundaries in each layout is not covered.",
 ["exe.go"], [("header arithmetic", "exe.go: updateHeaders, fillSectionsInfo"), ("relocation of data entries", "exe.go: applyReloc")],
 EXPL + "One known finding: SizeOfInitializedData counts a newly added section twice.", observe=["WriteToEXE"])

prop("C08", "The PE checksum of a patched executable is right or absent",
 "After WriteToEXE, the checksum field is the PE checksum of the whole written file if the original had a non zero checksum or ForceCheckSum was requested, and zero otherwise. This holds for every length and content of the file and however the source delivers its bytes.",
 ["inputs", "configurations"], "All layouts of C06, and contents and lengths that exercise carries, odd tails and partial reads",
 TESTS + "one unit test and two patched files; odd lengths, carries and fragmented writes combine in ways they do not reach.",
 ["pesum.go", "exe.go"], [("incremental checksum", "pesum.go: peCheckSum"), ("two passes", "exe.go: replaceRSRCSection")],
 EXPL + "Reference: straightforward whole-file algorithm.", observe=["WriteToEXE", "ForceCheckSum"])

prop("C09", "Signed executables are only modified as the caller allowed",
 "Without permission, WriteToEXE on an executable with a certificate table returns ErrSignedPE and writes nothing to the destination. With RemoveSignature the certificate directory entry is cleared and a certificate table that ends the file is dropped while everything else that follows the sections is kept; with IgnoreSignature the table is kept intact and its directory entry still designates it. IsSignedEXE tells exactly whether the certificate entry is set and leaves the reader at the position it was.",
 ["inputs", "configurations"], "All layouts within the bound, with certificates of several sizes, at the end of the file or followed by data, and all option combinations",
 TESTS + "one signed executable is tested; trailing data, moved sections, size changes and reader positions are not.",
 ["exe.go", "winres.go"], [("signature handling", "exe.go: preparePEWriter, updateHeaders, writeEXE"), ("detection", "winres.go: IsSignedEXE")],
 EXPL, observe=["WriteToEXE", "IsSignedEXE"])

prop("C10", "No input/output error is ever silently swallowed",
 "If any read, seek or write operation fails or is cut short at any point during WriteToEXE, WriteObject, LoadFromEXE, LoadFromEXESingleType, IsSignedEXE, LoadICO, LoadCUR, SaveICO or SaveCUR, then either the call returns an error or its result is exactly what it would have been without the fault. In particular a nil error from a writing function means that the destination received every byte of the correct output.",
 ["fault_sequences"], "Every operation of every workload is made to fail in every way, once, and from then on; pairs of faults in the thorough tier",
 TESTS + "they inject a few errors at hand-picked offsets; an unchecked error at one call site shows only when exactly that operation fails.",
 ["exe.go", "coff.go", "rsrc.go", "icon.go", "cursor.go", "winres.go"], [("error propagation", "exe.go: readPEHeaders, writeEXE, extractRSRCSection, getSeekerSize"), ("writers", "coff.go: writeObject; icon.go: SaveICO; cursor.go: SaveCUR")],
 "Complete enumeration of single fault points (and pairs in the thorough tier) of fixed workloads on the real code, through a fault injecting reader and writer.", observe=["all functions that take an io.Reader or io.Writer"], level="fault_enumeration",
 technique="systematic fault enumeration under a controlled environment: every I/O operation of every workload fails in every way, every execution explored")

prop("C11", "Results do not depend on how streams deliver or accept bytes",
 "For the same bytes, every function that reads an executable, icon or cursor file gives the same result whatever the sizes of the reads, the initial position for executables, and the kind of reader (file, memory, with or without a Size method). Every function that writes gives the same bytes in the destination whatever the kind of writer, including files and seekable writers that already contain data or are positioned past the beginning.",
 ["schedules", "inputs"], "All partitions of the first reads into short reads, all fixed chunk sizes, reader and writer kinds, initial positions and destination contents",
 TESTS + "they use files and memory buffers only, so a read that returns less than asked or a writer that can seek takes paths never exercised.",
 ["exe.go", "reader.go", "icon.go", "cursor.go", "winres.go"], [("full reads", "reader.go: readFull, binaryRead"), ("blank filling", "exe.go: writeBlank"), ("size detection", "exe.go: getSeekerSize")],
 EXPL, observe=["WriteToEXE", "LoadFromEXE", "WriteObject", "LoadICO", "LoadCUR", "IsSignedEXE"])

prop("C12", "Malformed executables are refused or read truthfully, never crash",
 "For every executable with one or several corrupted header, directory or resource table fields, and for every truncation, loading, patching and signature detection terminate without panic, without runaway allocation or output, and either return an error or a correct result. Resource data that is returned consists of bytes of the resource section at the place its entry designates, with the identifiers found in the tables.",
 ["inputs", "fault_sequences"], "Every field of every header and table set to every interesting value, pairs of such corruptions, every truncation length, for several base executables",
 TESTS + "they try about thirty corruptions; each field has many interesting values and interacts with the others.",
 ["exe.go", "rsrc.go", "winres.go"], [("bounds checks", "exe.go: readPEHeaders, extractRSRCSection, fillSectionsInfo; rsrc.go: readDirTable, readData")],
 EXPL + "Single corruptions exhaustively, pairs within a bound; a memory and hang watchdog.", observe=["LoadFromEXE", "LoadFromEXESingleType", "WriteToEXE", "IsSignedEXE"])

prop("C13", "Malformed icons, cursors and groups are refused or read truthfully",
 "For every ICO or CUR file and every icon or cursor group resource with corrupted or truncated fields, LoadICO, LoadCUR, GetIcon and GetCursor terminate without panic or runaway allocation and either return an error or images made of exactly the bytes that their entries designate. Group resources that refer to missing images are refused.",
 ["inputs", "fault_sequences"], "Every field of every header and entry set to every interesting value, pairs of corruptions, every truncation length, corrupted group and image resources",
 TESTS + "they try a dozen corruptions.",
 ["icon.go", "cursor.go", "winres.go"], [("validation", "icon.go: LoadICO, GetIconTranslation; cursor.go: LoadCUR, GetCursorTranslation, readDIBBitCount")],
 EXPL, observe=["LoadICO", "LoadCUR", "GetIcon", "GetIconTranslation", "GetCursor", "GetCursorTranslation"])

prop("C14", "Malformed version information never crashes and is read truthfully",
 "For every corrupted or truncated binary VERSIONINFO, reading it terminates without panic and returns either an error or an Info that can itself be encoded, split, merged and marshalled without panic, and whose strings all come from the input. The same holds for JSON version information with missing, null or odd values.",
 ["inputs", "fault_sequences"], "Every field of every node set to every interesting value, pairs of corruptions, every truncation, every small JSON document of a grammar",
 TESTS + "they try about a dozen corrupted files.",
 ["version/binary.go", "version/json.go", "version/version.go"], [("validation", "version/binary.go: readNode, readString, readStringWithLength"), ("JSON", "version/json.go: UnmarshalJSON")],
 EXPL, observe=["version.FromBytes", "Info.UnmarshalJSON", "Info.Bytes", "Info.SplitTranslations", "version.MergeTranslations", "LangTable.GetMainTranslation"])

prop("C15", "Icon groups never disturb each other",
 "After any sequence of setting, replacing and deleting icon groups and raw icon images, each icon group that was set and not deleted or overwritten since reads back, in its language, as exactly the images it was given, with exact metadata and in order of decreasing quality. Adding an icon never changes or reuses an icon image resource that already exists, nor gives an image the identifier of one that the set had, when a group still designates it; when identifiers are exhausted or the group identifier is invalid, an error is returned instead and the set is not changed.",
 ["histories", "inputs"], "Every sequence, up to a depth, of SetIcon, SetIconTranslation, raw Set and delete of groups and images, loading from an executable, with explicit ids up to the limit",
 TESTS + "they set one or two icons in a fresh set.",
 ["icon.go", "winres.go"], [("identifier allocation", "winres.go: lastIconID in set; icon.go: SetIconTranslation")],
 EXPL, state=[("lastIconID", "highest icon image id ever set", "winres.go: ResourceSet")], observe=["SetIcon", "SetIconTranslation", "GetIcon", "GetIconTranslation", "Walk"])

prop("C16", "Cursor groups never disturb each other",
 "After any sequence of setting, replacing and deleting cursor groups and raw cursor images, each cursor group that was set and not deleted or overwritten since reads back, in its language, as exactly the images and hot spots it was given, with exact metadata and in order of decreasing quality. Adding a cursor never changes or reuses a cursor image resource that already exists, nor gives an image the identifier of one that the set had, when a group still designates it; when identifiers are exhausted or the group identifier is invalid, an error is returned instead and the set is not changed.",
 ["histories", "inputs"], "Every sequence, up to a depth, of SetCursor, SetCursorTranslation, raw Set and delete of groups and images, with explicit ids up to the limit",
 TESTS + "they set one or two cursors in a fresh set.",
 ["cursor.go", "winres.go"], [("identifier allocation", "winres.go: lastCursorID in set; cursor.go: SetCursorTranslation")],
 EXPL, state=[("lastCursorID", "highest cursor image id ever set", "winres.go: ResourceSet")], observe=["SetCursor", "SetCursorTranslation", "GetCursor", "GetCursorTranslation", "Walk"])

prop("C17", "Icons survive loading, storing and saving unchanged",
 "For every valid ICO file, LoadICO followed by SaveICO, or by SetIcon, GetIcon and SaveICO, in any combination, writes a strictly valid ICO file that holds exactly the same images: same image bytes, same width, height, color count, planes and bit count, ordered by decreasing bit count then width, equal ones in their original order. Storing an icon as a resource gives a group whose entries have the same metadata and designate exactly those images.",
 ["inputs", "histories"], "All combinations, within bounds, of image counts, sizes (1 to 256), bit counts, data lengths, layouts (gaps, shared or unordered data) and conversions",
 TESTS + "they round trip two ICO files.",
 ["icon.go"], [("order", "icon.go: order"), ("conversions", "icon.go: LoadICO, SaveICO, SetIconTranslation, GetIconTranslation")],
 EXPL, observe=["LoadICO", "SaveICO", "SetIcon", "GetIcon"])

prop("C18", "Cursors survive loading, storing and saving unchanged",
 "For every valid CUR file, LoadCUR followed by SaveCUR, or by SetCursor, GetCursor and SaveCUR, in any combination, writes a strictly valid CUR file that holds exactly the same images: same image bytes, hot spot, width and height, ordered by decreasing bit count then width, equal ones in their original order. Storing a cursor as a resource gives images that start with the hot spot and a group whose entries give the true size, planes and bit count of each.",
 ["inputs", "histories"], "All combinations, within bounds, of image counts, sizes (1 to 256), DIB and PNG images, hot spots, layouts and conversions",
 TESTS + "they round trip one CUR file.",
 ["cursor.go"], [("order", "cursor.go: order"), ("conversions", "cursor.go: LoadCUR, SaveCUR, SetCursorTranslation, GetCursorTranslation, resData")],
 EXPL, observe=["LoadCUR", "SaveCUR", "SetCursor", "GetCursor"])

prop("C19", "Icons made from images are pixel exact, square and centered",
 "For every list of images of 1 to 256 pixels on each side, in any color model, with any bounds, NewIconFromImages makes one PNG image per given image whose side is the larger of both dimensions, with the original centered (an odd pixel on either side) and everything around fully transparent, every pixel having exactly the original color and transparency. The declared size and bit count match, 256 being declared as 0. Empty or larger images are refused.",
 ["inputs"], "All small dimensions and boundary ones, color models, non zero origins, sub-images, pixel patterns with all kinds of alpha",
 TESTS + "they compare golden files for a few images.",
 ["icon.go"], [("squaring", "icon.go: imageInSquareNRGBA"), ("encoding", "icon.go: addImage")],
 EXPL, observe=["NewIconFromImages", "SaveICO"])

prop("C20", "Cursors made from images are exact 32 bit images with their hot spot",
 "For every list of images of 1 to 256 pixels on each side, in any color model, with any bounds and any hot spot, NewCursorFromImages makes one 32 bit DIB per given image whose side is the larger of both dimensions, with the original at the top left corner and everything else fully transparent, every pixel having exactly the original color and transparency, and with the height declared twice as the format requires. Hot spot, size and bit count are those of the image; empty or larger images are refused.",
 ["inputs"], "All small dimensions and boundary ones, color models, origins, sub-images, opaque and transparent patterns, hot spots",
 TESTS + "they compare golden files for a few images.",
 ["cursor.go", "icon.go"], [("encoding", "cursor.go: addImage"), ("squaring", "icon.go: imageInSquareNRGBA")],
 EXPL, observe=["NewCursorFromImages", "SaveCUR"])

prop("C21", "Icons resized from an image have every requested size and keep the ratio",
 "NewIconFromResizedImage makes one square PNG image per requested size (256, 64, 48, 32 and 16 by default), with that exact size, whatever the dimensions of the original. The original's aspect ratio is kept, the scaled image being centered and surrounded by transparent pixels only, and a uniform color stays that color. Sizes out of 1 to 256 and more than 30 sizes are refused.",
 ["inputs"], "All combinations, within bounds, of source dimensions, sizes and lists of sizes, with uniform and patterned sources",
 TESTS + "they resize a few images to the default sizes.",
 ["icon.go"], [("resizing", "icon.go: resizeImage, NewIconFromResizedImage")],
 EXPL + "The resampling filter itself belongs to an external package and is not checked beyond uniform colors.", observe=["NewIconFromResizedImage"])

prop("C22", "Binary version information round trips and is strictly valid",
 "For every Info whose encoded size fits the 64 KB of the format, each of its languages having at least one string, Bytes gives a strictly valid VERSIONINFO: exact lengths, value lengths in the right unit, 32 bit alignment, sorted string tables with the Unicode code page, and a translation table that lists exactly the languages of the string tables. FromBytes on it gives back the same versions, flags, file type, time stamp (to 100 ns) and strings for every language, and re-encoding gives the same bytes. FromBytes also reads exactly the strings and fixed fields of structures laid out by other tools.",
 ["inputs"], "All combinations, within bounds, of languages, keys and values of every length parity and character kind, fixed fields, flags, types and times, and foreign layouts",
 TESTS + "about ten golden files.",
 ["version/binary.go", "version/timestamp.go", "version/version.go"], [("encoder", "version/binary.go: bytes, nodeBytes, stringBytes"), ("decoder", "version/binary.go: readNode"), ("time", "version/timestamp.go")],
 EXPL + "Total size below the format's 64 KB limit.", observe=["Info.Bytes", "version.FromBytes"])

prop("C23", "Version information survives JSON",
 "Marshalling any Info to JSON and unmarshalling it gives an Info with the same versions, flags, type, time stamp and strings for every language, hence the same binary form. Unmarshalling replaces the previous content of the Info entirely.",
 ["inputs"], "All combinations, within bounds, of languages, strings of every character kind, versions, flags, types and times; previous contents",
 TESTS + "a few hand written documents.",
 ["version/json.go"], [("JSON", "version/json.go: MarshalJSON, UnmarshalJSON")],
 EXPL, observe=["Info.MarshalJSON", "Info.UnmarshalJSON"])

prop("C24", "Splitting version information by language loses and invents nothing",
 "SplitTranslations gives exactly one Info per language of the original, each with the same fixed fields and only that language, in which every key of the original appears once. Its value is the one of that language if defined, else the neutral one, else the default language (en-US) one, else the one of the first language in ascending order; this does not depend on how the Info was built, and the original is not changed.",
 ["inputs", "histories"], "All assignments of presence of a few keys in all subsets of up to five languages",
 TESTS + "one hand written case; fallbacks are taken from random order maps, so errors show only for some inputs and runs.",
 ["version/version.go"], [("fallback order", "version/version.go: splitLangs")],
 EXPL, observe=["Info.SplitTranslations"])

prop("C25", "Merging translations takes each language from the right place",
 "MergeTranslations gives, for each mapped language, the strings that its Info has for that language; failing that, its neutral strings; failing that, its only non empty language; failing that, nothing. Fixed fields come from the neutral entry if there is one, else en-US, else the lowest language, the inputs are not changed, and merging the result of SplitTranslations gives back the same translations.",
 ["inputs"], "All assignments of small string tables to up to three mapped infos with up to four languages each",
 TESTS + "one hand written case.",
 ["version/version.go"], [("selection", "version/version.go: MergeTranslations, singleLang, findMainTranslation")],
 EXPL, observe=["version.MergeTranslations"])

prop("C26", "A version table is a faithful map, and setting versions reaches all languages",
 "After any sequence of Set, SetFileVersion and SetProductVersion, Table and the encoded forms show exactly the last value set for each language and key; invalid keys and values (empty key, NUL) are refused with an error and change no string. SetFileVersion and SetProductVersion set the textual version in every existing language (the neutral one if there is none) and the numeric version from the first number on, up to four parts. Table returns a copy that shares nothing with the Info, and GetMainTranslation picks neutral, else en-US, else the lowest language.",
 ["histories", "inputs"], "Every sequence of operations up to a depth over a few languages and keys, with all kinds of version strings; tables mutated by the caller",
 TESTS + "a few hand written cases.",
 ["version/version.go"], [("tables", "version/version.go: Set, Table, SetFileVersion, SetProductVersion, versionStringToArray, GetMainTranslation")],
 EXPL, observe=["Info.Set", "Info.Table", "Info.SetFileVersion", "Info.SetProductVersion", "LangTable.GetMainTranslation", "Info.Bytes"])

prop("C27", "A manifest embedded by SetManifest says exactly what was asked",
 "For every application manifest description, SetManifest stores one well formed XML manifest (resource 1, en-US) whose elements and attributes, with their namespaces, mean exactly that description: identity, description text, supported systems from the minimum one up, execution level, UI access, DPI awareness with its fallback, every boolean setting present only when set, and common controls. Characters that cannot exist in XML are replaced by U+FFFD. Reading it back with AppManifestFromXML gives the same description.",
 ["inputs", "configurations"], "All 2^11 combinations of booleans and all enumerations, all texts of a set of edge cases",
 TESTS + "about ten golden files out of thousands of combinations.",
 ["manifest.go", "winres.go"], [("template", "manifest.go: manifestTemplate, makeManifest"), ("reader", "manifest.go: AppManifestFromXML")],
 EXPL + "Checked with Go's XML tokenizer and an independent interpretation.", observe=["SetManifest", "AppManifestFromXML"])

prop("C28", "Manifest XML from other tools is read for what it means",
 "AppManifestFromXML gives the same result for any equivalent XML: namespace prefixes, attribute order, comments, white space, letter case of values, unknown elements, order of elements. Missing elements give Windows' defaults (Windows 7, asInvoker, no UI access, unaware, everything off), the lowest supported system is the minimum one, the first known DPI awareness wins over the old element, and invalid values are ignored without error while XML syntax errors are returned.",
 ["inputs"], "All combinations, within a deviation bound, of elements, value spellings, list orders, duplicates and XML presentation variants",
 TESTS + "about ten documents.",
 ["manifest.go"], [("reader", "manifest.go: AppManifestFromXML, readDPIAwareness, osIDToEnum, manifestBool")],
 EXPL, observe=["AppManifestFromXML"])

prop("C29", "An application manifest description survives JSON",
 "Marshalling any valid application manifest description to JSON and unmarshalling it gives the same description (the identity version only counts if there is a name). Every documented spelling of an enumeration, in any letter case, is understood, and unknown values and malformed versions are refused with an error.",
 ["inputs", "configurations"], "All combinations of booleans and enumerations, all spellings, edge case texts and versions",
 TESTS + "a few hand written documents.",
 ["manifest.go"], [("JSON", "manifest.go: MarshalText, UnmarshalText, MarshalJSON, UnmarshalJSON")],
 EXPL, observe=["json.Marshal(AppManifest)", "json.Unmarshal"])

prop("C30", "An executable can be patched again and again without drifting",
 "After any sequence of patches, the executable still holds everything that was not a resource in the original, is a valid image, and holds exactly the resources of the last patch. Patching again with the same resources gives identical bytes, at most one section is ever added by a sequence of patches, and when the resource section is the last one the outcome depends only on the last contents.",
 ["histories", "inputs"], "All sequences of patches with contents of several sizes (smaller, same, larger, empty), on several layouts, with and without checksum",
 TESTS + "each test patches once.",
 ["exe.go"], [("header arithmetic", "exe.go: updateHeaders, requiresNewSection")],
 EXPL, observe=["WriteToEXE", "LoadFromEXE"])

prop("C31", "Independent objects can be used concurrently",
 "Goroutines that work on distinct resource sets, icons, cursors and version structures never affect each other: every interleaving of their operations gives the same results as running them one after the other. The library keeps no hidden shared state.",
 ["schedules"], "All interleavings, up to a preemption bound, of pairs of operations at statement granularity",
 TESTS + "no test runs anything concurrently, and races show only in rare interleavings.",
 ["winres.go", "exe.go", "icon.go", "cursor.go", "manifest.go", "version/version.go"], [("no package level mutable state", "all files")],
 "Controlled scheduler: the library is instrumented at build time (overlay) with a scheduling point before every statement; all schedules up to the preemption bound are executed.", observe=["all exported functions"])

prop("C32", "Inputs are not modified and results are not aliased unexpectedly",
 "Reading, saving or storing never modifies what the caller passed in: image data, loaded resource bytes, sources, manifests and version structures keep their value, and using an object twice gives the same result twice. A set, icon or cursor that was loaded, stored or copied from another keeps its content when the other one is changed afterwards through the API. Each resource loaded from an executable has its own memory: growing or changing the bytes that Get returns for one leaves the others as they are.",
 ["histories", "inputs"], "All ordered pairs of operations on shared objects, all sequences up to a depth",
 TESTS + "each test uses each object once.",
 ["winres.go", "icon.go", "cursor.go", "rsrc.go", "version/version.go"], [("copies", "rsrc.go: readData; version/version.go: Table, splitLangs; cursor.go: resData")],
 EXPL, observe=["all exported functions"])

prop("C33", "Embedding version information gives one complete structure per language",
 "SetVersionInfo stores, for each language of the Info, one version resource (id 1) in that language that decodes to the fixed fields and to every string of the Info, translated where a translation exists; other resources are not touched, the result does not depend on how the Info was built, and calling it again with the same Info changes nothing. Merging the stored structures gives back all translations.",
 ["inputs", "histories"], "All assignments of presence of a few keys in all subsets of up to four languages, in sets with other resources",
 TESTS + "one golden file.",
 ["winres.go", "version/version.go"], [("embedding", "winres.go: SetVersionInfo"), ("splitting", "version/version.go: splitLangs")],
 EXPL, observe=["SetVersionInfo", "Get", "Walk"])

prop("C34", "Different kinds of resources in one set never disturb each other",
"After any sequence of setting and deleting icons, cursors, the manifest, version information and raw resources in one set, interleaved with writing the set to an executable and loading it back, every one of them reads back as it was last set, in its language. An operation on one kind changes no resource of another kind: setting an icon only adds icon images and sets that icon group, setting a cursor only adds cursor images and sets that cursor group, SetManifest only sets the manifest 1 in en-US, SetVersionInfo only sets the version resources 1 of the languages of the Info, Set only the resource it names.",
["histories"], "All sequences of 26 operations of every kind up to a depth, longer ones of 11 operations",
TESTS + "operations one kind at a time.",
["winres.go", "icon.go", "cursor.go", "manifest.go"], [("embedding", "winres.go: SetVersionInfo, SetManifest"), ("groups", "icon.go: SetIconTranslation, cursor.go: SetCursorTranslation"), ("identifiers", "winres.go: lastIconID, lastCursorID")],
EXPL, observe=["Get", "Walk", "GetIcon", "GetCursor", "LoadFromEXE"])
