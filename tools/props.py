"""Single source for properties.jsonl and MANIFEST.json (run tools/gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, claim=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, claim=claim, na=na, observe=observe))


TRUST = 'Trusts the clang 18 front end, the fact extractor and the effect engine in /verif, and the specification tables in sa/rules.'

prop('P01', 'MDF4 blocks are written and read with the specified field layout',
     'For every MDF 4 block type, the sequence of data-section fields that the writer emits and the sequence that the reader consumes are both the sequence the ASAM MDF 4 format prescribes: same order, same width, same signedness, same property of the object in each field, same optional parts under the same flags, same repeat counts. So a file written by the library is read back with every block property unchanged, and files from other conforming tools are interpreted correctly.',
     ['inputs', 'configurations'], 'every block object, every combination of flags, types and list sizes that selects optional fields',
     'The tests write a few typical files and compare a handful of properties; fields holding defaults, optional parts (statistics, DL time/angle/distance values, array axes, conversion references) and most block types are never round-tripped with distinguishable values.',
     ['mdflib/src/*4block.cpp', 'mdflib/src/mdfblock.cpp'],
     [('Read/Write pair of each block class', 'mdflib/src/*4block.cpp'), ('number primitives', 'mdflib/src/mdfblock.h')],
     claim=('effect-sequence extraction over the AST (interprocedural) compared with the format table', 'Decides, for every path selected by the block configuration, that reader and writer effect sequences equal the specified field sequence. ' + TRUST))
prop('P02', 'MDF3 blocks are written and read with the specified field layout',
     'For every MDF 3 block type, the sequence of fields that the writer emits and the sequence that the reader consumes are both the sequence the MDF 3.x format prescribes (order, width, signedness, property, optional parts per block size and conversion type, repeat counts). So an MDF 3 file written by the library reads back with every block property unchanged.',
     ['inputs', 'configurations'], 'every block object, conversion type, list size and block size variant',
     'Only a few MDF 3 files are written by tests, with default values in most fields and only some conversion types.',
     ['mdflib/src/*3block.cpp', 'mdflib/src/mdfblock.cpp'],
     [('Read/Write pair of each block class', 'mdflib/src/*3block.cpp')],
     claim=('effect-sequence extraction over the AST (interprocedural) compared with the format table', 'As P01, for MDF 3 blocks. ' + TRUST))
prop('P03', 'MDF4 blocks keep every child in the link slot the format assigns to it',
     'In every MDF 4 block the library stores the file position of each child (next block, lists, names, units, comments, conversions, sources, attachments, events, data, array references) in exactly the link slot the format assigns to that role, and reads or resolves the same role from the same slot, for any number of variable links. The number of link slots reserved equals the number used, and links to children that are added later are rewritten.',
     ['inputs', 'configurations', 'histories'], 'every block object, all variable link counts, first write as well as update of a block already on file',
     'Tests cover single-element lists and few optional links; a slot that is off by one for the second element or for a rarely used child is not exercised.',
     ['mdflib/src/*4block.cpp', 'mdflib/src/mdfblock.cpp', 'mdflib/src/mdf4writer.cpp'],
     [('Link()/UpdateLink()/WriteLink4List/WriteTx4/WriteBlock4/WriteMdComment users', 'mdflib/src/*4block.cpp')],
     claim=('link-slot effect analysis over the AST with symbolic slot expressions compared with the format table', 'Decides slot and role of every link access on all paths. ' + TRUST))
prop('P04', 'MDF3 blocks keep every child in the link slot the format assigns to it',
     'In every MDF 3 block the library stores the file position of each child (next block, data groups, channel groups, channels, comments, conversions, extensions, dependencies, triggers, sample reductions, data) in exactly the link slot the format assigns to that role, and reads the same role from the same slot. The reader takes the number of link slots the block size provides.',
     ['inputs', 'configurations'], 'every block object and list size',
     'Tests write few MDF 3 files, without triggers, dependencies, several data groups or sample reductions.',
     ['mdflib/src/*3block.cpp', 'mdflib/src/mdf3file.cpp', 'mdflib/src/mdf3writer.cpp'],
     [('Link()/UpdateLink() users', 'mdflib/src/*3block.cpp')],
     claim=('link-slot effect analysis over the AST with symbolic slot expressions compared with the format table', 'As P03, for MDF 3 blocks. ' + TRUST))
prop('P05', 'Block headers, block lengths and in-place patches match the bytes on file',
     'Every block the library writes starts with the header its format prescribes, at an 8-byte aligned position for MDF 4, and its declared length equals the number of bytes actually written for it: every byte written after the header is counted exactly once. A link or length that is patched afterwards is patched at the position of that field in that block, in the width and byte order of the format, and the file position is restored. Numbers are stored in the byte order of the file and a short read or write is not taken for data.',
     ['inputs', 'configurations', 'histories'], 'every block object, every optional part, list and text length; first write and update',
     'A length that misses an optional part only matters for configurations that tests do not build, and most readers tolerate a wrong length until a strict tool opens the file.',
     ['mdflib/src/*block.cpp', 'mdflib/src/mdfblock.h', 'mdflib/src/mdfblock.cpp', 'mdflib/src/mdf*writer.cpp'],
     [('MdfBlock::Write/UpdateBlockSize/UpdateLink/SetLastFilePosition', 'mdflib/src/mdfblock.cpp'), ('byte counting in each Write', 'mdflib/src/*block.cpp')],
     claim=('linear byte-count dataflow over the effect sequences of every block writer, and effect checks of the header and patch primitives', 'Decides that counted bytes equal written bytes on all paths, as linear expressions over symbolic list and text sizes. The 16-bit length field of MDF 3 can overflow for very long texts; that is outside. ' + TRUST))

prop('P06', 'Bus records hold each message property in the bits its channel describes',
     'For CAN, LIN, Ethernet, MOST and FlexRay, every record type, with all or only mandatory members, and every storage type: each channel the configuration adapter creates (name, byte offset, bit offset, bit count, data type) describes exactly the bits in which ToRaw() of the message stores the property the channel is named after (for example CAN_DataFrame.BRS the bit that Brs() returns). Channels of a record do not overlap, member channels are named after their record, the record channel has the size of the record ToRaw() makes, payload channels refer to the payload (in the record or as variable length data linked to a VLSD group), and SaveCanMessage and its siblings choose the record type from the group the message is saved to.',
     ['configurations', 'inputs'], 'five buses, 31 record types, mandatory/all members, storage types, maximum lengths, all message contents',
     'Tests save a few messages and mostly count samples; flags, error frames, mandatory-only layouts and MLSD lengths are not compared bit by bit, and several logger tests are not part of the suite.',
     ['mdflib/src/canmessage.cpp', 'mdflib/src/linmessage.cpp', 'mdflib/src/ethmessage.cpp', 'mdflib/src/mostmessage.cpp', 'mdflib/src/flexraymessage.cpp', 'mdflib/src/*configadapter.cpp', 'mdflib/src/samplequeue.cpp'],
     [('ToRaw of each message class', 'mdflib/src/*message.cpp'), ('channel creation in each adapter', 'mdflib/src/*configadapter.cpp'), ('record type dispatch', 'mdflib/src/samplequeue.cpp')],
     claim=('bit-provenance abstract interpretation of ToRaw per configuration compared with the channel layout extracted from the adapters', 'Decides for every configuration that each advertised bit carries the named property; numeric ranges of 4-bit DLC and enums are assumed. ' + TRUST))

prop('P07', 'Setting a property of an object is visible in that property and no other',
     'For every property of the public objects (headers, groups, channels, conversions, sources, events, attachments, meta data, bus messages) that has a setter N(value) and a getter N(): after setting a value of the range of the property the getter returns that value, whatever was set before; properties held in bits or parts of one member (flag words, CAN identifiers, MOST and FlexRay state bits) do not disturb each other; and a property held by name in the meta data is stored and looked up under the same name, which no other property of the object uses. Exceptions are the documented couplings (data bytes and data length, decimals and flags, bit count and byte count).',
     ['inputs', 'histories'], 'every object, every property, every previous content and every value',
     'Tests set most properties once with one value, so a getter that masks, a flag that clears its neighbour or a setter that only works the first time goes unnoticed.',
     ['include/mdf/*.h', 'mdflib/src/*message.cpp', 'mdflib/src/*block.cpp', 'mdflib/src/*comment.cpp'],
     [('setter/getter pairs', 'include/mdf/*.h')],
     claim=('path-wise abstract execution of setter then getter with bit provenance of stored members', 'Proves the pairs whose value flow is a copy or bit selection (333 of 392); the pairs left open (text conversion, XML storage) are counted in the evidence. ' + TRUST))

prop('P08', 'The sample queue is only used under its lock and its worker always survives',
     'Samples may be saved from any thread while a worker thread writes them to file. Whatever the schedule: the sample queue and the master channel state are only touched with the queue lock held, by every user entry point and by the worker; every path through the saving functions (early returns included) returns with the lock held, without locking or unlocking twice, and the lock is not held over file I/O by accident of a missing unlock; members that are shared without the lock are atomic; an exception while saving neither escapes from the worker thread nor leaves the lock released; the worker is told to stop and is joined before the queues are emptied or destroyed; and starting a measurement publishes the started state only after the start time is set and the queued samples have been recalculated.',
     ['schedules', 'fault_sequences', 'histories'], 'all interleavings of user threads and the worker, all early returns and exceptions of a save',
     'Tests save from one thread, with a queue that is rarely flushed while samples arrive, and never make a write fail.',
     ['mdflib/src/writecache.cpp', 'mdflib/src/samplequeue.cpp', 'mdflib/src/writer4samplequeue.cpp', 'mdflib/src/convertersamplequeue.cpp', 'mdflib/src/mdfwriter.cpp'],
     [('worker loop and entry points', 'mdflib/src/writecache.cpp'), ('unlock/relock in the savers', 'mdflib/src/*samplequeue.cpp'), ('StartMeasurement/StopMeasurement', 'mdflib/src/mdfwriter.cpp')],
     claim=('lock typestate over all paths of the inlined call graph (normal, early return, exception) with guarded-by and publication-order rules', 'Decides lock discipline on every path from every entry point; does not decide timing or fairness. ' + TRUST))

prop('P09', 'Every saved sample reaches the file exactly once and complete',
     'Whatever is saved during a measurement (samples or bus messages, with or without variable length data, compressed or not, one or several groups per data group, MDF 3, MDF 4, bus logger or converter) ends up in the file exactly once, in the order it was saved: each record with its record id in the width of the data group, its variable length data written before it and its index stored in the last 8 bytes of the record, the sample counters and group blocks updated, the length or the list offsets of the data blocks matching what was written. A sample is left out only when it is later than the stop time or its group does not exist, or when it is older than the pre-trig time; the time master of a sample is its time stamp minus the start time in seconds. Nothing is left in the queue when the measurement is stopped, and every Save function hands over its group, time and message unchanged.',
     ['inputs', 'histories', 'configurations', 'schedules'], 'every sequence of saves, all storage types, record id sizes, compression, buffer fill levels, start/stop/pre-trig times',
     'Tests save samples well before the stop time into buffers that never fill up, so the purge, push-back, pre-trig and stop branches and the mixed VLSD configurations are barely executed.',
     ['mdflib/src/samplequeue.cpp', 'mdflib/src/writer4samplequeue.cpp', 'mdflib/src/convertersamplequeue.cpp', 'mdflib/src/writecache.cpp', 'mdflib/src/cg4block.cpp', 'mdflib/src/cn4block.cpp', 'mdflib/src/mdf3writer.cpp', 'mdflib/src/mdf4writer.cpp'],
     [('queue savers', 'mdflib/src/*samplequeue.cpp'), ('record primitives', 'mdflib/src/cg4block.cpp'), ('worker thread', 'mdflib/src/writecache.cpp')],
     claim=('typestate of each sample over all paths of the savers under predicate abstraction of the sample configuration; byte-sequence extraction of the record primitives', 'Decides the event sequence of every sample taken from the queue for every combination of the predicates, not the numeric contents of the records. ' + TRUST))

prop('P10', 'Every record on file is delivered once, with its own number, to each subscriber',
     'Reading the data of a group delivers each complete record of its data blocks exactly once and in file order to every observer subscribed to its record id, with the sample number, record id and bytes of that record, and to no other; whatever the record id size (0, 1, 2, 4 or 8 bytes, MDF 3 with one id byte before or before and after the record), fixed or variable length, and however the records are spread over plain, listed or compressed data blocks (empty blocks and records across block borders included). Records of groups nobody subscribed to are passed over in full and counted. A partial read delivers the same records with the same numbers, restricted to its window; reading variable length data hands over each requested item once with its own offset. A channel observer stores a value under its sample number and array index, with its validity, and returns it under the same. A file that ends in the middle of a record delivers no made-up record.',
     ['inputs', 'configurations', 'histories'], 'every file content, block structure, record id size, subscription and sample window',
     'The sample files the reader tests need are not part of the repository, so most reader tests are empty; the others read back small sorted files in one data block.',
     ['mdflib/src/readcache.cpp', 'mdflib/src/dg4block.cpp', 'mdflib/src/dg3block.cpp', 'mdflib/src/cg3block.cpp', 'mdflib/src/idatagroup.cpp', 'mdflib/src/channelobserver.h'],
     [('record parsers and cursor', 'mdflib/src/readcache.cpp'), ('ReadData/ReadRangeData/ReadVlsdData', 'mdflib/src/dg4block.cpp'), ('NotifySampleObservers', 'mdflib/src/idatagroup.cpp'), ('OnSample', 'mdflib/src/channelobserver.h')],
     claim=('event-sequence abstract interpretation of the record parsers over all paths under predicate abstraction of the record and subscription state; linear cursor bookkeeping', 'Decides for every combination of the predicates what each path consumes, counts and delivers; does not decide the decompression itself. ' + TRUST))

prop('P11', 'Channel values are stored and fetched in exactly the bits the channel describes',
     'For every data type, bit count, bit offset, byte offset and array index: a value fetched from a record (GetChannelValue and its typed getters) consists of exactly the bits the channel describes, in the byte order and with the sign extension of its data type, converted to the requested type; a value set on a channel (SetChannelValue, SetTimestamp, text and byte arrays) is stored in exactly those bytes, in the byte order of its data type, padded or cut to the size of the channel, and changes no other byte. Values that do not fit the record, and values of types that cannot be stored, are reported or marked as invalid and nothing outside the record is read or written. The valid argument of a setter reaches the invalidation bit of that array value and only that bit, and is what the getter reports. Values of variable length channels are appended once to the signal data with their length, and the record holds their offset.',
     ['inputs', 'configurations'], 'all data types, bit counts 1-64, bit offsets 0-7, any byte offset, array indexes, buffer sizes, variable length values',
     'Tests set and fetch byte aligned values of a few types in records that are long enough; odd bit counts, big endian bit fields, array elements, short records and invalidation bits beyond the first byte are hardly touched.',
     ['mdflib/src/ichannel.cpp', 'include/mdf/ichannel.h', 'mdflib/src/cn4block.cpp', 'mdflib/src/dbchelper.cpp', 'mdflib/src/littlebuffer.h', 'mdflib/src/bigbuffer.h', 'mdflib/src/vlsddata.cpp'],
     [('getters and setters', 'mdflib/src/ichannel.cpp'), ('variable length values, invalidation bits', 'mdflib/src/cn4block.cpp'), ('bit extraction', 'mdflib/src/dbchelper.cpp')],
     claim=('abstract interpretation in a bit-provenance domain (every result bit is named after the record bit or value bit it is copied from) with a symbolic byte offset, per channel configuration', 'Decides for each enumerated configuration, for all record contents and values and any byte offset at once, which bit goes where. Bit counts 1-64 and bit offsets 0-7 are enumerated completely for one value, array indexes and text lengths at representative values. Text transcoding (UTF-16, Latin1) and text to number conversion are not decided. ' + TRUST))

prop('P12', 'Engineering values are the channel values converted as prescribed',
     'For every conversion type, parameter list and channel value: the engineering value is the one the conversion prescribes. Linear, rational, polynomial, exponential and logarithmic conversions compute the formula of the format from their parameters; a value to value table gives the value of the nearest key (of the lower one at equal distance) or the interpolated value between the two surrounding keys and its first or last value outside the keys; range tables give the value or text of the range that holds the channel value (upper end included for integer channels, excluded for float channels) and otherwise the default; value to text and text to value/text tables give the entry that matches and otherwise the default; a reference to another conversion is applied to the same channel value. Conversions that lack parameters, divide by zero, have no text or do not apply to the data type are reported as invalid. Each conversion type uses its own function. An observer delivers for GetChannelValue the value and for GetEngValue the converted value of the requested sample and array index, valid only if the sample is valid and could be converted, whole texts, and its list functions deliver value i at index i.',
     ['inputs', 'configurations'], 'all conversion types, numbers of parameters, orders of the channel value and the table keys including equality, missing references, data types of the channel, requested value types',
     'Tests convert a few values with a few parameter sets; range borders, values outside a table, nested and missing references, division by zero and the type dispatch are not covered.',
     ['mdflib/src/ichannelconversion.cpp', 'include/mdf/ichannelconversion.h', 'mdflib/src/cc4block.cpp', 'mdflib/src/cc3block.cpp', 'include/mdf/ichannelobserver.h', 'mdflib/src/ichannelobserver.cpp'],
     [('formulas and tables', 'mdflib/src/ichannelconversion.cpp'), ('texts and references', 'mdflib/src/cc4block.cpp, cc3block.cpp'), ('dispatch', 'include/mdf/ichannelconversion.h'), ('observer values', 'include/mdf/ichannelobserver.h')],
     claim=('abstract interpretation in an order abstraction (the relative order of the channel value and the table keys) with formulas normalised to rational functions over the parameters', 'Formulas are decided for all values as identities of rational functions (log/exp uninterpreted, so rounding is not decided); tables for every order of the value and up to three entries, which is exhaustive for the loops as written but not an induction over table length. How a double is formatted as text, and algebraic (text formula) conversions, which the library does not support, are not decided. ' + TRUST))

prop('P13', 'Compressed data is uncompressed to the original, and failures are reported',
     'For every content, size and damage of the data: Deflate hands every input byte to zlib exactly once and in order, finishes the stream and delivers exactly the bytes zlib made, however the data is chunked and also when the data cannot be made smaller; Inflate does the same for the compressed bytes of the block and reads no byte beyond them. Success is reported if and only if the stream was completed and every read, write and zlib call succeeded, and the zlib state is released on every path. Transpose and InvTranspose are the permutation the format prescribes and inverses of each other, bytes after the last whole record keep their place. A DZ block states the zip type, the record size, the original and the compressed length of the data it holds, and its data read back to a file or a buffer is the original data at the right position; data that is damaged, truncated or does not fit is never delivered as if it were good. The data of an embedded attachment is copied or uncompressed whole, and a failed copy or a differing checksum is an error.',
     ['inputs', 'configurations', 'fault_sequences'], 'all return values of zlib at every step, input lengths around the chunk size, failing reads and writes, zip types, record sizes, destination sizes',
     'Tests compress and uncompress one or two texts that compress well; chunk borders, incompressible data, damaged data, zlib errors and short destinations are not covered.',
     ['mdflib/src/zlibutil.cpp', 'mdflib/src/dz4block.cpp', 'mdflib/src/at4block.cpp'],
     [('zlib drivers', 'mdflib/src/zlibutil.cpp'), ('DZ blocks', 'mdflib/src/dz4block.cpp'), ('attachments', 'mdflib/src/at4block.cpp')],
     claim=('typestate and dataflow analysis of the zlib protocol over all environment choices (abstract interpretation with a nondeterministic zlib model); permutation analysis of the transposition', 'zlib itself is trusted: the model lets each call return any of its documented results, and the property is that the drivers preserve bytes and report errors under all of them (traces up to 14 choices; longer ones are cut and counted). The transposition is decided for all sizes up to 13 and some larger ones with nine record sizes. ' + TRUST))

prop('P14', 'The file is opened, used and closed properly, and failures are reported',
     'For every outcome of opening, reading and writing: a reading function of MdfReader leaves the file open exactly if it was open before, also when it fails; it opens the file for reading only, uses it only while it is open, lets no exception out and reports success exactly if the file could be opened and everything was read (a file that is too short to be an MDF file gives a reader without header, not an exception). A writer creates (truncates) the file only for a measurement of a new file, and opens an existing file for update otherwise, so what an existing file holds is kept when a measurement is appended; initialising, saving samples and finalising work on the file only while it is open, close it again (a converter keeps it open until it is finalised), leave the measurement state the next step relies on and report success exactly if preparing, opening and writing succeeded. Opening uses the mode asked for, tries again when an existing file cannot be opened yet and reports whether the file is open.',
     ['fault_sequences', 'histories'], 'file open or closed at entry, every measurement state, opening fails, every call on the file fails or throws',
     'Tests run the successful case; files that cannot be opened, read errors, exceptions and appended measurements after failures are not covered.',
     ['mdflib/src/mdfreader.cpp', 'mdflib/src/mdfwriter.cpp', 'mdflib/src/mdfconverter.cpp', 'mdflib/src/mdf3file.cpp', 'mdflib/src/mdf4file.cpp', 'mdflib/src/samplequeue.cpp', 'mdflib/src/writer4samplequeue.cpp', 'mdflib/src/mdfblock.cpp'],
     [('reading functions', 'mdflib/src/mdfreader.cpp'), ('measurement life cycle', 'mdflib/src/mdfwriter.cpp, mdfconverter.cpp'), ('saving samples', 'mdflib/src/samplequeue.cpp, writer4samplequeue.cpp'), ('opening', 'mdflib/src/mdfblock.cpp OpenMdfFile')],
     claim=('typestate analysis of the file: path-sensitive abstract interpretation of the functions over all outcomes of the calls on the file, and a dataflow typestate analysis of the sample queue functions', 'Exhaustive over the outcomes of each call in the interpreted functions (success, failure, exception). Calls that report failure by their result are taken not to throw; failures that the operating system reports only when a file is closed are not modelled. ' + TRUST))

prop('P15', 'Metadata reads back from its XML text as it was set',
     'For every metadata object (the comments of HD, DG, CG, CN, CH, CC, SI, AT, EV and FH blocks and units, with everything below them: names, formulas, variables, properties, trees, lists, enumerations, constants, units, dimensions, computation methods, scales, constraints, revisions and administrative data) and every content: each value that was set is returned by its observer, and the object read from the XML text it was written as returns the same values as the written one, in the same lists and the same order; texts with any characters are kept, numbers keep all their digits, every enumeration value keeps its meaning, members that are absent stay absent, and custom attributes and extensions are kept. What the XML schema has no place for is the only exception. A malformed number loses that number only, and a text that is no XML is taken as the comment. The properties of a metadata block (text, number, comment, common properties and trees) are returned as last set, in whatever order and however often they are set, and setting one does not change another.',
     ['inputs', 'configurations', 'histories'], 'all metadata classes and members, texts, presence and absence of each member, all enumeration values, list lengths 0 to 2, nested objects, orders of setting properties',
     'The metadata tests set a few members of a few classes and look for them again; most combinations of class, member and absence are never written and read back.',
     ['include/mdf/mdcomment.h', 'mdflib/src/mdcomment.cpp', 'mdflib/src/mdstandardattribute.cpp', 'mdflib/src/mdnumber.cpp', 'mdflib/src/hdcomment.cpp', 'mdflib/src/cncomment.cpp', 'mdflib/src/cccomment.cpp', 'mdflib/src/hounitspecification.cpp', 'mdflib/src/hoenumerates.cpp', 'mdflib/src/ixmlnode.cpp', 'mdflib/src/ixmlfile.cpp', 'mdflib/src/expatxml.cpp', 'mdflib/src/writexml.cpp', 'mdflib/src/imetadata.cpp', 'mdflib/src/etag.cpp'],
     [('ToXml/FromXml of each class', 'mdflib/src/md*.cpp, ho*.cpp, *comment.cpp'), ('XML tree, text and parsing', 'mdflib/src/ixmlnode.cpp, ixmlfile.cpp, expatxml.cpp'), ('properties of a block', 'mdflib/src/imetadata.cpp')],
     claim=('object-level abstract interpretation of ToXml and FromXml over tokens (each text and number is an opaque token whose provenance is followed through the XML tree, the generated text and the parser callbacks)', 'Each member is one token, so a result holds for all texts and numbers; each member is also varied one at a time (absent, empty, each enumeration value, list lengths 0, 1 and 2, both outcomes of each comparison of a number). Combinations of two absent members are not enumerated. Expat is trusted (its tokenizer is replaced by the one of the checker). Dates of revisions and typed property values (calendar arithmetic, number formatting) are not decided. ' + TRUST))
prop('P16', 'A copied block has every property of its source',
     'When a header, file history, attachment, source information, channel group, channel, channel conversion or channel array is copied into a newly created one (CopyFrom; CopyConfigFrom for a channel with its source information, conversion, inverse conversion, arrays and composed channels), then every observer of the copy returns what it returns for the source: names, texts, comments with all their metadata, types, flags, sizes, offsets, ranges, limits, conversion parameters and references (text or nested conversion) at the same index. The only exceptions are what belongs to the place in a file (record id, number of samples, sample buffers, addresses) and links to other blocks of the source file (attachments, default X axis, array references, the channels of a group).',
     ['inputs', 'configurations'], 'every block class with a copy function, every member and observer, each member also empty, zero, false or any enumeration value, comments with nested metadata, child objects',
     'The tests copy a few channels of a sorted file and look at the samples; a member that is dropped or swapped by a copy function shows only in the observers nobody compares.',
     ['mdflib/src/cn4block.cpp', 'mdflib/src/cn3block.cpp', 'mdflib/src/cc4block.cpp', 'mdflib/src/cc3block.cpp', 'mdflib/src/cg4block.cpp', 'mdflib/src/cg3block.cpp', 'mdflib/src/ca4block.cpp', 'mdflib/src/at4block.cpp', 'mdflib/src/ichannelconversion.cpp', 'mdflib/src/isourceinformation.cpp', 'mdflib/src/ifilehistory.cpp', 'mdflib/src/iheader.cpp'],
     [('copy functions', 'CopyFrom and CopyConfigFrom of the block classes and interfaces')],
     claim=('object-level abstract interpretation of the copy functions over tokens: a source object with a distinct value in every member is copied and all observers of source and copy are compared', 'Members are distinct tokens or distinct values, so a dropped, swapped, constant or truncated member is seen whatever its value; each member is also varied alone. Pairs of varied members are not enumerated. Calendar and time zone functions are tokens. ' + TRUST))
prop('P17', 'Sorting and validating report success only for a complete result',
     'A sorting or validating task, whatever files it is given and whichever file, reader or writer operation fails or throws: reports success only if every step succeeded, and otherwise reports an error with a message and no success (also if an earlier run succeeded); no exception leaves it. The source file is never changed or deleted by sorting, nor is an existing destination unless overwriting is allowed; the destination is written once, from the finished temporary file, as the last step, and never after a failure; the temporary file is neither the source nor the destination and is removed. A sorted file has the header, attachments and histories of the source and, for each channel group that is not variable length data (groups without samples are left out only on request), one data group with one channel group with the copied group, source information, channels and comment, and each record of the source group is handed to it once, with its bytes, its variable length data, its time and the record id of the destination. A validation reads the data of every group with all its channels observed, is successful exactly if all values are valid, names each channel with an invalid value, and records only a successful validation in the file history.',
     ['inputs', 'fault_sequences', 'histories'], 'each outcome (success, failure, exception) of each file, reader and writer operation, in scenarios of existing, missing, equal and aliased files, overwriting, group structures with null, empty, variable length and sample-less groups, valid and invalid values, orders of records',
     'The tests run a task on good files in good directories. A failing step, an existing destination or a source in the temporary directory is never tried, and these are the cases in which data is lost.',
     ['mdflib/src/mdftask.cpp', 'mdflib/src/sortingtask.cpp', 'mdflib/src/validatingtask.cpp', 'mdflib/src/copysampleobserver.cpp', 'mdflib/src/samplerecordobserver.cpp', 'mdflib/src/sortingconfigadapter.cpp'],
     [('tasks', 'MdfTask, SortingTask::Run, ValidatingTask::Run'), ('record forwarding', 'SampleRecordObserver::OnSample, CopySampleObserver::OnSampleRecord'), ('configuration', 'SortingConfigAdapter::CreateConfig, MdfTask::CopyChannelConfig')],
     claim=('abstract interpretation of the tasks over an environment automaton: files, reader, writer and MDF objects are abstract objects, every operation of theirs branches into success, failure and exception, and each path is judged by its effects', 'Every combination of outcomes along a path is enumerated for the listed scenarios; group structures are represented by four data groups with up to four channel groups. The copy of a block itself is P16, reading and writing are P09, P10 and P14. Links (symbolic and hard) are represented by aliased paths. ' + TRUST))

prop('P18', 'A written file reads back as the tree of blocks that was built',
     'Whatever MDF 4 or MDF 3 configuration a user builds with the public objects (header, histories, attachments, events with scopes, parents and ranges, channel hierarchies, data groups, channel groups, channels with compositions, arrays with all their references, conversions with parameters, texts and inverse, sources, units, comments), written at once or in stages with objects added or changed between two writes: reading the finished file gives the same tree, with the same objects in the same order, each property that the interfaces show with the value that was set, and each reference (attachment, default X channel, event scope and parent, hierarchy element, array axis, size, input and output channel) to the object it was set to, also if that object is written later than the one that refers to it.',
     ['inputs', 'configurations', 'histories'], 'every property of every block, present and absent optional parts, numbers of children from none to several, orders in which objects are built and written',
     'The tests write few small trees and compare a handful of properties. A link, length or field that is only wrong for the second of several children, for a reference to a later block or after a second write is not observed.',
     ['mdflib/src/*block.cpp', 'mdflib/src/mdf4file.cpp', 'mdflib/src/mdf3file.cpp', 'mdflib/src/mdfblock.h'],
     [('Write, Read, FindReferenceBlocks of each block', 'mdflib/src/*block.cpp'), ('tree walk', 'Write and ReadEverythingButData of Mdf4File and Mdf3File'), ('links', 'mdflib/src/mdfblock.cpp')],
     claim=('abstract interpretation of the writers and readers over a model of the file whose bytes are tagged with the symbolic value they hold; the object tree before writing and the one after reading are compared through the public interfaces', 'Numbers and texts are symbols, so the values are arbitrary; the shape of the trees is bounded: representative files in which every property, reference kind and combination of flags occurs, with up to three children of a kind. XML content itself is P15. ' + TRUST))

prop('P19', 'Every channel of a group that is prepared for writing has its own place',
     'When a writer prepares the channel groups of a file (with the default calculation of offsets): each channel, and each element of an array channel, gets bytes of the record of its group that no other channel uses; a size that its data type supports is kept as the user set it, another one is replaced by one the data type supports; texts and byte arrays without a length become variable length data with an index; virtual channels take no bytes. Each channel with an invalidation flag (not master and virtual channels), and each element of it, has an invalidation bit of its own behind the data bytes: setting a value invalid sets that bit, setting it valid clears it, and nothing else. The record buffer has exactly the number of data and invalidation bytes the group states. Preparing again changes nothing. Channel groups of a data group have different record ids that fit in the record id size, which is zero only if there is a single group.',
     ['inputs', 'configurations', 'histories'], 'every combination of channel type, data type, size, array shape and invalidation flag next to other channels; numbers of channel groups around the borders of the record id sizes',
     'Tests write a few usual channels per group. A size, array or flag combination that shifts the next channel damages values of another channel silently.',
     ['mdflib/src/cg4block.cpp', 'mdflib/src/cn4block.cpp', 'mdflib/src/ca4block.cpp', 'mdflib/src/cg3block.cpp', 'mdflib/src/cn3block.cpp', 'mdflib/src/dg4block.cpp', 'mdflib/src/dg3block.cpp', 'mdflib/src/mdf4writer.cpp', 'mdflib/src/mdf3writer.cpp'],
     [('offsets', 'PrepareForWriting of Mdf4Writer, Mdf3Writer, Cg4Block, Cn4Block, Ca4Block, Cg3Block'), ('invalidation bits', 'Cn4Block::SetValid'), ('record ids', 'Dg4Block::AddCg4, Dg3Block::AddCg3')],
     claim=('abstract interpretation of the preparing functions on group objects for every combination of channel kinds, with interval and bit-ownership obligations on the result', 'All combinations of type, data type and ten sizes between two other channels; arrays up to nine elements; up to 300 groups. The values stored in the places are P11. ' + TRUST))

prop('P20', 'Numbers in texts keep their value',
     'A floating point or integer value that the library shows or stores as text (engineering values, meta data, block properties) with the number of decimals requested is the correctly rounded value, and a text that is read as a number gives that number.',
     ['inputs'], 'every value and number of decimals', 'Tests format a handful of values.', ['mdflib/src/mdfhelper.cpp', 'include/mdf/mdfhelper.h'], [('formatting', 'MdfHelper::FormatDouble')],
     na='The guarantee is the numeric result of rounding and digit generation for every double; a static analysis of the source cannot decide arithmetic of that kind. Where texts are stored and looked up is P07 and P15.')
prop('P21', 'Time stamps are converted without changing the instant',
     'Converting between nanoseconds since 1970, local time with zone and DST offsets, MDF 3 date and time texts, CANopen dates and times and ISO texts keeps the instant to the resolution of the target.',
     ['inputs', 'configurations'], 'every instant and time zone', 'Tests use a few instants in the zone of the build machine.', ['mdflib/src/mdfhelper.cpp', 'mdflib/src/timestamp.cpp'], [('conversion', 'MdfHelper, timestamp classes')],
     na='Calendar arithmetic and the time zone database of the host decide the result; both are run-time quantities outside a static argument. That the fields are stored in their places is P01, P02 and P11.')
prop('P22', 'The checksum of an attachment is the MD5 of its bytes',
     'CreateMd5FileChecksum and the checksum functions give the MD5 of RFC 1321 for every content and every split into chunks.',
     ['inputs'], 'every content', 'Tests use short contents.', ['mdflib/src/cryptoutil.cpp', 'include/mdf/cryptoutil.h'], [('checksum', 'CreateMd5FileChecksum')],
     na='Functional correctness of a hash for all inputs is equivalence with a reference algorithm, not a property of dataflow or structure.')
prop('P23', 'Reading a damaged file ends',
     'For every sequence of bytes, reading ends after a time and with memory proportional to the size of the file.',
     ['inputs'], 'every file', 'Tests read good files.', ['mdflib/src/mdfblock.cpp', 'mdflib/src/*block.cpp'], [('link following', 'ReadLink4List and the Read functions')],
     na='The readers follow links without a visited set, so termination depends on the links in the file (a cycle does not end); a static ranking argument does not exist for the code as it is, and adding cycle detection is not a small repair. Short reads and truncated data are P05, P10 and P14.')
prop('P24', 'Samples reach the file in time while a measurement runs',
     'During a measurement the queued samples are written within the flush period and the queue stays bounded as long as the disk keeps up.',
     ['schedules'], 'every schedule and load', 'Tests run for seconds without load.', ['mdflib/src/writecache.cpp', 'mdflib/src/mdf4writer.cpp'], [('worker', 'worker threads of the writers')],
     na='Real time and scheduling are not properties of the source. Locking, wake-up and loss of samples are P08 and P09.')
prop('P25', 'Each exported C function does what the library function it is named after does',
     'Every function of the C library (mdflibrary) calls the function of the object it is given that its name stands for, with the arguments it was given, in their order and unchanged, and nothing else that can change the object. What that function returns or writes reaches the caller: a number, flag, enumeration or object as it is; a text and its end in the buffer, if one is given, with the length of the text as result; the elements of a list in their order in the buffer, if one is given, with their number as result; an optional value with whether it is there. A buffer whose size is given is only written when the value fits, no more than the value is read or written, and the size is reported either way. Init functions give a new object made from their arguments and UnInit functions delete the object they are given.',
     ['inputs', 'programs'], 'every exported function, with and without a buffer, for buffers that are too small, exact and larger, both values of every flag, absent and present optional values, and values at the width of each parameter type',
     'No test calls the C functions. There are several hundred that look alike, so a wrong name, a swapped argument or a wrong length goes unseen until a user of the C or C# interface meets it.',
     ['mdflibrary/src/MdfExport.cpp'], [('forwarding', 'MdfLibrary::ExportFunctions')],
     claim=('abstract interpretation of every exported function on a receiver of unknown content: each library call gives a distinct value, and the calls, arguments, results, buffers and reference arguments are compared with what the name and the parameters say', 'All exported functions, all variants listed. The correspondence of names is derived from the names; 24 that differ are in a reviewed table. A new function whose name corresponds to nothing is reported in the notes, not judged. The C# and Python layers on top are not built here. ' + TRUST))
prop('P26', 'A MDF 4 file that was left unfinalized is completed when it is read',
     'A MDF 4 file of which the program that wrote it ended before finalizing it (its identification says so, with flags for what is missing) is completed in memory when its information blocks are read, wherever the file was cut: the last data block of the last data group reaches to the end of the file, each channel group of that data group has as many samples as it has complete records in that block (an incomplete last record is not counted and does not make the reading fail), a group of variable length data the size of its values. Only what the flags ask for is changed, other data groups keep what they state, reading a second time counts nothing twice, and the file itself is not changed. The file is reported as finalized only if everything the flags ask for could be done (lists, reduction and sample reduction blocks cannot). Marking a file finalized or unfinalized stores the identification and the flags so that a reader sees exactly these.',
     ['crash_points', 'inputs', 'histories'], 'every place where the file can end, every combination of flags, kinds of groups and order of records',
     'No stable test reads an unfinalized file; a wrong record size or flag loses all samples behind it, and the place where a program stops is arbitrary.',
     ['mdflib/src/mdf4file.cpp', 'mdflib/src/hd4block.cpp', 'mdflib/src/dg4block.cpp', 'mdflib/src/cg4block.cpp', 'mdflib/src/dt4block.cpp', 'mdflib/src/idblock.cpp'],
     [('finalizing', 'Mdf4File::FinalizeFile, Hd4Block and Dg4Block FinalizeDtBlocks, FinalizeCgAndVlsdBlocks'), ('identification', 'IdBlock::IsFinalized')],
     claim=('abstract interpretation of the writing and reading functions on a model of the file whose data block is laid out as the standard says, for flags, group kinds and every cut of the last records', '123 files: 16 flag combinations, up to three groups of fixed and variable length records, every cut within the last record. Counters and sizes are taken to be zero on file before. The size of variable length data may or may not include the length fields (the standard leaves it open, the writer excludes them). ' + TRUST))

