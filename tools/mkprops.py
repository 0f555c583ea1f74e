#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as code so that statements, anchors and ids stay in one place).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   observe_at=observe or [],hook_needed=hook)))
RD=["json/reader.go","yaml/reader.go","tagvalue/reader.go","tagvalue/reader/reader.go","rdf/reader.go"]
TVW=["tagvalue/writer.go","spdx/v2/v2_1/tagvalue/writer/","spdx/v2/v2_2/tagvalue/writer/","spdx/v2/v2_3/tagvalue/writer/"]
TVR=["spdx/v2/v2_1/tagvalue/reader/","spdx/v2/v2_2/tagvalue/reader/","spdx/v2/v2_3/tagvalue/reader/"]
RDFR=["spdx/v2/v2_2/rdf/reader/","spdx/v2/v2_3/rdf/reader/"]
W=["json/writer.go","yaml/writer.go"]+TVW
p("C01","Reading depends on the bytes, not on how the stream delivers them",
  "For the JSON, YAML, tag-value and RDF readers, at every supported SPDX version, the outcome of reading (the returned document, or the fact that an error is returned) is a function of the byte sequence alone. How the caller's io.Reader cuts that sequence into reads - single bytes, arbitrary chunks, reads that return no data and no error, final data delivered together with or before io.EOF - never changes it.",
  ["inputs","schedules"],"every document and byte string, every partition of it into reads, every EOF delivery style",
  "Tests read from files and bytes.Reader, which deliver everything in one or two large reads; no test splits a token, a line or a UTF-8 sequence across reads.",
  RD+TVR+RDFR,[("whole-stream buffering","json/reader.go, yaml/reader.go (bytes.Buffer.ReadFrom)"),("line scanner","tagvalue/reader/reader.go"),("XML tokeniser over bufio","rdf/reader.go via gordf")],["return values of Read and ReadInto"])
p("C02","A failing input stream is never mistaken for a complete document",
  "If the caller's io.Reader returns any error other than io.EOF before the reader has seen io.EOF, Read and ReadInto of JSON, YAML, tag-value and RDF return a non-nil error - whatever the offset, also when the bytes delivered so far form a complete valid document, whatever the kind of error (I/O error, timeout, unexpected EOF, wrapped EOF), and whether or not data came with it or a later read would succeed.",
  ["fault_sequences","inputs"],"every document, every offset at which the stream fails, every error value and delivery (with or without data, one-shot or sticky)",
  "No test injects a failing io.Reader at more than one place; the space of fail points is every byte of every document.",
  RD,[("error of buf.ReadFrom","json/reader.go, yaml/reader.go"),("scanner.Err","tagvalue/reader/reader.go"),("parser error","rdf/reader.go")],["error result of Read and ReadInto"])
p("C03","A failed ReadInto leaves the caller's document unchanged",
  "Whenever ReadInto (JSON, YAML, tag-value, RDF) returns an error - stream failure, truncated or corrupt content, unsupported version - the document the caller passed has exactly the content it had before the call, to any depth.",
  ["fault_sequences","inputs"],"every previous content of the target (any version), every failing input and every stream fault",
  "Tests that expect an error do not look at the target; the set of failure points is unbounded.",
  RD+["convert/chain.go"],[("target assigned only as the last step","convert.Document, called last by every ReadInto")],["the document passed to ReadInto"])
p("C04","An incomplete write is reported and leaves a clean prefix",
  "If the io.Writer given to a JSON, YAML or tag-value Write, or to reporter.Generate, returns an error at any point (having accepted all, some or none of the bytes offered), the call returns a non-nil error; if the call returns nil, the sink has accepted exactly the bytes a fault-free write produces. In either case what the sink accepted is a prefix of the fault-free output: nothing is written after a failed write. What the format cannot express - a document without creation information in tag-value, a supplier without a type in JSON or YAML, a report on a package whose files were not analysed - gives an error and writes nothing.",
  ["fault_sequences","inputs"],"every document and version, every byte offset at which the sink fails, sticky and transient failures, short writes with an error (from tag-value writers and reports also without one)",
  "Tests write to bytes.Buffer, which never fails; no test has a failing sink.",
  W+["reporter/reporter.go"],[("error results of Fprintf","tag-value writers' render functions"),("error of the single write","json/writer.go, yaml/writer.go"),("tabwriter Flush error","reporter/reporter.go")],["error result", "bytes accepted by the io.Writer"])
p("C05","A JSON or YAML document that was written successfully reads back equal",
  "After Write (JSON with any of its options, or YAML) of a valid document of a supported version has returned nil, reading the bytes the sink accepted - by any stream delivery and while other documents are being written and read - returns a document with the same content in every field the format carries.",
  ["inputs","schedules"],"every valid document content (any text, including quotes, backslashes, control characters, non-ASCII and YAML-special strings), every version that the format supports, every chunking, every interleaving with other operations",
  "The tests round-trip a handful of example documents with tame text; the guarantee is over all contents and deliveries.",
  ["json/","yaml/","spdx/v2/common/","spdx/v2/v2_1/","spdx/v2/v2_2/","spdx/v2/v2_3/"],[("custom (un)marshallers","spdx/v2/common/*.go, spdx/v2/v2_2/package.go, spdx/v2/v2_3/package.go, document.go")],["document returned by Read after Write"])
p("C06","A truncated JSON or RDF document is never accepted",
  "If only a proper prefix of a JSON or RDF document arrives before io.EOF (a torn write, a cut connection, a full disk) and the prefix ends before the closing brace or closing root element, Read returns a non-nil error instead of a shorter document.",
  ["crash_points","inputs"],"every document, every truncation point, every chunking of what remains",
  "Tests have a few hand-written malformed inputs; truncation points are every byte of every document.",
  ["json/reader.go","rdf/reader.go"]+RDFR,[("JSON syntax check","json/reader.go"),("XML end-of-block check","gordf through rdf/reader.go")],["error result of Read"])
p("C07","No input bytes can crash or hang a reader",
  "Whatever bytes a stream delivers - torn, truncated, bit-flipped, duplicated, reordered or spliced documents - Read and ReadInto of every format return (a document or an error) within a bounded number of steps: they never panic, never end the process from a background goroutine, never deadlock and never loop forever.",
  ["inputs","fault_sequences","schedules"],"every byte string reachable by corrupting a document, every chunking and goroutine schedule",
  "Tests cover a few malformed inputs known from bug reports; existing regressions (null packages, null relationships) show the space is not covered.",
  RD+TVR+RDFR,[("length and nil checks before indexing","tag-value, JSON and RDF parsers")],["process survival, return of the call"])
p("C08","Writing or analysing a document does not modify it, so it can be shared",
  "Writing a document (JSON, YAML, tag-value), reporting on one of its packages, converting it, and the spdxlib queries leave the document exactly as it was, and any number of these operations may run concurrently on one and the same document: they are free of data races and each produces the result it produces when run alone.",
  ["schedules","histories","inputs"],"every document, every set of read-only operations on it, every interleaving",
  "No test runs two operations on one document at the same time or compares a document before and after; map-order and schedule-dependent faults need many schedules.",
  W+["reporter/reporter.go","convert/","spdxlib/","spdx/v2/"],[("read-only access to the document","writers, reporter, converter, spdxlib")],["the shared document, outputs, race detector"])
p("C09","Independent operations running at the same time do not affect each other",
  "Reads, writes, builds, licence searches and conversions running concurrently on separate streams, documents and directories are free of data races and each returns exactly what it returns when run alone, in every interleaving.",
  ["schedules","histories","inputs"],"every mix of operations and inputs, every interleaving",
  "The test suite never runs operations concurrently; package-level state introduced anywhere would pass it.",
  RD+W+["builder/","idsearcher/","convert/","reporter/","licensediff/","utils/"],[("no package-level mutable state","whole library")],["results of each operation, race detector"])
p("C10","Results do not depend on map order or on goroutine scheduling",
  "Reading the same bytes, writing the same document, building from or searching the same tree, generating the same report: two executions of the same operation on equal inputs give equal results - same document (slice order included), same bytes - whatever order Go's maps iterate in and however the goroutines the operation uses internally are scheduled.",
  ["schedules","inputs"],"every input, every map iteration order, every schedule of internal goroutines (the RDF parser starts one per element)",
  "A test sees one map order and one schedule per run; a rarely different order shows up only as a flaky test.",
  RD+RDFR+W+["reporter/reporter.go","builder/","idsearcher/"],[("order-independent construction","RDF readers (triples come from goroutines and maps), writers, reporter")],["returned documents and written bytes"])
p("C11","A failed operation leaves nothing behind: a retry gives the fresh result",
  "After an operation (read, write, build, licence search, report) failed because of a stream, sink or file-system fault, repeating it without the fault gives exactly the result a first fault-free execution gives.",
  ["fault_sequences","histories"],"every history of failed and interrupted operations followed by a fault-free one",
  "Tests run each operation once in a fresh state and never after an injected failure.",
  RD+W+["builder/","idsearcher/","reporter/"],[("all state is per call","whole library")],["result of the retried operation"])
p("C12","The built document describes exactly the files of the tree",
  "On a tree of directories, regular files and symbolic links that does not change and whose operations do not fail, the builder's document lists exactly the regular files below the root that match none of the ignore patterns, each once, in lexical walk order, with the path relative to the root, the SHA1, SHA256 and MD5 of its complete content, unique identifiers, and a package verification code computed over all listed files; symbolic links are not followed. Short reads, interrupted system calls and the order in which the kernel lists directories make no difference.",
  ["inputs","schedules","configurations"],"every tree, ignore-pattern list, read-size sequence, EINTR pattern and directory order",
  "Tests build from a few small fixed directories with full-sized reads.",
  ["builder/build.go","builder/build_package.go","builder/build_file.go","builder/build_relationship.go","utils/filesystem.go","utils/verification.go"],[("walk with symlink and ignore filtering","utils.GetAllFilePaths, utils.ShouldIgnore"),("hashing of file content","utils.GetHashesForFilePath"),("verification code","utils.GetVerificationCode")],["document returned by builder.Build"])
p("C13","The builder reports every file-system failure instead of a wrong document",
  "If listing a directory, examining, opening or reading any file that belongs in the document fails at any point, the builder returns a non-nil error and never a document that lacks the file or carries a hash that is not the hash of the file's content; a file that must be skipped because it is ignored is not required to be readable.",
  ["fault_sequences","crash_points"],"every operation of the walk and of hashing, every errno, every read of every file",
  "Tests cover one missing directory and one missing file; nothing fails a read midway.",
  ["builder/","utils/filesystem.go"],[("error propagation from walk, open and copy","utils.GetAllFilePaths, utils.GetHashesForFilePath, builder.BuildPackageSection")],["error result and document of builder.Build"])
p("C14","A file that changes during a build still gets one consistent set of hashes",
  "When files are rewritten, truncated or extended by another process while a document is being built, the three checksums recorded for a file are checksums of one and the same sequence of bytes actually read from that file, and the package verification code is the one computed from exactly the SHA1 values listed in the document.",
  ["schedules","histories"],"every interleaving of another process's writes with the builder's system calls",
  "Tests build from trees that do not change.",
  ["utils/filesystem.go","utils/verification.go","builder/build_package.go"],[("one pass over the file feeds all hashes","utils.GetHashesForFilePath (io.MultiWriter)"),("verification code computed from the listed files","builder.BuildPackageSection")],["checksums and verification code of the returned document"])
p("C15","Created time stamps are true UTC times of the build",
  "The Created time of a document made by the builder or the licence searcher is a time between the start and the end of the call according to the system clock, expressed in UTC in the form YYYY-MM-DDThh:mm:ssZ, whatever the process's local time zone, across daylight-saving changes, and when the clock is slow, jumps or is far from the present.",
  ["configurations","schedules","fault_sequences"],"every time zone, clock position, rate and jump",
  "Tests pass a fixed Created value (they cannot predict the clock) or check only that something is there.",
  ["builder/build_creation_info.go","idsearcher/idsearcher.go"],[("time.Now().UTC() formatted by layout","builder.BuildCreationInfoSection")],["CreationInfo.Created"])
p("C16","Operations release everything they opened, on every path",
  "When a build, licence search or read returns - with or without error, after any fault - every file and directory it opened is closed again and, once those already running have been given time to end, no goroutine it started is left, and the number of files open at one time does not grow with the number of files in the tree.",
  ["fault_sequences","inputs"],"every tree and input, every failing operation",
  "Leaks are invisible in the outputs the tests compare.",
  ["utils/filesystem.go","idsearcher/idsearcher.go","builder/","rdf/reader.go"],[("deferred Close","utils.GetHashesForFilePath, idsearcher.searchFileIDs")],["open descriptors and goroutines after return"])
p("C17","The licence search reports exactly the identifiers the files carry",
  "The licence searcher's document records for every file that is to be searched exactly the SPDX short-form identifiers on its lines (lines shorter than 64 KiB), each once and sorted, concludes the conjunction of them, and records NOASSERTION for a file that has none or is excluded from the search - whatever the read sizes, interruptions and directory order - and the package's list of licences is exactly the union of the files' lists. If a file becomes unreadable during the search, that never removes identifiers from other files and never adds an identifier that is not there.",
  ["inputs","fault_sequences","schedules"],"every tree and file content with lines shorter than 64 KiB, every read partition, every failing read or open",
  "Tests search a few small fixed files with full-sized reads and no failures.",
  ["idsearcher/idsearcher.go"],[("line scan of each file","searchFileIDs"),("collection of licences","BuildIDsDocument, getIndividualLicenses, makeElement")],["document returned by idsearcher.BuildIDsDocument*"])
p("C18","A tag-value document that was written successfully reads back equal",
  "After tagvalue.Write of a valid document of version 2.1, 2.2 or 2.3 has returned nil, reading the bytes the sink accepted - by any stream delivery and while other documents are being written and read - succeeds and returns a document with the same content in everything the tag-value format expresses: creation information, packages, files, snippets, relationships, annotations, extracted licences and reviews, with their texts unchanged.",
  ["inputs","schedules"],"every valid document whose texts the tag-value syntax can express, every chunking, every interleaving with other operations",
  "The tests check the lines written for single elements and the parse of single lines; they round-trip nothing.",
  TVW+TVR+["tagvalue/reader.go","tagvalue/reader/reader.go"],[("render functions","*/tagvalue/writer/save_*.go"),("parser state machine","*/tagvalue/reader/parse_*.go")],["document returned by Read after Write"])
p("C19","A successful ReadInto replaces the document's whole content",
  "Whatever a document was used for before - fresh, filled by the caller, or the target of any history of successful and failed ReadInto calls of any format and version - after a successful ReadInto it has exactly the content it would have if the same bytes had been read into a fresh document of its version, and the same as if they had been read at their own version and converted. Nothing of the old content is left, and content kept from an earlier read through a copy of the document does not change.",
  ["histories","inputs","fault_sequences"],"every history of reads (formats, versions, deliveries, failures) into one document, every prior content",
  "Tests read into a new document each time; no test reads twice into one, or looks at what an earlier read returned.",
  RD+["convert/chain.go","convert/struct.go"],[("final assignment of the target","convert.Document, called last by every ReadInto")],["the document passed to ReadInto"])
p("C20","An RDF document is read as what it states",
  "Reading a valid RDF/XML document (typed elements with property elements, in the vocabulary of SPDX 2.2 or 2.3 that the readers know; no XML comments, no white space at the start of texts) gives no error and exactly the document it states: every element once with all its properties, whether it is written inside the property that refers to it, at the top level and referenced by URI or nodeID, or mentioned several times; lists in the order of the file; licence expressions with their structure; texts with their characters, however these are escaped - for every order of properties, every way the bytes are delivered and every schedule of the loader.",
  ["inputs","schedules"],"every document of the described form, every stream partition, every interleaving of concurrent reads and every map order",
  "Tests read a few fixed documents and compare hand-picked fields of single elements; no test reads the same statement laid out in another way.",
  ["rdf/reader.go","spdx/v2/v2_2/rdf/reader/","spdx/v2/v2_3/rdf/reader/"],[("conversion of triples to the model","spdx/v2/v2_3/rdf/reader/parser.go, spdx/v2/v2_2/rdf/reader/parser.go"),("node identity and repeated mentions","parser.cache, parser.parsedTriples, elementToTriples")],["document returned by rdf.Read and rdf.ReadInto"])
p("C21","Saved and loaded, a built document still describes the tree",
  "The document of a build or licence search, converted to a supported version, saved as JSON, YAML or tag-value (also again after a failed save) and loaded (also after a failed load) at the saved or the latest version, lists the same files with the same checksums and licence information, its verification code is the one computed from the loaded files (and, for any file left out, the code of the others), and saving the loaded document again gives the same bytes - whatever the I/O delivers along the way and while other pipelines run.",
  ["histories","schedules","fault_sequences","inputs"],"every tree (names: single lines of UTF-8), version, format, stream partition, failed attempt and interleaving",
  "The parts are tested apart, each with its own hand-written values; no test takes the output of one part as the input of the next.",
  ["builder/","idsearcher/","convert/","json/","yaml/","tagvalue/","utils/verification.go"]+TVW+TVR,[("the document model shared by builder, converter, writers and readers","spdx/v2/"),("verification code","utils.GetVerificationCode")],["loaded document, verification code and bytes of the second save"])
p("C22","A JSON or YAML document is read as what it states",
  "For a JSON or YAML document that any producer wrote according to the SPDX 2.1-2.3 schema - members in any order, absent, null or unknown ones, any string escape or YAML style (block, flow, quoted, literal, folded, anchors, CRLF, byte order mark, UTF-16), relationships also given as documentDescribes or hasFiles - Read and ReadInto of every version return a document whose every field is what the text states, and nothing else, in every delivery of the stream and while other documents are read.",
  ["inputs","schedules"],"every document content, every spelling of it, every target version, every chunking and interleaving",
  "The tests read a few example files, most of them written by the library's own conventions; a field dropped, renamed or mixed up in both directions survives every round trip.",
  ["json/reader.go","yaml/reader.go","spdx/v2/common/","spdx/v2/v2_1/","spdx/v2/v2_2/","spdx/v2/v2_3/","convert/"],[("JSON member names","struct tags in spdx/v2/v2_*/"),("legacy members","UnmarshalJSON in spdx/v2/v2_2/document.go, spdx/v2/v2_3/document.go")],["document returned by Read and ReadInto"])
p("C23","A tag-value document is read as what it states",
  "For a tag-value document that any producer wrote according to the SPDX 2.1-2.3 specification - tags in any order the specification allows, comments, blank lines, surrounding white space, multi-line <text> values, CRLF - Read and ReadInto of every version return a document whose every field is what the text states, and nothing else, in every delivery of the stream and while other documents are read.",
  ["inputs","schedules"],"every document content, every spelling of it, every target version, every chunking and interleaving",
  "The tests feed the parser tag by tag or read a few example files; a tag stored in the wrong field or the wrong element in some section order survives them.",
  ["tagvalue/reader.go","tagvalue/reader/reader.go"]+TVR+["convert/"],[("line scanner","tagvalue/reader/reader.go"),("parser state machine","spdx/v2/v2_*/tagvalue/reader/parser.go")],["document returned by Read and ReadInto"])
p("C24","Conversion keeps every common field, along every chain",
  "Converting a document to any other supported version returns a document in which every field both versions have is equal (relationships, files and snippets included, in the same order), every other field empty, and SPDXVersion that of the target; along any chain of conversions what is left is what all its versions share. The source is not changed, and a result of another version shares nothing with it: any number of conversions and writers of one document, and later edits of the results, may run at the same time.",
  ["schedules","histories","inputs"],"every document, every chain of versions, every interleaving with other conversions and writers of the same document",
  "The conversion tests convert one fully filled document per pair of versions; sharing between source and result, and what a chain loses, is not looked at.",
  ["convert/","spdx/v2/v2_1/","spdx/v2/v2_2/","spdx/v2/v2_3/"],[("conversion chain","convert/chain.go, convert/struct.go"),("per-version ConvertFrom","spdx/v2/v2_2/package.go, spdx/v2/v2_3/")],["converted documents, source document, race detector"])
p("C25","Comparing two scans of a tree reports exactly what changed",
  "In any history of a source tree - scanned with the licence search, perhaps after a failed attempt, saved and loaded in any format and version, changed, scanned again - licensediff on two of the documents lists each file as only in the first, only in the second, same or changed licence exactly as the states of the tree differ; reporter.Generate counts each state's files under their licences, most frequent first; spdxlib names the scanned package as the described one and finds the document valid.",
  ["histories","fault_sequences","inputs"],"every tree and sequence of changes, every failed attempt, format, version, delivery and interleaving",
  "The tests of licensediff, reporter and spdxlib use hand-made packages; no test follows a tree over time or uses documents that other parts of the library made.",
  ["licensediff/licensediff.go","reporter/reporter.go","spdxlib/","idsearcher/","builder/"],[("pairs by file name","licensediff.MakePairs, MakeResults"),("counting and ordering","reporter.Generate"),("described packages","spdxlib.GetDescribedPackageIDs"),("validation","spdxlib.ValidateDocument")],["licence differences, reports, described packages, validation results"])
p("C26","A document with a malformed statement is refused",
  "If one statement of an otherwise well-formed JSON, YAML, tag-value or RDF document is malformed - an identifier without its prefix or name, an agent without a type, a value of another JSON type than the schema's, an unknown tag or RDF property, a checksum algorithm, relationship type or annotation type that does not exist, a relationship, reference or range with a part missing, an element without identifier, a text that is never closed, an unknown version, bytes after a JSON document - Read and ReadInto return an error, wherever the statement stands, however the stream delivers it, whatever was read before and while other documents are read; the well-formed document is read as what it states, also right after the malformed one.",
  ["inputs","histories","schedules"],"every document, every place of the malformed statement, every order of reads, every chunking and interleaving",
  "Tests feed single malformed values to single parse functions; an error that is lost on its way out of a section, or that only the last element of a list can raise, passes them.",
  RD+TVR+RDFR+["spdx/v2/common/"],[("error results of the parse functions","tag-value and RDF parsers"),("UnmarshalJSON of identifiers and agents","spdx/v2/common/"),("version switch","json/reader.go, yaml/reader.go, tagvalue/reader.go, rdf/reader.go")],["error result of Read and ReadInto"])
p("C27","Questions about a document are answered correctly, whoever else uses it",
  "While any number of analyses and writers use the same documents: spdxlib.GetDescribedPackageIDs returns, sorted and once each, exactly the document's packages that its DESCRIBES and DESCRIBED_BY relationships name (the only package if there is one, an error if there is none); ValidateDocument accepts a document exactly if every element its relationships name, other than elements of other documents, NONE and NOASSERTION, is in it; FilterRelationships asks for every relationship in order; licensediff.MakePairs and MakeResults classify each file name of two packages as only in the first, only in the second, same or changed licence; reporter.Generate counts the files under their licences, also after a failed write; utils.GetVerificationCode covers exactly the files that are not excluded. No document is changed.",
  ["schedules","fault_sequences","inputs"],"every document and pair of packages, every set of analyses and writers running at the same time, every interleaving and map order, every sink failure before the report",
  "Tests ask one question at a time about a few hand-made documents with a handful of files.",
  ["spdxlib/","licensediff/licensediff.go","reporter/reporter.go","utils/verification.go"],[("described packages","spdxlib.GetDescribedPackageIDs"),("validation","spdxlib.ValidateDocument"),("pairs by file name","licensediff.MakePairs, MakeResults"),("counting and ordering","reporter.Generate"),("verification code","utils.GetVerificationCode")],["return values, report bytes, the documents, race detector"])
p("C28","What is written is what the format prescribes for the document",
  "What the JSON, YAML and tag-value writers put into the sink for a valid document of version 2.1, 2.2 or 2.3 - whichever of JSON's options is given, by pointer or by value, after a failed write or repeatedly, while other documents are written - is, read by any other tool's parser, exactly the document in the form the format defines: every field that has content once, under the member or tag and in the value form of the SPDX specification, nothing else; tag-value sections in the specification's order with each element's tags in its section and texts of several lines delimited; JSON as escaped and indented as the options say.",
  ["schedules","fault_sequences","inputs"],"every valid document, set of concurrent writers, earlier failed write and interleaving",
  "Tests compare the output for a few documents with itself read back or with a stored text; reading back cannot see an error that the library's reader and writer share.",
  ["json/writer.go","yaml/writer.go","tagvalue/writer.go","spdx/v2/*/tagvalue/writer/","spdx/v2/common/"],[("JSON and its options","json.Write"),("YAML","yaml.Write"),("tag-value","tagvalue.Write and the per-version writers"),("value forms","MarshalJSON methods of spdx/v2/common and spdx/v2/v2_*")],["bytes the sink accepted, parsed by an independent parser"])
p("C29","Whatever a reader returned can be used without a crash",
  "Whatever bytes a document was read from - damaged in storage or transit, with parts missing, empty or null - if Read or ReadInto returned it without error, then writing it in any format, converting it to any version, validating it, asking for its described packages or relationships, comparing its packages, reporting on them and computing their verification codes, by any number of tasks at once and to sinks that may fail, return in bounded time, with a result or an error; none panics.",
  ["schedules","fault_sequences","inputs"],"every byte sequence a reader accepts, every sequence of uses by concurrent tasks, every sink failure",
  "Tests use well-formed documents; a null or empty element is accepted by the reader and only crashes whoever touches it later, perhaps after a conversion.",
  ["json/reader.go","yaml/reader.go","convert/","tagvalue/","spdx/v2/*/tagvalue/writer/","spdxlib/","reporter/","licensediff/"],[("null elements","json.ReadInto, yaml.ReadInto"),("empty elements","convert.Document"),("uses","tagvalue.Write, spdxlib, reporter.Generate, licensediff.MakePairs")],["panics and step bound in the simulator"])
p("C30","Changing a document's format keeps its content",
  "A document read from JSON, YAML, tag-value or RDF and written in another format - by any chain of writes and reads in the same or a later version, also after failed attempts and while other documents are changed - has after every step the content it had after the first read: every element with all its fields that both formats can express, the snippets of its files and the annotations of its packages and files, wherever each format keeps them.",
  ["inputs","fault_sequences","schedules"],"every document, source format, sequence of target formats, delivery, earlier failed write or read and interleaving",
  "Tests convert one example per format and leave out of the comparison what gets lost; a loss in one combination of formats shows only in documents that use it.",
  ["json/","yaml/","tagvalue/","rdf/","spdx/v2/"],[("JSON form of a document","Document.MarshalJSON of spdx/v2/v2_*"),("tag-value form","spdx/v2/*/tagvalue/writer/"),("documents as RDF readers build them","spdx/v2/*/rdf/reader/")],["document returned after each step"])
with open("/verif/properties.jsonl","w") as fh:
    for x in P: fh.write(json.dumps(x)+"\n")
print(len(P), [ (x["id"],len(x["title"])) for x in P if len(x["title"])>80])
