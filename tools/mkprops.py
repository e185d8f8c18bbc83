#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
B = "src/pdfmm/base/"; Pv = "src/pdfmm/private/"
out = []

def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    out.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "A lookup that finds nothing is never dereferenced",
  "Whenever the library asks a document (or a font, form, name tree, XML packet or factory) for something that may not be there - a missing dictionary key, a dangling reference, an absent array entry, an unsupported kind, a failed downcast - and the answer is 'nothing', the code checks for it before using it. A document lacking an entry therefore yields a default or a library error, never a null-pointer dereference.",
  ["inputs"], "every document (valid or not), every absent entry, at every place that looks something up",
  "The set of documents with one entry missing is unbounded; the tests load a few dozen well-formed files in which the entries are present.",
  [B + "PdfDictionary.cpp", B + "PdfArray.cpp", B + "PdfIndirectObjectList.cpp", B + "PdfEncrypt.cpp", B + "PdfFontFactory.cpp", B + "PdfAcroForm.cpp"],
  [("functions returning a pointer that may be null", B + "PdfDictionary.cpp (FindKey, GetKey, FindKeyParent)"), ("checked downcasts", B + "PdfParser.cpp (ReadObjectsInternal)"), ("Must* variants that throw", B + "PdfDictionary.cpp (MustFindKey)")],
  ["process exit (no SIGSEGV)", "PdfError"])

p("C02", "Recursion over document-controlled structure is bounded",
  "Loading, traversing or copying a document whose objects, page tree, name trees, outlines, form fields, fonts or cross-reference chain are nested arbitrarily deep or refer back to themselves never recurses without bound. Every recursive walk is limited by the shared nesting-depth limit, by a record of what was already visited, or by an explicit cycle check or counter, and exceeding the limit is reported as a library error; the shared limit counts every activation exactly once, also when it is exceeded. A loop that follows references from object to object is limited in the same way, and a form that is being read is not entered again.",
  ["inputs"], "every input document, in particular ones with arbitrarily deep nesting or cyclic references",
  "Stack exhaustion needs inputs of unbounded depth or cyclic graphs for each recursive walk; the tests cover a few hand-written ones for the tokenizer and the page tree.",
  [B + "PdfTokenizer.cpp", B + "PdfParser.cpp", B + "PdfPageCollection.cpp", B + "PdfNameTree.cpp", B + "PdfOutlines.cpp", B + "PdfField.cpp", B + "PdfIndirectObjectList.cpp"],
  [("RAII nesting-depth guard", Pv + "PdfDeclarationsPrivate.cpp (utls::RecursionGuard)"), ("visited sets", B + "PdfParser.cpp, PdfPage_TextExtraction.cpp, PdfIndirectObjectList.cpp")],
  ["process exit", "PdfErrorCode::BrokenFile / InvalidXRef errors"])

p("C03", "Nothing leaves an encrypted document in clear",
  "When a document that has an encryption is saved, in full, incrementally or streamed, the writer has that encryption and its generated key before the first object is written, and every string and stream of an object, at any nesting depth, passes the cipher with the key of the indirect object that contains it (the document key where the algorithm prescribes that), with the length that is declared for it. Loading passes every string and stream through the same cipher, key and data layout. Only the encryption dictionary, cross-reference data, trailers, the hexadecimal contents of signatures and, where metadata are not encrypted, streams with a Crypt filter are left readable, and these in the same way when they are written and when they are read.",
  ["inputs", "histories", "configurations"], "every document content, every encryption algorithm, every save mode, every nesting of strings inside containers",
  "Each test encrypts one or two strings or streams; it cannot enumerate all write paths that serialise a nested value.",
  [B + "PdfVariant.cpp", B + "PdfDictionary.cpp", B + "PdfArray.cpp", B + "PdfString.cpp", B + "PdfObject.cpp", B + "PdfWriter.cpp", B + "PdfImmediateWriter.cpp", B + "PdfTokenizer.cpp", B + "PdfParserObject.cpp"],
  [("encryption context passed down every Write call", B + "PdfObject.cpp (Write), PdfVariant.cpp (Write)"), ("stateful encrypt (key bound to object reference)", B + "PdfStatefulEncrypt.h")],
  ["bytes of the saved file"])

p("C04", "Every modification is seen by an incremental save",
  "Any public operation that changes the content of an object - its value, a dictionary key, an array element, its stream data or filters - marks that object as modified, whatever path through the operation made the change. An incremental update therefore contains every changed object; conversely resetting the modified state happens only where the object has been loaded or saved.",
  ["histories", "inputs"], "every sequence of edits through the public API followed by an incremental save",
  "The tests cover a handful of edit sequences; a missing mark is visible only for the particular operation and path followed by an incremental save and reload.",
  [B + "PdfObject.cpp", B + "PdfDictionary.cpp", B + "PdfArray.cpp", B + "PdfVariant.cpp", B + "PdfObjectStream.cpp", B + "PdfDataContainer.cpp", B + "PdfWriter.cpp"],
  [("SetDirty called by each mutator", B + "PdfDictionary.cpp, PdfArray.cpp, PdfObject.cpp"), ("writer skips objects that are not dirty", B + "PdfWriter.cpp (WritePdfObjects)")],
  ["objects present in the appended section of an updated file"], [("m_IsDirty", "object modified since load/save", B + "PdfObject.h")])

p("C05", "Objects loaded on demand are complete before they are used",
  "Every operation that reads or replaces the value or the stream of an object first makes sure that an object loaded on demand has actually been read from the file. On-demand loading is thus indistinguishable from loading everything at once, for every operation and whatever operation touches the object first.",
  ["histories", "inputs", "configurations"], "every object of every file, every first operation applied to it",
  "Each test touches an object through one accessor first; the guarantee is about every accessor being the first.",
  [B + "PdfObject.cpp", B + "PdfObject.h", B + "PdfParserObject.cpp", B + "PdfXRefStreamParserObject.cpp"],
  [("DelayedLoad / DelayedLoadStream before each access", B + "PdfObject.cpp")],
  ["values returned by object accessors"], [("m_IsDelayedLoadDone", "value read from file", B + "PdfObject.h")])

p("C06", "Objects stored in a container know their owner",
  "Every object that is stored in a dictionary or array - by insertion, replacement, resize, assignment, copy, move or swap - is linked to the container that now owns it and through it to its document. References inside stored values can therefore always be resolved, and a change to a nested value always reaches the enclosing indirect object.",
  ["histories"], "every sequence of container operations (insert, replace, resize, assign, move, swap, copy)",
  "A missing link shows only when a nested value stored by that very operation is later resolved or modified; the tests try few such combinations.",
  [B + "PdfDictionary.cpp", B + "PdfArray.cpp", B + "PdfArray.h", B + "PdfObject.cpp", B + "PdfDataContainer.cpp", B + "PdfVariant.cpp"],
  [("SetParent on each stored child", B + "PdfDictionary.cpp (addKey), PdfArray.cpp"), ("setChildrenParent after wholesale assignment", B + "PdfDataContainer.cpp")],
  ["PdfObject::GetParent/GetDocument, reference resolution"])

p("C07", "Enumerations and their PDF names correspond one-to-one, both ways",
  "For every enumeration that is written to or read from a document by name - filters and their abbreviations, colour spaces, annotation, action, field, XObject and destination types, page modes and layouts, highlighting modes, appearance kinds, PDF versions and PDF/A levels, content-stream operators with their operand counts, standard font names, font stretches, error codes - each enumerator has exactly the name the PDF specification gives it and reading that name yields the same enumerator. No enumerator with a name is left out of a conversion, and an unknown name is reported or mapped to the 'unknown' or default value, never to another enumerator.",
  ["inputs"], "every enumerator of every such enumeration, in both directions",
  "Tests exercise a few enumerators of a few enumerations, and only one direction at a time; they have no independent copy of the specification tables.",
  [B + "PdfFilter.cpp", Pv + "PdfDeclarationsPrivate.cpp", B + "PdfOperatorUtils.cpp", B + "PdfAction.cpp", B + "PdfAnnotation.cpp", B + "PdfError.cpp", Pv + "PdfStandard14FontData.cpp", Pv + "XMPUtils.cpp"],
  [("name tables and switch statements", "see files")],
  ["names written in files and content streams", "enumerators returned by accessors"])

p("C08", "Character encoding and lexical tables match the PDF specification",
  "The predefined encodings (WinAnsi, MacRoman, MacExpert, Standard, Symbol, ZapfDingbats, PDFDocEncoding) map every one of the 256 codes to the character the specification (or the platform's own code page) assigns, and each is given out under its own name. Glyph names map to the code points of the Adobe glyph list (names of small-capital, old-style and similar variants may map to the plain character). The lexical classes of the syntax - white space, delimiters, regular characters, hexadecimal digits, string escapes - contain exactly the specified characters, the same ones when reading and when writing; of an odd number of hexadecimal digits the last one is the upper half of its byte.",
  ["inputs"], "every code 0-255 of every predefined encoding, every glyph name, every byte of each lexical class",
  "The tests spot-check a few characters; a wrong entry among thousands is visible only for documents using exactly that character.",
  [B + "PdfPredefinedEncoding.cpp", Pv + "PdfEncodingPrivate.cpp", B + "PdfDifferenceEncoding.cpp", B + "PdfTokenizer.cpp", B + "PdfString.cpp", B + "PdfName.cpp"],
  [("static tables", "see files")],
  ["decoded text, encoded text, names and strings as written"])

p("C09", "Copies, moves, assignments and comparisons cover the whole value",
  "Copying, moving, assigning or swapping any library value type carries over every piece of its state, and comparing two values for equality takes every distinguishing piece of state into account. Inequality is always the exact negation of equality, both are symmetric, and assigning a value to itself or to something stored inside it leaves a valid value.",
  ["inputs", "histories"], "every value of every copyable or comparable type, including self-assignment and values of different kinds",
  "A forgotten member or a wrong comparison branch shows only for values differing in exactly that member or kind.",
  [B + "PdfVariant.cpp", B + "PdfObject.cpp", B + "PdfDictionary.cpp", B + "PdfArray.cpp", B + "PdfString.cpp", B + "PdfName.cpp", B + "PdfReference.cpp", B + "PdfColor.cpp", B + "PdfEncrypt.cpp", B + "PdfRect.cpp"],
  [("hand-written copy/move constructors, assignments and comparison operators", "see files")],
  ["results of operator==, operator!=, copies"])

p("C10", "A stream is never read and written at the same time, and always released",
  "While a handle created to read or write an object's stream exists, the stream is locked: opening it again, replacing, clearing, copying, moving or saving its data is rejected with a library error. A failed opening does not leave it locked, moving a handle moves the lock with it, and destroying the handle finishes the output and then releases the lock. A filter never starts an operation while one is in progress, every started operation is ended - also when it fails in whatever way - by the function that starts it or by the object holding the filter, and no state of one operation leaks into the next.",
  ["histories", "fault_sequences"], "every interleaving of opening, moving, closing and failing stream operations",
  "Tests open and close streams in the regular order; the guarantee is about every order and every failing path.",
  [B + "PdfObjectStream.cpp", B + "PdfFilter.cpp", B + "PdfFilter.h", B + "PdfImmediateWriter.cpp", B + "PdfStreamedObjectStream.cpp"],
  [("lock flag checked and set when a handle is created, cleared when it goes away", B + "PdfObjectStream.cpp"), ("Begin/End protocol of filters", B + "PdfFilter.cpp")],
  ["PdfError on conflicting access, subsequent accesses after a failure"])

p("C11", "File structure is written in order with exact cross-reference offsets",
  "Every save by PdfWriter writes header (nothing, when it is an incremental update), objects, cross-reference section, trailer and start offset in that order. The offset recorded for an object is the output position right before that very object is written, and an object without a freshly taken position is not written; the start offset is the position where the cross-reference section (the table, or the cross-reference stream object) begins; entries carry the recorded offset and the object's own generation unchanged, in the fixed 20-byte format for tables, and an offset that does not fit in the field of a cross-reference stream is reported rather than truncated. An incremental update seeks to the end of the output before anything is written and hands over the offset of the section that was loaded so that it is linked through /Prev, and files that are updated in place are opened for appending. Not covered: tables in files of more than ten-digit size, repeated SaveUpdate calls on one document, and the streamed PdfImmediateWriter, whose Finish is not implemented.",
  ["inputs", "configurations", "histories"], "every document and every save mode of PdfWriter (full, incremental, plain or encrypted, table or stream cross-reference)",
  "Readers recover from wrong offsets, so tests that reload a file do not notice; and each test uses one save mode and document.",
  [B + "PdfWriter.cpp", B + "PdfXRef.cpp", B + "PdfXRefStream.cpp", B + "PdfMemDocument.cpp"],
  [("position taken immediately before writing", B + "PdfWriter.cpp (WritePdfObjects), PdfXRef.cpp (Write)"), ("seek to end before an update", B + "PdfWriter.cpp, PdfMemDocument.cpp")],
  ["offsets in the cross-reference section of the saved file"])

p("C12", "What is read and written does not depend on the locale",
  "Numbers, names, dates and operators are formatted and parsed the same way whatever the process's C or C++ locale is: no conversion between text and numbers, no character classification and no case mapping used on document data consults the locale. Text written under a locale with a decimal comma or digit grouping is byte-identical to text written under the classic locale.",
  ["configurations", "inputs"], "every C and C++ locale, every number, every conversion site",
  "The test process runs in the classic locale.",
  [Pv + "PdfDeclarationsPrivate.cpp", B + "PdfStringStream.cpp", B + "PdfTokenizer.cpp", B + "PdfParser.cpp", B + "PdfDate.cpp", B + "PdfPainter.cpp", Pv + "Format.h"],
  [("classic locale imbued in the library's string stream", B + "PdfStringStream.cpp"), ("to_chars/from_chars and locale-free formatting", Pv + "PdfDeclarationsPrivate.cpp")],
  ["bytes written, values read"])

p("C13", "Independent documents can be used from different threads",
  "Two threads working on different documents share no mutable state: apart from the explicitly documented process-wide configuration setters, nothing in the library writes to state shared between documents, and shared tables are built once and then only read.",
  ["schedules"], "every interleaving of threads each using their own documents",
  "The tests are single-threaded.",
  [B + "PdfCommon.cpp", B + "PdfEncoding.cpp", B + "PdfEncodingMapFactory.cpp", B + "PdfFontManager.cpp", B + "PdfFontMetricsStandard14.cpp", B + "PdfEncrypt.cpp", Pv + "PdfDeclarationsPrivate.cpp", Pv + "FreetypePrivate.cpp"],
  [("const tables, magic statics, thread-local recursion depth, atomic id counter", "see files")],
  ["data races between documents"])

p("C14", "Every failure reaches the caller as a library error",
  "Whatever is wrong with the input or the environment, a failing library call reports it by throwing the library's own error type: no other exception type raised by the library or by the standard-library operations it uses on document data escapes to the caller, and no exception leaves a destructor. An error that was caught internally is either rethrown unchanged, converted into a library error, or belongs to a documented recovery path.",
  ["inputs", "fault_sequences"], "every input and every failing call",
  "Each test provokes one particular error; the guarantee is over all throw sites and all paths to them.",
  [B + "PdfError.h", B + "PdfError.cpp", Pv + "PdfDeclarationsPrivate.cpp", B + "PdfString.cpp", B + "PdfName.cpp", B + "PdfField.cpp", B + "PdfFilter.cpp"],
  [("error macros throwing the library error", B + "PdfError.h (PDFMM_RAISE_ERROR)")],
  ["type of the exception seen by the caller; std::terminate"])

p("C15", "Handles of external libraries are released exactly once on every path",
  "Every resource obtained from an external library or the operating system - compression state, cipher and digest contexts, image codecs, XML documents, font faces, font patterns, files, raw memory - is released exactly once on every exit from the code that obtained it, including exits by exception and early return, and is not used after release.",
  ["inputs", "fault_sequences"], "every input and every failing call between acquisition and release",
  "Leaks and double releases happen on error paths, which the tests take rarely and without a leak checker.",
  [B + "PdfImage.cpp", B + "PdfEncrypt.cpp", Pv + "PdfFiltersPrivate.cpp", B + "PdfXMPPacket.cpp", Pv + "XMPUtils.cpp", B + "PdfFontConfigWrapper.cpp", B + "PdfFontManager.cpp", Pv + "FreetypePrivate.cpp"],
  [("RAII wrappers, cleanup before each raise", "see files")],
  ["memory and handle growth, double free"])

p("C16", "Failures reported by external libraries are not ignored",
  "Every call into the cryptographic, compression, font, image and XML libraries whose result says whether it worked is examined, and a failure is reported as an error or handled by a documented fallback before any output of that call is used. In particular an encryption, digest or decompression step that failed never yields data that is treated as valid.",
  ["fault_sequences", "inputs"], "every call that can fail, every input that makes it fail",
  "The external calls practically never fail under test.",
  [B + "PdfEncrypt.cpp", Pv + "PdfFiltersPrivate.cpp", B + "PdfImage.cpp", B + "PdfFontMetricsFreetype.cpp", B + "PdfFontManager.cpp", B + "PdfXMPPacket.cpp", Pv + "XMPUtils.cpp"],
  [("status checked right after the call", "see files")],
  ["PdfError after a failed external call"])

p("C17", "Behaviour never depends on uninitialised memory",
  "Once constructed, every library object has all of its scalar and pointer state set to a defined value by whichever constructor was used, and no function reads a local variable, or an output of a call that may have failed to set it, before it was given a value on that path.",
  ["inputs", "histories"], "every constructor of every type, every path through every function",
  "Uninitialised memory usually happens to be zero in a test process, and the affected path must be taken.",
  [B + "PdfParser.cpp", B + "PdfTokenizer.cpp", B + "PdfEncrypt.cpp", B + "PdfFontMetricsObject.cpp", B + "PdfFontMetricsFreetype.cpp", B + "PdfImage.cpp", Pv + "PdfFiltersPrivate.cpp"],
  [("member initialisers", "constructors"), ("out parameters set on success", "Try* functions")],
  ["repeatability of results; memory-sanitizer cleanliness"])

p("C18", "Bytes 0x80-0xFF are treated as unsigned",
  "Document bytes with the high bit set are never sign-extended where their numeric value matters: when used as a table index, as a length or count, as part of a multi-byte code or number, in an ordering or range comparison, or as argument of a character classification function. Every byte value behaves according to its value 0-255.",
  ["inputs"], "every byte value at every place where a byte of the document is used as a number",
  "The tests use mostly ASCII data.",
  [B + "PdfTokenizer.cpp", B + "PdfString.cpp", B + "PdfName.cpp", B + "PdfFont.cpp", B + "PdfEncoding.cpp", B + "PdfCMapEncoding.cpp", Pv + "PdfFiltersPrivate.cpp", B + "PdfXRefStreamParserObject.cpp", B + "PdfFontTrueTypeSubset.cpp"],
  [("conversion to unsigned char before widening", "see files")],
  ["decoded values of bytes >= 0x80"])

p("C19", "Emitted content streams are well-formed",
  "For all arguments with finite numbers, every public drawing operation of PdfPainter (and the setters behind its state wrappers) that returns normally appends complete content-stream operators: every operator name is defined by the specification, has exactly the operands the specification prescribes (including the number of components of a colour in its colour space), and numbers, names and operators are separated by white space or delimiters. Saves, text objects, marked content and paths opened by an operation are closed by it on every path (the operations that open or close one on purpose do exactly that), and operators are used only where the specification permits them. An operation that throws leaves no half-written operator behind. Names made of run-time text are escaped. The library's appearance streams and patterns obey the same rules, and when content is added to a page or form the content that existed is kept exactly once, separated by white space from what surrounds it, and saves around it are balanced.",
  ["inputs", "histories"], "every drawing call with every combination of optional arguments",
  "Tests compare the output of a few drawing calls; each conditional path in each drawing function emits its own operator sequence.",
  [B + "PdfPainter.cpp", B + "PdfColor.cpp", B + "PdfField.cpp", B + "PdfSigner.cpp", B + "PdfOperatorUtils.cpp", "src/pdfmm/contrib/PdfTilingPattern.cpp"],
  [("operator text emitted through a formatting stream", B + "PdfPainter.cpp")],
  ["content streams of pages and forms"])

p("C20", "What a setter stores is what the matching getter reads",
  "For every property of the document objects (catalog, information, annotations, fields, pages, outlines, actions, graphics states, forms, signatures, appearance characteristics), the setter stores the value of its parameter unchanged - the components of an array in the given order - in the dictionary entry that the PDF specification defines for it, and the getter of the same name reads exactly that entry, with a value type that the setter stores; boolean properties kept in flags use the specified bit and the same sense in setter and getter. Clearing a property removes exactly that entry, and a getter never returns a value that could not be read, or a cached value that the setter did not update.",
  ["inputs", "histories"], "every setter/getter pair, every value",
  "The tests cover a minority of the pairs.",
  [B + "PdfAnnotation.cpp", B + "PdfAnnotation_Types.cpp", B + "PdfField.cpp", B + "PdfInfo.cpp", B + "PdfCatalog.cpp", B + "PdfOutlines.cpp", B + "PdfPage.cpp", B + "PdfSignature.cpp", B + "PdfButton.cpp", B + "PdfTextBox.cpp", B + "PdfChoiceField.cpp"],
  [("literal keys in setter and getter", "see files")],
  ["value returned by a getter after the setter"])

p("C21", "Read-only operations do not modify the document",
  "Calling any operation that is declared read-only (a const member function, or a getter) - inspecting objects, pages, fields, annotations, outlines, name trees, fonts or metadata, extracting text - never adds, removes or changes a value of the document nor marks anything as modified. Loading on demand and caching may happen but do not mark anything as modified. Writing an object out changes nothing of it except that an unfiltered stream is compressed, its length is recorded and the modification mark is cleared.",
  ["histories", "inputs"], "every sequence of read-only operations on every document",
  "Tests check what the operation returns, not that the rest of the document stayed as it was.",
  [B + "PdfObject.cpp", B + "PdfDictionary.cpp", B + "PdfArray.cpp", B + "PdfPage.cpp", B + "PdfPage_TextExtraction.cpp", B + "PdfField.cpp", B + "PdfAnnotation.cpp", B + "PdfCatalog.cpp"],
  [("const member functions", "public headers")],
  ["modified state of objects and content of a save after read-only calls"])

p("C22", "I/O failures and short reads are never mistaken for success",
  "Every failed or short read, write, seek, open or close of the underlying file or stream is detected where it happens and reported as an error, or as an explicit end-of-input result which the caller examines. Data that could not be read is never used, and data that could not be written never counts as saved.",
  ["fault_sequences", "inputs"], "every I/O operation failing or falling short at any point",
  "Tests use files and buffers on which I/O does not fail, apart from plain truncation.",
  [B + "PdfStreamDevice.cpp", B + "PdfInputStream.cpp", B + "PdfOutputStream.cpp", B + "PdfInputDevice.cpp", Pv + "PdfDeclarationsPrivate.cpp", B + "PdfParser.cpp", B + "PdfXRefStreamParserObject.cpp"],
  [("stream state tested after each operation", B + "PdfStreamDevice.cpp"), ("boolean/size results of reads", B + "PdfInputStream.cpp")],
  ["PdfError on failing devices"])

p("C23", "Fixed-size buffers are never overrun",
  "Every copy, fill, read or indexed store into a buffer of fixed size stays within that buffer, and every fixed-length copy out of document data (strings, keys, streams) happens only after the length of that data was checked. Malformed lengths lead to an error or are clamped, never to memory outside the buffer being read or written.",
  ["inputs"], "every length and content of document-supplied data at each fixed-size buffer",
  "Overruns need specific malformed lengths; the tests use well-formed ones and no bounds checker.",
  [B + "PdfEncrypt.cpp", B + "PdfParser.cpp", B + "PdfXRefStreamParserObject.cpp", Pv + "PdfFiltersPrivate.cpp", B + "PdfImage.cpp", B + "PdfFontTrueTypeSubset.cpp", Pv + "PdfDeclarationsPrivate.cpp"],
  [("length checks before memcpy", B + "PdfEncrypt.cpp"), ("buffer-size constants", "see files")],
  ["address-sanitizer cleanliness"])

p("C24", "Orderings used for sorting and lookup are consistent",
  "Every ordering used to sort or look up objects, references, names, character codes, colors, cross-reference entries or differences is a strict weak ordering - irreflexive, asymmetric and transitive - and, for the types used as keys, leaves two values unordered exactly when they are equal. Objects, references, free numbers and cross-reference entries are ordered by ascending object number, differences by ascending code. A comparison of a key with an element agrees with the comparison of elements; tables and sequences searched by bisection are sorted by the very ordering used for the search and stay so when elements are added; search trees are filled and searched by the same comparison. Values that compare equal have equal hashes.",
  ["inputs"], "every pair and triple of compared values; every entry of every searched table",
  "A wrong tie-break or an unsorted table entry affects only particular combinations of values.",
  [B + "PdfReference.cpp", B + "PdfObject.cpp", B + "PdfIndirectObjectList.cpp", B + "PdfName.cpp", B + "PdfString.cpp", B + "PdfXRef.cpp", B + "PdfDifferenceEncoding.cpp", B + "PdfEncodingCommon.cpp", B + "PdfCharCodeMap.cpp"],
  [("operator< and comparator functors", "see files")],
  ["lookup results, order of written objects"])

p("C25", "Nothing is used after it was moved away or its storage was released",
  "Within each function: an object handed over by std::move to something that takes it (an rvalue parameter or a move constructor) is not read again, on any path or elsewhere in the same call, before it gets a new value; an iterator, pointer, reference or view taken from the elements of a standard container or of a unique_ptr is not used after an operation - written in the function itself or performed by a method or function it calls - that invalidates it; a returned reference, pointer, iterator or view does not refer to a local variable or a temporary, and none that is kept in a variable refers to a temporary that is destroyed at the end of the statement or to a variable whose scope has ended; and a local pointer is not used after it was deleted. Not covered: references that are kept in objects or handed between functions, storage shared through shared_ptr, and containers that are reached under two different names.",
  ["histories", "inputs"], "every path through every function that moves, views or iterates",
  "Reads of released memory usually return the old bytes in a test run.",
  [B + "PdfObject.cpp", B + "PdfVariant.cpp", B + "PdfIndirectObjectList.cpp", B + "PdfParser.cpp", B + "PdfAcroForm.cpp", B + "PdfAnnotationCollection.cpp", B + "PdfCharCodeMap.cpp", B + "PdfPage_TextExtraction.cpp"],
  [("move semantics, ownership by unique_ptr, views taken of owned storage only", "see files")],
  ["address-sanitizer cleanliness, results"])

p("C26", "Text passed as a view is never assumed to be zero-terminated",
  "Every public function accepting text as a view with an explicit length uses exactly that many characters: it never hands the bare character pointer to something that looks for a terminating zero. File names, passwords, keys, names and dates given as a part of a longer text therefore behave as the same text given on its own.",
  ["inputs"], "every view, in particular views that are part of a longer text, at every API taking one",
  "The tests pass string literals, which are zero-terminated.",
  [B + "PdfDate.cpp", Pv + "PdfDeclarationsPrivate.cpp", B + "PdfEncrypt.cpp", B + "PdfImage.cpp", B + "PdfStreamDevice.cpp", Pv + "XmlUtils.cpp", Pv + "XMPUtils.cpp", B + "PdfFontConfigWrapper.cpp"],
  [("explicit lengths, conversion to an owning string before C APIs", "see files")],
  ["results for views that are not zero-terminated"])

p("C27", "Numbers from the document are range-checked before they size or index",
  "An integer that comes from the document is compared against its valid range before it is used as a divisor, an array index, a count, a buffer size or is narrowed to a smaller type: zero, negative and huge values lead to an error or a documented default, never to a crash, a wrapped-around size or an access outside the array.",
  ["inputs"], "every integer value at every place of a document",
  "Each such number has 2^64 values and there are many places; the tests contain ordinary values.",
  [Pv + "PdfFiltersPrivate.cpp", B + "PdfXRefStreamParserObject.cpp", B + "PdfParser.cpp", B + "PdfEncrypt.cpp", B + "PdfObjectStreamParser.cpp", B + "PdfPageCollection.cpp", B + "PdfFontMetricsObject.cpp"],
  [("explicit comparisons after GetNumber", "see files")],
  ["PdfError on out-of-range numbers"])

p("C28", "Saving and reloading a document preserves every object",
  "For every document, saving it in any mode and loading the result yields the same objects with the same values and stream contents.",
  ["inputs", "configurations"], "every document, every save mode",
  "The space of documents is unbounded.",
  [B + "PdfWriter.cpp", B + "PdfParser.cpp", B + "PdfTokenizer.cpp"], [("writer and tokenizer agree on the syntax", "see files")])

p("C29", "Decoding undoes encoding for every filter",
  "For every byte sequence and every filter chain the library can encode with, decoding what was encoded returns the original bytes.",
  ["inputs"], "every byte sequence, every filter chain, every split into blocks",
  "Unbounded inputs.", [Pv + "PdfFiltersPrivate.cpp", B + "PdfFilter.cpp"], [("encode/decode implementations", Pv + "PdfFiltersPrivate.cpp")])

p("C30", "The page tree always matches the list of pages",
  "After any sequence of page insertions, deletions and moves, page counts in the tree equal the number of reachable pages and page i of the collection is the i-th leaf.",
  ["histories"], "every sequence of page operations",
  "Unbounded histories.", [B + "PdfPageCollection.cpp", B + "PdfPageTreeCache.cpp"], [("count maintenance", B + "PdfPageCollection.cpp")])

p("C31", "Object numbers are unique and free ones are reused only once",
  "After any sequence of creating, deleting and importing objects no two live objects share a number and a number is handed out again only after its object was deleted.",
  ["histories"], "every sequence of object creation, removal, replacement and import",
  "Unbounded histories.", [B + "PdfIndirectObjectList.cpp"], [("free list and object count", B + "PdfIndirectObjectList.cpp")])

p("C32", "Passwords open exactly the documents they should",
  "A document encrypted with given user and owner passwords opens with either of them and with no other, in every supported algorithm.",
  ["inputs", "configurations"], "every pair of passwords, every algorithm", "Cryptographic equality over all inputs.",
  [B + "PdfEncrypt.cpp"], [("key derivation and authentication", B + "PdfEncrypt.cpp")])

p("C33", "Extracted text equals the text shown on the page",
  "For every page, text extraction returns the shown text in reading order with correct positions.",
  ["inputs"], "every page content", "Numeric geometry over unbounded inputs.",
  [B + "PdfPage_TextExtraction.cpp"], [("text state tracking", B + "PdfPage_TextExtraction.cpp")])

p("C34", "Loading terminates in time proportional to the file",
  "Loading any file terminates, with time and memory bounded by a polynomial of its size.",
  ["inputs"], "every input file", "Unbounded inputs; resource consumption.",
  [B + "PdfParser.cpp", B + "PdfTokenizer.cpp"], [("loops over input", "see files")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
print(len(out))
